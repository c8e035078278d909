/* Coarse meshes: construction, partition, copy, broadcast, queries; tables of tree offsets.
 * usage: h_cmesh MODES OUT     (VH_GROUPS, VH_N, VERIF_SEED) */
#include "vh_forest.hxx"
#include <set>
#include <map>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>
#include <t8_data/t8_shmem.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>

static std::string MODES;
static int
has (char c)
{
  return MODES.find (c) != std::string::npos;
}
typedef std::vector<t8_gloidx_t> Table;

/* ------------------------------------------------------------- offsets (one process) */
static void
all_tables (int P, int n, int p, Table &t, int next, int lastowned, std::vector<Table> &out)
{ /* next: the first tree nobody has yet; lastowned: whether tree next-1 exists and can be shared */
  if (p == P) {
    if (next == n) {
      t[P] = n;
      out.push_back (t);
    }
    return;
  }
  t[p] = next;
  for (int k = next; k <= n; k++) all_tables (P, n, p + 1, t, k, 1, out); /* not shared; empty if k == next */
  if (next > 0) {
    t[p] = -(next - 1) - 1;
    for (int k = next; k <= n; k++) all_tables (P, n, p + 1, t, k, 1, out); /* shares tree next-1, then up to k-1 */
  }
}
static Table
random_table (Rng &r, int P, int n, int share = 1)
{
  Table t (P + 1);
  int next = 0;
  int big = r.below (3);
  for (int p = 0; p < P; p++) {
    int sh = share && next > 0 && r.below (3) == 0;
    t[p] = sh ? -(next - 1) - 1 : next;
    if (p == P - 1) {
      next = n;
      break;
    }
    int want = r.below (4) == 0 ? 0 : r.below (big == 0 ? n + 1 : big == 1 ? 3 : 2 * n / P + 2);
    next = std::min (n, next + want);
  }
  t[P] = n;
  return t;
}
static void
offset_queries (J &j, const Table &t)
{
  int P = (int) t.size () - 1;
  t8_gloidx_t n = t[P];
  const t8_gloidx_t *o = t.data ();
  j.open ('{').key ("op").str ("tab").key ("t").arr (t).key ("p").open ('[');
  for (int p = 0; p < P; p++) {
    j.open ('[').num (t8_offset_first (p, o)).num (t8_offset_last (p, o)).num (t8_offset_num_trees (p, o));
    j.num (t8_offset_empty (p, o) ? 1 : 0).num (t8_offset_next_nonempty_rank (p, P, o));
    j.num (t8_offset_first_tree_to_entry (t8_offset_first (p, o), o[p] < 0)).close (']');
  }
  j.close (']').key ("g").open ('[');
  for (t8_gloidx_t g = 0; g < n; g++) {
    j.open ('{');
    j.key ("in").open ('[');
    for (int p = 0; p < P; p++) j.num (t8_offset_in_range (g, p, o) ? 1 : 0);
    j.close (']');
    int so = -1;
    int any = t8_offset_any_owner_of_tree (P, g, o);
    int fo = t8_offset_first_owner_of_tree (P, g, o, &so);
    int so2 = -1;
    int lo = t8_offset_last_owner_of_tree (P, g, o, &so2);
    j.kn ("any", any).kn ("fo", fo).kn ("lo", lo).kn ("so", so).kn ("so2", so2);
    j.key ("ex").open ('[');
    for (int p = 0; p < P; p++) j.num (t8_offset_any_owner_of_tree_ext (P, p, g, o));
    j.close (']');
    j.key ("nx").open ('[');
    for (int p = 0; p < P; p++)
      if (t8_offset_in_range (g, p, o)) {
        int s1 = p, s2 = p;
        j.open ('[').num (p).num (t8_offset_next_owner_of_tree (P, g, o, p)).num (t8_offset_prev_owner_of_tree (P, g, o, p));
        j.num (t8_offset_first_owner_of_tree (P, g, o, &s1)).num (t8_offset_last_owner_of_tree (P, g, o, &s2)).close (']');
      }
    j.close (']');
    sc_array_t a;
    sc_array_init (&a, sizeof (int));
    t8_offset_all_owners_of_tree (P, g, o, &a);
    j.key ("all").open ('[');
    for (size_t k = 0; k < a.elem_count; k++) j.num (*(int *) sc_array_index (&a, k));
    j.close (']');
    sc_array_reset (&a);
    j.close ('}');
  }
  j.close (']').close ('}');
}
static void
offset_pair (J &j, const Table &s, const Table &t, Rng &r)
{
  int P = (int) t.size () - 1;
  t8_gloidx_t n = t[P];
  j.open ('{').key ("op").str ("pair").key ("s").arr (s).key ("t").arr (t).key ("to").open ('[');
  for (int a = 0; a < P; a++) {
    j.open ('[');
    for (int b = 0; b < P; b++) j.num (t8_offset_sendsto (a, b, s.data (), t.data ()) ? 1 : 0);
    j.close (']');
  }
  j.close (']').key ("tree").open ('['); /* for all a and b the trees */
  for (int a = 0; a < P; a++) {
    j.open ('[');
    for (int b = 0; b < P; b++) {
      j.open ('[');
      for (t8_gloidx_t g = 0; g < n; g++)
        if (t8_offset_sendstree (a, b, g, s.data (), t.data ())) j.num (g);
      j.close (']');
    }
    j.close (']');
  }
  j.close (']').key ("no").open ('[');
  for (int a = 0; a < P; a++) j.num (t8_offset_nosend (a, P, s.data (), t.data ()) ? 1 : 0);
  j.close (']').key ("rs").open ('[');
  for (int k = 0; k < 3; k++) {
    int a = r.below (P), b = r.range (a, P - 1), c = r.below (P);
    j.open ('[').num (a).num (b).num (c).num (t8_offset_range_send (a, b, c, s.data (), t.data ())).close (']');
  }
  j.close (']').close ('}');
}
static void
run_offsets (const char *out, int N, uint64_t seed)
{
  FILE *f = fopen (out, "w");
  Rng r (seed * 77 + 5);
  int maxP = (int) vh_envi ("VH_MAXP", 3), maxN = (int) vh_envi ("VH_MAXT", 3);
  for (int P = 1; P <= maxP; P++)
    for (int n = 1; n <= maxN; n++) {
      std::vector<Table> T;
      Table t (P + 1);
      all_tables (P, n, 0, t, 0, 0, T);
      J h;
      h.open ('{').kn ("P", P).kn ("n", n).key ("ev").open ('[');
      h.open ('{').key ("op").str ("count").kn ("c", (long long) T.size ()).close ('}');
      for (auto &x : T) offset_queries (h, x);
      h.close (']').close ('}');
      fprintf (f, "%s\n", h.t.c_str ());
      for (auto &x : T) {
        J h2;
        h2.open ('{').kn ("P", P).kn ("n", n).key ("ev").open ('[');
        for (auto &y : T) offset_pair (h2, x, y, r);
        h2.close (']').close ('}');
        fprintf (f, "%s\n", h2.t.c_str ());
      }
    }
  for (int k = 0; k < N; k++) {
    int P = r.range (2, 9), n = r.range (1, 14);
    J h;
    h.open ('{').kn ("P", P).kn ("n", n).key ("ev").open ('[');
    Table s = random_table (r, P, n);
    for (int q = 0; q < 6; q++) {
      Table t = random_table (r, P, n);
      offset_queries (h, t);
      offset_pair (h, s, t, r);
      s = t;
    }
    h.close (']').close ('}');
    fprintf (f, "%s\n", h.t.c_str ());
  }
  fclose (f);
}

/* ------------------------------------------------------------- coarse meshes */
struct Attr
{
  long g;
  int pkg, key;
  std::vector<unsigned char> data;
  int kind; /* 0 bytes, 1 string, 2 gloidx array */
};
static int PKG[4] = { -1, -1, -1, -1 }; /* own packages, the last one is t8's own */
struct Input
{
  Mesh m;
  std::vector<Attr> at;
  std::vector<int> order; /* in which order trees, joins and attributes are passed */
  int ngeo = 0;
  std::vector<int> geo;   /* per tree */
  int verts = 0;
};
static Input
random_input (Rng &r, int maxtrees)
{
  Input I;
  const char *oc = vh_env ("VH_CLASSES", "");
  int only = *oc ? oc[r.below ((int) strlen (oc))] - '0' : (r.below (3) == 0 ? r.below (8) : -1);
  I.m = vh_random_mesh (r, r.range (1, 3), only, maxtrees);
  int n = (int) I.m.cls.size ();
  int density = r.below (4) == 0 ? 0 : r.range (10, 100); /* share of trees with attributes */
  for (int g = 0; g < n; g++) {
    if (r.below (100) >= density) continue;
    int k = r.below (12) == 0 ? r.range (5, 15) : r.range (1, 4);
    for (int i = 0; i < k; i++) {
      Attr a;
      a.g = g;
      a.pkg = r.below (3);
      a.key = r.below (8) == 0 ? r.range (0, 1000000000) : r.range (0, 5);
      bool dup = false;
      for (auto &b : I.at)
        if (b.g == g && b.pkg == a.pkg && b.key == a.key) dup = true;
      if (dup && !has ('D')) continue;
      a.kind = r.below (3);
      if (a.kind == 0) {
        int len = r.range (1, r.below (40) == 0 ? 1500 : r.below (5) == 0 ? 70 : 9);
        for (int q = 0; q < len; q++) a.data.push_back ((unsigned char) r.below (256));
      }
      else if (a.kind == 1) {
        int len = r.range (0, 12);
        for (int q = 0; q < len; q++) a.data.push_back ((unsigned char) ('a' + r.below (26)));
        a.data.push_back (0);
      }
      else {
        int len = r.range (1, 4);
        for (int q = 0; q < len; q++) {
          t8_gloidx_t v = (t8_gloidx_t) r.next ();
          for (int z = 0; z < 8; z++) a.data.push_back (((unsigned char *) &v)[z]);
        }
      }
      I.at.push_back (a);
    }
  }
  I.ngeo = has ('G') ? r.below (3) : 0;
  for (int g = 0; g < n; g++) I.geo.push_back (I.ngeo == 0 ? -1 : r.below (I.ngeo));
  I.verts = has ('G') && r.below (2);
  return I;
}
static std::vector<double>
tree_verts (const Input &I, int g)
{
  std::vector<double> v;
  int n = t8_eclass_num_vertices[I.m.cls[g]];
  for (int k = 0; k < 3 * n; k++) v.push_back ((double) ((g * 31 + k * 7) % 101 - 50) / 4);
  return v;
}
static std::string
header (const Input &I, int P)
{
  J j;
  j.kn ("P", P).kn ("dim", I.m.dim).key ("mesh").raw (I.m.json ()).key ("attr").open ('[');
  for (auto &a : I.at) j.open ('[').num (a.g).num (a.pkg).num (a.key).arr (a.data).close (']');
  j.close (']').key ("geo").arr (I.geo).kn ("verts", I.verts);
  j.key ("vx").open ('[');
  for (size_t g = 0; g < I.m.cls.size (); g++) {
    j.open ('[');
    if (I.verts)
      for (double d : tree_verts (I, (int) g)) j.num ((long long) (d * 4));
    j.close (']');
  }
  j.close (']');
  return j.t;
}
/* pass the input; want(g): whether this process tells about tree g at all; order shuffled with r (the same on all or not) */
template <class W>
static void
describe (t8_cmesh_t c, const Input &I, Rng &r, W want)
{
  int n = (int) I.m.cls.size ();
  std::vector<std::array<int, 2>> todo;
  for (int g = 0; g < n; g++) todo.push_back ({ 0, g });
  for (size_t k = 0; k < I.m.join.size (); k++) todo.push_back ({ 1, (int) k });
  if (!has ('D'))
    for (size_t k = 0; k < I.at.size (); k++) todo.push_back ({ 2, (int) k });
  if (I.verts)
    for (int g = 0; g < n; g++) todo.push_back ({ 3, g });
  int how = r.below (3); /* sorted, or shuffled */
  if (how)
    for (int i = (int) todo.size () - 1; i > 0; i--) std::swap (todo[i], todo[r.below (i + 1)]);
  if (has ('D')) /* repeated attributes: the order matters */
    for (size_t k = 0; k < I.at.size (); k++) todo.push_back ({ 2, (int) k });
  const t8_geometry *geo[2] = { nullptr, nullptr };
  if (I.ngeo > 0) geo[0] = t8_cmesh_register_geometry<t8_geometry_linear> (c);
  if (I.ngeo > 1) geo[1] = t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (c);
  if (I.ngeo > 0)
    for (int g = 0; g < n; g++)
      if (want (g) && (I.ngeo > 1 || g % 2)) t8_cmesh_set_tree_geometry (c, g, geo[I.geo[g]]);
  for (auto &t : todo) {
    if (t[0] == 0) {
      if (want (t[1])) t8_cmesh_set_tree_class (c, t[1], (t8_eclass_t) I.m.cls[t[1]]);
    }
    else if (t[0] == 1) {
      auto &j = I.m.join[t[1]];
      if (want (j[0]) || want (j[2])) {
        if (r.below (2))
          t8_cmesh_set_join (c, j[0], j[2], j[1], j[3], j[4]);
        else
          t8_cmesh_set_join (c, j[2], j[0], j[3], j[1], j[4]);
      }
    }
    else if (t[0] == 2) {
      auto &a = I.at[t[1]];
      if (!want (a.g)) continue;
      std::vector<unsigned char> tmp = a.data;
      int persist = r.below (2);
      void *d = persist ? (void *) a.data.data () : (void *) tmp.data ();
      if (a.kind == 0)
        t8_cmesh_set_attribute (c, a.g, PKG[a.pkg], a.key, d, a.data.size (), persist);
      else if (a.kind == 1)
        t8_cmesh_set_attribute_string (c, a.g, PKG[a.pkg], a.key, (const char *) d);
      else
        t8_cmesh_set_attribute_gloidx_array (c, a.g, PKG[a.pkg], a.key, (const t8_gloidx_t *) d, a.data.size () / 8, persist);
      memset (tmp.data (), 0xEE, tmp.size ());
    }
    else if (want (t[1])) {
      std::vector<double> v = tree_verts (I, t[1]);
      t8_cmesh_set_tree_vertices (c, t[1], v.data (), (int) v.size () / 3);
    }
  }
}
static std::string
obs_tree (t8_cmesh_t c, const Input &I, t8_locidx_t lid, int ghost)
{
  J j;
  t8_gloidx_t g = t8_cmesh_get_global_id (c, lid);
  t8_locidx_t nl = t8_cmesh_get_num_local_trees (c);
  t8_eclass_t ec = ghost ? t8_cmesh_get_ghost_class (c, lid - nl) : t8_cmesh_get_tree_class (c, lid);
  j.open ('{').kn ("g", g).kn ("c", (int) ec).key ("f").open ('[');
  int nf = (int) ec >= 0 && (int) ec < T8_ECLASS_COUNT ? t8_eclass_num_faces[ec] : 0;
  for (int f = 0; f < nf; f++) {
    int df = -5, o = -5;
    t8_locidx_t nb = t8_cmesh_get_face_neighbor (c, lid, f, &df, &o);
    t8_gloidx_t ng = nb < 0 ? -1 : t8_cmesh_get_global_id (c, nb);
    int ne = (int) t8_cmesh_get_tree_face_neighbor_eclass (c, lid, f);
    j.open ('[').num (t8_cmesh_tree_face_is_boundary (c, lid, f) ? 1 : 0).num (nb < 0 ? -1 : ng);
    j.num (nb < 0 ? -1 : df).num (nb < 0 ? -1 : o).num (ne == (int) T8_ECLASS_INVALID ? -1 : ne).close (']');
  }
  j.close (']').key ("a").open ('[');
  std::set<int> keys;
  for (int k = -1; k <= 6; k++) keys.insert (k);
  for (auto &a : I.at) keys.insert (a.key);
  for (int p = 0; p < 3; p++)
    for (int k : keys) {
      const unsigned char *d = (const unsigned char *) t8_cmesh_get_attribute (c, PKG[p], k, lid);
      if (!d) continue;
      size_t len = 0;
      for (auto &a : I.at)
        if (a.g == g && a.pkg == p && a.key == k) len = a.data.size ();
      j.open ('[').num (p).num (k).open ('[');
      for (size_t q = 0; q < len; q++) j.num (d[q]);
      j.close (']').close (']');
    }
  j.close (']');
  if (!ghost) {
    int ge = -1;
    if (I.ngeo > 0) {
      const t8_geometry_c *gm = t8_cmesh_get_tree_geometry (c, g);
      ge = gm == nullptr ? -2 : dynamic_cast<const t8_geometry_linear *> (gm) ? 0 : dynamic_cast<const t8_geometry_linear_axis_aligned *> (gm) ? 1 : -3;
    }
    j.kn ("geo", ge).key ("v").open ('[');
    if (I.verts) {
      double *v = t8_cmesh_get_tree_vertices (c, lid);
      if (v)
        for (int k = 0; k < 3 * t8_eclass_num_vertices[ec]; k++) j.num (vh_scale (v[k], 2));
    }
    j.close (']');
  }
  j.close ('}');
  return j.t;
}
static std::string
obs (t8_cmesh_t c, const Input &I, const Group &G)
{
  J j;
  t8_locidx_t nl = t8_cmesh_get_num_local_trees (c), nh = t8_cmesh_get_num_ghosts (c);
  j.open ('{').kn ("part", t8_cmesh_is_partitioned (c) ? 1 : 0).kn ("dim", t8_cmesh_get_dimension (c));
  j.kn ("ng", t8_cmesh_get_num_trees (c)).kn ("nl", nl).kn ("nh", nh).kn ("first", t8_cmesh_get_first_treeid (c));
  j.kn ("com", t8_cmesh_is_committed (c) ? 1 : 0).kn ("emp", t8_cmesh_is_empty (c) ? 1 : 0);
  j.key ("tab").open ('[');
  t8_shmem_array_t tab = t8_cmesh_get_partition_table (c);
  if (tab)
    for (int p = 0; p <= G.size; p++) j.num (t8_shmem_array_get_gloidx (tab, p));
  j.close (']').key ("tr").open ('[');
  if (nl < 0 || nl > 1000) nl = 0;
  if (nh < 0 || nh > 1000) nh = 0;
  int ok = 1;
  for (t8_locidx_t t = 0; t < nl; t++) {
    j.raw (obs_tree (c, I, t, 0));
    if (!t8_cmesh_treeid_is_local_tree (c, t) || t8_cmesh_treeid_is_ghost (c, t)) ok = 0;
  }
  j.close (']').key ("gh").open ('[');
  for (t8_locidx_t t = nl; t < nl + nh; t++) {
    j.raw (obs_tree (c, I, t, 1));
    if (t8_cmesh_treeid_is_local_tree (c, t) || !t8_cmesh_treeid_is_ghost (c, t)) ok = 0;
    if (t8_cmesh_ltreeid_to_ghostid (c, t) != t - nl) ok = 0;
  }
  if (t8_cmesh_treeid_is_local_tree (c, nl + nh) || t8_cmesh_treeid_is_ghost (c, nl + nh) || t8_cmesh_treeid_is_local_tree (c, -1)
      || t8_cmesh_treeid_is_ghost (c, -1))
    ok = 0;
  j.close (']').key ("id").open ('[');
  for (size_t g = 0; g < I.m.cls.size (); g++) j.num (t8_cmesh_get_local_id (c, (t8_gloidx_t) g));
  j.close (']').kn ("ok", ok).close ('}');
  return j.t;
}
static t8_shmem_array_t
make_table (const Table &t, MPI_Comm comm)
{
  int P = (int) t.size () - 1;
  t8_shmem_init (comm);
  t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
  t8_shmem_array_t a = t8_cmesh_alloc_offsets (P, comm);
  if (t8_shmem_array_start_writing (a))
    for (int p = 0; p <= P; p++) t8_shmem_array_set_gloidx (a, p, t[p]);
  t8_shmem_array_end_writing (a);
  return a;
}
/* a new committed cmesh; how: 0 replicated, 1 ranges, 2 ranges and only what the process needs, 3 offsets, 4 broadcast */
static t8_cmesh_t
make_new (const Input &I, const Table &t, int how, int root, Rng &shared, const Group &G)
{
  Rng own (shared.next () + (uint64_t) G.rank * 1000003u);
  int order = shared.below (2);
  Rng common (shared.next ());
  Rng &r = order ? common : own; /* processes may describe the mesh in different orders */
  t8_cmesh_t c = nullptr;
  auto all = [] (int) { return true; };
  if (how == 4) {
    if (G.rank == root) {
      t8_cmesh_init (&c);
      describe (c, I, r, all);
      t8_cmesh_set_dimension (c, I.m.dim);
    }
    c = t8_cmesh_bcast (c, root, G.comm);
    t8_cmesh_commit (c, G.comm);
    return c;
  }
  t8_cmesh_init (&c);
  if (how == 1 || how == 2) {
    const t8_gloidx_t *o = t.data ();
    t8_gloidx_t first = t8_offset_first (G.rank, o), last = t8_offset_last (G.rank, o);
    int empty = last < first;
    t8_gloidx_t arg = o[G.rank];
    if (empty && common.below (2)) { /* any pair with last < first says that the process is empty */
      arg = own.below ((int) I.m.cls.size () + 1);
      last = arg - 1 - own.below (3);
    }
    t8_cmesh_set_partition_range (c, 3, arg, last);
  }
  if (how == 3) {
    t8_cmesh_set_partition_offsets (c, make_table (t, G.comm));

  }
  if (how == 2) {
    const t8_gloidx_t *o = t.data ();
    auto local = [&] (int g) { return t8_offset_in_range (g, G.rank, o) != 0; };
    std::vector<char> need (I.m.cls.size (), 0);
    for (size_t g = 0; g < need.size (); g++) need[g] = local ((int) g);
    for (auto &j : I.m.join) {
      if (local (j[0])) need[j[2]] = 1;
      if (local (j[2])) need[j[0]] = 1;
    }
    describe (c, I, r, [&] (int g) { return need[g] != 0; });
    t8_cmesh_set_dimension (c, I.m.dim);
  }
  else
    describe (c, I, r, all);
  if (I.m.dim == 0 || r.below (2)) t8_cmesh_set_dimension (c, I.m.dim);
  t8_cmesh_commit (c, G.comm);
  return c;
}

/* change one thing */
static bool
mutate (Input &I, Rng &r)
{
  switch (r.below (6)) {
  case 3: { /* the same value with another key */
    if (I.at.empty ()) return false;
    auto &a = I.at[r.below ((int) I.at.size ())];
    int nk = r.range (0, 5), np = r.below (3);
    for (auto &b : I.at)
      if (b.g == a.g && b.pkg == np && b.key == nk) return false;
    a.key = nk;
    a.pkg = np;
    return true;
  }
  case 4: /* another geometry */
    if (I.ngeo < 2) return false;
    {
      int &g = I.geo[r.below ((int) I.geo.size ())];
      g = 1 - g;
    }
    return true;
  case 0: /* another value of an attribute */
    if (I.at.empty ()) return false;
    {
      auto &a = I.at[r.below ((int) I.at.size ())];
      if (a.kind == 1) return false;
      a.data[r.below ((int) a.data.size ())] ^= 1 + r.below (255);
    }
    return true;
  case 1: /* other connection */
    if (I.m.join.empty ()) return false;
    I.m.join.erase (I.m.join.begin () + r.below ((int) I.m.join.size ()));
    return true;
  case 2: { /* other orientation */
    if (I.m.join.empty ()) return false;
    auto &j = I.m.join[r.below ((int) I.m.join.size ())];
    int nv = t8_eclass_num_vertices[vh_face_class (I.m.cls[j[0]], j[1])];
    if (nv < 2) return false;
    j[4] = (j[4] + 1 + r.below (nv - 1)) % nv;
    return true;
  }
  default: { /* an attribute less */
    if (I.at.empty ()) return false;
    I.at.erase (I.at.begin () + r.below ((int) I.at.size ()));
    return true;
  }
  }
}

static std::string
history (const Group &G, uint64_t seed)
{
  Rng r (seed); /* the same on all processes */
  Input I = random_input (r, r.below (20) == 0 ? 24 : r.below (4) == 0 ? 3 : 9);
  int P = G.size, n = (int) I.m.cls.size ();
  J h;
  h.open ('{').raw (header (I, P)).key ("ev").open ('[');
  std::vector<int> hows;
  if (has ('N')) hows.push_back (0);
  if (has ('R')) {
    hows.push_back (1);
    hows.push_back (2);
  }
  if (has ('O')) hows.push_back (3);
  if (has ('B') && I.ngeo == 0) hows.push_back (4);
  if (hows.empty ()) hows.push_back (0);
  int how = hows[r.below ((int) hows.size ())];
  Table t = random_table (r, P, n);
  int root = r.below (P);
  static const char *hn[] = { "rep", "range", "range", "offs", "bcast" };
  if (vh_envi ("VH_VERBOSE", 0) && G.rank == 0) fprintf (stderr, "seed %llu how %d P %d n %d\n", (unsigned long long) seed, how, P, n);
  uint64_t s0 = r.next ();
  Rng rs (s0);
  t8_shmem_init (G.comm);
  long mem0 = (long) sc_memory_status (t8_get_package_id ());
  t8_cmesh_t c = make_new (I, t, how, root, rs, G);
  bool part = how >= 1 && how <= 3;
  std::string o = G.gather (obs (c, I, G));
  h.open ('{').key ("op").str ("new").key ("how").str (hn[how]).key ("t").arr (t).key ("o").raw (o).close ('}');
  int steps = r.range (1, 5);
  const t8_scheme *sch = nullptr;
  for (int k = 0; k < steps; k++) {
    std::string ops;
    for (char x : std::string ("PCUHMZQE"))
      if (has (x)) ops += x;
    if (ops.empty ()) break;
    char op = ops[r.below ((int) ops.size ())];
    if (vh_envi ("VH_VERBOSE", 0) && G.rank == 0) fprintf (stderr, "  op %c\n", op);
    if (op == 'P' || op == 'H' || op == 'Z' || op == 'M') { /* a new partition by offsets */
      t8_cmesh_t d;
      t8_shmem_array_t a;
      int proc = 0;
      if (op == 'M' && !part) continue;
      if (op == 'M') { /* half of the trees to the next process; defined for tables without shared trees */
        bool sh = false;
        for (auto x : t) sh |= x < 0;
        if (sh) continue;
      }
      t8_cmesh_init (&d);
      if (op == 'P') {
        t = random_table (r, P, n);
        a = make_table (t, G.comm);
      }
      else if (op == 'H') {
        proc = r.below (P);
        a = t8_cmesh_offset_concentrate (proc, G.comm, n);
      }
      else if (op == 'Z')
        a = t8_cmesh_offset_random (G.comm, n, proc = r.below (2), (unsigned) r.range (1, 1000000));
      else
        a = t8_cmesh_offset_half (c, G.comm);
      Table nt (P + 1);
      for (int p = 0; p <= P; p++) nt[p] = t8_shmem_array_get_gloidx (a, p);
      t = nt;
      t8_cmesh_set_derive (d, c);
      t8_cmesh_set_partition_offsets (d, a);
      t8_cmesh_commit (d, G.comm);
      c = d;
      part = true;
      o = G.gather (obs (c, I, G));
      h.open ('{').key ("op").str ("part").key ("kind").str (op == 'P' ? "tab" : op == 'H' ? "conc" : op == 'Z' ? "rand" : "half");
      h.kn ("proc", proc).key ("t").arr (t).key ("o").raw (o).close ('}');
    }
    else if (op == 'U') { /* uniform partition */
      t8_cmesh_t d;
      int l = r.below (4), alone = r.below (2);
      if (I.m.dim == 3) l = std::min (l, 2);
      sch = vh_scheme (alone && false);
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, c);
      t8_cmesh_set_partition_uniform (d, l, sch);
      t8_cmesh_commit (d, G.comm);
      c = d;
      part = true;
      t8_shmem_array_t tab = t8_cmesh_get_partition_table (c);
      for (int p = 0; p <= P; p++) t[p] = tab ? t8_shmem_array_get_gloidx (tab, p) : 0;
      o = G.gather (obs (c, I, G));
      h.open ('{').key ("op").str ("unif").kn ("l", l).key ("t").arr (t).key ("o").raw (o).close ('}');
    }
    else if (op == 'C') {
      t8_cmesh_t d;
      t8_cmesh_ref (c);
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, c);
      t8_cmesh_commit (d, G.comm);
      int eq = t8_cmesh_is_equal (c, d) ? 1 : 0;
      std::string e = G.gather (std::to_string (eq));
      t8_cmesh_destroy (&c);
      c = d;
      o = G.gather (obs (c, I, G));
      h.open ('{').key ("op").str ("copy").key ("eq").raw (e).key ("o").raw (o).close ('}');
    }
    else if (op == 'E') { /* comparison with a mesh from the same or another description */
      Input I2 = I;
      bool ch = r.below (2) && mutate (I2, r);
      t8_cmesh_t a, b;
      Rng q (r.next ());
      bool pt = r.below (2);
      a = make_new (I, t, pt ? 1 : 0, 0, q, G);
      Rng q2 (r.next ());
      bool same = r.below (2);
      b = make_new (I2, t, pt ? 1 : 0, 0, same ? q2 : q2, G);
      int eq = t8_cmesh_is_equal (a, b) ? 1 : 0;
      std::string e = G.gather (std::to_string (eq));
      t8_cmesh_destroy (&a);
      t8_cmesh_destroy (&b);
      h.open ('{').key ("op").str ("eq").kn ("pt", pt).key ("t").arr (t).key ("m2").raw (I2.m.json ()).key ("a2").open ('[');
      for (auto &x : I2.at) h.open ('[').num (x.g).num (x.pkg).num (x.key).arr (x.data).close (']');
      h.close (']').key ("g2").arr (I2.geo).key ("eq").raw (e).close ('}');
    }
    else if (op == 'Q') { /* bounds of a uniform refinement */
      int l = r.below (I.m.dim == 3 ? 3 : 4);
      sch = vh_scheme (0);
      t8_gloidx_t v[4] = { -9, -9, -9, -9 };
      int8_t sh = -9;
      t8_cmesh_uniform_bounds_for_irregular_refinement (c, l, sch, v, v + 1, v + 2, v + 3, &sh, G.comm);
      J j;
      j.open ('[').num (v[0]).num (v[1]).num (v[2]).num (v[3]).num (sh).close (']');
      bool one = true;
      for (int x : I.m.cls) one &= x != 7; /* pyramids are the only irregular class */
      std::string u = "[]";
      if (one) {
        t8_gloidx_t w[4] = { -9, -9, -9, -9 };
        int8_t s2 = -9;
        t8_cmesh_uniform_bounds_equal_element_count (c, l, sch, w, w + 1, w + 2, w + 3, &s2);
        J k2;
        k2.open ('[').num (w[0]).num (w[1]).num (w[2]).num (w[3]).num (s2).close (']');
        u = k2.t;
      }
      std::string b1 = G.gather (j.t), b2 = G.gather (u);
      t8_scheme *tmp = (t8_scheme *) sch;
      t8_scheme_unref (&tmp);
      h.open ('{').key ("op").str ("bounds").kn ("l", l).key ("b").raw (b1).key ("u").raw (b2).close ('}');
    }
  }
  t8_cmesh_destroy (&c);
  long mem = (long) sc_memory_status (t8_get_package_id ()) - mem0;
  h.open ('{').key ("op").str ("mem").key ("m").raw (G.gather (std::to_string (mem))).close ('}');
  h.close (']').close ('}');
  return h.t;
}

/* bounds of uniform refinements of long rows of trees and of very fine levels, as numbers of up to 19 digits */
static std::string
history_bounds (const Group &G, uint64_t seed)
{
  Rng r (seed);
  Input I;
  int dim = r.range (0, 3), P = G.size;
  static const std::vector<int> byDim[4] = { { 0 }, { 1 }, { 2, 3 }, { 4, 5, 6, 7 } };
  int n = r.below (3) == 0 ? r.range (1, 4) : r.below (2) ? r.range (1, 30) : r.range (20, 130);
  I.m.dim = dim;
  int only = r.below (3) ? -1 : byDim[dim][r.below ((int) byDim[dim].size ())];
  for (int i = 0; i < n; i++) I.m.cls.push_back (only >= 0 ? only : byDim[dim][r.below ((int) byDim[dim].size ())]);
  I.geo.assign (n, -1);
  int how = r.below (3) == 0 ? 0 : 1;
  Table t = random_table (r, P, n);
  uint64_t s0 = r.next ();
  Rng rs (s0);
  t8_shmem_init (G.comm);
  long mem0 = (long) sc_memory_status (t8_get_package_id ());
  t8_cmesh_t c = make_new (I, t, how, 0, rs, G);
  J h;
  h.open ('{').kn ("P", P).key ("cls").arr (I.m.cls).key ("t").arr (t).kn ("how", how).key ("ev").open ('[');
  t8_scheme *sch = (t8_scheme *) vh_scheme (0);
  auto big = [] (J &j, t8_gloidx_t v) {
    if (v < 0) v = 0;
    j.open ('[').num ((long) (v % 100000000)).num ((long) (v / 100000000 % 100000000)).num ((long) (v / 10000000000000000LL)).close (']');
  };
  for (int k = 0; k < 3; k++) {
    int top = 30;
    for (int x : I.m.cls) top = std::min (top, sch->get_maxlevel ((t8_eclass_t) x));
    if (dim == 0) top = std::min (top, 5);
    int l = r.below (2) ? r.below (3) : r.range (0, top);
    long double tot = 0;
    for (;; l--) { /* the number of elements has to fit */
      tot = 0;
      for (int x : I.m.cls) tot += ldexpl (x == 7 ? 2 : 1, dim * l);
      if (tot < 8.0e18L || l == 0) break;
    }
    if (vh_envi ("VH_VERBOSE", 0) && G.rank == 0) {
      J q;
      q.open ('[').kn ("l", l).key ("P").num (P).kn ("how", how).key ("t").arr (t).key ("c").arr (I.m.cls);
      fprintf (stderr, "%s\n", q.t.c_str ());
    }
    t8_gloidx_t v[4] = { -9, -9, -9, -9 };
    int8_t sh = -9;
    t8_cmesh_uniform_bounds_for_irregular_refinement (c, l, sch, v, v + 1, v + 2, v + 3, &sh, G.comm);
    auto put = [&] (const t8_gloidx_t *v, int sh) {
      J j;
      j.open ('[').num (v[0]);
      big (j, v[1]);
      j.num (v[2]);
      big (j, v[3]);
      j.num (sh).close (']');
      return j.t;
    };
    std::string b1 = G.gather (put (v, sh)), b2;
    bool one = true;
    for (int x : I.m.cls) one &= x != 7;
    std::string u = "[]";
    if (one) {
      t8_gloidx_t w[4] = { -9, -9, -9, -9 };
      int8_t s2 = -9;
      t8_cmesh_uniform_bounds_equal_element_count (c, l, sch, w, w + 1, w + 2, w + 3, &s2);
      u = put (w, s2);
    }
    b2 = G.gather (u);
    h.open ('{').key ("op").str ("bigb").kn ("l", l).key ("b").raw (b1).key ("u").raw (b2).close ('}');
  }
  t8_scheme_unref (&sch);
  t8_cmesh_destroy (&c);
  long mem = (long) sc_memory_status (t8_get_package_id ()) - mem0;
  h.open ('{').key ("op").str ("mem").key ("m").raw (G.gather (std::to_string (mem))).close ('}');
  h.close (']').close ('}');
  return h.t;
}

int
main (int argc, char **argv)
{
  vh_init (&argc, &argv);
  MODES = argv[1];
  uint64_t seed = (uint64_t) vh_envi ("VERIF_SEED", 1);
  int N = (int) vh_envi ("VH_N", 10);
  static const char *names[3] = { "verif0", "verif1", "verif2" };
  for (int p = 0; p < 3; p++) PKG[p] = sc_package_register (NULL, SC_LP_ERROR, names[p], "verif");
  if (MODES == "T") {
    run_offsets (argv[2], N, seed);
    vh_fini ();
    return 0;
  }
  Group G = vh_groups ();
  std::string on = std::string (argv[2]) + "." + std::to_string (G.id);
  FILE *f = G.rank == 0 ? fopen (on.c_str (), "w") : nullptr;
  long only = vh_envi ("VH_ONLY", -1);
  for (int k = 0; k < N; k++) {
    if (only >= 0 && k != only) continue;
    std::string s = (has ('K') ? history_bounds : history) (G, vh_mix (seed * 7919 + (uint64_t) k * 131 + (uint64_t) G.id * 1000003 + 17));
    if (f) {
      fprintf (f, "%s\n", s.c_str ());
      fflush (f);
    }
  }
  if (f) fclose (f);
  vh_merge (G, argv[2]);
  vh_fini ();
  return 0;
}
