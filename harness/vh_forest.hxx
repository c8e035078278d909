/* Random coarse meshes and observation of forests. */
#ifndef VH_FOREST_HXX
#define VH_FOREST_HXX
#include <array>
#include "vh.hxx"
#include <t8_cmesh/t8_cmesh.h>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_ghost.h>
#include <t8_forest/t8_forest_partition.h>
#include <t8_forest/t8_forest_balance.h>

static inline uint64_t
vh_mix (uint64_t z)
{
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t
vh_hash (uint64_t seed, long g, const Path &p)
{
  uint64_t h = vh_mix (seed + 0x9E3779B97F4A7C15ull * (uint64_t) (g + 1));
  for (int k : p) h = vh_mix (h * 31 + (uint64_t) k + 1);
  return vh_mix (h + p.size ());
}

/* a group of processes that runs histories of its own */
struct Group
{
  MPI_Comm comm = MPI_COMM_NULL;
  int rank = 0, size = 1, id = 0, num = 1;
  /* the strings of all processes as "[r0,r1,...]" (on rank 0) */
  std::string
  gather (const std::string &s) const
  {
    std::vector<int> len (size), off (size);
    int n = (int) s.size ();
    MPI_Gather (&n, 1, MPI_INT, len.data (), 1, MPI_INT, 0, comm);
    int tot = 0;
    if (rank == 0)
      for (int i = 0; i < size; i++) {
        off[i] = tot;
        tot += len[i];
      }
    std::vector<char> buf (tot + 1);
    MPI_Gatherv (s.data (), n, MPI_CHAR, buf.data (), len.data (), off.data (), MPI_CHAR, 0, comm);
    if (rank != 0) return "[]";
    std::string r = "[";
    for (int i = 0; i < size; i++) {
      if (i) r += ',';
      r.append (buf.data () + off[i], (size_t) len[i]);
    }
    return r + "]";
  }
  long
  sum (long v) const
  {
    long r = 0;
    MPI_Allreduce (&v, &r, 1, MPI_LONG, MPI_SUM, comm);
    return r;
  }
};

/* VH_GROUPS="1,2,3": sizes of the groups the processes are split into */
static inline Group
vh_groups ()
{
  int wr, ws;
  MPI_Comm_rank (MPI_COMM_WORLD, &wr);
  MPI_Comm_size (MPI_COMM_WORLD, &ws);
  Group g;
  std::string s = vh_env ("VH_GROUPS", "");
  std::vector<int> sz;
  if (s.empty ())
    sz.push_back (ws);
  else {
    size_t p = 0;
    while (p < s.size ()) {
      sz.push_back (atoi (s.c_str () + p));
      p = s.find (',', p);
      if (p == std::string::npos) break;
      p++;
    }
  }
  int c = 0, col = -1;
  for (size_t i = 0; i < sz.size (); i++) {
    if (wr >= c && wr < c + sz[i]) col = (int) i;
    c += sz[i];
  }
  if (col < 0 || c != ws) {
    fprintf (stderr, "VH_GROUPS does not match the number of processes\n");
    MPI_Abort (MPI_COMM_WORLD, 99);
  }
  MPI_Comm_split (MPI_COMM_WORLD, col, wr, &g.comm);
  MPI_Comm_rank (g.comm, &g.rank);
  MPI_Comm_size (g.comm, &g.size);
  g.id = col;
  g.num = (int) sz.size ();
  return g;
}
/* group g wrote OUT.<g>: concatenate to OUT */
static inline void
vh_merge (const Group &g, const char *out)
{
  MPI_Barrier (MPI_COMM_WORLD);
  int wr;
  MPI_Comm_rank (MPI_COMM_WORLD, &wr);
  if (wr == 0) {
    FILE *o = fopen (out, "w");
    for (int i = 0; i < g.num; i++) {
      std::string n = std::string (out) + "." + std::to_string (i);
      FILE *f = fopen (n.c_str (), "r");
      if (!f) continue;
      char b[65536];
      size_t k;
      while ((k = fread (b, 1, sizeof b, f)) > 0) fwrite (b, 1, k, o);
      fclose (f);
      remove (n.c_str ());
    }
    fclose (o);
  }
  MPI_Barrier (MPI_COMM_WORLD);
}

struct Mesh
{
  int dim;
  std::vector<int> cls;
  std::vector<std::array<int, 5>> join; /* g1 f1 g2 f2 o */
  std::string
  json () const
  {
    J j;
    j.open ('{').key ("cls").arr (cls).key ("join").open ('[');
    for (auto &x : join) j.arr (x);
    j.close (']').close ('}');
    return j.t;
  }
};

static inline int
vh_face_class (int c, int f)
{
  return t8_eclass_face_types[c][f];
}

/* trees of one dimension, random joins of random faces; kind < 0: any classes, otherwise only this class */
static inline Mesh
vh_random_mesh (Rng &r, int dim, int only, int maxtrees)
{
  static const std::vector<int> byDim[4] = { { 0 }, { 1 }, { 2, 3 }, { 4, 5, 6, 7 } };
  Mesh m;
  m.dim = only >= 0 ? vh_dim[only] : dim;
  int n = r.range (1, maxtrees);
  for (int i = 0; i < n; i++) m.cls.push_back (only >= 0 ? only : byDim[m.dim][r.below ((int) byDim[m.dim].size ())]);
  std::vector<std::pair<int, int>> open;
  for (int i = 0; i < n; i++)
    for (int f = 0; f < t8_eclass_num_faces[m.cls[i]]; f++) open.push_back ({ i, f });
  /* shuffle, then pair up compatible faces */
  for (int i = (int) open.size () - 1; i > 0; i--) std::swap (open[i], open[r.below (i + 1)]);
  int density = r.range (30, 100);
  std::vector<char> used (open.size (), 0);
  for (size_t a = 0; a < open.size (); a++) {
    if (used[a] || r.below (100) >= density) continue;
    for (size_t b = a + 1; b < open.size (); b++) {
      if (used[b]) continue;
      int fa = vh_face_class (m.cls[open[a].first], open[a].second);
      int fb = vh_face_class (m.cls[open[b].first], open[b].second);
      if (fa != fb) continue;
      if (open[a].first == open[b].first && r.below (4)) continue; /* self joins are rarer */
      used[a] = used[b] = 1;
      int nv = t8_eclass_num_vertices[fa];
      m.join.push_back ({ open[a].first, open[a].second, open[b].first, open[b].second, r.below (nv) });
      break;
    }
  }
  return m;
}

static inline t8_cmesh_t
vh_cmesh (const Mesh &m, MPI_Comm comm)
{
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  for (size_t i = 0; i < m.cls.size (); i++) t8_cmesh_set_tree_class (c, (t8_gloidx_t) i, (t8_eclass_t) m.cls[i]);
  for (auto &j : m.join) t8_cmesh_set_join (c, j[0], j[2], j[1], j[3], j[4]);
  if (m.dim == 0) t8_cmesh_set_dimension (c, 0);
  t8_cmesh_commit (c, comm);
  return c;
}

static inline Path
vh_path (const t8_scheme *s, t8_eclass_t c, const t8_element_t *e)
{
  Path p;
  int l = s->element_get_level (c, e);
  if (l < 0 || l > 40) return Path { -9 };
  for (int k = 1; k <= l; k++) p.push_back (s->element_get_ancestor_id (c, e, k));
  return p;
}
static inline void
vh_leaf (J &j, long g, const Path &p)
{
  j.open ('[').num (g).arr (p).close (']');
}

/* what this process sees of its part of the forest */
static inline std::string
vh_forest_obs (t8_forest_t f)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_locidx_t nt = t8_forest_get_num_local_trees (f);
  int ok = t8_forest_is_committed (f) ? 1 : 0;
  J el, tr;
  el.open ('[');
  tr.open ('[');
  t8_locidx_t count = 0;
  for (t8_locidx_t t = 0; t < nt; t++) {
    t8_eclass_t c = t8_forest_get_tree_class (f, t);
    t8_gloidx_t g = t8_forest_global_tree_id (f, t);
    t8_locidx_t n = t8_forest_get_tree_num_leaf_elements (f, t);
    t8_locidx_t off = t8_forest_get_tree_element_offset (f, t);
    tr.open ('[').num (g).num ((int) c).num (off).num (n).close (']');
    if (t8_forest_get_local_id (f, g) != t) ok = 0;
    if (t8_forest_get_local_or_ghost_id (f, g) != t) ok = 0;
    if (t8_forest_get_eclass (f, t) != c) ok = 0;
    if (!t8_forest_tree_is_local (f, t)) ok = 0;
    if ((t8_locidx_t) t8_element_array_get_count (t8_forest_tree_get_leaf_elements (f, t)) != n) ok = 0;
    if (t8_forest_cmesh_ltreeid_to_ltreeid (f, t8_forest_ltreeid_to_cmesh_ltreeid (f, t)) != t) ok = 0;
    if (t8_forest_get_first_local_tree_id (f) + t != g) ok = 0;
    for (t8_locidx_t i = 0; i < n; i++) {
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (f, t, i);
      t8_locidx_t lt = -1;
      if (t8_forest_get_leaf_element (f, count, &lt) != e || lt != t) ok = 0;
      vh_leaf (el, g, vh_path (s, c, e));
      count++;
    }
  }
  if (nt > 0) {
    t8_gloidx_t f0 = t8_forest_get_first_local_tree_id (f);
    if (f0 > 0 && t8_forest_get_local_id (f, f0 - 1) >= 0) ok = 0;
    if (f0 + nt < t8_forest_get_num_global_trees (f) && t8_forest_get_local_id (f, f0 + nt) >= 0) ok = 0;
  }
  el.close (']');
  tr.close (']');
  J j;
  j.open ('{').key ("el").raw (el.t).kn ("nl", t8_forest_get_local_num_leaf_elements (f));
  j.kn ("ng", t8_forest_get_global_num_leaf_elements (f)).kn ("fe", t8_forest_get_first_local_leaf_element_id (f));
  j.key ("tr").raw (tr.t).kn ("gt", t8_forest_get_num_global_trees (f)).kn ("ok", ok).close ('}');
  return j.t;
}
#endif
