/* Coarse meshes that are described by vertices: joins found from coordinates, msh files, vertex connectivity,
 * the meshes of the library's generators.
 * usage: h_glue MODES OUT     (VH_GROUPS, VH_N, VERIF_SEED)   MODES out of J F X V E */
#include "vh_forest.hxx"
#include <map>
#include <set>
#include <unistd.h>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_helpers.h>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <p4est.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.h>
#include <t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>

static std::string MODES, OUT;
typedef std::vector<int> VI;
static const int NV[8] = { 1, 2, 4, 3, 8, 4, 6, 5 };
static const std::vector<VI> FACES[8]
  = { {},
      { { 0 }, { 1 } },
      { { 0, 2 }, { 1, 3 }, { 0, 1 }, { 2, 3 } },
      { { 1, 2 }, { 0, 2 }, { 0, 1 } },
      { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 0, 1, 4, 5 }, { 2, 3, 6, 7 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } },
      { { 1, 2, 3 }, { 0, 2, 3 }, { 0, 1, 3 }, { 0, 1, 2 } },
      { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 0, 1, 2 }, { 3, 4, 5 } },
      { { 0, 2, 4 }, { 1, 3, 4 }, { 0, 1, 4 }, { 2, 3, 4 }, { 0, 1, 2, 3 } } };
static const double UNIT[8][8][3] = { { { 0, 0, 0 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0, 1 }, { 1, 1, 1 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 } },
                                      { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 1, 1, 1 } } };
/* corners that span the element at corner 0 */
static const int SPAN[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 2, 0 }, { 1, 2, 0 }, { 1, 2, 4 }, { 1, 2, 3 }, { 1, 2, 3 }, { 1, 2, 4 } };

template <class P>
static double
orient (int c, P pos) /* pos(k): coordinates of corner k */
{
  double d[3][3];
  for (int r = 0; r < 3; r++)
    for (int k = 0; k < 3; k++) d[r][k] = r < vh_dim[c] ? pos (SPAN[c][r])[k] - pos (0)[k] : (r == k ? 1 : 0);
  return d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0])
         + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]);
}
static std::vector<VI> ROT[8]; /* the rotations of the element as corner permutations */
static void
rotations ()
{
  for (int c = 0; c < 8; c++) {
    VI p (NV[c]);
    for (int i = 0; i < NV[c]; i++) p[i] = i;
    std::set<std::set<int>> fs;
    for (auto &f : FACES[c]) fs.insert (std::set<int> (f.begin (), f.end ()));
    double s0 = orient (c, [&] (int k) { return UNIT[c][k]; });
    do {
      bool ok = true;
      for (auto &f : FACES[c]) {
        std::set<int> s;
        for (int k : f) s.insert (p[k]);
        if (!fs.count (s)) {
          ok = false;
          break;
        }
      }
      if (ok && vh_dim[c] >= 2) ok = orient (c, [&] (int k) { return UNIT[c][p[k]]; }) * s0 > 0;
      if (ok) ROT[c].push_back (p);
    } while (std::next_permutation (p.begin (), p.end ()));
  }
}

struct VMesh
{
  int dim = 2;
  VI cls;
  std::vector<VI> vid;                     /* node numbers, in t8code's order */
  std::vector<std::array<double, 3>> pos;  /* of the nodes; multiples of 2^-10 */
};

/* grid cells with random subdivisions, some of them missing, every tree turned at random */
static VMesh
random_vmesh (Rng &r, int maxcells)
{
  VMesh m;
  m.dim = r.below (12) == 0 ? r.below (2) : 2 + r.below (2);
  int n[3] = { 1, 1, 1 };
  if (m.dim == 1) n[0] = r.range (1, maxcells);
  if (m.dim == 0) n[0] = r.range (1, 3);
  if (m.dim >= 2)
    for (;;) {
      for (int k = 0; k < m.dim; k++) n[k] = r.range (1, 4);
      if (n[0] * n[1] * n[2] <= maxcells) break;
    }
  int miss = r.below (3); /* how many cells are left out */
  int only = r.below (2) ? -1 : r.below (4);
  std::map<std::array<int, 4>, int> node;
  auto id = [&] (int i, int j, int k, int ctr) {
    auto it = node.find ({ i, j, k, ctr });
    if (it != node.end ()) return it->second;
    int v = (int) m.pos.size ();
    node[{ i, j, k, ctr }] = v;
    std::array<double, 3> x = { (double) i, (double) j, (double) k };
    if (ctr)
      for (auto &y : x) y += .5;
    for (int d = 0; d < m.dim; d++) x[d] += (double) r.range (-100, 100) / 1024; /* a mesh that is not a grid */
    m.pos.push_back (x);
    return v;
  };
  auto add = [&] (int c, VI v) {
    double s = orient (c, [&] (int k) { return m.pos[v[k]].data (); }), s0 = orient (c, [&] (int k) { return UNIT[c][k]; });
    if (vh_dim[c] >= 2 && s * s0 < 0) { /* the mirror image */
      if (c == 7) std::swap (v[1], v[2]);
      else if (c == 5) std::swap (v[2], v[3]);
      else abort ();
    }
    VI w (v.size ());
    const VI &p = ROT[c][r.below ((int) ROT[c].size ())];
    for (size_t k = 0; k < v.size (); k++) w[k] = v[p[k]];
    m.cls.push_back (c);
    m.vid.push_back (w);
  };
  for (int k = 0; k < n[2]; k++)
    for (int j = 0; j < n[1]; j++)
      for (int i = 0; i < n[0]; i++) {
        if (miss && r.below (miss == 1 ? 8 : 3) == 0 && !(i + 1 == n[0] && j + 1 == n[1] && k + 1 == n[2] && m.cls.empty ())) continue;
        int v[8];
        for (int q = 0; q < (1 << m.dim); q++) v[q] = id (i + (q & 1), j + (q >> 1 & 1), k + (q >> 2 & 1), 0);
        int how = only >= 0 ? only : r.below (4);
        if (m.dim == 0) add (0, { v[0] });
        else if (m.dim == 1) add (1, { v[0], v[1] });
        else if (m.dim == 2) {
          if (how == 0 || how == 3) add (2, { v[0], v[1], v[2], v[3] });
          else if (how == 1) {
            add (3, { v[0], v[1], v[3] });
            add (3, { v[0], v[3], v[2] });
          }
          else {
            add (3, { v[0], v[1], v[2] });
            add (3, { v[1], v[3], v[2] });
          }
        }
        else if (how == 0) add (4, VI (v, v + 8));
        else if (how == 1) {
          add (6, { v[0], v[1], v[3], v[4], v[5], v[7] });
          add (6, { v[0], v[3], v[2], v[4], v[7], v[6] });
        }
        else if (how == 2) {
          int p[3] = { 1, 2, 4 };
          do add (5, { v[0], v[p[0]], v[p[0] + p[1]], v[7] });
          while (std::next_permutation (p, p + 3));
        }
        else {
          int c = id (i, j, k, 1);
          for (auto &f : FACES[4]) add (7, { v[f[0]], v[f[1]], v[f[2]], v[f[3]], c });
        }
      }
  if (m.dim == 1) /* lines may run in either direction */
    for (auto &v : m.vid)
      if (r.below (2)) std::swap (v[0], v[1]);
  /* the trees in any order */
  for (int i = (int) m.cls.size () - 1; i > 0 && r.below (30); i--) {
    int k = r.below (i + 1);
    std::swap (m.cls[i], m.cls[k]);
    std::swap (m.vid[i], m.vid[k]);
  }
  return m;
}
static std::string
mesh_json (const VMesh &m)
{
  J j;
  j.open ('{').key ("cls").arr (m.cls).key ("vid").open ('[');
  for (auto &v : m.vid) j.arr (v);
  j.close (']').close ('}');
  return j.t;
}
static void
faces_json (J &j, t8_cmesh_t c, t8_locidx_t t, int ec)
{
  int nf = ec >= 0 && ec < 8 ? (int) FACES[ec].size () : 0;
  j.open ('[');
  for (int f = 0; f < nf; f++) {
    int df = -5, o = -5;
    t8_locidx_t nb = t8_cmesh_get_face_neighbor (c, t, f, &df, &o);
    j.open ('[').num (t8_cmesh_tree_face_is_boundary (c, t, f) ? 1 : 0).num (nb < 0 ? -1 : t8_cmesh_get_global_id (c, nb));
    j.num (nb < 0 ? -1 : df).num (nb < 0 ? -1 : o).close (']');
  }
  j.close (']');
}

/* ---------------------------------------------------------------- joins from coordinates */
static std::string
do_join (const Group &G, Rng &r)
{
  VMesh m = random_vmesh (r, 10);
  int n = (int) m.cls.size ();
  /* somewhere in space: axes permuted, scaled, moved */
  int ax[3] = { 0, 1, 2 };
  for (int i = 2; i > 0; i--) std::swap (ax[i], ax[r.below (i + 1)]);
  double sc = std::ldexp (1, r.range (-12, 12)), mv[3];
  for (double &x : mv) x = r.below (2) ? 0 : (double) r.range (-300, 300);
  std::vector<double> v ((size_t) n * T8_ECLASS_MAX_CORNERS * T8_ECLASS_MAX_DIM, 0.);
  std::vector<t8_eclass_t> ec;
  for (int g = 0; g < n; g++) {
    ec.push_back ((t8_eclass_t) m.cls[g]);
    for (int k = 0; k < NV[m.cls[g]]; k++)
      for (int d = 0; d < 3; d++) v[((size_t) g * T8_ECLASS_MAX_CORNERS + k) * 3 + ax[d]] = (m.pos[m.vid[g][k]][d] + mv[d]) * sc;
  }
  int both = r.below (2), stash = r.below (2), null = r.below (4) == 0 ? 1 : 0;
  int *conn = nullptr;
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  VI order (n);
  for (int g = 0; g < n; g++) order[g] = g;
  if (r.below (2))
    for (int i = n - 1; i > 0; i--) std::swap (order[i], order[r.below (i + 1)]);
  for (int g : order) t8_cmesh_set_tree_class (c, g, ec[g]);
  for (int g : order) t8_cmesh_set_tree_vertices (c, g, &v[(size_t) g * T8_ECLASS_MAX_CORNERS * 3], NV[m.cls[g]]);
  if (stash) t8_cmesh_set_join_by_stash (c, null ? nullptr : &conn, both);
  else t8_cmesh_set_join_by_vertices (c, n, ec.data (), v.data (), null ? nullptr : &conn, both);
  J j;
  j.open ('{').key ("op").str ("join").key ("m").raw (mesh_json (m)).kn ("both", both).key ("conn").open ('[');
  if (conn) {
    for (int g = 0; g < n; g++) {
      j.open ('[');
      for (size_t f = 0; f < FACES[m.cls[g]].size (); f++)
        j.open ('[').num (conn[(g * T8_ECLASS_MAX_FACES + f) * 3]).num (conn[(g * T8_ECLASS_MAX_FACES + f) * 3 + 1]).num (conn[(g * T8_ECLASS_MAX_FACES + f) * 3 + 2]).close (']');
      j.close (']');
    }
    T8_FREE (conn);
  }
  j.close (']').key ("tr").open ('[');
  t8_cmesh_register_geometry<t8_geometry_linear> (c);
  t8_cmesh_disable_negative_volume_check (c);
  t8_cmesh_commit (c, G.comm);
  for (t8_locidx_t t = 0; t < t8_cmesh_get_num_local_trees (c) && t < 1000; t++) faces_json (j, c, t, (int) t8_cmesh_get_tree_class (c, t));
  j.close (']');
  t8_cmesh_destroy (&c);
  j.close ('}');
  return j.t;
}

/* ----------------------------------------------------------------------------- msh files */
static const int GTYPE[8] = { 15, 1, 3, 2, 5, 4, 6, 7 };
static const int GORD[8][8] = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 1, 3, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 1, 3, 2, 4 } };
struct Node
{
  long id;
  std::array<double, 3> x;
  int ed, et, par;
  double uv[2];
};
struct Block
{
  int dim, tag, type;
  std::vector<std::vector<long>> el; /* node ids in the order of the file */
};
struct Msh
{
  int dim;
  std::vector<std::vector<Node>> nodes; /* by entity */
  std::vector<Block> blk;
};
static Msh
random_msh (Rng &r, const VMesh &m)
{
  Msh f;
  f.dim = m.dim;
  int nn = (int) m.pos.size (), extra = r.below (3) ? 0 : r.range (1, 4);
  std::vector<long> ids;
  int how = r.below (4);
  std::set<long> used;
  for (int k = 0; k < nn + extra; k++) {
    long v = how < 2 ? k + 1 : how == 2 ? 3 * k + 1 + r.below (3) : -1;
    while (v < 0 || used.count (v)) v = 1 + r.below (r.below (3) ? 200 : 1000000);
    used.insert (v);
    ids.push_back (v);
  }
  if (how)
    for (int i = (int) ids.size () - 1; i > 0; i--) std::swap (ids[i], ids[r.below (i + 1)]);
  /* nodes in blocks */
  int nb = r.range (1, 4);
  f.nodes.resize (nb);
  std::vector<std::array<int, 3>> ent;
  for (int b = 0; b < nb; b++) {
    int ed = r.below (4), par = (ed == 1 || ed == 2) ? r.below (2) : 0;
    ent.push_back ({ ed, r.range (1, 50), par });
  }
  for (int k = 0; k < nn + extra; k++) {
    int b = r.below (nb);
    Node x;
    x.id = ids[k];
    x.x = k < nn ? m.pos[k] : std::array<double, 3> { 9, 9, 9 };
    x.ed = ent[b][0];
    x.et = ent[b][1];
    x.par = ent[b][2];
    x.uv[0] = (double) r.range (-5000, 5000) / 1024;
    x.uv[1] = (double) r.range (-5000, 5000) / 1024;
    f.nodes[b].push_back (x);
  }
  /* elements: consecutive trees of one class form a block; other dimensions in between */
  static const std::vector<int> byDim[4] = { { 0 }, { 1 }, { 2, 3 }, { 4, 5, 6, 7 } };
  auto other = [&] () {
    int d = r.below (4);
    if (d == m.dim) return;
    int c = byDim[d][r.below ((int) byDim[d].size ())];
    if (NV[c] > nn + extra) return;
    Block b { d, r.range (1, 9), GTYPE[c], {} };
    for (int q = r.range (0, 2); q >= 0; q--) {
      std::vector<long> e;
      for (int k = 0; k < NV[c]; k++) e.push_back (ids[r.below (nn + extra)]);
      b.el.push_back (e);
    }
    f.blk.push_back (b);
  };
  bool mix = r.below (2);
  for (size_t g = 0; g < m.cls.size ();) {
    if (mix && r.below (2)) other ();
    Block b { m.dim, r.range (1, 9), GTYPE[m.cls[g]], {} };
    int c = m.cls[g];
    while (g < m.cls.size () && m.cls[g] == c) {
      std::vector<long> e;
      for (int k = 0; k < NV[c]; k++) e.push_back (ids[m.vid[g][GORD[c][k]]]);
      b.el.push_back (e);
      g++;
      if (r.below (6) == 0) break;
    }
    f.blk.push_back (b);
  }
  if (mix) other ();
  return f;
}
static std::string
msh_json (const Msh &f)
{
  J j;
  j.open ('{').kn ("dim", f.dim).key ("node").open ('[');
  for (auto &b : f.nodes)
    for (auto &x : b) {
      j.open ('{').kn ("id", x.id).key ("x").open ('[');
      for (double y : x.x) j.num (vh_scale (y, 10));
      j.close (']').kn ("ed", x.ed).kn ("et", x.et).kn ("par", x.par).key ("uv").open ('[').num (vh_scale (x.uv[0], 10)).num (vh_scale (x.uv[1], 10));
      j.close (']').close ('}');
    }
  j.close (']').key ("blk").open ('[');
  for (auto &b : f.blk) {
    j.open ('{').kn ("t", b.type).key ("el").open ('[');
    for (auto &e : b.el) j.arr (e);
    j.close (']').close ('}');
  }
  j.close (']').close ('}');
  return j.t;
}
/* bad: what is wrong with the file (0: nothing) */
enum { B_OK, B_VERSION, B_BINARY, B_NONODES, B_NOELEMS, B_CUT, B_TYPE, B_FEWNODES, B_UNKNOWN, B_NODIM, B_TWICE, B_FORMAT, B_PARAM, B_COORD, B_EMPTY, B_MISSING, B_NUM };
static std::string
msh_text (const Msh &f, Rng &r, int bad)
{
  std::vector<std::string> L;
  char s[400];
  bool fancy = r.below (2);
  const char *sep = fancy && r.below (3) == 0 ? "  " : " ";
  auto junk = [&] () {
    if (!fancy) return;
    if (r.below (6) == 0) L.push_back ("# a comment");
    if (r.below (6) == 0) L.push_back (r.below (2) ? "" : " \t ");
  };
  junk ();
  if (bad != B_FORMAT) {
    L.push_back ("$MeshFormat");
    L.push_back (bad == B_VERSION ? (r.below (2) ? "2.2 0 8" : "3.0 0 8") : bad == B_BINARY ? "4.1 1 8" : "4.1 0 8");
    L.push_back ("$EndMeshFormat");
  }
  if (fancy) {
    L.push_back ("$PhysicalNames");
    L.push_back ("1");
    L.push_back ("2 5 \"wall\"");
    L.push_back ("$EndPhysicalNames");
    L.push_back ("$Entities");
    L.push_back ("0 0 0 0");
    L.push_back ("$EndEntities");
  }
  size_t nn = 0, ne = 0;
  long lo = 1L << 40, hi = 0, twice = -1;
  for (auto &b : f.nodes)
    for (auto &x : b) {
      nn++;
      lo = std::min (lo, x.id);
      hi = std::max (hi, x.id);
    }
  for (auto &b : f.blk) ne += b.el.size ();
  size_t from_nodes = L.size ();
  if (bad != B_NONODES) {
    junk ();
    L.push_back ("$Nodes");
    snprintf (s, sizeof s, "%zu %zu %ld %ld", f.nodes.size (), nn, lo, hi);
    L.push_back (s);
    int hit = r.below ((int) nn), at = 0;
    for (auto &b : f.nodes) {
      int ed = b.empty () ? 2 : b[0].ed, et = b.empty () ? 1 : b[0].et, par = b.empty () ? 0 : b[0].par;
      junk ();
      if (bad == B_PARAM) {
        ed = r.below (2) ? 3 : 0;
        par = 1;
      }
      snprintf (s, sizeof s, "%d %d %d %zu", ed, et, par, b.size ());
      L.push_back (s);
      for (auto &x : b) {
        long id = x.id;
        if (bad == B_TWICE && at++ == std::max (1, hit) && twice >= 0) id = twice;
        if (twice < 0) twice = x.id;
        snprintf (s, sizeof s, "%ld", id);
        L.push_back (s);
        if (fancy && r.below (9) == 0) junk ();
      }
      for (auto &x : b) {
        if (bad == B_COORD && r.below (2)) snprintf (s, sizeof s, "%.17g", x.x[0]);
        else if (!par) snprintf (s, sizeof s, "%.17g%s%.17g%s%.17g", x.x[0], sep, x.x[1], sep, x.x[2]);
        else if (ed == 1) snprintf (s, sizeof s, "%.17g %.17g %.17g %.17g", x.x[0], x.x[1], x.x[2], x.uv[0]);
        else snprintf (s, sizeof s, "%.17g %.17g %.17g %.17g %.17g", x.x[0], x.x[1], x.x[2], x.uv[0], x.uv[1]);
        L.push_back (s);
        if (fancy && r.below (9) == 0) junk ();
      }
    }
    L.push_back ("$EndNodes");
  }
  if (bad != B_NOELEMS) {
    junk ();
    L.push_back ("$Elements");
    snprintf (s, sizeof s, "%zu %zu 1 %zu", f.blk.size (), ne, ne);
    L.push_back (s);
    long tag = 1;
    int hit = r.below ((int) f.blk.size ());
    while (f.blk[hit].dim != f.dim) hit = (hit + 1) % (int) f.blk.size ();
    for (size_t k = 0; k < f.blk.size (); k++) {
      auto &b = f.blk[k];
      int type = b.type;
      if (bad == B_TYPE && (int) k == hit) {
        static const int no[] = { 0, 8, 9, 11, 14, 16, 92, -1 };
        type = no[r.below (8)];
      }
      junk ();
      snprintf (s, sizeof s, "%d %d %d %zu", b.dim, b.tag, type, b.el.size ());
      L.push_back (s);
      int he = r.below ((int) b.el.size ());
      for (size_t q = 0; q < b.el.size (); q++) {
        bool here = (int) k == hit && (int) q == he;
        std::string t = std::to_string (tag++);
        size_t nv = b.el[q].size (), keep = bad == B_FEWNODES && here ? r.below ((int) nv) : nv;
        int un = r.below ((int) nv);
        for (size_t v = 0; v < keep; v++) {
          t += sep;
          long id = b.el[q][v];
          if (bad == B_UNKNOWN && here && (int) v == un) id = hi + 1 + r.below (100);
          t += std::to_string (id);
        }
        if (fancy && r.below (2)) t += " ";
        L.push_back (t);
        if (fancy && r.below (9) == 0) junk ();
      }
    }
    L.push_back ("$EndElements");
  }
  if (bad == B_CUT) {
    size_t last = L.size () - 1; /* everything up to and including the last element is needed */
    while (L[last][0] == '$' || L[last][0] == '#' || L[last].find_first_not_of (" \t") == std::string::npos) last--;
    L.resize ((size_t) r.range ((int) from_nodes, (int) last));
  }
  if (bad == B_EMPTY) L.clear ();
  std::string t;
  for (auto &l : L) t += l + (fancy && r.below (20) == 0 ? "\r\n" : "\n");
  return t;
}
static std::string
obs_msh (t8_cmesh_t c, int dim)
{
  J j;
  j.open ('{').kn ("null", c == nullptr ? 1 : 0);
  if (!c) return j.close ('}').t;
  t8_locidx_t nl = t8_cmesh_get_num_local_trees (c);
  j.kn ("com", t8_cmesh_is_committed (c) ? 1 : 0).kn ("dim", t8_cmesh_get_dimension (c)).kn ("part", t8_cmesh_is_partitioned (c) ? 1 : 0);
  j.kn ("ng", t8_cmesh_get_num_trees (c)).kn ("nh", t8_cmesh_get_num_ghosts (c)).kn ("vc", t8_cmesh_uses_vertex_connectivity (c) ? 1 : 0);
  j.key ("tr").open ('[');
  std::set<t8_gloidx_t> ids;
  for (t8_locidx_t t = 0; t < nl && t < 1000; t++) {
    int ec = (int) t8_cmesh_get_tree_class (c, t), n = NV[ec];
    j.open ('{').kn ("g", t8_cmesh_get_global_id (c, t)).kn ("c", ec).key ("x").open ('[');
    double *x = t8_cmesh_get_tree_vertices (c, t);
    for (int k = 0; k < n; k++)
      j.open ('[').num (vh_scale (x[3 * k], 10)).num (vh_scale (x[3 * k + 1], 10)).num (vh_scale (x[3 * k + 2], 10)).close (']');
    j.close (']').key ("v").open ('[');
    int nv = -1;
    const t8_gloidx_t *gv = t8_cmesh_get_global_vertices_of_tree (c, t, &nv);
    for (int k = 0; k < nv && k < 8; k++) {
      j.num (gv[k] == t8_cmesh_get_global_vertex_of_tree (c, t, k) ? gv[k] : -9);
      ids.insert (gv[k]);
    }
    j.close (']').key ("nd").open ('[');
    const int *nd = (const int *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_NODE_GEOMETRY_ATTRIBUTE_KEY, t);
    const double *uv = (const double *) t8_cmesh_get_attribute (c, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY, t);
    for (int k = 0; k < n && nd; k++) j.open ('[').num (nd[2 * k]).num (nd[2 * k + 1]).close (']');
    j.close (']').key ("uv").open ('[');
    for (int k = 0; k < n && uv; k++) j.open ('[').num (vh_scale (uv[2 * k], 10)).num (vh_scale (uv[2 * k + 1], 10)).close (']');
    j.close (']').key ("f");
    faces_json (j, c, t, ec);
    j.close ('}');
  }
  j.close (']').kn ("nv", nl ? t8_cmesh_get_num_global_vertices (c) : -1).key ("vt").open ('[');
  if (nl)
    for (auto v : ids) {
      j.open ('[').num (v).num (t8_cmesh_get_num_trees_at_vertex (c, v)).open ('[');
      for (auto &p : t8_cmesh_get_vertex_to_tree_list (c, v)) j.open ('[').num (p.first).num (p.second).close (']');
      j.close (']').close (']');
    }
  j.close (']').close ('}');
  return j.t;
}
static std::string
do_msh (const Group &G, Rng &r, bool broken)
{
  VMesh m = random_vmesh (r, 8);
  Msh f = random_msh (r, m);
  int bad = broken ? 1 + r.below (B_NUM - 1) : B_OK, dim = m.dim;
  std::string text = msh_text (f, r, bad);
  if (bad == B_NODIM) { /* ask for a dimension of which there is no element */
    VI no;
    for (int d = 0; d < 4; d++) {
      bool is = false;
      for (auto &b : f.blk)
        for (int c = 0; c < 8; c++) is |= GTYPE[c] == b.type && vh_dim[c] == d;
      if (!is) no.push_back (d);
    }
    if (no.empty ()) bad = B_MISSING;
    else dim = no[r.below ((int) no.size ())];
  }
  if (bad == B_TWICE) {
    size_t nn = 0;
    for (auto &b : f.nodes) nn += b.size ();
    if (nn < 2) bad = B_MISSING;
  }
  if (bad == B_COORD) text = msh_text (f, r, B_OK), bad = B_MISSING; /* kept simple: see B_PARAM */
  std::string prefix = OUT + ".g" + std::to_string (G.id);
  if (G.rank == 0) {
    remove ((prefix + ".msh").c_str ());
    if (bad != B_MISSING) {
      FILE *o = fopen ((prefix + ".msh").c_str (), "w");
      fwrite (text.data (), 1, text.size (), o);
      fclose (o);
    }
  }
  MPI_Barrier (G.comm);
  int part = r.below (2), main = r.below (G.size);
  long mem0 = sc_memory_status (t8_get_package_id ());
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  t8_cmesh_disable_negative_volume_check (c);
  t8_cmesh_from_msh_file (&c, prefix.c_str (), part, G.comm, dim, main, 0);
  std::string o = G.gather (obs_msh (c, dim));
  if (c) t8_cmesh_destroy (&c);
  long mem = (long) sc_memory_status (t8_get_package_id ()) - mem0;
  std::string ms = G.gather (std::to_string (mem));
  if (G.rank == 0) remove ((prefix + ".msh").c_str ());
  J j;
  j.open ('{').key ("op").str (bad ? "bad" : "msh").kn ("why", bad);
  if (!bad) j.key ("file").raw (msh_json (f));
  j.kn ("part", part).kn ("main", main).key ("o").raw (o).key ("m").raw (ms).close ('}');
  return j.t;
}

/* -------------------------------------------------------------------- vertex connectivity */
static std::string
do_vconn (const Group &G, Rng &r)
{ /* any classes, any vertex numbers: trees may meet a vertex several times */
  int dim = r.below (4), n = r.range (1, 12), ids = r.range (1, 20);
  static const std::vector<int> byDim[4] = { { 0 }, { 1 }, { 2, 3 }, { 4, 5, 6, 7 } };
  VMesh m;
  m.dim = dim;
  VI names;
  for (int k = 0; k < ids; k++) names.push_back (r.below (3) ? k : r.below (2000000000));
  for (int g = 0; g < n; g++) {
    m.cls.push_back (byDim[dim][r.below ((int) byDim[dim].size ())]);
    VI v;
    for (int k = 0; k < NV[m.cls[g]]; k++) v.push_back (names[r.below (ids)]);
    m.vid.push_back (v);
  }
  VI order (n);
  for (int g = 0; g < n; g++) order[g] = g;
  if (r.below (2))
    for (int i = n - 1; i > 0; i--) std::swap (order[i], order[r.below (i + 1)]);
  t8_cmesh_t c;
  long mem0 = sc_memory_status (t8_get_package_id ());
  t8_cmesh_init (&c);
  int first = r.below (2);
  for (int pass = 0; pass < 2; pass++)
    for (int g : order) {
      if (pass == first) t8_cmesh_set_tree_class (c, g, (t8_eclass_t) m.cls[g]);
      else {
        std::vector<t8_gloidx_t> v (m.vid[g].begin (), m.vid[g].end ());
        t8_cmesh_set_global_vertices_of_tree (c, g, v.data (), (int) v.size ());
      }
    }
  int before = t8_cmesh_uses_vertex_connectivity (c) ? 1 : 0;
  t8_cmesh_commit (c, G.comm);
  std::set<int> all;
  for (auto &v : m.vid) all.insert (v.begin (), v.end ());
  J j;
  j.open ('{').kn ("bef", before).kn ("vc", t8_cmesh_uses_vertex_connectivity (c) ? 1 : 0).kn ("nv", t8_cmesh_get_num_global_vertices (c));
  j.kn ("lv", t8_cmesh_get_num_local_vertices (c)).key ("tv").open ('[');
  for (int g = 0; g < n; g++) {
    int nv = -1;
    const t8_gloidx_t *gv = t8_cmesh_get_global_vertices_of_tree (c, g, &nv);
    j.open ('[');
    for (int k = 0; k < nv && k < 8; k++) j.num (gv[k] == t8_cmesh_get_global_vertex_of_tree (c, g, k) ? gv[k] : -9);
    j.close (']');
  }
  j.close (']').key ("vt").open ('[');
  for (auto v : all) {
    j.open ('[').num (v).num (t8_cmesh_get_num_trees_at_vertex (c, v)).open ('[');
    for (auto &p : t8_cmesh_get_vertex_to_tree_list (c, v)) j.open ('[').num (p.first).num (p.second).close (']');
    j.close (']').close (']');
  }
  j.close (']').close ('}');
  std::string o = G.gather (j.t);
  t8_cmesh_destroy (&c);
  long mem = (long) sc_memory_status (t8_get_package_id ()) - mem0;
  J h;
  h.open ('{').key ("op").str ("vconn").key ("m").raw (mesh_json (m)).key ("o").raw (o).key ("mem").raw (G.gather (std::to_string (mem))).close ('}');
  return h.t;
}

/* -------------------------------------------------------------------- the library's generators */
static int gen_pkg = -1;
/* sc: scale of the coordinates; exact: they must be integers after scaling */
static std::string
obs_gen (t8_cmesh_t c, double sc, bool exact, int ax, int att)
{
  J j;
  t8_locidx_t nl = t8_cmesh_get_num_local_trees (c);
  j.open ('{').kn ("com", t8_cmesh_is_committed (c) ? 1 : 0).kn ("dim", t8_cmesh_get_dimension (c)).kn ("part", t8_cmesh_is_partitioned (c) ? 1 : 0);
  j.kn ("ng", t8_cmesh_get_num_trees (c)).key ("tr").open ('[');
  for (t8_locidx_t t = 0; t < nl && t < 2000; t++) {
    int ec = (int) t8_cmesh_get_tree_class (c, t), n = ax ? 2 : NV[ec];
    j.open ('{').kn ("g", t8_cmesh_get_global_id (c, t)).kn ("c", ec).key ("x").open ('[');
    double *x = t8_cmesh_get_tree_vertices (c, t);
    for (int k = 0; k < n && x; k++) {
      j.open ('[');
      for (int d = 0; d < 3; d++) {
        double y = x[3 * k + d] * sc;
        if (!(fabs (y) < 1e6) || (exact && fabs (y - std::round (y)) > 1e-6)) j.num (999999);
        else j.num ((long) std::llround (y));
      }
      j.close (']');
    }
    j.close (']').key ("a").open ('[');
    for (int k = 0; k < 2 && att; k++) {
      const t8_locidx_t *a = (const t8_locidx_t *) t8_cmesh_get_attribute (c, gen_pkg, k, t);
      j.num (a ? (long) *a : -1);
    }
    j.close (']').key ("f");
    faces_json (j, c, t, ec);
    j.close ('}');
  }
  j.close (']').close ('}');
  return j.t;
}
static std::string
do_gen (const Group &G, Rng &r)
{
  J j;
  j.open ('{').key ("op").str ("gen");
  double sc = 1;
  bool exact = true;
  int ax = 0, att = 0;
  static const int K[8] = { 1, 1, 1, 2, 1, 6, 2, 3 };
  long mem0 = sc_memory_status (t8_get_package_id ());
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  /* boxes: class, cells, periods, corners (integers) */
  auto box = [&] (const char *name, int ec, const int n[3], const int per[3], const double *B, int part) {
    int d = vh_dim[ec], N = 1;
    j.key ("name").str (name).key ("kind").str ("box").kn ("c", ec).kn ("ax", ax).kn ("part", part).kn ("att", att).key ("n").open ('[');
    for (int k = 0; k < 3; k++) j.num (k < d ? n[k] : 1), N *= k < d ? n[k] : 1;
    j.close (']').key ("per").open ('[');
    for (int k = 0; k < 3; k++) j.num (k < d && per[k] ? 1 : 0);
    j.close (']').key ("B").open ('[');
    for (int q = 0; q < (1 << d); q++) j.open ('[').num ((long) B[3 * q]).num ((long) B[3 * q + 1]).num ((long) B[3 * q + 2]).close (']');
    j.close (']');
    sc = N;
  };
  static const double UB[24] = { 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1 };
  auto glue = [&] (const char *name, VI a, double s, bool ex, std::vector<VI> per) {
    j.key ("name").str (name).key ("kind").str ("glue").key ("a").arr (a).kn ("part", 0).key ("per").open ('[');
    for (auto &v : per) j.arr (v);
    j.close (']');
    sc = s;
    exact = ex;
  };
  int one[3] = { 1, 1, 1 }, none[3] = { 0, 0, 0 };
  switch (r.below (12)) {
  case 0: { /* unit cubes */
    int ec = r.below (8), per = ec == 7 ? 0 : r.below (2), bc = r.below (2), part = bc ? 0 : r.below (2), p3[3] = { per, per, per };
    box ("hypercube", ec, one, p3, UB, part);
    t8_cmesh_new_hypercube (&c, (t8_eclass_t) ec, G.comm, bc, part, per);
    break;
  }
  case 1:
  case 2:
  case 3: { /* padded boxes */
    int ec = r.below (7), d = vh_dim[ec], n[3], per[3], part = r.below (3);
    do
      for (int k = 0; k < 3; k++) n[k] = r.range (1, 4), per[k] = r.below (3) == 0;
    while (d == 3 && n[0] * n[1] * n[2] > (ec == 5 ? 6 : 12));
    for (int k = d; k < 3; k++) per[k] = 0;
    if (part == 2) { /* every process its own box */
      Rng q (vh_mix (r.next () + 77 * G.rank));
      do
        for (int k = 0; k < 3; k++) n[k] = q.range (1, 3);
      while (d == 3 && n[0] * n[1] * n[2] > (ec == 5 ? 3 : 6));
    }
    ax = (ec == 2 || ec == 4) && r.below (3) == 0;
    double B[24];
    bool skew = !ax && r.below (2);
    int shear[3][3], o[3], e[3];
    for (int a = 0; a < 3; a++) {
      o[a] = r.range (-3, 3), e[a] = r.range (1, 4);
      for (int b = 0; b < 3; b++) shear[a][b] = skew && r.below (2) ? r.range (-1, 1) : 0;
    }
    for (int q = 0; q < 8; q++)
      for (int b = 0; b < 3; b++) {
        double y = o[b];
        for (int a = 0; a < d; a++)
          if (q >> a & 1) y += a == b ? e[a] + 2 : shear[a][b];
        if (d < 3 && b >= d && !ax && d == 2 && !skew) y = o[b]; /* a plane at some height */
        B[3 * q + b] = y;
      }
    bool any = false;
    for (int k = 0; k < d; k++) any |= per[k];
    if (!ax && !any && d >= 2 && r.below (3) == 0) /* any hexahedron: one corner moved */
      for (int b = 0; b < d; b++) B[3 * ((1 << d) - 1) + b] += r.below (2);
    if (d == 1) {
      for (int b = 1; b < 3; b++) B[3 + b] = B[b] + (skew ? r.range (-2, 2) : 0);
    }
    if (part == 2) {
      long nt = (long) K[ec], off = 0;
      for (int k = 0; k < d; k++) nt *= n[k];
      if (d == 0) nt = 1;
      MPI_Scan (&nt, &off, 1, MPI_LONG, MPI_SUM, G.comm);
      J b;
      b.open ('[');
      for (int k = 0; k < 3; k++) b.num (k < d ? n[k] : 1);
      b.close (']');
      std::string ns = G.gather (b.t);
      box ("own_box", ec, n, per, B, 1);
      j.key ("ns").raw (ns);
      t8_cmesh_new_hypercube_pad_ext (c, (t8_eclass_t) ec, G.comm, B, n[0], n[1], n[2], per[0], per[1], per[2], ax, 1, off - nt + 1);
    }
    else if (!any && !part && r.below (2)) {
      box ("pad", ec, n, none, B, 0);
      t8_cmesh_new_hypercube_pad (c, (t8_eclass_t) ec, G.comm, B, n[0], n[1], n[2], ax);
    }
    else {
      box ("pad_ext", ec, n, per, B, part);
      t8_cmesh_new_hypercube_pad_ext (c, (t8_eclass_t) ec, G.comm, B, n[0], n[1], n[2], per[0], per[1], per[2], ax, part, 0);
    }
    break;
  }
  case 4: { /* bricks */
    int n[3], per[3], d = 2 + r.below (2);
    for (int k = 0; k < 3; k++) n[k] = r.range (1, d == 3 ? 3 : 5), per[k] = r.below (2);
    double B[24];
    if (r.below (2)) {
      for (int q = 0; q < 8; q++)
        for (int b = 0; b < 3; b++) B[3 * q + b] = (q >> b & 1) && b < d ? n[b] : 0;
      box ("brick", d == 2 ? 2 : 4, n, per, B, -1);
      if (d == 2) t8_cmesh_new_brick_2d (c, n[0], n[1], per[0], per[1], G.comm);
      else t8_cmesh_new_brick_3d (c, n[0], n[1], n[2], per[0], per[1], per[2], G.comm);
    }
    else {
      Rng q (vh_mix (r.next () + 79 * G.rank));
      for (int k = 0; k < 3; k++) n[k] = q.range (1, 3);
      J b;
      b.open ('[');
      for (int k = 0; k < 3; k++) b.num (k < d ? n[k] : 1);
      b.close (']');
      std::string ns = G.gather (b.t);
      box ("bricks", d == 2 ? 2 : 4, n, per, UB, 1);
      j.key ("ns").raw (ns);
      if (d == 2) n[2] = 0;
      t8_cmesh_new_disjoint_bricks (c, n[0], n[1], n[2], per[0], per[1], per[2], G.comm);
    }
    break;
  }
  case 5: { /* other boxes */
    int w = r.below (4);
    if (w == 0) {
      int d = r.range (1, 3), p3[3] = { 1, 1, 1 };
      box ("periodic", d == 1 ? 1 : d == 2 ? 2 : 4, one, p3, UB, 0);
      t8_cmesh_new_periodic (c, G.comm, d);
    }
    else if (w == 1) {
      int p3[3] = { 1, 1, 1 };
      box ("periodic_tri", 3, one, p3, UB, 0);
      t8_cmesh_new_periodic_tri (c, G.comm);
    }
    else {
      int n[3] = { r.range (1, 9), 1, 1 }, part = r.below (2);
      double B[24];
      for (int q = 0; q < 24; q++) B[q] = UB[q] * (q % 3 == 0 ? n[0] : 1);
      att = r.below (2);
      box ("row", 4, n, none, B, part);
      t8_cmesh_new_row_of_cubes (c, n[0], att, part, G.comm, gen_pkg);
    }
    break;
  }
  case 6: { /* small meshes given by their vertices */
    switch (r.below (9)) {
    case 0: {
      int per = r.below (2);
      glue ("hypercube_hybrid", { per }, 2, true, per ? std::vector<VI> { { 2, 0, 0 }, { 0, 2, 0 }, { 0, 0, 2 } } : std::vector<VI> {});
      t8_cmesh_new_hypercube_hybrid (c, G.comm, per);
      break;
    }
    case 1:
      glue ("periodic_hybrid", {}, 2, true, { { 2, 0, 0 }, { 0, 2, 0 } });
      t8_cmesh_new_periodic_hybrid (c, G.comm);
      break;
    case 2:
      glue ("periodic_line_more_trees", {}, 10, true, { { 10, 0, 0 } });
      t8_cmesh_new_periodic_line_more_trees (c, G.comm);
      break;
    case 3:
      glue ("line_zigzag", {}, 1, true, {});
      t8_cmesh_new_line_zigzag (c, G.comm);
      break;
    case 4:
      glue ("hybrid_gate", {}, 100.37, false, {});
      t8_cmesh_new_hybrid_gate (c, G.comm);
      break;
    case 5:
      glue ("hybrid_gate_deformed", {}, 100.37, false, {});
      t8_cmesh_new_hybrid_gate_deformed (c, G.comm);
      break;
    case 6:
      glue ("full_hybrid", {}, 1, true, {});
      t8_cmesh_new_full_hybrid (c, G.comm);
      break;
    case 7:
      glue ("prism_deformed", {}, 4, true, {});
      t8_cmesh_new_prism_deformed (c, G.comm);
      break;
    default:
      glue ("pyramid_deformed", {}, 100.37, false, {});
      t8_cmesh_new_pyramid_deformed (c, G.comm);
    }
    break;
  }
  case 7: { /* cakes and rows */
    int n = r.range (3, 12);
    switch (r.below (5)) {
    case 0:
      glue ("prism_cake", { n }, 200.37, false, {});
      t8_cmesh_new_prism_cake (c, G.comm, n);
      break;
    case 1:
      glue ("pyramid_cake", { n }, 200.37, false, {});
      t8_cmesh_new_pyramid_cake (c, G.comm, n);
      break;
    case 2:
      glue ("long_brick_pyramid", { n }, 1, true, {});
      t8_cmesh_new_long_brick_pyramid (c, G.comm, n);
      break;
    case 3:
      glue ("prism_cake_funny_oriented", {}, 200.37, false, {});
      t8_cmesh_new_prism_cake_funny_oriented (c, G.comm);
      break;
    default:
      glue ("prism_geometry", {}, 200.37, false, {});
      t8_cmesh_new_prism_geometry (c, G.comm);
    }
    break;
  }
  case 8: { /* disks and spheres */
    double rad = r.range (1, 8) / 2.;
    int lay = r.range (1, 3), lev = r.below (2);
    double s = 200.37 / (rad + 1);
    switch (r.below (9)) {
    case 0:
      glue ("quadrangulated_disk", {}, s, false, {});
      t8_cmesh_new_quadrangulated_disk (c, rad, G.comm);
      break;
    case 1:
      glue ("octahedron", {}, s, false, {});
      t8_cmesh_new_triangulated_spherical_surface_octahedron (c, rad, G.comm);
      break;
    case 2:
      glue ("icosahedron", {}, s, false, {});
      t8_cmesh_new_triangulated_spherical_surface_icosahedron (c, rad, G.comm);
      break;
    case 3:
      glue ("triangulated_cube", {}, s, false, {});
      t8_cmesh_new_triangulated_spherical_surface_cube (c, rad, G.comm);
      break;
    case 4:
      glue ("quadrangulated_surface", {}, s, false, {});
      t8_cmesh_new_quadrangulated_spherical_surface (c, rad, G.comm);
      break;
    case 5:
      glue ("prismed_octahedron", { lev, lay }, s, false, {});
      t8_cmesh_new_prismed_spherical_shell_octahedron (c, rad, rad, lev, lay, G.comm);
      break;
    case 6:
      glue ("prismed_icosahedron", { lev, lay }, s, false, {});
      t8_cmesh_new_prismed_spherical_shell_icosahedron (c, rad, rad, lev, lay, G.comm);
      break;
    case 7:
      glue ("cubed_shell", { lev + 1, lay }, s, false, {});
      t8_cmesh_new_cubed_spherical_shell (c, rad, rad, lev + 1, lay, G.comm);
      break;
    default:
      glue ("cubed_sphere", {}, s, false, {});
      t8_cmesh_new_cubed_sphere (c, rad, G.comm);
    }
    break;
  }
  case 9: { /* meshes without geometry, single trees, no trees */
    switch (r.below (4)) {
    case 0: {
      int ec = r.below (8), n = r.range (1, 9);
      j.key ("name").str ("bigmesh").key ("kind").str ("big").kn ("c", ec).kn ("n", n).kn ("part", 0);
      t8_cmesh_new_bigmesh (c, (t8_eclass_t) ec, n, G.comm);
      break;
    }
    case 1: {
      int ec = r.below (8);
      glue ("from_class", { ec }, 1, true, {});
      t8_cmesh_new_from_class (c, (t8_eclass_t) ec, G.comm);
      break;
    }
    case 2: {
      int d = r.below (4);
      j.key ("name").str ("empty").key ("kind").str ("empty").kn ("dim", d).kn ("part", 0);
      t8_cmesh_set_dimension (c, d);
      t8_cmesh_new_empty (c, G.comm);
      break;
    }
    default:
      j.key ("name").str ("tet_orientation_test").key ("kind").str ("orient").kn ("part", 0);
      t8_cmesh_new_tet_orientation_test (c, G.comm);
    }
    break;
  }
  default: { /* p4est's connectivities */
    int part = r.below (2);
    sc = 100.37;
    exact = false;
    auto conn = [&] (auto *p, int nf, int nv, const char *name) {
      j.key ("name").str (name).key ("kind").str ("p4est").kn ("nf", nf).kn ("part", part).key ("ttt").open ('[');
      for (long k = 0; k < (long) p->num_trees; k++) {
        j.open ('[');
        for (int f = 0; f < nf; f++) j.open ('[').num (p->tree_to_tree[nf * k + f]).num (p->tree_to_face[nf * k + f]).close (']');
        j.close (']');
      }
      j.close (']').key ("x").open ('[');
      for (long k = 0; k < (long) p->num_trees; k++) {
        j.open ('[');
        for (int v = 0; v < nv; v++) {
          j.open ('[');
          for (int d = 0; d < 3; d++) j.num ((long) std::llround (sc * p->vertices[3 * p->tree_to_vertex[nv * k + v] + d]));
          j.close (']');
        }
        j.close (']');
      }
      j.close (']');
    };
    if (r.below (2)) {
      p4est_connectivity_t *p = nullptr;
      const char *nm = "";
      switch (r.below (10)) {
      case 0: p = p4est_connectivity_new_unitsquare (), nm = "unitsquare"; break;
      case 1: p = p4est_connectivity_new_periodic (), nm = "periodic"; break;
      case 2: p = p4est_connectivity_new_rotwrap (), nm = "rotwrap"; break;
      case 3: p = p4est_connectivity_new_corner (), nm = "corner"; break;
      case 4: p = p4est_connectivity_new_pillow (), nm = "pillow"; break;
      case 5: p = p4est_connectivity_new_moebius (), nm = "moebius"; break;
      case 6: p = p4est_connectivity_new_star (), nm = "star"; break;
      case 7: p = p4est_connectivity_new_cubed (), nm = "cubed"; break;
      case 8: p = p4est_connectivity_new_disk (r.below (2), r.below (2)), nm = "disk"; break;
      default: p = p4est_connectivity_new_brick (r.range (1, 4), r.range (1, 4), r.below (2), r.below (2)), nm = "brick2";
      }
      conn (p, 4, 4, nm);
      t8_cmesh_new_from_p4est (c, p, G.comm, part);
      p4est_connectivity_destroy (p);
    }
    else {
      p8est_connectivity_t *p = nullptr;
      const char *nm = "";
      switch (r.below (8)) {
      case 0: p = p8est_connectivity_new_unitcube (), nm = "unitcube"; break;
      case 1: p = p8est_connectivity_new_periodic (), nm = "periodic"; break;
      case 2: p = p8est_connectivity_new_rotwrap (), nm = "rotwrap"; break;
      case 3: p = p8est_connectivity_new_twocubes (), nm = "twocubes"; break;
      case 4: p = p8est_connectivity_new_twowrap (), nm = "twowrap"; break;
      case 5: p = p8est_connectivity_new_rotcubes (), nm = "rotcubes"; break;
      case 6: p = r.below (2) ? p8est_connectivity_new_shell () : p8est_connectivity_new_sphere (), nm = "shell"; break;
      default: p = p8est_connectivity_new_brick (r.range (1, 3), r.range (1, 3), r.range (1, 3), r.below (2), r.below (2), r.below (2)), nm = "brick3";
      }
      conn (p, 6, 8, nm);
      t8_cmesh_new_from_p8est (c, p, G.comm, part);
      p8est_connectivity_destroy (p);
    }
  }
  }
  std::string o = G.gather (obs_gen (c, sc, exact, ax, att));
  t8_cmesh_destroy (&c);
  long mem = (long) sc_memory_status (t8_get_package_id ()) - mem0;
  std::string ms = G.gather (std::to_string (mem));
  j.key ("o").raw (o).key ("m").raw (ms).close ('}');
  return j.t;
}

int
main (int argc, char **argv)
{
  vh_init (&argc, &argv);
  MODES = argv[1];
  OUT = argv[2];
  rotations ();
  if (MODES.find ('E') != std::string::npos) p4est_init (NULL, SC_LP_ERROR);
  gen_pkg = sc_package_register (NULL, SC_LP_ERROR, "vh_gen", "verif");
  uint64_t seed = (uint64_t) vh_envi ("VERIF_SEED", 1);
  int N = (int) vh_envi ("VH_N", 10);
  Group G = vh_groups ();
  std::string on = OUT + "." + std::to_string (G.id);
  FILE *f = G.rank == 0 ? fopen (on.c_str (), "w") : nullptr;
  long only = vh_envi ("VH_ONLY", -1);
  for (int k = 0; k < N; k++) {
    if (only >= 0 && k != only) continue;
    Rng r (vh_mix (seed * 6151 + (uint64_t) k * 131 + (uint64_t) G.id * 1000003 + 5));
    char op = MODES[k % MODES.size ()];
    std::string e = op == 'J' ? do_join (G, r) : op == 'F' ? do_msh (G, r, false) : op == 'X' ? do_msh (G, r, true) : op == 'E' ? do_gen (G, r) : do_vconn (G, r);
    if (f) {
      fprintf (f, "{\"P\":%d,\"ev\":[%s]}\n", G.size, e.c_str ());
      fflush (f);
    }
  }
  if (f) fclose (f);
  vh_merge (G, argv[2]);
  vh_fini ();
  return 0;
}
