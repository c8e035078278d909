/* Random trees in space; meshes are derived from each other, wrapped in forests and destroyed in any order, and asked for
 * coordinates, measures and containment. Every process writes a history of its own.
 * usage: h_geom MODES OUT, MODES out of c (coordinates), m (measures), i (inside), v (output files) */
#include "vh_forest.hxx"
#include <memory>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_geometry/t8_geometry.h>
#include <t8_geometry/t8_geometry_base.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_analytic.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx>
#include <t8_forest/t8_forest_geometrical.h>
#include <t8_forest/t8_forest_ghost.h>
#include <t8_forest/t8_forest_io.h>
#include <t8_vtk/t8_vtk_writer.h>
#include <unistd.h>
#include <map>

static std::string MODES, OUTNAME;

struct Tree
{
  int c = 0;
  std::string g;
  std::vector<std::array<int, 3>> v;
  bool affine = true;
  std::vector<double> dv;
};
struct Handle
{
  int h = 0;
  t8_cmesh_t c = nullptr;
  t8_forest_t f = nullptr;
  std::shared_ptr<std::vector<Tree>> t;
  int part = 0;
  bool bare = false; /* ghost trees may have no coordinates */
};

/* corners of the reference cells */
static const std::vector<std::array<int, 3>> ref_verts[8]
  = { { { 0, 0, 0 } },
      { { 0, 0, 0 }, { 1, 0, 0 } },
      { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 } },
      { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 } },
      { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } },
      { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0, 1 }, { 1, 1, 1 } },
      { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 } },
      { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 1, 1, 1 } } };
static const int lag_nodes[8] = { 0, 3, 9, 6, 27, 0, 0, 0 };

static long long
ipow (long long b, int e)
{
  long long r = 1;
  while (e-- > 0) r *= b;
  return r;
}
static long long
scale_of (const Tree &t, long long M)
{
  if (t.g == "ax" || t.g == "ana") return M;
  if (t.g == "zero") return 1;
  if (t.g == "lag2") return t.c == 1 || t.c == 3 ? ipow (M, 2) : t.c == 2 ? ipow (M, 4) : ipow (M, 6);
  switch (t.c) {
  case 0: return 1;
  case 1: case 3: case 5: return M;
  case 2: case 6: case 7: return M * M;
  default: return M * M * M;
  }
}
/* the numbers of the specification have 31 bits */
static bool
fits (long long scale)
{
  return scale <= 30000000;
}
/* an integer up to rounding errors, or a number nothing explains */
static long long
near (double x, bool loose = false)
{
  if (!(std::fabs (x) < 2.1e9)) return -7777777;
  double r = std::nearbyint (x);
  if (!loose && std::fabs (x - r) > 1e-6 * (1 + std::fabs (x) * 1e-3)) return -7777777;
  return (long long) r;
}
static void
vec (J &j, const double *x, double s, bool loose = false)
{
  j.open ('[');
  for (int k = 0; k < 3; k++) j.num (near (x[k] * s, loose));
  j.close (']');
}
static bool
loose_of (const Tree &t)
{
  return t.c == 7 && (t.g == "lin" || t.g == "lag1");
}

static void
ana_fn (t8_cmesh_t, t8_gloidx_t, const double *ref, const size_t n, double *out, const void *tree_data, const void *user)
{
  const double *v = (const double *) tree_data;
  int dim = *(const int *) user;
  for (size_t k = 0; k < n; k++)
    for (int a = 0; a < 3; a++) out[3 * k + a] = v[a] + (a < dim ? ref[k * dim + a] : 0);
}
static void
ana_jac (t8_cmesh_t, t8_gloidx_t, const double *, const size_t n, double *jac, const void *, const void *user)
{
  int dim = *(const int *) user;
  for (size_t k = 0; k < n; k++)
    for (int d = 0; d < dim; d++)
      for (int a = 0; a < 3; a++) jac[3 * dim * k + 3 * d + a] = a == d;
}
static int ana_dim[4] = { 0, 1, 2, 3 };

static Tree
random_tree (Rng &r, int dim, const std::string &g)
{
  static const std::vector<int> of_dim[4] = { { 0 }, { 1 }, { 2, 3 }, { 4, 5, 6, 7 } };
  Tree t;
  t.g = g;
  const bool lag = g == "lag1" || g == "lag2";
  do t.c = of_dim[dim][r.below ((int) of_dim[dim].size ())];
  while ((lag && !lag_nodes[t.c]) || (g == "ax" && t.c != 1 && t.c != 2 && t.c != 4));
  auto box = [&] (int a) { return r.range (-a, a); };
  if (g == "ax") {
    std::array<int, 3> a = { box (6), box (6), box (6) }, b = a;
    /* a line along any axis, a quad in any axis aligned plane */
    int keep = dim == 3 ? 7 : dim == 1 ? 1 << r.below (3) : 7 & ~(1 << r.below (3));
    for (int k = 0; k < 3; k++)
      if (keep >> k & 1) b[k] += r.range (1, 7);
    t.v = { a, b };
  }
  else if (g == "lag2") {
    for (int k = 0; k < lag_nodes[t.c]; k++) t.v.push_back ({ box (5), box (5), box (5) });
    t.affine = false;
  }
  else {
    int A[3][3], ok = 0;
    std::array<int, 3> o = { box (8), box (8), box (8) };
    while (!ok) {
      int kind = r.below (4);
      for (int k = 0; k < 3; k++)
        for (int l = 0; l < 3; l++) A[k][l] = kind == 0 ? (k == l ? r.range (1, 5) : 0) : kind == 1 ? (k == (l + 1) % 3 ? box (5) : 0) : box (4);
      long d[3] = { (long) A[1][0] * A[2][1] - (long) A[2][0] * A[1][1], (long) A[2][0] * A[0][1] - (long) A[0][0] * A[2][1],
                    (long) A[0][0] * A[1][1] - (long) A[1][0] * A[0][1] };
      long det = d[0] * A[0][2] + d[1] * A[1][2] + d[2] * A[2][2];
      ok = dim == 0 || (dim == 1 && (A[0][0] || A[1][0] || A[2][0])) || (dim == 2 && (d[0] || d[1] || d[2])) || (dim == 3 && det != 0);
    }
    for (auto &p : ref_verts[t.c]) {
      std::array<int, 3> x = o;
      for (int k = 0; k < 3; k++)
        for (int l = 0; l < 3; l++) x[k] += A[k][l] * p[l];
      t.v.push_back (x);
    }
    if (t.c != 3 && t.c != 5 && t.c > 1 && r.below (3) == 0) { /* not affine */
      for (auto &x : t.v)
        for (int k = 0; k < 3; k++) x[k] += box (2);
      t.affine = false;
    }
    if (g != "lin") t.affine = false;
  }
  for (auto &x : t.v)
    for (int k = 0; k < 3; k++) t.dv.push_back (x[k]);
  return t;
}

/* an XML file: nested tags with attributes; the text of a tag is a list of numbers */
struct Xml
{
  std::string name;
  std::map<std::string, std::string> a;
  std::vector<Xml> sub;
  std::vector<double> val;
  bool good = true; /* the text has nothing but numbers */
  const Xml *
  child (const char *n) const
  {
    for (auto &x : sub)
      if (x.name == n) return &x;
    return nullptr;
  }
  std::string
  at (const char *n) const
  {
    auto i = a.find (n);
    return i == a.end () ? "" : i->second;
  }
};
/* false: not well formed */
static bool
read_xml (const std::string &t, Xml &root)
{
  std::vector<Xml *> st = { &root };
  size_t p = 0;
  while (p < t.size ()) {
    if (t[p] != '<') { /* text up to the next tag */
      size_t e = std::min (t.find ('<', p), t.size ());
      const char *c = t.c_str () + p, *end = t.c_str () + e;
      while (true) {
        while (c < end && isspace ((unsigned char) *c)) c++;
        if (c >= end) break;
        char *n;
        double v = strtod (c, &n);
        if (n == c || n > end || (n < end && !isspace ((unsigned char) *n))) {
          st.back ()->good = false;
          break;
        }
        st.back ()->val.push_back (v);
        c = n;
      }
      p = e;
      continue;
    }
    size_t e = t.find ('>', p);
    if (e == std::string::npos) return false;
    std::string g = t.substr (p + 1, e - p - 1);
    p = e + 1;
    if (g.empty ()) return false;
    if (g[0] == '?') continue;
    if (g[0] == '/') {
      if (st.size () < 2 || st.back ()->name != g.substr (1)) return false;
      st.pop_back ();
      continue;
    }
    const bool closed = g.back () == '/';
    if (closed) g.pop_back ();
    Xml x;
    size_t q = 0;
    while (q < g.size () && !isspace ((unsigned char) g[q])) q++;
    x.name = g.substr (0, q);
    while (true) {
      while (q < g.size () && isspace ((unsigned char) g[q])) q++;
      if (q >= g.size ()) break;
      size_t eq = g.find ('=', q);
      if (eq == std::string::npos) return false;
      std::string key = g.substr (q, eq - q);
      while (!key.empty () && isspace ((unsigned char) key.back ())) key.pop_back ();
      q = eq + 1;
      while (q < g.size () && isspace ((unsigned char) g[q])) q++;
      if (q >= g.size () || g[q] != '"') return false;
      size_t z = g.find ('"', q + 1);
      if (z == std::string::npos || x.a.count (key)) return false;
      x.a[key] = g.substr (q + 1, z - q - 1);
      q = z + 1;
    }
    st.back ()->sub.push_back (x);
    if (!closed) st.push_back (&st.back ()->sub.back ());
  }
  return st.size () == 1 && root.good && root.val.empty ();
}
static bool
slurp (const std::string &n, std::string &t)
{
  FILE *f = fopen (n.c_str (), "rb");
  if (!f) return false;
  char b[65536];
  size_t k;
  while ((k = fread (b, 1, sizeof b, f)) > 0) t.append (b, k);
  fclose (f);
  return true;
}

struct Story
{
  Group &G;
  Rng &r;  /* the same on all processes: what happens */
  Rng q;   /* of this process: what is asked */
  J j;
  std::vector<Handle> live;
  int next = 0, dim = 0, standalone = 0;
  Story (Group &G_, Rng &r_): G (G_), r (r_), q (vh_mix (r_.s + 77 * (uint64_t) (G_.rank + 1))) { j.open ('['); }

  void
  make ()
  {
    Handle m;
    m.h = next++;
    m.t = std::make_shared<std::vector<Tree>> ();
    std::vector<std::string> gs;
    const int kinds = r.below (3) == 0 ? r.range (1, 3) : 1;
    static const char *all[] = { "lin", "lin", "ax", "lag1", "lag2", "ana", "zero" };
    for (int k = 0; k < kinds; k++) {
      std::string g = all[r.below (MODES.find_first_of ("cv") == std::string::npos ? 3 : 7)];
      if ((g == "ax" || g == "lag1" || g == "lag2") && dim == 0) g = "lin";
      gs.push_back (g);
    }
    int nt = r.range (1, 6);
    for (int k = 0; k < nt; k++) m.t->push_back (random_tree (r, dim, gs[r.below ((int) gs.size ())]));
    const int part = G.size > 1 ? r.below (2) : 0;
    const bool chain = MODES.find ('v') != std::string::npos && dim > 0 && r.below (2);
    m.bare = chain && part && r.below (4) == 0;
    t8_cmesh_init (&m.c);
    std::sort (gs.begin (), gs.end ());
    gs.erase (std::unique (gs.begin (), gs.end ()), gs.end ());
    bool lag = false;
    std::vector<std::pair<std::string, t8_geometry *>> reg;
    for (auto &g : gs) {
      t8_geometry *p = nullptr;
      if (g == "lin") p = t8_cmesh_register_geometry<t8_geometry_linear> (m.c);
      else if (g == "ax") p = t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (m.c);
      else if (g == "ana") p = t8_cmesh_register_geometry<t8_geometry_analytic> (m.c, "vh_ana", ana_fn, ana_jac, t8_geom_load_tree_data_vertices, nullptr, nullptr, (const void *) &ana_dim[dim]);
      else if (g == "zero") p = t8_cmesh_register_geometry<t8_geometry_zero> (m.c);
      else {
        if (!lag) p = t8_cmesh_register_geometry<t8_geometry_lagrange> (m.c);
        else
          for (auto &x : reg)
            if (x.first[0] == 'l' && x.first[1] == 'a') p = x.second;
        lag = true;
      }
      reg.push_back ({ g, p });
    }
    t8_cmesh_set_dimension (m.c, dim);
    t8_cmesh_disable_negative_volume_check (m.c);
    int lo = 0, hi = nt - 1;
    if (part) { /* the processes share the trees evenly */
      lo = (int) ((long) nt * G.rank / G.size);
      hi = (int) ((long) nt * (G.rank + 1) / G.size) - 1;
      t8_cmesh_set_partition_range (m.c, 3, lo, hi);
    }
    auto joined = [&] (int k) { return chain && k >= 0 && k + 1 < nt && (*m.t)[k].c == (*m.t)[k + 1].c && (*m.t)[k].c != 6 && (*m.t)[k].c != 7; };
    for (int k = 0; k < nt; k++) { /* the process's trees and their neighbours */
      if ((k < lo || k > hi) && !(hi >= lo && ((k == lo - 1 && joined (k)) || (k == hi + 1 && joined (k - 1))))) continue;
      Tree &t = (*m.t)[k];
      t8_cmesh_set_tree_class (m.c, k, (t8_eclass_t) t.c);
      if (m.bare && (k < lo || k > hi)) continue;
      t8_cmesh_set_tree_vertices (m.c, k, t.dv.data (), (int) t.v.size ());
      for (auto &x : reg)
        if (x.first == t.g && reg.size () > 1) t8_cmesh_set_tree_geometry (m.c, k, x.second);
      if (t.g[0] == 'l' && t.g[1] == 'a') {
        int deg = t.g[3] - '0';
        t8_cmesh_set_attribute (m.c, k, t8_get_package_id (), T8_CMESH_LAGRANGE_POLY_DEGREE_KEY, &deg, sizeof (int), 0);
      }
    }
    if (chain) /* consecutive trees of the same class are neighbours */
      for (int k = 0; k + 1 < nt; k++)
        if (joined (k) && ((k >= lo && k <= hi) || (k + 1 >= lo && k + 1 <= hi))) t8_cmesh_set_join (m.c, k, k + 1, 1, 0, 0);
    t8_cmesh_commit (m.c, G.comm);
    m.part = part;
    j.open ('{').key ("k").str ("new").kn ("h", m.h).key ("t").open ('[');
    for (auto &t : *m.t) {
      j.open ('{').kn ("c", t.c).key ("g").str (t.g.c_str ()).key ("v").open ('[');
      for (auto &x : t.v) j.arr (x);
      j.close (']').close ('}');
    }
    j.close (']').close ('}');
    live.push_back (m);
  }
  void
  derived (Handle &m, int from)
  {
    m.h = next++;
    j.open ('{').key ("k").str ("derive").kn ("h", m.h).kn ("f", from).close ('}');
    live.push_back (m);
  }
  static int
  adapt_fn (t8_forest_t, t8_forest_t from, t8_locidx_t, const t8_eclass_t, t8_locidx_t lelem, const t8_scheme *, const int,
            const int, t8_element_t *[])
  {
    uint64_t s = *(uint64_t *) t8_forest_get_user_data (from);
    return vh_mix (s + (uint64_t) (t8_forest_get_first_local_leaf_element_id (from) + lelem)) % 3 == 0;
  }
  void
  derive ()
  {
    Handle &a = live[r.below ((int) live.size ())];
    Handle b;
    b.t = a.t;
    b.part = a.part;
    b.bare = a.bare;
    const int from = a.h;
    if (a.c) {
      int op = r.below (a.bare ? 2 : 3);
      if (op == 0) { /* a copy */
        t8_cmesh_ref (a.c);
        t8_cmesh_init (&b.c);
        t8_cmesh_set_derive (b.c, a.c);
        t8_cmesh_commit (b.c, G.comm);
      }
      else if (op == 1) { /* repartitioned */
        t8_cmesh_ref (a.c);
        t8_cmesh_init (&b.c);
        t8_cmesh_set_derive (b.c, a.c);
        t8_cmesh_set_partition_uniform (b.c, r.below (2), vh_scheme (0));
        b.part = 1;
        t8_cmesh_commit (b.c, G.comm);
      }
      else {
        t8_cmesh_ref (a.c);
        b.f = t8_forest_new_uniform (a.c, vh_scheme (standalone), r.below (3), MODES.find ('v') != std::string::npos && r.below (2), G.comm);
      }
    }
    else {
      int op = r.below (3);
      uint64_t seed = r.next ();
      t8_forest_ref (a.f);
      t8_forest_set_user_data (a.f, &seed);
      t8_forest_init (&b.f);
      if (op != 1) t8_forest_set_adapt (b.f, a.f, adapt_fn, 0);
      if (op != 0) t8_forest_set_partition (b.f, op == 1 ? a.f : nullptr, 0);
      if (MODES.find ('v') != std::string::npos && r.below (3)) t8_forest_set_ghost (b.f, 1, T8_GHOST_FACES);
      t8_forest_commit (b.f);
    }
    derived (b, from);
  }
  void
  destroy ()
  {
    int k = r.below ((int) live.size ());
    Handle m = live[k];
    live.erase (live.begin () + k);
    if (m.c) t8_cmesh_unref (&m.c);
    if (m.f) t8_forest_unref (&m.f);
    j.open ('{').key ("k").str ("free").kn ("h", m.h).close ('}');
  }

  void
  rpoint (int *p, int M)
  {
    for (int a = 0; a < 3; a++) p[a] = a < dim ? q.range (0, M) : 0;
  }
  /* a point of the reference cell of a class */
  void
  cpoint (int c, int *p, int M)
  {
    rpoint (p, M);
    if (q.below (6) == 0) /* a corner */
      for (int a = 0; a < dim; a++) p[a] = q.below (2) * M;
    if (c == 3 || c == 6)
      if (p[1] > p[0]) std::swap (p[0], p[1]);
    if (c == 5) { /* y <= z <= x */
      std::sort (p, p + 3);
      const int lo = p[0], mi = p[1], hi = p[2];
      p[0] = hi, p[1] = lo, p[2] = mi;
    }
    if (c == 7) {
      int m = std::min (p[0], p[1]);
      if (p[2] > m) p[2] = m;
    }
  }
  void
  ask_mesh (Handle &m)
  {
    t8_cmesh_t c = m.c ? m.c : t8_forest_get_cmesh (m.f);
    const t8_locidx_t nl = t8_cmesh_get_num_local_trees (c);
    if (nl == 0) return;
    const t8_gloidx_t g = t8_cmesh_get_global_id (c, q.below (nl));
    const Tree &t = (*m.t)[g];
    const int M = t.g == "lag2" && t.c == 4 ? 8 : t.g == "lag2" ? 16 : t.c == 4 ? q.range (2, 60) : q.range (2, 200);
    const bool lag = t.g == "lag1" || t.g == "lag2";
    int n = lag ? 1 : q.range (1, 5);
    std::vector<int> P (3 * n);
    std::vector<double> ref (dim ? dim * n : 1), out (3 * n, -1e30);
    for (int k = 0; k < n; k++) {
      cpoint (t.c, &P[3 * k], M);
      for (int a = 0; a < dim; a++) ref[k * dim + a] = (double) P[3 * k + a] / M;
    }
    t8_geometry_evaluate (c, g, ref.data (), n, out.data ());
    j.open ('{').key ("k").str ("eval").kn ("h", m.h).kn ("t", g).kn ("M", M).key ("p").open ('[');
    for (int k = 0; k < n; k++) j.open ('[').num (P[3 * k]).num (P[3 * k + 1]).num (P[3 * k + 2]).close (']');
    j.close (']').key ("r").open ('[');
    for (int k = 0; k < n; k++) vec (j, &out[3 * k], (double) scale_of (t, M), loose_of (t));
    j.close (']').close ('}');
    if ((t.g == "ana" || t.g == "zero") && dim > 0) {
      std::vector<double> jac (3 * dim * n + 1, -5);
      t8_geometry_jacobian (c, g, ref.data (), n, jac.data ());
      bool ok = jac[3 * dim * n] == -5;
      for (int k = 0; k < n; k++)
        for (int d = 0; d < dim; d++)
          for (int a = 0; a < 3; a++) ok = ok && jac[3 * dim * k + 3 * d + a] == (t.g == "ana" && a == d);
      j.open ('{').key ("k").str ("jac").kn ("h", m.h).kn ("j", ok).close ('}');
    }
    if (t.g == "lin" || t.g == "ax")
      j.open ('{').key ("k").str ("neg").kn ("h", m.h).kn ("t", g).kn ("n", t8_geometry_tree_negative_volume (c, g) != 0).close ('}');
    bool lin = true;
    std::vector<int> loc;
    for (int k = 0; k < nl; k++) {
      int x = (int) t8_cmesh_get_global_id (c, k);
      loc.push_back (x);
      lin = lin && ((*m.t)[x].g == "lin" || (*m.t)[x].g == "ax");
    }
    if (lin) {
      double b[6] = { -1e30, -1e30, -1e30, -1e30, -1e30, -1e30 };
      bool ok = t8_cmesh_get_local_bounding_box (c, b);
      j.open ('{').key ("k").str ("box").kn ("h", m.h).kn ("ok", ok).key ("loc").arr (loc).key ("b").open ('[');
      for (double x : b) j.num (near (x));
      j.close (']').close ('}');
    }
  }
  void
  path_of (const t8_scheme *s, t8_eclass_t c, const t8_element_t *e, Path &p)
  {
    const int l = s->element_get_level (c, e);
    for (int k = 1; k <= l; k++) p.push_back (s->element_get_ancestor_id (c, e, k));
  }
  void
  ask_elem (Handle &m)
  {
    const t8_locidx_t nt = t8_forest_get_num_local_trees (m.f);
    if (nt == 0) return;
    const t8_locidx_t lt = q.below (nt);
    const t8_locidx_t ne = t8_forest_get_tree_num_leaf_elements (m.f, lt);
    if (ne == 0) return;
    const t8_scheme *s = t8_forest_get_scheme (m.f);
    const t8_eclass_t c = t8_forest_get_tree_class (m.f, lt);
    const t8_gloidx_t g = t8_forest_global_tree_id (m.f, lt);
    const Tree &t = (*m.t)[g];
    const t8_element_t *e = t8_forest_get_leaf_element_in_tree (m.f, lt, q.below (ne));
    Path p;
    path_of (s, c, e, p);
    const int N = 1 << p.size (), sh = (int) s->element_get_shape (c, e), nv = s->element_get_num_corners (c, e);
    const bool loose = loose_of (t), lag = t.g == "lag1" || t.g == "lag2";
    std::vector<double> x (3 * nv);
    for (int k = 0; k < nv; k++) t8_forest_element_coordinate (m.f, lt, e, k, &x[3 * k]);
    if (MODES.find ('c') != std::string::npos && p.size () <= 10 && fits (scale_of (t, N) * nv)) {
      int D = t.g == "lag2" ? (t.c == 4 ? std::max (1, 8 / N) : 4) : t.c == 4 ? q.range (2, 12) : q.range (2, 20);
      while (D > 1 && !fits (scale_of (t, (long long) N * D))) D--;
      int n = lag ? 1 : q.below (8) == 0 ? q.range (9, 14) : q.range (1, 5);
      std::vector<int> P (3 * n);
      /* the coordinates of consecutive points in an element are three apart */
      std::vector<double> ref (3 * n, dim ? -1e30 : 0.), out (3 * n, -1e30);
      for (int k = 0; k < n; k++) {
        cpoint (sh, &P[3 * k], D);
        for (int a = 0; a < dim; a++) ref[k * 3 + a] = (double) P[3 * k + a] / D;
      }
      t8_forest_element_from_ref_coords (m.f, lt, e, ref.data (), n, out.data ());
      j.open ('{').key ("k").str ("el").kn ("h", m.h).kn ("t", g).key ("p").arr (p).kn ("D", D).key ("q").open ('[');
      for (int k = 0; k < n; k++) j.open ('[').num (P[3 * k]).num (P[3 * k + 1]).num (P[3 * k + 2]).close (']');
      j.close (']').key ("r").open ('[');
      for (int k = 0; k < n; k++) vec (j, &out[3 * k], (double) scale_of (t, (long long) N * D), loose);
      j.close (']').key ("x").open ('[');
      for (int k = 0; k < nv; k++) vec (j, &x[3 * k], (double) scale_of (t, N), loose);
      j.close (']');
      const bool lag27 = t.g == "lag2" && t.c == 4;
      double y[3];
      if (!lag27 && fits (scale_of (t, (long long) N * nv))) {
        t8_forest_element_centroid (m.f, lt, e, y);
        j.key ("c");
        vec (j, y, (double) scale_of (t, (long long) N * nv), loose);
      }
      if (!loose || t.affine) {
        t8_forest_element_linear_centroid (m.f, lt, e, y);
        j.key ("lc");
        vec (j, y, (double) scale_of (t, N) * nv, loose);
      }
      if (!lag && t.g != "ana" && t.g != "zero" && dim > 0 && D <= 5 && q.below (2)) {
        double st[3] = { 1, 1, 1 };
        int k4[3] = { 4, 4, 4 };
        for (int a = 0; a < dim; a++) st[a] = (k4[a] = q.range (1, 4)) / 4.;
        /* stretched points may leave the cell; only affine trees are asked, whose map is affine everywhere */
        if (t.affine && fits (scale_of (t, (long long) N * D * 8))) {
          t8_forest_element_from_ref_coords_ext (m.f, lt, e, ref.data (), n, out.data (), st);
          j.key ("st").arr (std::vector<int> (k4, k4 + 3)).key ("sr").open ('[');
          for (int k = 0; k < n; k++) vec (j, &out[3 * k], (double) scale_of (t, (long long) N * D * 8), loose);
          j.close (']');
        }
      }
      j.close ('}');
    }
    if (MODES.find ('m') != std::string::npos && t.affine && dim > 0) {
      const double v = t8_forest_element_volume (m.f, lt, e);
      double sv;
      if (dim == 1) sv = v * N * v * N;
      else if (dim == 2) sv = (sh == 3 ? 4 : 1) * v * v * ipow (N, 4);
      else sv = 6 * v * ipow (N, 3);
      const int K = dim == 2 ? 1000 : 10000;
      j.open ('{').key ("k").str ("me").kn ("h", m.h).kn ("t", g).key ("p").arr (p).kn ("K", K).kn ("v", v < 0 ? -7777777 : near (sv));
      std::string fa = "[", fn = "[", fc = "[";
      for (int f = 0; f < s->element_get_num_faces (c, e); f++) {
        const int fs = (int) s->element_get_face_shape (c, e, f);
        const double a = t8_forest_element_face_area (m.f, lt, e, f);
        double n[3], y[3];
        t8_forest_element_face_normal (m.f, lt, e, f, n);
        t8_forest_element_face_centroid (m.f, lt, e, f, y);
        J ja, jn, jc;
        ja.num (a < 0 ? -7777777 : near (fs == 0 ? a : fs == 1 ? a * a * N * N : (fs == 3 ? 4 : 1) * a * a * ipow (N, 4)));
        vec (jn, n, K, true);
        vec (jc, y, (double) N * t8_eclass_num_vertices[fs]);
        fa += (f ? "," : "") + ja.t, fn += (f ? "," : "") + jn.t, fc += (f ? "," : "") + jc.t;
      }
      j.key ("fa").raw (fa + "]").key ("fn").raw (fn + "]").key ("fc").raw (fc + "]");
      const double d = t8_forest_element_diam (m.f, lt, e) * N * nv;
      j.kn ("d", near (d * d, dim > 1)).close ('}');
    }
    if (MODES.find ('i') != std::string::npos && t.affine) {
      std::vector<std::array<long long, 3>> P (nv);
      for (int k = 0; k < nv; k++)
        for (int a = 0; a < 3; a++) P[k][a] = std::llround (x[3 * k + a] * N);
      const int n = q.range (1, 12);
      std::vector<std::array<long long, 3>> Q (n);
      std::vector<double> pts (3 * n);
      std::vector<int> in (n, -1);
      for (int k = 0; k < n; k++) {
        int b = q.below (nv), left = 4;
        for (int a = 0; a < 3; a++) Q[k][a] = 4 * P[b][a];
        const int kind = q.below (3);
        for (int l = 0; l < 4; l++) {
          int o = q.below (nv), wt = kind == 0 ? q.range (0, left) : kind == 1 ? q.range (-2, 3) : q.range (0, 2);
          left -= kind == 0 ? wt : 0;
          for (int a = 0; a < 3; a++) Q[k][a] += wt * (P[o][a] - P[b][a]);
        }
        if (q.below (5) == 0) Q[k][q.below (3)] += q.range (-2, 2);
        for (int a = 0; a < 3; a++) pts[3 * k + a] = (double) Q[k][a] / (4. * N);
      }
      t8_forest_element_points_inside (m.f, lt, e, pts.data (), n, in.data (), 1e-8);
      j.open ('{').key ("k").str ("in").kn ("h", m.h).kn ("t", g).key ("p").arr (p).key ("q").open ('[');
      for (auto &y : Q) j.arr (y);
      j.close (']').key ("in").open ('[');
      for (int y : in) j.num (y != 0);
      j.close (']').close ('}');
    }
  }
  /* ------------------------------ output files ------------------------------ */
  static void
  tok (J &o, const std::string &x)
  {
    std::string y;
    for (char c : x) y += c == '"' || c == '\\' || (unsigned char) c < 32 ? '?' : c;
    o.str (y.c_str ());
  }
  static void
  arrays (J &o, const Xml *x, const char *tag)
  {
    o.open ('[');
    if (x)
      for (auto &d : x->sub) {
        o.open ('{').key ("n");
        tok (o, d.at ("Name"));
        o.key ("t");
        tok (o, d.at ("type"));
        o.kn ("c", d.a.count ("NumberOfComponents") ? atoi (d.at ("NumberOfComponents").c_str ()) : 1);
        o.kn ("ok", d.name == tag && d.good && d.sub.empty () && d.at ("format") == "ascii").key ("v").open ('[');
        for (double y : d.val) o.num (near (4 * y)); /* all numbers are multiples of 1/4 */
        o.close (']').close ('}');
      }
    o.close (']');
  }
  /* the file of this process: cells with their shapes' numbers of points; the points in units of 1/scale of their cell */
  void
  emit_piece (const std::string &name, const std::vector<int> &nv, const std::vector<double> &scale, const std::vector<int> &loose)
  {
    std::string t;
    Xml x;
    const bool have = slurp (name, t), wf = have && read_xml (t, x);
    unlink (name.c_str ());
    j.kn ("file", have).kn ("wf", wf);
    if (!wf) return;
    const Xml *g = x.child ("VTKFile"), *u = g ? g->child ("UnstructuredGrid") : nullptr, *p = u ? u->child ("Piece") : nullptr;
    j.kn ("piece", p && g->at ("type") == "UnstructuredGrid" && x.sub.size () == 1 && g->sub.size () == 1 && u->sub.size () == 1);
    if (!p) return;
    j.kn ("np", atoll (p->at ("NumberOfPoints").c_str ())).kn ("nc", atoll (p->at ("NumberOfCells").c_str ()));
    const Xml *P = p->child ("Points"), *d = P && P->sub.size () == 1 ? &P->sub[0] : nullptr;
    j.kn ("posok", d && d->name == "DataArray" && d->good && d->at ("Name") == "Position" && d->at ("NumberOfComponents") == "3");
    j.key ("post");
    tok (j, d ? d->at ("type") : "");
    j.kn ("npos", d ? (long long) d->val.size () : -1);
    j.key ("pts").open ('[');
    size_t at = 0;
    for (size_t k = 0; d && k < nv.size (); k++) {
      j.open ('[');
      for (int l = 0; l < nv[k] && at + 3 <= d->val.size (); l++, at += 3) {
        j.open ('[');
        for (int a = 0; a < 3; a++) { /* nine digits are written */
          const double y = d->val[at + a] * scale[k], z = std::nearbyint (y);
          j.num (!loose[k] && std::fabs (y - z) > 1e-6 + 1.2e-8 * std::fabs (y) ? -7777777 : near (z));
        }
        j.close (']');
      }
      j.close (']');
    }
    j.close (']').key ("cells");
    arrays (j, p->child ("Cells"), "DataArray");
    j.key ("cd");
    arrays (j, p->child ("CellData"), "DataArray");
    j.key ("pd");
    arrays (j, p->child ("PointData"), "DataArray");
  }
  void
  emit_master (const std::string &name)
  {
    std::string t;
    Xml x;
    const bool have = slurp (name, t), wf = have && read_xml (t, x);
    unlink (name.c_str ());
    j.key ("pv").open ('{').kn ("file", have).kn ("wf", wf);
    const Xml *g = wf ? x.child ("VTKFile") : nullptr, *u = g ? g->child ("PUnstructuredGrid") : nullptr;
    j.kn ("grid", u && g->at ("type") == "PUnstructuredGrid" && g->sub.size () == 1);
    int stray = 0;
    j.key ("src").open ('[');
    if (u)
      for (auto &y : u->sub) {
        if (y.name == "Piece") tok (j, y.at ("Source"));
        else if (y.name != "PPoints" && y.name != "PPointData" && y.name != "PCellData") stray++;
      }
    j.close (']').kn ("stray", stray).key ("pos");
    arrays (j, u ? u->child ("PPoints") : nullptr, "PDataArray");
    j.key ("cd");
    arrays (j, u ? u->child ("PCellData") : nullptr, "PDataArray");
    j.key ("pd");
    arrays (j, u ? u->child ("PPointData") : nullptr, "PDataArray");
    j.close ('}');
  }
  void
  vtk_forest (Handle &m)
  {
    const t8_scheme *s = t8_forest_get_scheme (m.f);
    const bool ghosts = t8_forest_get_num_ghosts (m.f) > 0;
    std::vector<int> nv, loose;
    std::vector<double> scale;
    J el, gh;
    int ok = t8_forest_get_local_num_leaf_elements (m.f) + (ghosts ? t8_forest_get_num_ghosts (m.f) : 0) <= 150;
    auto add = [&] (J &o, t8_gloidx_t g, t8_eclass_t c, const t8_element_t *e) {
      const Tree &t = (*m.t)[g];
      Path p;
      path_of (s, c, e, p);
      const long long N = 1ll << p.size (), sc = scale_of (t, N);
      if (sc > 400000) ok = 0;
      nv.push_back (s->element_get_num_corners (c, e)), scale.push_back ((double) sc), loose.push_back (loose_of (t));
      o.open ('[').num (g).arr (p).close (']');
    };
    el.open ('['), gh.open ('[');
    if (ok) {
      for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (m.f); lt++)
        for (t8_locidx_t k = 0; k < t8_forest_get_tree_num_leaf_elements (m.f, lt); k++)
          add (el, t8_forest_global_tree_id (m.f, lt), t8_forest_get_tree_class (m.f, lt), t8_forest_get_leaf_element_in_tree (m.f, lt, k));
      const size_t nl = nv.size ();
      const bool wg = r.below (2);
      if (ghosts)
        for (t8_locidx_t lt = 0; lt < t8_forest_ghost_num_trees (m.f); lt++)
          for (t8_locidx_t k = 0; k < t8_forest_ghost_tree_num_leaf_elements (m.f, lt); k++)
            add (gh, t8_forest_ghost_get_global_treeid (m.f, lt), t8_forest_ghost_get_tree_class (m.f, lt), t8_forest_ghost_get_leaf_element (m.f, lt, k));
      write_forest (m, ok, ghosts, wg, nl, nv, scale, loose, el, gh);
    }
    else {
      r.below (2);
      write_forest (m, 0, ghosts, false, 0, nv, scale, loose, el, gh);
    }
  }
  void
  write_forest (Handle &m, int ok, bool ghosts, bool wg, size_t nl, std::vector<int> &nv, std::vector<double> &scale, std::vector<int> &loose,
                J &el, J &gh)
  {
    int all = 0;
    MPI_Allreduce (&ok, &all, 1, MPI_INT, MPI_MIN, G.comm);
    /* everybody draws the same */
    int fl[4], nd = r.below (4), ns = r.range (0, nd), api = r.below (4);
    for (int &x : fl) x = r.below (3) > 0;
    const bool curved = r.below (8) == 0;
    if (!all) return;
    const size_t n = nv.size ();
    std::vector<t8_vtk_data_field_t> ds (nd);
    std::vector<std::vector<double>> val (nd);
    if (api == 0) nd = 0, wg = false, fl[0] = fl[1] = fl[2] = fl[3] = 1;
    J jd;
    jd.open ('[');
    for (int k = 0; k < nd; k++) {
      ds[k].type = k < ns ? T8_VTK_SCALAR : T8_VTK_VECTOR;
      snprintf (ds[k].description, BUFSIZ, "field %d", k);
      for (size_t l = 0; l < n * (k < ns ? 1 : 3); l++) val[k].push_back (q.below (3) ? q.range (-999999, 999999) : q.range (-9999, 9999) / 4.);
      ds[k].data = val[k].data ();
      jd.open ('{').key ("n").str (ds[k].description).kn ("c", k < ns ? 1 : 3).key ("v").open ('[');
      for (double x : val[k]) jd.num (near (4 * x));
      jd.close (']').close ('}');
    }
    jd.close (']');
    el.close (']'), gh.close (']');
    std::string base = "vtk_" + std::to_string (G.id) + "_" + std::to_string (m.h), pre = OUTNAME + "." + base;
    int ret = api == 0   ? t8_forest_write_vtk (m.f, pre.c_str ())
              : api == 1 ? t8_forest_vtk_write_file (m.f, pre.c_str (), fl[0], fl[1], fl[2], fl[3], wg, nd, ds.data ())
                         : t8_forest_write_vtk_ext (m.f, pre.c_str (), fl[0], fl[1], fl[2], fl[3], wg, curved, r.below (2), nd, ds.data ());
    char num[16];
    snprintf (num, sizeof num, "_%04d.vtu", G.rank);
    /* no such directory: nothing is written and the caller is told so */
    const int none = r.below (4) ? 0 : t8_forest_vtk_write_file (m.f, (OUTNAME + ".none/" + base).c_str (), fl[0], fl[1], fl[2], fl[3], wg, nd, ds.data ());
    j.open ('{').key ("k").str ("vtk").kn ("none", none != 0).kn ("h", m.h).kn ("rank", G.rank).kn ("P", G.size).kn ("ret", ret != 0).kn ("fe", t8_forest_get_first_local_leaf_element_id (m.f));
    j.key ("fl").arr (std::vector<int> (fl, fl + 4)).kn ("wg", wg && ghosts).key ("el").raw (el.t).key ("gh").raw (gh.t).key ("ds").raw (jd.t);
    if (!wg) nv.resize (nl), scale.resize (nl), loose.resize (nl);
    emit_piece (pre + num, nv, scale, loose);
    if (G.rank == 0) {
      size_t sl = pre.rfind ('/');
      j.key ("name");
      tok (j, sl == std::string::npos ? pre : pre.substr (sl + 1));
      emit_master (pre + ".pvtu");
    }
    j.close ('}');
  }
  void
  vtk_mesh (Handle &m)
  {
    for (auto &t : *m.t)
      if (t.g == "ana" || t.g == "zero" || t.g == "lag2" || t.g == "ax") return; /* what their points are depends on more than their vertices */
    std::vector<int> nv, loose;
    std::vector<double> scale;
    J el, gh;
    el.open ('['), gh.open ('[');
    const t8_locidx_t nl = t8_cmesh_get_num_local_trees (m.c), ng = t8_cmesh_get_num_ghosts (m.c);
    int bare = 0;
    for (t8_locidx_t k = 0; k < nl + ng; k++) {
      const t8_gloidx_t g = t8_cmesh_get_global_id (m.c, k);
      (k < nl ? el : gh).num (g);
      nv.push_back (t8_eclass_num_vertices[(*m.t)[g].c]), scale.push_back (1), loose.push_back (0);
      if (k >= nl && !t8_cmesh_get_attribute (m.c, t8_get_package_id (), T8_CMESH_VERTICES_ATTRIBUTE_KEY, k)) bare = 1;
    }
    el.close (']'), gh.close (']');
    std::string base = "vtk_" + std::to_string (G.id) + "_" + std::to_string (m.h), pre = OUTNAME + "." + base;
    const int ret = t8_cmesh_vtk_write_file (m.c, pre.c_str ());
    char num[16];
    snprintf (num, sizeof num, "_%04d.vtu", G.rank);
    j.open ('{').key ("k").str ("vtkc").kn ("h", m.h).kn ("rank", G.rank).kn ("P", G.size).kn ("part", m.part).kn ("ret", ret != 0).kn ("bare", bare);
    j.key ("el").raw (el.t).key ("gh").raw (gh.t);
    if (bare) unlink ((pre + num).c_str ());
    else emit_piece (pre + num, nv, scale, loose);
    if (G.rank == 0) {
      size_t sl = pre.rfind ('/');
      j.key ("name");
      tok (j, sl == std::string::npos ? pre : pre.substr (sl + 1));
      emit_master (pre + ".pvtu");
    }
    j.close ('}');
  }
  void
  run (int steps)
  {
    dim = r.below (8) == 0 ? 0 : r.range (1, 3);
    if (MODES.find_first_of ("cv") == std::string::npos && dim == 0) dim = 3;
    standalone = r.below (4) == 0 && vh_envi ("VH_STANDALONE", 0);
    make ();
    for (int k = 0; k < steps; k++) {
      int op = r.below (10);
      if (live.empty () || (op == 0 && live.size () < 6)) make ();
      else if (op <= 4 && live.size () < 6) derive ();
      else if (op == 5 || live.size () >= 6) destroy ();
      if (live.empty ()) continue;
      if (MODES.find ('v') != std::string::npos) {
        Handle &m = live[r.below ((int) live.size ())];
        if (m.f) vtk_forest (m);
        else if (r.below (2)) vtk_mesh (m);
        continue;
      }
      for (int l = 0; l < 3; l++) {
        Handle &m = live[q.below ((int) live.size ())];
        if (MODES.find ('c') != std::string::npos) ask_mesh (m);
        if (m.f) ask_elem (m);
      }
    }
    while (!live.empty ()) destroy ();
    j.close (']');
  }
};

int
main (int argc, char **argv)
{
  vh_init (&argc, &argv);
  MODES = argv[1];
  OUTNAME = argv[2];
  Group G = vh_groups ();
  const uint64_t seed = (uint64_t) vh_envi ("VERIF_SEED", 1);
  const int N = (int) vh_envi ("VH_N", 10), steps = (int) vh_envi ("VH_STEPS", 14);
  const long only = vh_envi ("VH_ONLY", -1);
  std::string on = std::string (argv[2]) + "." + std::to_string (G.id);
  FILE *f = G.rank == 0 ? fopen (on.c_str (), "w") : nullptr;
  for (int k = 0; k < N; k++) {
    if (only >= 0 && k != only) continue;
    Rng r (vh_mix (seed * 7919 + (uint64_t) k * 131 + (uint64_t) G.id * 1000003 + 9));
    Story W (G, r);
    W.run (steps);
    /* one history per process */
    std::string all = G.gather ("{\"ev\":" + W.j.t + "}");
    if (f) {
      /* split at the level of the outer list: the histories are separated by "},{\"ev\":" */
      std::string s = all.substr (1, all.size () - 2);
      size_t p;
      while ((p = s.find (",{\"ev\":", 1)) != std::string::npos) {
        fprintf (f, "%s\n", s.substr (0, p).c_str ());
        s = s.substr (p + 1);
      }
      fprintf (f, "%s\n", s.c_str ());
      fflush (f);
    }
  }
  if (f) fclose (f);
  vh_merge (G, argv[2]);
  vh_fini ();
  return 0;
}
