/* h_forest MODE OUT: runs histories of collective forest operations on random coarse meshes in groups of processes and
 * writes, per history, what every process observed (one JSON line).
 * MODE is a string of letters, the kinds of operations that may occur:
 *   U uniform construction   A adapt   R recursive adapt   H adapt with removal   E iterate_replace after adapt
 *   P partition   W weighted partition   O partition with given offsets   F partition for coarsening
 *   D partition_data   T gather   L balance   G ghost layer   X ghost exchange   N leaf face neighbours
 *   Q element queries   S search   I iterate_faces   C copy   M combined operations
 *   V memory is returned at the end   Z deep refinement to the maximum level   Y operations through the mesh handle */
#include <array>
#include <map>
#include <set>
#include <string>
#include "vh_forest.hxx"
#include <t8_forest/t8_forest_iterate.h>
#include <t8_forest/t8_forest_private.h>
#include <functional>
#include <t8_forest/t8_forest_search/t8_forest_search.hxx>
#include <mesh_handle/mesh.hxx>
#include <mesh_handle/competence_pack.hxx>
#include <mesh_handle/constructor_wrappers.hxx>

static std::string mode;
static bool
on (char c)
{
  return mode.find (c) != std::string::npos;
}

/* -------------------------------- adapt --------------------------------- */
struct AdaptCtx
{
  uint64_t seed;
  int pref, pcoa, prem, cap;
  bool premfam = false; /* removal decided per family */
  bool over = false;  /* ask for refinement beyond the maximum level, too */
  long deepg = -1;    /* refine only ancestors of this one */
  Path deep;
  J calls;
};
static int
adapt_cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t tree, const t8_eclass_t c, t8_locidx_t lid, const t8_scheme_c *s,
          const int fam, const int n, t8_element_t *el[])
{
  AdaptCtx *a = (AdaptCtx *) t8_forest_get_user_data (forest);
  long g = t8_forest_global_tree_id (from, tree);
  Path p = vh_path (s, c, el[0]);
  int d = 0;
  if (a->deepg >= 0) {
    bool anc = g == a->deepg && p.size () <= a->deep.size () && std::equal (p.begin (), p.end (), a->deep.begin ());
    if (anc && ((int) p.size () < a->cap || a->over)) d = 1;
  }
  else {
    int r = (int) (vh_hash (a->seed, g, p) % 100);
    if (r < a->pref && ((int) p.size () < a->cap)) d = 1;
    else if (r >= 100 - a->pcoa && fam) d = -1;
    else if (a->prem && lid > 0) {
      Path q = p;
      if (a->premfam && !q.empty ()) q.pop_back ();
      if ((int) (vh_hash (a->seed + 17, g, q) % 100) < a->prem) d = -2;
    }
  }
  a->calls.open ('[').num (g).num (lid).num (fam ? 1 : 0).open ('[');
  for (int i = 0; i < n; i++) a->calls.arr (vh_path (s, c, el[i]));
  a->calls.close (']').num (d).close (']');
  return d;
}
/* the same decisions through the mesh handle; no removal */
template <class M>
static int
handle_cb (const M &m, std::span<const typename M::element_class> el, AdaptCtx *a)
{
  t8_forest_t f = m.get_forest ();
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_locidx_t t = el[0].get_local_tree_id ();
  long g = t8_forest_global_tree_id (f, t);
  t8_eclass_t c = t8_forest_get_tree_class (f, t);
  Path p = vh_path (s, c, el[0].get_forest_element ());
  bool fam = el.size () > 1;
  int r = (int) (vh_hash (a->seed, g, p) % 100), d = 0;
  if (r < a->pref && (int) p.size () < a->cap) d = 1;
  else if (r >= 100 - a->pcoa && fam) d = -1;
  a->calls.open ('[').num (g).num (el[0].get_local_element_id ()).num (fam ? 1 : 0).open ('[');
  for (auto &e : el) a->calls.arr (vh_path (s, c, e.get_forest_element ()));
  a->calls.close (']').num (d).close (']');
  return d;
}
static void
draw_adapt (Rng &r, AdaptCtx &a, int cap, long nleaves, bool holes)
{
  a.seed = r.next ();
  a.cap = cap;
  int k = r.below (6);
  a.pref = k == 0 ? 60 : k == 1 ? 10 : k == 2 ? 30 : k == 3 ? 0 : 20;
  a.pcoa = k == 0 ? 0 : k == 1 ? 85 : k == 2 ? 60 : k == 3 ? 90 : 30;
  static const int rems[5] = { 0, 12, 24, 45, 70 };
  a.prem = holes ? rems[r.below (5)] : 0;
  a.premfam = r.below (2);
  if (nleaves > 60) a.pref = std::min (a.pref, 12);
  if (nleaves > 130) a.pref = std::min (a.pref, 3), a.pcoa = 90;
}

/* ------------------------------- replace -------------------------------- */
static J *repl_log;
static void
repl_cb (t8_forest_t old, t8_forest_t nw, t8_locidx_t tree, const t8_eclass_t, const t8_scheme_c *, const int refine,
         const int nout, const t8_locidx_t fout, const int nin, const t8_locidx_t fin)
{
  (void) nw;
  repl_log->open ('[').num (t8_forest_global_tree_id (old, tree)).num (refine).num (nout).num (fout).num (nin);
  repl_log->num (nin > 0 ? fin : -1).close (']');
}

/* ------------------------------- weights -------------------------------- */
static uint64_t wseed;
static int wmax, wzero, wexp; /* zero weights; the callback reports weights times 2^wexp */
static int
weight_of (t8_forest_t f, t8_locidx_t t, t8_locidx_t i)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_eclass_t c = t8_forest_get_tree_class (f, t);
  Path p = vh_path (s, c, t8_forest_get_leaf_element_in_tree (f, t, i));
  uint64_t h = vh_hash (wseed, t8_forest_global_tree_id (f, t), p);
  if (wzero && (h >> 50) % 8 == 0) return 0;
  return 1 + (int) (h % (uint64_t) wmax) * ((h >> 40) % 3 == 0 ? 1 : 0);
}
static double
weight_cb (t8_forest_t f, t8_locidx_t t, t8_locidx_t i)
{
  return ldexp ((double) weight_of (f, t, i), wexp);
}

/* ------------------------------- history -------------------------------- */
struct History
{
  Group &g;
  Rng rng;
  Mesh mesh;
  const t8_scheme *scheme = nullptr;
  t8_forest_t f = nullptr;
  J ev;
  bool incomplete = false, pcmesh = false, spined = false;
  int spinel = 0; /* depth of the spine */
  bool
  bal_big () /* balancing would give too many leaves to check */
  {
    return mesh.dim == 3 && spinel > (mesh.cls.size () > 1 ? 6 : 9);
  }
  int maxl = 0, cap = 3;
  long mem0 = 0;

  History (Group &gr, uint64_t seed): g (gr), rng (seed) {}

  void
  emit (const std::string &s)
  {
    ev.raw (s);
  }
  long
  leaves ()
  {
    return (long) t8_forest_get_global_num_leaf_elements (f);
  }
  std::string
  obs ()
  {
    return g.gather (vh_forest_obs (f));
  }
  void
  maybe_ghost (t8_forest_t nf)
  { /* a ghost layer does not change the leaves */
    if (!incomplete && on ('M') && rng.below (3) == 0) t8_forest_set_ghost (nf, 1, T8_GHOST_FACES);
  }

  void
  start ()
  {
    std::string cl = vh_env ("VH_CLASSES", "");
    int only = -1, dim = 2;
    if (!cl.empty ())
      only = cl[rng.below ((int) cl.size ())] - '0';
    else {
      int k = rng.below (12);
      if (k == 0)
        dim = 1;
      else if (k <= 4)
        dim = 2;
      else
        dim = 3;
      if (k == 11 && on ('U')) dim = 0;
      if (rng.below (3) == 0) {
        static const std::vector<int> byDim[4] = { { 0 }, { 1 }, { 2, 3 }, { 4, 5, 6, 7 } };
        only = byDim[dim][rng.below ((int) byDim[dim].size ())];
      }
    }
    mesh = vh_random_mesh (rng, dim, only, only >= 0 || dim < 3 ? 4 : 3);
    int sid = 0;
    bool sa = true; /* the standalone scheme has no pyramids in the mesh operations */
    for (int c : mesh.cls)
      if (c == T8_ECLASS_PYRAMID) sa = false;
    (void) sa;
    if (vh_envi ("VH_STANDALONE", 0)) sid = 1;
    scheme = vh_scheme (sid);
    t8_cmesh_t cm = vh_cmesh (mesh, g.comm);
    int l = mesh.dim == 0 ? rng.below (4) : mesh.dim == 1 ? rng.range (0, 4) : mesh.dim == 2 ? rng.range (0, 2) : rng.range (0, 1);
    if (vh_envi ("VH_SPINE", 0)) l = rng.below (mesh.dim == 3 ? 1 : 2);
    if (on ('U')) {
      int top = mesh.dim == 3 ? 2 : mesh.dim == 2 ? 3 : 5;
      l = rng.range (0, top);
    }
    cap = mesh.dim == 3 ? 3 : mesh.dim == 2 ? 4 : 6;
    pcmesh = g.size > 1 && rng.below (2);
    if (vh_envi ("VH_VERBOSE", 0) && g.rank == 0) { fprintf (stderr, "level %d pcmesh %d classes", l, pcmesh); for (int c : mesh.cls) fprintf (stderr, " %d", c); fprintf (stderr, "\n"); }
    if (pcmesh) {
      t8_cmesh_t cp;
      t8_cmesh_init (&cp);
      t8_cmesh_set_derive (cp, cm);
      t8_scheme_ref (const_cast<t8_scheme *> (scheme));
      t8_cmesh_set_partition_uniform (cp, l, scheme);
      t8_cmesh_commit (cp, g.comm);
      cm = cp;
    }
    f = t8_forest_new_uniform (cm, scheme, l, 0, g.comm);
    scheme = t8_forest_get_scheme (f);
    maxl = t8_forest_get_maxlevel (f);
    J j;
    j.open ('{').key ("op").str ("new").kn ("l", l).key ("obs").raw (obs ()).close ('}');
    emit (j.t);
  }

  /* replaces f; keeps the old forest if asked to */
  t8_forest_t
  step (t8_forest_t nf, bool keep)
  {
    if (keep) t8_forest_ref (f);
    if (rng.below (4) == 0) t8_forest_set_profiling (nf, 1); /* changes nothing else */
    t8_forest_t old = f;
    t8_forest_commit (nf);
    f = nf;
    return keep ? old : nullptr;
  }

  void
  op_adapt ()
  {
    AdaptCtx a;
    bool holes = on ('H') && rng.below (2);
    bool rec = on ('R') && !incomplete && rng.below (2);
    if (!on ('A')) rec = true;
    if (rec && incomplete) rec = false;
    draw_adapt (rng, a, cap, leaves (), holes);
    long spine = vh_envi ("VH_SPINE", 0);
    if (spine && !spined && mesh.dim > 0) { /* a few very fine leaves around one point */
      spined = true;
      rec = true;
      a.prem = 0;
      a.deepg = rng.below ((int) mesh.cls.size ());
      a.cap = std::min ((int) spine, rng.below (2) ? rng.range (3, 8) : rng.range (3, maxl));
      if (on ('L') && mesh.dim == 3 && rng.below (4)) a.cap = std::min (a.cap, mesh.cls.size () > 1 ? 6 : 9);
      spinel = a.cap;
      int nc = 1 << mesh.dim, kind = rng.below (4), c0 = rng.below (nc), c1 = rng.below (nc);
      for (int i = 0; i <= a.cap; i++)
        a.deep.push_back (kind == 0 ? rng.below (nc) : kind == 1 ? c0 : kind == 2 ? (i % 2 ? c0 : c1) : (i < 2 ? c0 : c1));
    }
    else if (on ('Z') && rng.below (3) == 0) {
      a.deepg = rng.below ((int) mesh.cls.size ());
      a.cap = rng.below (2) ? maxl : rng.range (2, 6);
      a.over = rng.below (2);
      int d = a.cap + 1;
      for (int i = 0; i < d; i++) a.deep.push_back (rng.below (mesh.dim == 3 ? 6 : mesh.dim == 2 ? 4 : mesh.dim == 1 ? 2 : 1));
      if (mesh.dim == 0) a.over = false, a.cap = std::min (a.cap, 5);
    }
    bool pre = incomplete;
    a.calls.open ('[');
    t8_forest_t nf;
    t8_forest_init (&nf);
    t8_forest_set_user_data (nf, &a);
    t8_forest_set_adapt (nf, f, adapt_cb, rec);
    if (!pre && !a.prem) maybe_ghost (nf);
    t8_forest_t old = step (nf, true);
    a.calls.close (']');
    if (a.prem) incomplete = true;
    J j;
    j.open ('{').key ("op").str ("adapt").kn ("rec", rec).kn ("holes", pre).kn ("holes2", incomplete);
    j.key ("calls").raw (g.gather (a.calls.t));
    j.key ("eq").raw (g.gather (std::to_string (t8_forest_is_equal (f, old) ? 1 : 0)));
    j.key ("obs").raw (obs ()).close ('}');
    emit (j.t);
    if (on ('E') && !rec) {
      J l;
      l.open ('[');
      repl_log = &l;
      t8_forest_iterate_replace (f, old, repl_cb);
      l.close (']');
      J k;
      k.open ('{').key ("op").str ("repl").key ("c").raw (g.gather (l.t)).close ('}');
      emit (k.t);
    }
    t8_forest_unref (&old);
    t8_forest_set_user_data (f, nullptr);
  }

  void
  op_part ()
  {
    std::string kinds;
    if (on ('P')) kinds += 'P';
    if (on ('W')) kinds += 'W';
    if (on ('O')) kinds += 'O';
    if (kinds.empty ()) kinds = "P";
    char k = kinds[rng.below ((int) kinds.size ())];
    bool pfc = on ('F') && !incomplete && rng.below (2);
    long N = leaves ();
    J wt;
    std::vector<long> offs;
    t8_forest_t nf;
    t8_forest_init (&nf);
    t8_forest_set_partition (nf, f, pfc);
    wt.open ('[');
    if (k == 'W') {
      wseed = rng.next ();
      wmax = rng.below (2) ? rng.range (2, 9) : rng.range (20, 400);
      wexp = rng.below (3) ? 0 : rng.range (-40, 40);
      wzero = rng.below (4) == 0;
      if (rng.below (4) == 0 && N > 0) wmax = (int) (200000000 / g.size / N); /* sums beyond 2^24 */
      if (wmax < 2) wmax = 2;
      if (wzero) { /* not all weights may be zero */
        long tot = 0, all = 0;
        for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); t++)
          for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, t); i++) tot += weight_of (f, t, i);
        MPI_Allreduce (&tot, &all, 1, MPI_LONG, MPI_SUM, g.comm);
        if (all == 0) wzero = 0;
      }
      t8_forest_set_partition_weight_function (nf, weight_cb);
      for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); t++)
        for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, t); i++) wt.num (weight_of (f, t, i));
    }
    wt.close (']');
    if (k == 'O') {
      for (int i = 0; i < g.size; i++) offs.push_back (i == 0 ? 0 : rng.below ((int) N + 1));
      std::sort (offs.begin (), offs.end ());
      t8_forest_set_partition_offset (nf, offs[g.rank]);
    }
    if (!pfc) maybe_ghost (nf);
    t8_forest_t old = step (nf, true);
    J j;
    j.open ('{').key ("op").str ("part").key ("kind").str (k == 'P' ? "even" : k == 'W' ? "weight" : "offs").kn ("pfc", pfc);
    j.key ("wt").raw (g.gather (wt.t)).key ("off").arr (offs).key ("obs").raw (obs ()).close ('}');
    emit (j.t);
    if (on ('D')) data (old);
    t8_forest_unref (&old);
  }
  /* records of any size: the value of the leaf, and more bytes that depend on it and on their position */
  int
  draw_size ()
  {
    static const int sizes[8] = { 1, 2, 4, 8, 24, 40, 3, 16 };
    int k = rng.below (10);
    return k < 5 ? sizes[rng.below (8)] : k < 9 ? rng.range (1, 70) : rng.range (200, 3000);
  }
  static void
  put_rec (char *p, int sz, long v)
  {
    for (int b = 0; b < sz; b++) p[b] = (char) (b < 4 ? v >> (8 * b) : ((v % (sz < 4 ? 256 : 1 << 30)) * 2654435761u + b * 40503u) >> 7);
  }
  static long
  get_rec (const char *q, int sz)
  {
    const unsigned char *p = (const unsigned char *) q;
    long v = 0;
    for (int b = 0; b < sz && b < 4; b++) v |= (long) p[b] << (8 * b);
    std::vector<char> want (sz);
    put_rec (want.data (), sz, v);
    return memcmp (want.data (), q, sz) ? -1 : v; /* a whole record must arrive */
  }
  /* one value per leaf moves with it */
  void
  data (t8_forest_t old)
  {
    int sz = draw_size ();
    sc_array_t in, out;
    sc_array_init_count (&in, sz, t8_forest_get_local_num_leaf_elements (old));
    sc_array_init_count (&out, sz, t8_forest_get_local_num_leaf_elements (f));
    long fe = t8_forest_get_first_local_leaf_element_id (old);
    memset (out.array, 0x77, out.elem_count * sz);
    for (size_t i = 0; i < in.elem_count; i++) put_rec ((char *) sc_array_index (&in, i), sz, 3 * (fe + (long) i) + 5);
    t8_forest_partition_data (old, f, &in, &out);
    J d;
    d.open ('[');
    for (size_t i = 0; i < out.elem_count; i++) d.num (get_rec ((const char *) sc_array_index (&out, i), sz));
    d.close (']');
    sc_array_reset (&in);
    sc_array_reset (&out);
    J j;
    j.open ('{').key ("op").str ("pdata").kn ("mod", sz < 4 ? 1 << (8 * sz) : 0).key ("d").raw (g.gather (d.t)).close ('}');
    emit (j.t);
  }
  void
  op_gather ()
  {
    int r = rng.below (g.size);
    t8_forest_ref (f);
    t8_forest_t nf = t8_forest_new_gather (f, r);
    t8_forest_unref (&f);
    f = nf;
    std::vector<long> offs;
    long N = leaves ();
    for (int i = 0; i < g.size; i++) offs.push_back (i <= r ? 0 : N);
    J j;
    j.open ('{').key ("op").str ("part").key ("kind").str ("offs").kn ("pfc", 0).key ("wt").raw ("[]");
    j.key ("off").arr (offs).key ("obs").raw (obs ()).close ('}');
    emit (j.t);
  }
  void
  op_bal ()
  {
    if (incomplete || leaves () > 150 || bal_big ()) return;
    bool repart = rng.below (2);
    t8_forest_t nf;
    t8_forest_init (&nf);
    t8_forest_set_balance (nf, f, !repart);
    maybe_ghost (nf);
    step (nf, false);
    J j;
    j.open ('{').key ("op").str ("bal").kn ("repart", repart);
    j.key ("isb").raw (g.gather (std::to_string (t8_forest_is_balanced (f) ? 1 : 0)));
    j.key ("obs").raw (obs ()).close ('}');
    emit (j.t);
  }
  void
  op_combo ()
  {
    if (incomplete) return;
    bool ad = rng.below (3) > 0, pa = rng.below (2), bal = rng.below (2) && leaves () < 100 && !bal_big (), repart = rng.below (2);
    bool rec = ad && rng.below (3) == 0;
    if (ad + pa + bal < 2) ad = pa = true;
    if (ad + pa + bal == 3) {
    }
    AdaptCtx a;
    draw_adapt (rng, a, cap, leaves (), false);
    a.calls.open ('[');
    t8_forest_t nf;
    t8_forest_init (&nf);
    t8_forest_set_user_data (nf, &a);
    bool first = true;
    if (ad) t8_forest_set_adapt (nf, f, adapt_cb, rec), first = false;
    if (pa) t8_forest_set_partition (nf, first ? f : nullptr, 0), first = false;
    if (bal) t8_forest_set_balance (nf, first ? f : nullptr, !repart), first = false;
    maybe_ghost (nf);
    step (nf, false);
    a.calls.close (']');
    J j;
    j.open ('{').key ("op").str ("combo").kn ("ad", ad).kn ("pa", pa).kn ("bal", bal).kn ("rec", rec).kn ("repart", repart);
    j.key ("calls").raw (g.gather (a.calls.t)).key ("obs").raw (obs ()).close ('}');
    emit (j.t);
    t8_forest_set_user_data (f, nullptr);
  }
  void
  op_copy ()
  {
    t8_forest_t nf;
    t8_forest_init (&nf);
    t8_forest_set_copy (nf, f);
    t8_forest_t old = step (nf, true);
    J j;
    j.open ('{').key ("op").str ("copy").key ("eq").raw (g.gather (std::to_string (t8_forest_is_equal (f, old) ? 1 : 0)));
    t8_forest_unref (&old);
    j.key ("obs").raw (obs ()).close ('}');
    emit (j.t);
  }

  /* --------------------------- ghost layer ----------------------------- */
  std::vector<std::pair<long, Path>> gl; /* the ghosts of this process */
  std::string
  gl_json ()
  {
    J j;
    j.open ('[');
    for (auto &x : gl) vh_leaf (j, x.first, x.second);
    j.close (']');
    return j.t;
  }
  bool
  make_ghost ()
  {
    if (incomplete) return false;
    int version = 3;
    bool bal = rng.below (3) == 0 && leaves () < 120 && !bal_big ();
    if (bal) {
      t8_forest_t bf;
      t8_forest_init (&bf);
      t8_forest_set_balance (bf, f, 1);
      step (bf, false);
      J j;
      j.open ('{').key ("op").str ("bal").kn ("repart", 0);
      j.key ("isb").raw (g.gather (std::to_string (t8_forest_is_balanced (f) ? 1 : 0)));
      j.key ("obs").raw (obs ()).close ('}');
      emit (j.t);
      version = rng.range (1, 3);
    }
    else
      version = rng.range (2, 3);
    t8_forest_t nf;
    t8_forest_init (&nf);
    bool part = rng.below (2);
    if (part)
      t8_forest_set_partition (nf, f, 0);
    else
      t8_forest_set_copy (nf, f);
    if (version == 3 && rng.below (2))
      t8_forest_set_ghost (nf, 1, T8_GHOST_FACES);
    else
      t8_forest_set_ghost_ext (nf, 1, T8_GHOST_FACES, version);
    t8_forest_t old = part ? nullptr : (t8_forest_ref (f), f);
    step (nf, false);
    J j;
    if (part) {
      j.open ('{').key ("op").str ("part").key ("kind").str ("even").kn ("pfc", 0).key ("wt").raw ("[]").key ("off").raw ("[]");
      j.key ("obs").raw (obs ()).close ('}');
    }
    else {
      j.open ('{').key ("op").str ("copy").key ("eq").raw (g.gather (std::to_string (t8_forest_is_equal (f, old) ? 1 : 0)));
      j.key ("obs").raw (obs ()).close ('}');
      t8_forest_unref (&old);
    }
    emit (j.t);
    read_ghosts ();
    return true;
  }
  std::string ghost_obs;
  void
  read_ghosts ()
  {
    gl.clear ();
    J el, tr, rem;
    el.open ('[');
    tr.open ('[');
    rem.open ('[');
    int ok = 1;
    t8_locidx_t ng = t8_forest_get_num_ghosts (f), cnt = 0, nlt = t8_forest_get_num_local_trees (f);
    t8_locidx_t nt = g.size > 1 ? t8_forest_ghost_num_trees (f) : 0;
    if (g.size > 1 && t8_forest_get_num_ghost_trees (f) != nt) ok = -2;
    for (t8_locidx_t t = 0; t < nt; t++) {
      long gt = t8_forest_ghost_get_global_treeid (f, t);
      t8_eclass_t c = t8_forest_ghost_get_tree_class (f, t);
      t8_locidx_t n = t8_forest_ghost_tree_num_leaf_elements (f, t);
      tr.open ('[').num (gt).num ((int) c).num (t8_forest_ghost_get_tree_element_offset (f, t)).num (n).close (']');
      if (t8_forest_ghost_get_ghost_treeid (f, gt) != t) ok = -3;
      if (t8_forest_global_tree_id (f, nlt + t) != gt) ok = -4;
      if (t8_forest_get_local_id (f, gt) < 0 && t8_forest_get_local_or_ghost_id (f, gt) != nlt + t) ok = -6;
      for (t8_locidx_t i = 0; i < n; i++) {
        const t8_element_t *e = t8_forest_ghost_get_leaf_element (f, t, i);
        Path p = vh_path (scheme, c, e);
        vh_leaf (el, gt, p);
        gl.push_back ({ gt, p });
        if (!t8_forest_element_is_ghost (f, e, t)) ok = -7;
        if (!t8_forest_element_is_leaf_or_ghost (f, e, t, 1)) ok = -8;
        t8_locidx_t lt = t8_forest_get_local_id (f, gt);
        if (lt >= 0 && t8_forest_element_is_leaf (f, e, lt)) ok = -9;
        cnt++;
      }
    }
    if (cnt != ng) ok = -10;
    if (g.size > 1) {
      int nr = 0;
      int *r = t8_forest_ghost_get_remotes (f, &nr);
      for (int i = 0; i < nr; i++)
        rem.open ('[').num (r[i]).num (t8_forest_ghost_remote_first_tree (f, r[i])).num (t8_forest_ghost_remote_first_elem (f, r[i])).close (']');
    }
    el.close (']');
    tr.close (']');
    rem.close (']');
    J j;
    j.open ('{').key ("el").raw (el.t).key ("tr").raw (tr.t).key ("rem").raw (rem.t).kn ("ok", ok).close ('}');
    ghost_obs = j.t;
  }
  void
  op_ghost ()
  {
    J j;
    j.open ('{').key ("op").str ("ghost").key ("g").raw (g.gather (ghost_obs));
    j.key ("isb").raw (g.gather (std::to_string (t8_forest_is_balanced (f) ? 1 : 0))).close ('}');
    emit (j.t);
  }
  void
  op_exch ()
  {
    int sz = draw_size ();
    long nl = t8_forest_get_local_num_leaf_elements (f), ng = t8_forest_get_num_ghosts (f);
    long fe = t8_forest_get_first_local_leaf_element_id (f);
    sc_array_t a;
    sc_array_init_count (&a, sz, nl + ng);
    memset (a.array, 0x55, (nl + ng) * sz);
    for (long i = 0; i < nl; i++) put_rec ((char *) sc_array_index (&a, i), sz, 3 * (fe + i) + 5);
    t8_forest_ghost_exchange_data (f, &a);
    J d;
    d.open ('[');
    for (long i = 0; i < nl + ng; i++) d.num (get_rec ((const char *) sc_array_index (&a, i), sz));
    d.close (']');
    sc_array_reset (&a);
    J j;
    j.open ('{').key ("op").str ("exch").kn ("mod", sz < 4 ? 1 << (8 * sz) : 0).key ("v").raw (g.gather (d.t)).key ("gl").raw (g.gather (gl_json ())).close ('}');
    emit (j.t);
  }
  /* leaf face neighbours of leaves and ghosts; without a ghost layer only own leaves are known */
  void
  op_lfn (bool ghosts)
  {
    if (incomplete) return;
    if (!ghosts) gl.clear ();
    long nl = t8_forest_get_local_num_leaf_elements (f);
    t8_locidx_t nlt = t8_forest_get_num_local_trees (f);
    t8_locidx_t ngt = ghosts && g.size > 1 ? t8_forest_ghost_num_trees (f) : 0;
    long total = nl + (long) gl.size ();
    int keep = total > 40 ? (int) (4000 / total) : 100;
    uint64_t sd = rng.next ();
    J q;
    q.open ('[');
    long idx = 0;
    for (t8_locidx_t t = 0; t < nlt + ngt; t++) {
      bool gh = t >= nlt;
      t8_locidx_t n = gh ? t8_forest_ghost_tree_num_leaf_elements (f, t - nlt) : t8_forest_get_tree_num_leaf_elements (f, t);
      t8_eclass_t c = gh ? t8_forest_ghost_get_tree_class (f, t - nlt) : t8_forest_get_tree_class (f, t);
      for (t8_locidx_t i = 0; i < n; i++, idx++) {
        if ((int) (vh_mix (sd + (uint64_t) idx) % 100) >= keep) continue;
        const t8_element_t *e = gh ? t8_forest_ghost_get_leaf_element (f, t - nlt, i) : t8_forest_get_leaf_element_in_tree (f, t, i);
        int nf = scheme->element_get_num_faces (c, e);
        for (int face = 0; face < nf; face++) {
          const t8_element_t **nb = nullptr;
          int *dual = nullptr, num = 0, orient = -1;
          t8_locidx_t *ids = nullptr;
          t8_eclass_t nc = T8_ECLASS_INVALID;
          t8_gloidx_t gt = -1;
          int ok = 1;
          t8_forest_leaf_face_neighbors_ext (f, t, e, &nb, face, &dual, &num, &ids, &nc, &gt, &orient);
          q.open ('{').kn ("i", idx).kn ("f", face).key ("n").open ('[');
          for (int k = 0; k < num; k++) {
            q.open ('[').num (ids[k]).num (dual[k]).close (']');
            /* the element handed out is the one with that index */
            Path p = vh_path (scheme, nc, nb[k]);
            if (ids[k] >= nl) {
              if (ids[k] - nl >= (long) gl.size () || gl[ids[k] - nl].second != p || gl[ids[k] - nl].first != gt) ok = 0;
            }
            else {
              t8_locidx_t lt;
              const t8_element_t *x = t8_forest_get_leaf_element (f, ids[k], &lt);
              if (vh_path (scheme, nc, x) != p || t8_forest_global_tree_id (f, lt) != gt) ok = 0;
            }
          }
          q.close (']').kn ("c", num > 0 ? (int) nc : -1).kn ("t", num > 0 ? (long) gt : -1).kn ("o", orient);
          /* the simple variant agrees; the number of a subface of a coarser neighbour */
          const t8_element_t **nb2 = nullptr;
          int *dual2 = nullptr, num2 = 0;
          t8_locidx_t *ids2 = nullptr;
          t8_eclass_t nc2 = T8_ECLASS_INVALID;
          t8_forest_leaf_face_neighbors (f, t, e, &nb2, face, &dual2, &num2, &ids2, &nc2);
          if (num2 != num || (num > 0 && nc2 != nc)) ok = 0;
          for (int k = 0; ok && k < num; k++)
            if (ids2[k] != ids[k] || dual2[k] != dual[k]) ok = 0;
          if (num <= 1) { /* the variant for conformal meshes */
            int df = -7;
            t8_locidx_t si = t8_forest_same_level_leaf_face_neighbor_index (f, (t8_locidx_t) idx, face, t8_forest_global_tree_id (f, t), &df);
            if (num == 0 ? si != -1 || df != -1 : si != ids[0] || df != dual[0]) ok = 0;
          }
          int lev = scheme->element_get_level (c, e);
          q.kn ("sub", num == 1 && scheme->element_get_level (nc, nb[0]) == lev - 1 ? t8_forest_leaf_neighbor_subface (f, t, e, face, nc, nb[0], dual[0]) : -1);
          q.kn ("ok", ok).close ('}');
          if (num > 0) {
            T8_FREE (nb);
            T8_FREE (ids);
            T8_FREE (dual);
          }
          if (num2 > 0) {
            T8_FREE (nb2);
            T8_FREE (ids2);
            T8_FREE (dual2);
          }
        }
      }
    }
    q.close (']');
    J j;
    j.open ('{').key ("op").str ("lfn").key ("gl").raw (g.gather (gl_json ())).key ("q").raw (g.gather (q.t)).close ('}');
    emit (j.t);
  }

  /* ----------------------------- queries ------------------------------- */
  int
  deepest ()
  {
    int m = 0;
    for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); t++)
      for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, t); i++)
        m = std::max (m, scheme->element_get_level (t8_forest_get_tree_class (f, t), t8_forest_get_leaf_element_in_tree (f, t, i)));
    int r = 0;
    MPI_Allreduce (&m, &r, 1, MPI_INT, MPI_MAX, g.comm);
    return r;
  }
  Path
  random_path (Rng &r, int c, int len)
  {
    Elem e (scheme, c);
    scheme->set_to_root (e.c, e);
    Path p;
    for (int i = 0; i < len; i++) {
      int k = r.below (scheme->element_get_num_children (e.c, e));
      scheme->element_get_child (e.c, e, k, e);
      p.push_back (k);
    }
    return p;
  }
  void
  op_elem ()
  {
    if (incomplete) return;
    int dp = deepest ();
    Rng r (rng.next () + (uint64_t) g.rank);
    J q;
    q.open ('[');
    int nq = 24;
    for (int k = 0; k < nq; k++) {
      long gt;
      Path p;
      t8_locidx_t nl = t8_forest_get_local_num_leaf_elements (f);
      if (nl > 0 && k % 3 == 0) {
        /* at or above an own leaf */
        t8_locidx_t lt;
        const t8_element_t *e = t8_forest_get_leaf_element (f, k == 0 ? 0 : k == 3 ? nl - 1 : r.below (nl), &lt);
        gt = t8_forest_global_tree_id (f, lt);
        p = vh_path (scheme, t8_forest_get_tree_class (f, lt), e);
        if (k % 2 && !p.empty ()) p.resize (r.below ((int) p.size () + 1));
      }
      else {
        gt = r.below ((int) mesh.cls.size ());
        p = random_path (r, mesh.cls[gt], r.range (0, std::min (dp + 2, maxl)));
      }
      int c = mesh.cls[gt];
      Elem e (scheme, c);
      e.to_path (p);
      q.open ('{').key ("x");
      vh_leaf (q, gt, p);
      q.kn ("own", t8_forest_element_find_owner (f, gt, e, (t8_eclass_t) c));
      q.key ("ck").open ('[');
      for (int i = 0; i < g.size; i++) q.num (t8_forest_element_check_owner (f, e, gt, (t8_eclass_t) c, i, (int) p.size () == maxl ? r.below (2) : 0));
      q.close (']');
      t8_locidx_t lt = t8_forest_get_local_id (f, gt);
      if (lt >= 0) {
        q.kn ("leaf", t8_forest_element_is_leaf (f, e, lt) ? 1 : 0);
        q.kn ("desc", t8_forest_element_has_leaf_desc (f, gt, e, (t8_eclass_t) c) ? 1 : 0);
      }
      int nf = scheme->element_get_num_faces ((t8_eclass_t) c, e);
      if (nf > 0) {
        int face = r.below (nf);
        q.kn ("f", face);
        sc_array_t ow;
        sc_array_init (&ow, sizeof (int));
        t8_forest_element_owners_at_face (f, gt, e, (t8_eclass_t) c, face, &ow);
        q.key ("of").open ('[');
        for (size_t i = 0; i < ow.elem_count; i++) q.num (*(int *) sc_array_index (&ow, i));
        q.close (']');
        sc_array_reset (&ow);
        if (lt >= 0) {
          t8_eclass_t nc = t8_forest_element_neighbor_eclass (f, lt, e, face);
          q.key ("nb");
          if (nc == T8_ECLASS_INVALID)
            q.raw ("[]");
          else {
            Elem n (scheme, nc);
            int df = -1;
            t8_gloidx_t ng = t8_forest_element_face_neighbor (f, lt, e, n, nc, face, &df);
            if (ng < 0)
              q.raw ("[]");
            else
              q.open ('[').num (ng).arr (vh_path (scheme, nc, n)).num (df).num ((int) nc).close (']');
          }
          if ((int) p.size () < maxl) {
            /* neighbours of half size, in curve order */
            int nn = scheme->element_get_num_face_children ((t8_eclass_t) c, e, face);
            q.key ("hn").open ('[');
            if (nc != T8_ECLASS_INVALID) {
              std::vector<t8_element_t *> ne (nn);
              std::vector<int> df (nn);
              scheme->element_new (nc, nn, ne.data ());
              t8_gloidx_t ng = t8_forest_element_half_face_neighbors (f, lt, e, ne.data (), nc, face, nn, df.data ());
              if (ng >= 0)
                for (int i = 0; i < nn; i++) q.open ('[').num (ng).arr (vh_path (scheme, nc, ne[i])).num (df[i]).close (']');
              scheme->element_destroy (nc, nn, ne.data ());
            }
            q.close (']');
          }
          sc_array_init (&ow, sizeof (int));
          t8_forest_element_owners_at_neigh_face (f, lt, e, face, &ow);
          q.key ("on").open ('[');
          for (size_t i = 0; i < ow.elem_count; i++) q.num (*(int *) sc_array_index (&ow, i));
          q.close (']');
          sc_array_reset (&ow);
        }
      }
      q.close ('}');
    }
    q.close (']');
    J j;
    J sh;
    sh.open ('[').num (t8_forest_first_tree_shared (f)).num (t8_forest_last_tree_shared (f)).close (']');
    j.open ('{').key ("op").str ("elem").key ("q").raw (g.gather (q.t)).key ("sh").raw (g.gather (sh.t)).close ('}');
    emit (j.t);
  }
  struct Pt
  {
    long g;
    Path p;
  };
  static bool
  anc (const Path &a, const Path &b)
  {
    return a.size () <= b.size () && std::equal (a.begin (), a.end (), b.begin ());
  }
  void
  op_search ()
  {
    /* the search itself */
    uint64_t sd = rng.next ();
    int pstop = rng.below (3) * 20;
    J q;
    q.open ('[');
    {
      t8_search<void> s (
        [&] (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *le,
             const t8_locidx_t ti, void *) {
          t8_eclass_t c = t8_forest_get_tree_class (fo, lt);
          long gt = t8_forest_global_tree_id (fo, lt);
          Path p = vh_path (scheme, c, e);
          bool ans = (int) (vh_hash (sd, gt, p) % 100) >= pstop;
          size_t n = t8_element_array_get_count (le);
          /* the leaves handed over are the leaves of the tree from this index on */
          bool same = true;
          for (size_t i = 0; i < n; i++)
            if (vh_path (scheme, c, t8_element_array_index_locidx (le, (t8_locidx_t) i))
                != vh_path (scheme, c, t8_forest_get_leaf_element_in_tree (fo, lt, ti + (t8_locidx_t) i)))
              same = false;
          q.open ('[').num (gt).arr (p).num (leaf).num (ti).num (same ? (long) n : -1).num (ans).close (']');
          return ans;
        },
        f);
      s.do_search ();
    }
    q.close (']');
    J j;
    j.open ('{').key ("op").str ("search").key ("c").raw (g.gather (q.t)).close ('}');
    emit (j.t);
    /* queries: points */
    int dp = deepest ();
    std::vector<Pt> pts;
    int np = rng.range (0, 12);
    for (int i = 0; i < np; i++) {
      long gt = rng.below ((int) mesh.cls.size ());
      pts.push_back ({ gt, random_path (rng, mesh.cls[gt], std::min (dp + 1, maxl)) });
      if (rng.below (4) == 0) pts.push_back (pts.back ());
    }
    for (int batched = 0; batched < 2; batched++) {
      J m;
      m.open ('[');
      auto report = [&] (size_t k, const t8_forest_t fo, t8_locidx_t lt, const Path &p) {
        m.open ('[').num ((long) k).num (t8_forest_global_tree_id (fo, lt)).arr (p).close (']');
      };
      auto ecb = [&] (const t8_forest_t, const t8_locidx_t, const t8_element_t *, const bool, const t8_element_array_t *,
                      const t8_locidx_t, void *) { return true; };
      if (!batched) {
        std::vector<Pt> qs = pts;
        std::vector<std::pair<Pt, size_t>> qi;
        for (size_t i = 0; i < pts.size (); i++) qi.push_back ({ pts[i], i });
        t8_search_with_queries<std::pair<Pt, size_t>, void> s (
          ecb,
          [&] (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *,
               const t8_locidx_t, const std::pair<Pt, size_t> &qu, void *) {
            t8_eclass_t c = t8_forest_get_tree_class (fo, lt);
            Path p = vh_path (scheme, c, e);
            bool hit = qu.first.g == t8_forest_global_tree_id (fo, lt) && anc (p, qu.first.p);
            if (hit && leaf) report (qu.second, fo, lt, p);
            return hit;
          },
          qi, f);
        s.do_search ();
      }
      else {
        t8_search_with_batched_queries<Pt, void> s (
          ecb,
          [&] (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *,
               const t8_locidx_t, const std::vector<Pt> &qs, const std::vector<size_t> &act, std::vector<bool> &match, void *) {
            t8_eclass_t c = t8_forest_get_tree_class (fo, lt);
            Path p = vh_path (scheme, c, e);
            for (size_t i = 0; i < act.size (); i++) {
              bool hit = qs[act[i]].g == t8_forest_global_tree_id (fo, lt) && anc (p, qs[act[i]].p);
              if (hit && leaf) report (act[i], fo, lt, p);
              match[act[i]] = hit;
            }
          },
          pts, f);
        s.do_search ();
      }
      m.close (']');
      J k, qj;
      qj.open ('[');
      for (auto &x : pts) vh_leaf (qj, x.g, x.p);
      qj.close (']');
      k.open ('{').key ("op").str ("query").key ("qs").raw (qj.t).key ("m").raw (g.gather (m.t)).close ('}');
      emit (k.t);
    }
  }
  /* searches with queries whose answers are arbitrary: all calls are reported */
  static inline std::function<bool (t8_locidx_t, const t8_element_t *, bool, const t8_element_array_t *, t8_locidx_t)> qc_el;
  static inline std::function<bool (size_t, t8_locidx_t, const t8_element_t *, bool, const t8_element_array_t *, t8_locidx_t)> qc_q;
  static int
  qc_el_c (t8_forest_t, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *le, const t8_locidx_t ti)
  {
    return qc_el (lt, e, leaf, le, ti) ? 5 : 0;
  }
  static void
  qc_q_c (t8_forest_t, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *le, const t8_locidx_t ti, sc_array_t *qs,
          sc_array_t *act, int *match, const size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      size_t k = *(size_t *) sc_array_index (act, i);
      match[i] = qc_q (*(size_t *) sc_array_index (qs, k), lt, e, leaf, le, ti) ? 7 : 0;
    }
  }
  void
  op_qcall ()
  {
    int way = rng.below (4), nq = rng.range (0, 5), pe = rng.below (3) * 12, pq = rng.below (4) * 15;
    uint64_t sd = rng.next ();
    J ej, qj;
    ej.open ('[');
    qj.open ('[');
    auto count = [&] (t8_locidx_t lt, const t8_element_array_t *le, t8_locidx_t ti) -> long {
      size_t n = t8_element_array_get_count (le);
      t8_eclass_t c = t8_forest_get_tree_class (f, lt);
      for (size_t i = 0; i < n; i++)
        if (vh_path (scheme, c, t8_element_array_index_locidx (le, (t8_locidx_t) i)) != vh_path (scheme, c, t8_forest_get_leaf_element_in_tree (f, lt, ti + (t8_locidx_t) i)))
          return -1;
      return (long) n;
    };
    qc_el = [&] (t8_locidx_t lt, const t8_element_t *e, bool leaf, const t8_element_array_t *le, t8_locidx_t ti) {
      Path p = vh_path (scheme, t8_forest_get_tree_class (f, lt), e);
      long gt = t8_forest_global_tree_id (f, lt);
      bool ans = (int) (vh_hash (sd, gt, p) % 100) >= pe;
      ej.open ('[').num (gt).arr (p).num (leaf).num (ti).num (count (lt, le, ti)).num (ans).close (']');
      return ans;
    };
    qc_q = [&] (size_t k, t8_locidx_t lt, const t8_element_t *e, bool leaf, const t8_element_array_t *le, t8_locidx_t ti) {
      Path p = vh_path (scheme, t8_forest_get_tree_class (f, lt), e);
      long gt = t8_forest_global_tree_id (f, lt);
      bool ans = (int) (vh_hash (sd + 77 * (k + 1), gt, p) % 100) >= pq;
      qj.open ('[').num ((long) k).num (gt).arr (p).num (leaf).num (ti).num (count (lt, le, ti)).num (ans).close (']');
      return ans;
    };
    std::vector<int> qs;
    for (int i = 0; i < nq; i++) qs.push_back (i);
    long ud = 4711;
    bool udok = true;
    auto ecb = [&] (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *le, const t8_locidx_t ti,
                    long *u) { udok = udok && fo == f && (u == nullptr || *u == 4711); return qc_el (lt, e, leaf, le, ti); };
    if (way == 0) {
      t8_search_with_queries<int, long> s (
        ecb,
        [&] (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *le, const t8_locidx_t ti,
             const int &k, long *u) { udok = udok && u == &ud; return qc_q (k, lt, e, leaf, le, ti); },
        qs, rng.below (2) ? f : nullptr, &ud);
      s.update_forest (f);
      s.do_search ();
    }
    else if (way == 1) {
      std::vector<int> other { 1, 2, 3, 4, 5, 6, 7 };
      t8_search_with_batched_queries<int, long> s (
        ecb,
        [&] (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *le, const t8_locidx_t ti,
             const std::vector<int> &q, const std::vector<size_t> &act, std::vector<bool> &match, long *u) {
          udok = udok && u == &ud;
          for (size_t a : act) match[a] = qc_q (q[a], lt, e, leaf, le, ti);
        },
        other, f, nullptr);
      s.update_queries (qs);
      s.update_user_data (&ud);
      s.do_search ();
      if (rng.below (2)) {        /* a second search on the same object starts anew */
        ej = J (), qj = J ();
        ej.open ('['), qj.open ('[');
        s.do_search ();
      }
    }
    else {
      sc_array_t *a = sc_array_new_count (sizeof (size_t), qs.size ());
      for (size_t i = 0; i < qs.size (); i++) *(size_t *) sc_array_index (a, i) = (size_t) qs[i];
      if (way == 3) t8_forest_search (f, qc_el_c, nullptr, nullptr);
      else t8_forest_search (f, qc_el_c, qc_q_c, a);
      sc_array_destroy (a);
    }
    ej.close (']');
    qj.close (']');
    J k;
    if (way == 3) k.open ('{').key ("op").str ("search").key ("c").raw (g.gather (ej.t)).close ('}');
    else {
      J u;
      u.num (udok);
      k.open ('{').key ("op").str ("qcall").kn ("nq", nq).key ("c").raw (g.gather (ej.t)).key ("q").raw (g.gather (qj.t)).key ("u").raw (g.gather (u.t)).close ('}');
    }
    emit (k.t);
  }
  struct IterCtx
  {
    J *j;
    t8_locidx_t off;
  };
  static int
  iter_cb (const t8_forest_t fo, const t8_locidx_t lt, const t8_element_t *, const int, const int leaf, const t8_element_array_t *,
           const t8_locidx_t ti, void *ud)
  {
    IterCtx *c = (IterCtx *) ud;
    if (leaf) c->j->num (t8_forest_get_tree_element_offset (fo, lt) + ti);
    return 1;
  }
  void
  op_iterf ()
  {
    if (incomplete) return;
    Rng r (rng.next () + (uint64_t) g.rank);
    J q;
    q.open ('[');
    t8_locidx_t nl = t8_forest_get_local_num_leaf_elements (f);
    for (int k = 0; k < 10 && nl > 0; k++) {
      t8_locidx_t lt;
      const t8_element_t *le = t8_forest_get_leaf_element (f, r.below (nl), &lt);
      t8_eclass_t c = t8_forest_get_tree_class (f, lt);
      long gt = t8_forest_global_tree_id (f, lt);
      Path p = vh_path (scheme, c, le);
      p.resize (r.below ((int) p.size () + 1));
      Elem e (scheme, c);
      e.to_path (p);
      int nf = scheme->element_get_num_faces (c, e);
      if (nf == 0) continue;
      int face = r.below (nf);
      /* the leaves below e */
      const t8_element_array_t *all = t8_forest_tree_get_leaf_elements (f, lt);
      t8_locidx_t n = (t8_locidx_t) t8_element_array_get_count (all), i0 = -1, cnt = 0;
      for (t8_locidx_t i = 0; i < n; i++)
        if (anc (p, vh_path (scheme, c, t8_element_array_index_locidx (all, i)))) {
          if (i0 < 0) i0 = i;
          cnt++;
        }
      t8_element_array_t view;
      t8_element_array_init_view (&view, all, i0, cnt);
      q.open ('{').key ("x");
      vh_leaf (q, gt, p);
      q.kn ("f", face).key ("l").open ('[');
      IterCtx ctx { &q, 0 };
      t8_forest_iterate_faces (f, lt, e, face, &view, i0, iter_cb, &ctx);
      q.close (']').close ('}');
    }
    q.close (']');
    J j;
    j.open ('{').key ("op").str ("iterf").key ("q").raw (g.gather (q.t)).close ('}');
    emit (j.t);
  }

  /* ---------------------------- mesh handle ---------------------------- */
  template <class M>
  void
  handle_view (M &m, bool ghosts)
  {
    J el, q, fa, ef, rk, dt;
    long nl = m.get_num_local_elements (), ng = m.get_num_ghosts ();
    t8_forest_t h = m.get_forest ();
    el.open ('[');
    auto one = [&] (const typename M::element_class &e) {
      t8_eclass_t c = t8_forest_get_tree_class (h, e.get_local_tree_id ());
      el.open ('[').num (t8_forest_global_tree_id (h, e.get_local_tree_id ())).arr (vh_path (scheme, c, e.get_forest_element ()));
      el.num (e.get_element_handle_id ()).num (e.is_ghost_element () ? 1 : 0).num (e.get_level ()).num (e.get_num_faces ()).num (e.get_num_vertices ());
      el.num ((int) e.get_shape ()).num (e.get_mesh () == &m ? e.get_local_element_id () : -1);
      el.open ('[');
      for (int k = 0; k < e.get_num_faces (); k++) {
        el.open ('[').num ((int) e.get_face_shape (k));
        for (int v = 0; v < e.get_num_vertices_of_face (k); v++) el.num (e.face_vertex_to_element_vertex (k, v));
        el.close (']');
      }
      el.close (']').close (']');
    };
    if (rng.below (2))
      for (auto &e : m) one (e);
    else
      for (auto it = m.cbegin (); it != m.cend (); ++it) one (*it);
    for (long i = nl; i < nl + ng; i++) one (m[(t8_locidx_t) i]);
    el.close (']');
    /* neighbours, asked twice (the second answer may come from a cache) */
    q.open ('[');
    long total = nl + ng;
    int keep = total > 30 ? (int) (3000 / total) : 100;
    uint64_t sd = rng.next ();
    for (long i = 0; i < total; i++) {
      if ((int) (vh_mix (sd + (uint64_t) i) % 100) >= keep) continue;
      auto &e = m[(t8_locidx_t) i];
      if constexpr (M::element_class::has_face_neighbor_cache ())
        if (vh_mix (sd + (uint64_t) i) % 7 == 0) e.fill_face_neighbor_cache ();
      for (int k = 0; k < e.get_num_faces (); k++) {
        std::vector<int> dual { 77 }, dual2 { 78 };
        auto nb = e.get_face_neighbors (k, dual);
        auto nb2 = e.get_face_neighbors (k, dual2);
        auto nb3 = e.get_face_neighbors (k);
        int ok = nb == nb2 && nb == nb3 && dual == dual2 && dual.size () == nb.size ();
        q.open ('{').kn ("i", i).kn ("f", k).key ("n").open ('[');
        for (size_t j = 0; j < nb.size () && ok; j++) q.open ('[').num (nb[j]->get_element_handle_id ()).num (dual[j]).close (']');
        q.close (']').kn ("ok", ok).close ('}');
      }
    }
    q.close (']');
    J j;
    j.open ('{').key ("op").str ("hview").kn ("gh", ghosts).key ("el").raw (g.gather (el.t)).key ("q").raw (g.gather (q.t)).kn ("dim", m.get_dimension ());
    j.close ('}');
    emit (j.t);
    if (!ghosts) return;
    /* ranks, faces */
    if (vh_envi ("VH_FACES", 0)) {
    m.fill_rank_vector ();
    rk.open ('[');
    for (long i = 0; i < total; i++) rk.num (m.get_rank ((t8_locidx_t) i));
    rk.close (']');
    bool bal = m.is_balanced ();
    int all = 0, mine = bal;
    MPI_Allreduce (&mine, &all, 1, MPI_INT, MPI_MIN, g.comm);
    fa.open ('[');
    ef.open ('[');
    if (all) {
      m.fill_unique_face_vector ();
      if (rng.below (4) == 0) m.fill_unique_face_vector ();
      if (total > 0) {
        for (auto &x : m.get_element_face_vector ()) ef.arr (x);
        bool some = false; /* a process may have elements without faces */
        for (auto &x : m.get_element_face_vector ()) some |= !x.empty ();
        if (some)
          for (auto &x : m.get_unique_face_vector ()) {
            fa.open ('[').num ((int) x.type).num (x.orientation);
            for (auto &sd : x.sides) fa.open ('[').num (sd.element_id).num (sd.local_face_id).num (sd.rank).close (']');
            fa.close (']');
          }
      }
    }
    fa.close (']');
    ef.close (']');
    J k;
    k.open ('{').key ("op").str ("hface").kn ("bal", all).key ("gl").raw (g.gather (gl_json ())).key ("rk").raw (g.gather (rk.t)).key ("fa").raw (g.gather (fa.t));
    k.key ("ef").raw (g.gather (ef.t)).close ('}');
    emit (k.t);
    }
    /* data */
    if constexpr (M::has_element_data_handler_competence ()) {
      long fe = t8_forest_get_first_local_leaf_element_id (h);
      int way = rng.below (3);
      if (way == 0) {
        std::vector<int> v;
        for (long i = 0; i < nl; i++) v.push_back ((int) (3 * (fe + i) + 5));
        m.set_element_data (v);
      }
      else if constexpr (M::element_class::has_element_data_handler_competence ()) {
        for (long i = way == 1 ? 0 : nl - 1; way == 1 ? i < nl : i >= 0; i += way == 1 ? 1 : -1) m[(t8_locidx_t) i].set_element_data ((int) (3 * (fe + i) + 5));
      }
      else {
        std::vector<int> v (nl);
        for (long i = 0; i < nl; i++) v[i] = (int) (3 * (fe + i) + 5);
        m.set_element_data (std::move (v));
      }
      m.exchange_ghost_data ();
      dt.open ('[');
      auto &v = m.get_element_data ();
      for (size_t i = 0; i < v.size (); i++) {
        int x = v[i];
        if constexpr (M::element_class::has_element_data_handler_competence ())
          if (m[(t8_locidx_t) i].get_element_data () != x) x = -1;
        dt.num (x);
      }
      dt.close (']');
      J d;
      d.open ('{').key ("op").str ("exch").kn ("mod", 0).key ("v").raw (g.gather (dt.t)).key ("gl").raw (g.gather (gl_json ())).close ('}');
      emit (d.t);
    }
  }
  template <class M>
  void
  op_handle ()
  {
    if (incomplete) return;
    t8_forest_ref (f);
    auto m = std::make_unique<M> (f);
    bool ghosts = false;
    int n = rng.range (1, 3);
    for (int k = 0; k < n && leaves () <= 250; k++) {
      int kind = rng.below (6);
      bool ad = kind != 4 && rng.below (3) > 0, pa = kind != 4 && rng.below (2), bal = kind != 4 && rng.below (2) && leaves () < 90, repart = rng.below (2);
      bool pfc = pa && !ad && !bal && rng.below (3) == 0;
      bool gh = rng.below (4) > 0;
      AdaptCtx a;
      draw_adapt (rng, a, cap, leaves (), false);
      a.calls.open ('[');
      std::vector<int> order { 0, 1, 2, 3 };
      for (int i = 3; i > 0; i--) std::swap (order[i], order[rng.below (i + 1)]);
      bool ud = rng.below (2);
      for (int o : order) {
        if (o == 0 && ad) {
          if (ud) m->set_adapt (M::template mesh_adapt_callback_wrapper<AdaptCtx *> (handle_cb<M>, &a));
          else m->set_adapt ([&a] (const M &x, std::span<const typename M::element_class> e) { return handle_cb<M> (x, e, &a); });
        }
        if (o == 1 && pa) m->set_partition (pfc);
        if (o == 2 && bal) m->set_balance (!repart);
        if (o == 3 && gh) m->set_ghost ();
      }
      t8_forest_t old = f;
      m->commit ();
      f = m->get_forest ();
      t8_forest_ref (f);
      ghosts = gh;
      a.calls.close (']');
      J j;
      if (!ad && !pa && !bal) {
        j.open ('{').key ("op").str ("copy").key ("eq").raw (g.gather (std::to_string (t8_forest_is_equal (f, old) ? 1 : 0)));
      }
      else if (ad + pa + bal == 1) {
        if (ad)
          j.open ('{').key ("op").str ("adapt").kn ("rec", 0).kn ("holes", 0).kn ("holes2", 0).key ("calls").raw (g.gather (a.calls.t)).key ("eq").raw (
            g.gather (std::to_string (t8_forest_is_equal (f, old) ? 1 : 0)));
        else if (pa)
          j.open ('{').key ("op").str ("part").key ("kind").str ("even").kn ("pfc", pfc).key ("wt").raw ("[]").key ("off").raw ("[]");
        else
          j.open ('{').key ("op").str ("bal").kn ("repart", repart).key ("isb").raw (g.gather (std::to_string (m->is_balanced () ? 1 : 0)));
      }
      else {
        j.open ('{').key ("op").str ("combo").kn ("ad", ad).kn ("pa", pa).kn ("bal", bal).kn ("rec", 0).kn ("repart", repart);
        j.key ("calls").raw (g.gather (a.calls.t));
      }
      j.key ("obs").raw (obs ()).close ('}');
      emit (j.t);
      t8_forest_unref (&old);
      gl.clear ();
      if (ghosts) {
        read_ghosts ();
        op_ghost ();
      }
      if (leaves () <= 110) handle_view (*m, ghosts);
    }
    m.reset ();
  }

  std::string
  run ()
  {
    mem0 = (long) sc_memory_status (t8_get_package_id ());
    ev.open ('[');
    start ();
    int nops = rng.range (1, 4);
    std::string kinds;
    if (on ('A') || on ('R')) kinds += "AA";
    if (on ('P') || on ('W') || on ('O') || on ('F')) kinds += "PP";
    if (on ('T')) kinds += 'T';
    if (on ('L')) kinds += 'L';
    if (on ('C')) kinds += 'C';
    if (on ('M')) kinds += "MM";
    if (on ('Y')) {
      using namespace t8_mesh_handle;
      using plain = t8_mesh_handle::mesh<element_competence_pack<>, dg_mesh_competences>;
      using full = t8_mesh_handle::mesh<union_competence_packs_type<all_cache_element_competences, data_element_competences>,
                        union_competence_packs_type<data_mesh_competences<int>, dg_mesh_competences>>;
      if (rng.below (2)) op_handle<full> ();
      else op_handle<plain> ();
      nops = 0;
    }
    for (int k = 0; k < nops && !kinds.empty (); k++) {
      char o = kinds[rng.below ((int) kinds.size ())];
      if (k == 0 && (on ('A') || on ('R'))) o = 'A';
      if (k == 1 && on ('L') && !on ('C')) o = 'L';
      if (leaves () > 400) break;
      switch (o) {
      case 'A': op_adapt (); break;
      case 'P': op_part (); break;
      case 'T': op_gather (); break;
      case 'L': op_bal (); break;
      case 'C': op_copy (); break;
      case 'M': op_combo (); break;
      }
    }
    if (leaves () <= 400) {
      if (on ('N') && !incomplete && rng.below (3) == 0) op_lfn (false);
      if (on ('Q')) op_elem ();
      if (on ('S')) op_search (), op_qcall ();
      if (on ('I')) op_iterf ();
      if ((on ('G') || on ('X') || on ('N')) && make_ghost ()) {
        if (on ('G')) op_ghost ();
        if (on ('X')) op_exch ();
        if (on ('N')) op_lfn (true);
      }
    }
    t8_forest_unref (&f);
    if (on ('V')) {
      long m = (long) sc_memory_status (t8_get_package_id ()) - mem0;
      J j;
      j.open ('{').key ("op").str ("mem").key ("m").raw (g.gather (std::to_string (m))).close ('}');
      emit (j.t);
    }
    ev.close (']');
    J h;
    h.open ('{').key ("mesh").raw (mesh.json ()).kn ("P", g.size).kn ("maxl", maxl).kn ("pc", pcmesh).key ("ev").raw (ev.t).close ('}');
    return h.t;
  }
};

int
main (int argc, char **argv)
{
  vh_init (&argc, &argv);
  if (argc < 3) return 99;
  mode = argv[1];
  Group g = vh_groups ();
  uint64_t seed = (uint64_t) vh_envi ("VERIF_SEED", 1);
  int n = (int) vh_envi ("VH_N", 20), only = (int) vh_envi ("VH_ONLY", -1);
  std::string name = std::string (argv[2]) + "." + std::to_string (g.id);
  FILE *o = g.rank == 0 ? fopen (name.c_str (), "w") : nullptr;
  uint64_t mh = 0;
  for (char c : mode) mh = mh * 131 + (uint64_t) c;
  for (int k = 0; k < n; k++) {
    if (only >= 0 && k != only) continue;
    if (vh_envi ("VH_VERBOSE", 0) && g.rank == 0) fprintf (stderr, "group %d history %d\n", g.id, k);
    History h (g, vh_mix (seed * 1000003 + (uint64_t) k * 7919 + (uint64_t) g.id * 104729 + mh));
    std::string s = h.run ();
    if (o) {
      fprintf (o, "%s\n", s.c_str ());
      fflush (o);
    }
  }
  if (o) fclose (o);
  vh_merge (g, argv[2]);
  vh_fini ();
  return 0;
}
