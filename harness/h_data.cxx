/* Containers: element arrays with their views and iterators, arrays in shared memory, packed messages. Every process
 * writes a history of its own.
 * usage: h_data MODES OUT, MODES out of a (element arrays), s (shared memory), m (messages), x (small helpers), e (reference shapes) */
#include "vh_forest.hxx"
#include <t8_data/t8_containers.h>
#include <t8_data/t8_element_array_iterator.hxx>
#include <t8_data/t8_shmem.h>
#include <t8_data/t8_vector_handler.hxx>
#include <t8_types/t8_vec.h>
#include <t8_types/t8_vec.hxx>
#include <t8_helper_functions/t8_mat.h>
#include <t8_element/t8_element.h>
#include <t8_geometry/t8_geometry_helpers.h>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_helper_functions/t8_vector_algorithms.hxx>
#include <list>

static std::string MODES;

/* an item of a message: any number of integers and one number */
struct Item
{
  std::vector<int> a;
  double b = 0;
};
template <>
int
t8_data_handler<Item>::size (const Item &x, sc_MPI_Comm comm)
{
  int s, t, u;
  MPI_Pack_size (1, MPI_INT, comm, &s);
  MPI_Pack_size ((int) x.a.size (), MPI_INT, comm, &t);
  MPI_Pack_size (1, MPI_DOUBLE, comm, &u);
  return s + t + u;
}
template <>
void
t8_data_handler<Item>::pack (const Item &x, int &pos, void *buf, const int n, sc_MPI_Comm comm)
{
  int k = (int) x.a.size ();
  MPI_Pack (&k, 1, MPI_INT, buf, n, &pos, comm);
  MPI_Pack (x.a.data (), k, MPI_INT, buf, n, &pos, comm);
  MPI_Pack (&x.b, 1, MPI_DOUBLE, buf, n, &pos, comm);
}
template <>
void
t8_data_handler<Item>::unpack (const void *buf, const int n, int &pos, Item &x, sc_MPI_Comm comm)
{
  int k;
  MPI_Unpack (buf, n, &pos, &k, 1, MPI_INT, comm);
  x.a.resize (k);
  MPI_Unpack (buf, n, &pos, x.a.data (), k, MPI_INT, comm);
  MPI_Unpack (buf, n, &pos, &x.b, 1, MPI_DOUBLE, comm);
}
template <>
constexpr t8_data_handler_type
t8_data_handler<Item>::type ()
{
  return t8_data_handler_type (4711);
}

typedef std::vector<Item> Items;

/* three doubles that are passed to the C interface */
struct C3
{
  double v[3];
  double *begin () { return v; }
  double *end () { return v + 3; }
  const double *begin () const { return v; }
  const double *end () const { return v + 3; }
  double &operator[] (int k) { return v[k]; }
};
static double *
P (C3 &x)
{
  return x.v;
}
static t8_3D_vec &
P (t8_3D_vec &x)
{
  return x;
}
struct Arr
{
  int h;
  t8_eclass_t c;
  t8_element_array_t *a; /* from t8_element_array_new */
  t8_element_array_t own;
  bool sorted;
};
struct Sha
{
  int h;
  t8_shmem_array_t a;
  int n, es;
};

struct Story
{
  Group &G;
  Rng r;  /* the same on all processes */
  Rng q;  /* of this process */
  J j;
  int next = 0;
  const t8_scheme *s;
  std::vector<Arr *> as;
  std::vector<Sha> sh;
  Story (Group &G_, Rng r_, const t8_scheme *s_): G (G_), r (r_), q (vh_mix (r_.s + 77 * (uint64_t) G_.rank + 5)), s (s_)
  {
    j.open ('[');
  }

  /* ---- element arrays ---- */
  Path
  rpath (t8_eclass_t c, int maxl)
  {
    Path p;
    Elem e (s, c);
    s->set_to_root (c, e);
    for (int k = q.range (0, maxl); k > 0; k--) {
      int i = q.below (s->element_get_num_children (c, e));
      p.push_back (i);
      s->element_get_child (c, e, i, e);
    }
    return p;
  }
  void
  put (t8_eclass_t c, t8_element_t *to, const Path &p)
  {
    Elem e (s, c);
    e.to_path (p);
    s->element_copy (c, e, to);
  }
  Path
  get (t8_eclass_t c, const t8_element_t *e)
  {
    Path p;
    Elem x (s, c);
    s->element_copy (c, e, x);
    for (int l = s->element_get_level (c, x); l > 0; l--) {
      p.insert (p.begin (), s->element_get_child_id (c, x));
      s->element_get_parent (c, x, x);
    }
    return p;
  }
  void
  paths (const std::vector<Path> &v)
  {
    j.open ('[');
    for (auto &p : v) j.arr (p);
    j.close (']');
  }
  /* the leaves of a random refinement, some left out */
  void
  leaves (t8_eclass_t c, const Path &p, int depth, std::vector<Path> &out)
  {
    if (depth > 0 && q.below (3)) {
      Elem e (s, c);
      e.to_path (p);
      const int n = s->element_get_num_children (c, e);
      for (int k = 0; k < n; k++) {
        Path x = p;
        x.push_back (k);
        leaves (c, x, q.below (4) ? depth - 2 : depth - 1, out);
      }
    }
    else if (q.below (8))
      out.push_back (p);
  }
  void
  arr_new ()
  {
    Arr *A = new Arr ();
    A->h = next++;
    A->c = (t8_eclass_t) q.range (0, 7);
    A->a = nullptr;
    A->sorted = q.below (2);
    std::vector<Path> v;
    if (A->sorted) leaves (A->c, Path (), q.range (0, 3), v);
    else
      for (int n = q.below (4) ? q.below (6) : q.below (30); n > 0; n--) v.push_back (rpath (A->c, 4));
    const int n = (int) v.size (), how = q.below (5);
    t8_element_array_t *a = &A->own;
    if (how == 0) { /* filled one by one */
      a = A->a = t8_element_array_new (s, A->c);
      for (auto &p : v) put (A->c, t8_element_array_push (a), p);
    }
    else if (how == 1) {
      a = A->a = t8_element_array_new_count (s, A->c, n);
      for (int k = 0; k < n; k++) put (A->c, t8_element_array_index_locidx_mutable (a, k), v[k]);
    }
    else if (how == 2) {
      t8_element_array_init_size (a, s, A->c, n);
      for (int k = 0; k < n; k++) put (A->c, t8_element_array_index_int_mutable (a, k), v[k]);
    }
    else if (how == 3 || n == 0) {
      t8_element_array_init (a, s, A->c);
      if (n) {
        t8_element_t *e = t8_element_array_push_count (a, n);
        for (int k = 0; k < n; k++) put (A->c, (t8_element_t *) ((char *) e + k * s->get_element_size (A->c)), v[k]);
      }
    }
    else { /* a copy of the elements of another array */
      t8_element_array_t o;
      t8_element_array_init_size (&o, s, A->c, n);
      for (int k = 0; k < n; k++) put (A->c, t8_element_array_index_locidx_mutable (&o, k), v[k]);
      t8_element_array_init_copy (a, s, A->c, t8_element_array_get_data (&o), n);
      t8_element_array_reset (&o);
    }
    j.open ('{').key ("k").str ("new").kn ("h", A->h).key ("p");
    paths (v);
    j.close ('}');
    as.push_back (A);
  }
  t8_element_array_t *
  of (Arr *A)
  {
    return A->a ? A->a : &A->own;
  }
  void
  arr_free (size_t k)
  {
    Arr *A = as[k];
    as.erase (as.begin () + k);
    t8_element_array_reset (of (A));
    if (A->a) T8_FREE (A->a);
    j.open ('{').key ("k").str ("free").kn ("h", A->h).close ('}');
    delete A;
  }
  void
  read_list (const char *key, Arr *A, t8_element_array_t *a, int n)
  {
    j.key (key).open ('[');
    for (int k = 0; k < n; k++) j.arr (get (A->c, k % 2 ? t8_element_array_index_int (a, k) : t8_element_array_index_locidx (a, k)));
    j.close (']');
  }
  void
  arr_read (Arr *A)
  {
    t8_element_array_t *a = of (A);
    const int n = (int) t8_element_array_get_count (a);
    j.open ('{').key ("k").str ("read").kn ("h", A->h).kn ("n", n);
    j.kn ("ok", t8_element_array_get_size (a) == s->get_element_size (A->c) && t8_element_array_get_scheme (a) == s && t8_element_array_get_tree_class (a) == A->c
                  && t8_element_array_get_array (a) == t8_element_array_get_array_mutable (a) && (t8_element_array_get_data (a) == nullptr) == (n == 0)
                  && (n == 0 || t8_element_array_get_data_mutable (a) == t8_element_array_index_locidx (a, 0)));
    read_list ("p", A, a, n);
    /* forwards and backwards */
    auto b = t8_element_array_begin (a), e = t8_element_array_end (a);
    j.kn ("len", e - b).key ("f").open ('[');
    for (auto x = b; x != e; q.below (2) ? (void) x++ : (void) ++x) j.arr (get (A->c, *x));
    j.close (']').key ("b").open ('[');
    for (auto x = e; x > b;) {
      q.below (2) ? (void) x-- : (void) --x;
      j.arr (get (A->c, *x));
    }
    j.close (']');
    /* jumps: positions and elements */
    j.key ("jp").open ('[');
    auto x = b;
    for (int k = 0; k < 4 && n; k++) {
      const int to = q.below (n), at = (int) (x - b);
      const int how = q.below (5);
      const auto y = x;
      if (how == 0) x += to - at;
      else if (how == 1) x = x + (to - at);
      else if (how == 2) x = (to - at) + x;
      else if (how == 3) x -= at - to;
      else x = x - (at - to);
      const bool ord = (x < e) && !(e < x) && (e > x) && (x <= e) && (e >= x) && (x >= b) && ((x == b) == (to == 0)) && ((x != b) == (to != 0));
      const int l = std::min (s->element_get_level (A->c, *x) + 1, 5);
      j.open ('[').num (to).num (ord).num (x.get_current_index ()).arr (get (A->c, *x)).arr (get (A->c, b[to]));
      j.num (x.get_linear_id_at_level (l) == s->element_get_linear_id (A->c, *x, l)).num (at).num (x - y).num (e - x).close (']');
    }
    j.close (']').close ('}');
  }
  void
  arr_step ()
  {
    if (as.empty () || (as.size () < 5 && q.below (5) == 0)) {
      arr_new ();
      return;
    }
    const size_t k = q.below ((int) as.size ());
    Arr *A = as[k];
    t8_element_array_t *a = of (A);
    const int n = (int) t8_element_array_get_count (a);
    switch (q.below (10)) {
    case 0:
    case 1: {
      std::vector<Path> v;
      const bool many = q.below (2);
      for (int m = many ? q.range (1, 12) : 1; m > 0; m--) v.push_back (rpath (A->c, 4));
      t8_element_t *e = many ? t8_element_array_push_count (a, v.size ()) : t8_element_array_push (a);
      for (size_t m = 0; m < v.size (); m++) put (A->c, (t8_element_t *) ((char *) e + m * s->get_element_size (A->c)), v[m]);
      A->sorted = false;
      j.open ('{').key ("k").str ("push").kn ("h", A->h).key ("p");
      paths (v);
      j.close ('}');
      break;
    }
    case 2: {
      const int m = q.below (3) ? q.below (n + 8) : n;
      t8_element_array_resize (a, m);
      std::vector<Path> v;
      for (int l = n; l < m; l++) {
        v.push_back (rpath (A->c, 4));
        put (A->c, t8_element_array_index_locidx_mutable (a, l), v.back ());
      }
      if (m > n) A->sorted = false;
      j.open ('{').key ("k").str ("size").kn ("h", A->h).kn ("n", m).key ("p");
      paths (v);
      j.close ('}');
      break;
    }
    case 3:
      if (n) {
        const int l = q.below (n);
        Path p = rpath (A->c, 4);
        put (A->c, t8_element_array_index_locidx_mutable (a, l), p);
        A->sorted = false;
        j.open ('{').key ("k").str ("set").kn ("h", A->h).kn ("i", l).key ("p").arr (p).close ('}');
      }
      break;
    case 4: {
      Arr *B = as[q.below ((int) as.size ())];
      if (B != A && B->c == A->c) {
        t8_element_array_copy (a, of (B));
        A->sorted = B->sorted;
        j.open ('{').key ("k").str ("copy").kn ("h", A->h).kn ("f", B->h).close ('}');
      }
      break;
    }
    case 5: { /* a part of the array seen, and changed, through a view */
      const int o = q.below (n + 1), m = q.below (n - o + 1);
      t8_element_array_t v;
      if (m && q.below (2)) t8_element_array_init_data (&v, t8_element_array_index_locidx (a, o), s, A->c, m);
      else t8_element_array_init_view (&v, a, o, m);
      j.open ('{').key ("k").str ("view").kn ("h", A->h).kn ("o", o).kn ("m", m).kn ("n", (int) t8_element_array_get_count (&v));
      read_list ("p", A, &v, m);
      j.close ('}');
      if (m) {
        const int l = q.below (m);
        Path p = rpath (A->c, 4);
        put (A->c, t8_element_array_index_locidx_mutable (&v, l), p);
        A->sorted = false;
        j.open ('{').key ("k").str ("set").kn ("h", A->h).kn ("i", o + l).key ("p").arr (p).close ('}');
      }
      break;
    }
    case 6:
      if (q.below (3) == 0) {
        t8_element_array_truncate (a);
        j.open ('{').key ("k").str ("size").kn ("h", A->h).kn ("n", 0).key ("p").open ('[').close (']').close ('}');
        break;
      }
    /* fall through */
    default:
      if (A->sorted && n) { /* look for elements */
        Path p = get (A->c, t8_element_array_index_locidx (a, q.below (n)));
        const int how = q.below (4);
        if (how == 1 && !p.empty ()) p.pop_back ();
        if (how == 2) {
          Elem e (s, A->c);
          e.to_path (p);
          p.push_back (q.below (s->element_get_num_children (A->c, e)));
        }
        if (how == 3) p = rpath (A->c, 4);
        Elem e (s, A->c);
        e.to_path (p);
        j.open ('{').key ("k").str ("find").kn ("h", A->h).key ("p").arr (p).kn ("r", t8_element_array_find (a, e)).close ('}');
      }
      else if (q.below (3) == 0) {
        arr_free (k);
        return;
      }
    }
    arr_read (A);
  }

  /* ---- shared memory ---- */
  static const long long U = 4294967311ll;
  /* entry of an array: 8 bytes are multiples of a number above 2^32, other sizes repeat an int */
  long long
  sval (const void *p, int es)
  {
    if (es == 8) {
      t8_gloidx_t x;
      memcpy (&x, p, 8);
      return x % U ? -7777777 : x / U;
    }
    int x, y;
    memcpy (&x, p, 4);
    for (int k = 4; k + 4 <= es; k += 4) {
      memcpy (&y, (const char *) p + k, 4);
      if (y != x) return -7777777;
    }
    return x;
  }
  void
  sput (void *p, int es, int v)
  {
    if (es == 8) {
      t8_gloidx_t x = v * U;
      memcpy (p, &x, 8);
    }
    else
      for (int k = 0; k + 4 <= es; k += 4) memcpy ((char *) p + k, &v, 4);
  }
  void
  swrite (Sha &S, const std::vector<int> &at, const std::vector<int> &v)
  {
    const bool can = t8_shmem_array_start_writing (S.a), how = r.below (2);
    if (can)
      for (size_t k = 0; k < at.size (); k++) {
        if (S.es == 8 && how) t8_shmem_array_set_gloidx (S.a, at[k], v[k] * U);
        else if (S.es == 8 && k % 2) t8_shmem_array_get_gloidx_array_for_writing (S.a)[at[k]] = v[k] * U;
        else sput (t8_shmem_array_index_for_writing (S.a, at[k]), S.es, v[k]);
      }
    t8_shmem_array_end_writing (S.a);
    const long w = G.sum (can);
    j.open ('{').key ("k").str ("swrite").kn ("h", S.h).kn ("w", w > 0).key ("i").arr (at).key ("v").arr (v).close ('}');
  }
  Sha &
  snew (int n, int es, bool fill)
  {
    Sha S { next++, nullptr, n, es };
    t8_shmem_array_init (&S.a, es, n, G.comm);
    j.open ('{').key ("k").str ("snew").kn ("h", S.h).kn ("n", (int) t8_shmem_array_get_elem_count (S.a));
    j.kn ("w", n).kn ("ok", (int) t8_shmem_array_get_elem_size (S.a) == es && t8_shmem_array_get_comm (S.a) == G.comm).close ('}');
    sh.push_back (S);
    if (fill) {
      std::vector<int> at, v;
      const bool up = r.below (2);
      for (int k = 0; k < n; k++) at.push_back (k), v.push_back (up ? 3 * k + r.below (4) : r.range (-9, 9));
      swrite (sh.back (), at, v);
    }
    return sh.back ();
  }
  void
  sread (Sha &S)
  {
    j.open ('{').key ("k").str ("sread").kn ("h", S.h).key ("v").open ('[');
    for (int k = 0; k < S.n; k++) j.num (sval (t8_shmem_array_index (S.a, k), S.es));
    j.close (']').key ("u").open ('[');
    for (int k = 0; k < S.n; k++) j.num (sval ((const char *) t8_shmem_array_get_array (S.a) + k * S.es, S.es));
    j.close (']');
    if (S.es == 8) {
      j.key ("g").open ('[');
      for (int k = 0; k < S.n; k++) {
        t8_gloidx_t x = k % 2 ? t8_shmem_array_get_gloidx (S.a, k) : t8_shmem_array_get_gloidx_array (S.a)[k];
        j.num (sval (&x, 8));
      }
      j.close (']');
    }
    j.close ('}');
    MPI_Barrier (G.comm); /* reading ends before anybody writes again */
  }
  static int
  cmp (t8_shmem_array_t a, const int i, const t8_gloidx_t x)
  {
    const t8_gloidx_t y = t8_shmem_array_get_gloidx (a, i);
    return x < y ? -1 : x > y ? 1 : 0;
  }
  void
  sstep ()
  {
    const int op = r.below (9);
    if (sh.empty () || (sh.size () < 5 && op == 0)) {
      static const int es[4] = { 8, 8, 4, 12 };
      const int n = r.range (1, 12), e = es[r.below (4)];
      sread (snew (n, e, true));
      return;
    }
    const size_t at = r.below ((int) sh.size ());
    Sha &S = sh[at];
    if (op == 1 || op == 2) {
      std::vector<int> x, v;
      for (int k = r.range (0, S.n); k > 0; k--) x.push_back (r.below (S.n)), v.push_back (r.range (-99, 99));
      swrite (S, x, v);
      sread (S);
    }
    else if (op == 3) { /* everybody contributes */
      const bool same = r.below (2), all8 = r.below (2);
      const int n0 = r.range (1, 4), es = all8 ? 8 : 4;
      std::vector<std::vector<int>> in (G.size);
      int tot = 0;
      for (auto &x : in) {
        for (int k = same ? n0 : r.below (4); k > 0; k--) x.push_back (r.range (-999, 999));
        tot += (int) x.size ();
      }
      if (tot == 0) return;
      Sha &T = snew (tot, es, r.below (2));
      std::vector<char> buf (es * in[G.rank].size () + 1);
      for (size_t k = 0; k < in[G.rank].size (); k++) sput (buf.data () + es * k, es, in[G.rank][k]);
      MPI_Datatype ty = es == 8 ? T8_MPI_GLOIDX : MPI_INT;
      if (same) t8_shmem_array_allgather (buf.data (), n0, ty, T.a, n0, ty);
      else t8_shmem_array_allgatherv (buf.data (), (int) in[G.rank].size (), ty, T.a, ty, G.comm);
      j.open ('{').key ("k").str ("sgather").kn ("h", T.h).key ("in").open ('[');
      for (auto &x : in) j.arr (x);
      j.close (']').close ('}');
      sread (T);
    }
    else if (op == 4) { /* prefix sums */
      const int m = r.range (1, 3);
      std::vector<std::vector<int>> in (G.size);
      for (auto &x : in)
        for (int k = 0; k < m; k++) x.push_back (r.range (-999, 999));
      const int es = r.below (2) ? 8 : 4;
      Sha &T = snew (m * (G.size + 1), es, r.below (2));
      std::vector<char> buf (es * m);
      for (int k = 0; k < m; k++) sput (buf.data () + es * k, es, in[G.rank][k]);
      t8_shmem_array_prefix (buf.data (), T.a, m, es == 8 ? T8_MPI_GLOIDX : MPI_INT, MPI_SUM, G.comm);
      j.open ('{').key ("k").str ("sprefix").kn ("h", T.h).key ("in").open ('[');
      for (auto &x : in) j.arr (x);
      j.close (']').close ('}');
      sread (T);
    }
    else if (op == 5) {
      const int n = S.n, e = S.es, h = S.h;
      t8_shmem_array_t from = S.a;
      Sha &T = snew (n, e, r.below (2));
      t8_shmem_array_copy (T.a, from);
      j.open ('{').key ("k").str ("scopy").kn ("h", T.h).kn ("f", h).close ('}');
      sread (T);
    }
    else if (op == 6) {
      Sha &T = sh[r.below ((int) sh.size ())];
      j.open ('{').key ("k").str ("seq").kn ("h", S.h).kn ("f", T.h).kn ("s", S.es == T.es).kn ("r", t8_shmem_array_is_equal (S.a, T.a)).close ('}');
      MPI_Barrier (G.comm);
    }
    else if (op == 7) {
      if (S.es == 8) {
        const t8_gloidx_t x = q.below (2) ? t8_shmem_array_get_gloidx (S.a, q.below (S.n)) : q.range (-9, 40) * U;
        j.open ('{').key ("k").str ("sbin").kn ("h", S.h).kn ("x", x / U).kn ("r", t8_shmem_array_binary_search (S.a, x, S.n - 1, cmp)).close ('}');
      }
      MPI_Barrier (G.comm);
    }
    else if (op == 8) {
      sfree (at);
    }
    if (sh.size () > 6) sfree (0);
  }
  void
  sfree (size_t k)
  {
    Sha S = sh[k];
    sh.erase (sh.begin () + k);
    t8_shmem_array_destroy (&S.a);
    j.open ('{').key ("k").str ("free").kn ("h", S.h).kn ("z", S.a == nullptr).close ('}');
  }

  /* ---- messages ---- */
  Items
  ritems (Rng &g)
  {
    Items v;
    for (int n = g.below (4) ? g.below (5) : g.below (40); n > 0; n--) {
      Item x;
      for (int k = g.below (3) ? g.below (4) : g.below (30); k > 0; k--) x.a.push_back (g.range (-999999, 999999));
      x.b = g.range (-9999, 9999) / 8.;
      v.push_back (x);
    }
    return v;
  }
  static void
  emit (J &o, const Items &v)
  {
    o.open ('[');
    for (auto &x : v) {
      o.open ('[');
      for (int k : x.a) o.num (k);
      o.num (vh_scale (x.b, 3)).close (']');
    }
    o.close (']');
  }
  void
  got (int cnt, const t8_vector_handler<Item> &h, int ok)
  {
    j.kn ("n", cnt).kn ("ok", ok).key ("got");
    if (h.get_data ()) emit (j, *h.get_data ());
    else j.open ('[').close (']');
  }
  void
  message ()
  {
    const int kind = r.below (3), tag = r.below (100), shift = r.below (G.size);
    const int m = r.range (1, 3);
    std::vector<std::vector<Items>> all (G.size); /* what every process sends */
    for (auto &x : all)
      for (int k = 0; k < m; k++) x.push_back (ritems (r));
    const int to = (G.rank + shift) % G.size, from = (G.rank + G.size - shift) % G.size;
    t8_vector_handler<Item> in;
    if (q.below (2)) in = t8_vector_handler<Item> (ritems (q)); /* must not matter */
    if (kind == 0) { /* several vectors in one buffer */
      std::vector<t8_vector_handler<Item>> hs;
      int size = 0, pos = 0;
      for (auto &x : all[G.rank]) hs.emplace_back (x), size += hs.back ().buffer_size (G.comm);
      std::vector<char> buf (size + 16, 77);
      for (auto &h : hs) h.pack_vector_prefix (buf.data (), size, pos, G.comm);
      const int end = pos;
      int guard = end <= size && hs[0].type ().get () == 4711;
      for (int k = 0; k < 16; k++) guard = guard && buf[size + k] == 77;
      pos = 0;
      for (int k = 0; k < m; k++) {
        int cnt = -5;
        in.unpack_vector_prefix (buf.data (), size, pos, cnt, G.comm);
        event (all[G.rank][k], cnt, in, guard && (k < m - 1 || pos == end));
      }
    }
    else if (kind == 1) {
      for (int k = 0; k < m; k++) {
        t8_vector_handler<Item> h (all[G.rank][k]);
        int cnt = -5;
        MPI_Status st;
        const int ret = h.sendrecv (to, from, tag, G.comm, &st, cnt);
        event (all[from][k], cnt, h, ret == MPI_SUCCESS && st.MPI_SOURCE == from && st.MPI_TAG == tag);
      }
    }
    else if (shift) { /* in order */
      for (int p = 0; p < G.size; p++) {
        const int rcv = (p + shift) % G.size;
        if (G.rank == p)
          for (int k = 0; k < m; k++) {
            t8_vector_handler<Item> h (all[p][k]);
            h.send (rcv, tag, G.comm);
          }
        if (G.rank == rcv)
          for (int k = 0; k < m; k++) {
            int cnt = -5;
            MPI_Status st;
            const int ret = in.recv (p, tag, G.comm, &st, cnt);
            event (all[p][k], cnt, in, ret == MPI_SUCCESS && st.MPI_SOURCE == p && st.MPI_TAG == tag);
          }
      }
    }
  }
  void
  event (const Items &sent, int cnt, const t8_vector_handler<Item> &h, int ok)
  {
    j.open ('{').key ("k").str ("msg").key ("sent");
    emit (j, sent);
    got (cnt, h, ok);
    j.close ('}');
  }

  /* ---- vectors ---- */
  static long long
  ex (double x, double tol = 0)
  {
    const double z = std::nearbyint (x);
    return std::fabs (x) < 2e9 && std::fabs (x - z) <= tol ? (long long) z : -7777777;
  }
  template <class V>
  void
  vec (const char *k, const V &v, double f = 1, double tol = 0)
  {
    j.key (k).open ('[');
    for (double x : v) j.num (ex (x * f, tol));
    j.close (']');
  }
  template <class V>
  void
  rvec (V &v, int m)
  {
    for (auto &x : v) x = q.range (-m, m);
  }
  /* a vector of integer length n, scaled by some factor */
  template <class V>
  int
  pyth (V &v, int scale)
  {
    static const int P[][4] = { { 1, 2, 2, 3 }, { 2, 3, 6, 7 }, { 1, 4, 8, 9 }, { 4, 4, 7, 9 }, { 2, 6, 9, 11 }, { 6, 6, 7, 11 }, { 3, 4, 0, 5 }, { 5, 12, 0, 13 }, { 1, 0, 0, 1 }, { 3, 4, 12, 13 } };
    const int *p = P[q.below (10)];
    int o[3] = { 0, 1, 2 };
    std::swap (o[0], o[q.below (3)]), std::swap (o[1], o[1 + q.below (2)]);
    for (int k = 0; k < 3; k++) v[k] = (double) p[o[k]] * scale * (q.below (2) ? 1 : -1);
    return p[3];
  }
  template <class V>
  void
  vectors (V x, V y, V z)
  {
    const int op = q.below (17), al = q.range (-9, 9), be = q.range (-9, 9);
    auto tail = [&] () { j.close ('}'); };
    j.open ('{').key ("k").str ("vec").kn ("op", op).kn ("al", al).kn ("be", be);
    vec ("x", x), vec ("y", y), vec ("z", z);
    double s = 0;
    switch (op) {
    case 0: s = t8_norm (P (x)); j.kn ("r", ex (s * s, 1e-6)); break;
    case 1: s = t8_dist (P (x), P (y)); j.kn ("r", ex (s * s, 1e-6)); break;
    case 2: j.kn ("r", ex (t8_dot (P (x), P (y)))); break;
    case 3: t8_copy (P (x), P (z)); break;
    case 4: t8_ax (P (x), al); break;
    case 5: t8_axy (P (x), P (y), al); break;
    case 6: t8_axb (P (x), P (y), al, be); break;
    case 7: t8_axpy (P (x), P (y), al); break;
    case 8: t8_axpyz (P (x), P (y), P (z), al); break;
    case 9: t8_cross_3D (P (x), P (y), P (z)); break;
    case 10: t8_diff (P (x), P (y), P (z)); break;
    case 11: { V o; t8_normal_of_tri (P (x), P (y), P (z), P (o)); vec ("r", o); break; }
    case 12: {
      if (q.below (2)) y = x;
      y[q.below (3)] += q.range (-2, 2);
      const double tol = q.range (0, 2) + .25;
      j.key ("y2"), j.open ('[');
      for (double a : y) j.num (ex (a));
      j.close (']').kn ("tol", (int) tol).kn ("r", t8_eq (P (x), P (y), tol) ? 1 : 0);
      break;
    }
    case 13: {
      const int n = pyth (x, q.range (1, 5));
      vec ("v", x), j.kn ("n", n);
      t8_normalize (P (x));
      vec ("r", x, n, 1e-9);
      break;
    }
    case 14: {
      const int n = pyth (x, q.range (1, 5)), l = q.range (1, 9);
      vec ("v", x), j.kn ("n", n).kn ("l", l);
      t8_rescale (P (x), l);
      vec ("r", x, n, 1e-9);
      break;
    }
    case 15: {
      if (q.below (3) == 0) { /* multiples of (1,1,1) up to signs */
        const int n = q.range (1, 9);
        for (auto &a : x) a = q.below (2) ? n : -n;
      }
      if (x[0] == 0 && x[1] == 0 && x[2] == 0) x[q.below (3)] = 3;
      vec ("v", x);
      t8_orthogonal_tripod (P (x), P (y), P (z));
      vec ("r", y, 1e4, .5), vec ("s", z, 1e4, .5);
      break;
    }
    case 16: j.kn ("r", ex (t8_cross_2D (P (x), P (y)))); break;
    }
    vec ("x9", x, op == 13 || op == 14 ? 0 : 1), vec ("y9", y, op == 15 ? 0 : 1), vec ("z9", z, op == 15 ? 0 : 1);
    tail ();
  }
  void
  helpers ()
  {
    const int what = q.below (6);
    if (what < 2) {
      t8_3D_vec x, y, z;
      rvec (x, 30), rvec (y, 30), rvec (z, 30);
      vectors (x, y, z);
    }
    else if (what == 2) { /* the C interface */
      C3 x, y, z;
      rvec (x, 30), rvec (y, 30), rvec (z, 30);
      vectors (x, y, z);
    }
    else if (what == 3) { /* four points in a plane */
      t8_3D_vec p[4];
      for (auto &x : p) rvec (x, 6);
      if (q.below (2))
        for (int a = 0; a < 3; a++) p[3][a] = p[0][a] + q.range (-1, 1) * (p[1][a] - p[0][a]);
      if (q.below (3) == 0) p[q.below (4)] = p[q.below (4)];
      j.open ('{').key ("k").str ("plane").key ("p").open ('[');
      for (auto &x : p) {
        j.open ('[');
        for (double a : x) j.num (ex (a));
        j.close (']');
      }
      j.close (']').kn ("r", t8_four_points_coplanar (p[0], p[1], p[2], p[3], 1e-6)).close ('}');
    }
    else if (what == 4) {
      double A[3][3], B[3][3], C[3][3], a[3], b[3], v[3];
      for (auto &x : A) rvec (x, 20);
      for (auto &x : B) rvec (x, 20);
      rvec (a, 20);
      t8_mat_mult_mat (A, B, C);
      t8_mat_mult_vec (A, a, b);
      j.open ('{').key ("k").str ("mat");
      auto mat = [&] (const char *k, double (*M)[3], double f, double tol) {
        j.key (k).open ('[');
        for (int x = 0; x < 3; x++) {
          j.open ('[');
          for (int y = 0; y < 3; y++) j.num (ex (M[x][y] * f, tol));
          j.close (']');
        }
        j.close (']');
      };
      mat ("A", A, 1, 0), mat ("B", B, 1, 0), mat ("C", C, 1, 0), vec ("a", a), vec ("b", b);
      /* a rotation with cosine c/n and sine d/n */
      static const int T[][3] = { { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 0, 1, 1 }, { 1, 0, 1 } };
      const int *t = T[q.below (5)], c = t[0] * (q.below (2) ? 1 : -1), d = t[1] * (q.below (2) ? 1 : -1), ax = q.below (3);
      const double angle = std::atan2 (d, c);
      ax == 0 ? t8_mat_init_xrot (B, angle) : ax == 1 ? t8_mat_init_yrot (B, angle) : t8_mat_init_zrot (B, angle);
      t8_mat_mult_vec (B, a, v);
      j.kn ("ax", ax).kn ("c", c).kn ("d", d).kn ("n", t[2]);
      mat ("R", B, t[2], 1e-9), vec ("Ra", v, t[2], 1e-9);
      j.close ('}');
    }
    else { /* offsets of the categories of a sorted list */
      const int nc = q.range (1, 7), n = q.range (1, 20);
      std::vector<int> v;
      for (int k = 0; k < n; k++) v.push_back (q.below (10 * nc));
      std::sort (v.begin (), v.end ());
      if (q.below (4) == 0)
        for (auto &x : v) x = v[0];
      std::vector<size_t> off (nc + 1, 99);
      vector_split (v.begin (), v.end (), off, std::function<size_t (const int, int)> ([] (int x, int d) { return (size_t) (x / d); }), 10);
      j.open ('{').key ("k").str ("split").kn ("nc", nc).key ("v").arr (v).key ("r").arr (off).close ('}');
    }
  }
  /* what the library says about a class */
  void
  shape (int c)
  {
    auto list = [&] (const char *k, const int *p, int n) { j.key (k).arr (std::vector<int> (p, p + n)); };
    auto lists = [&] (const char *k, const int *p, int stride, int n, auto len) {
      j.key (k).open ('[');
      for (int a = 0; a < n; a++) j.arr (std::vector<int> (p + a * stride, p + a * stride + len (a)));
      j.close (']');
    };
    const int nf = t8_eclass_num_faces[c], ne = t8_eclass_num_edges[c], nv = t8_eclass_num_vertices[c], d = t8_eclass_to_dimension[c];
    auto fl = [&] (int f) { return t8_eclass_num_vertices[t8_eclass_face_types[c][f]]; };
    auto fe = [&] (int f) { return t8_eclass_num_edges[t8_eclass_face_types[c][f]]; };
    j.open ('{').key ("k").str ("shape").kn ("c", c).kn ("d", d).kn ("nv", nv).kn ("ne", ne).kn ("nf", nf).kn ("nc", t8_eclass_max_num_children[c]);
    list ("mf", t8_eclass_max_num_faces, 4), list ("ft", t8_eclass_face_types[c], nf), list ("bc", t8_eclass_boundary_count[c], 8);
    lists ("fv", &t8_face_vertex_to_tree_vertex[c][0][0], T8_ECLASS_MAX_CORNERS_2D, nf, fl);
    list ("fo", t8_eclass_face_orientation[c], nf), list ("tv", t8_eclass_vtk_to_t8_corner_number[c], 8), list ("vt", t8_eclass_t8_to_vtk_corner_number[c], 8);
    if ((d == 2 || d == 3) && c != T8_ECLASS_PYRAMID) {
      lists ("ev", &t8_edge_vertex_to_tree_vertex[c][0][0], 2, ne, [] (int) { return 2; });
      lists ("ef", &t8_edge_to_face[c][0][0], 2, ne, [&] (int) { return d - 1; });
      lists ("fe", &t8_face_edge_to_tree_edge[c][0][0], T8_ECLASS_MAX_EDGES_2D, nf, fe);
      lists ("fn", &t8_face_to_edge_neighbor[c][0][0], T8_ECLASS_MAX_CORNERS_2D, nf, fl);
    }
    if (c == T8_ECLASS_TET) lists ("no", &t8_reference_face_normal_tet[0][0], 3, nf, [] (int) { return 3; });
    j.key ("rc").open ('[');
    for (int v = 0; v < nv; v++) {
      j.open ('[');
      for (double x : t8_element_corner_ref_coords[c][v]) j.num (ex (x));
      j.close (']');
    }
    j.close (']');
    vec ("ce", t8_element_centroid_ref_coords[c], 60, 1e-9);
    j.key ("cb").open ('[');
    for (int m = 0; m <= 3; m++) {
      int per[T8_ECLASS_COUNT];
      const int sum = t8_eclass_count_boundary ((t8_eclass_t) c, m, per);
      j.open ('[').num (sum).arr (std::vector<int> (per, per + 8)).close (']');
    }
    j.close (']').key ("cm").open ('[');
    for (int e = 0; e < 8; e++)
      if (t8_eclass_to_dimension[e] == d) j.open ('[').num (e).num (t8_eclass_compare ((t8_eclass_t) c, (t8_eclass_t) e)).close (']');
    j.close (']').kn ("ok", t8_eclass_is_valid ((t8_eclass_t) c) && !t8_eclass_is_valid (T8_ECLASS_COUNT) && !t8_eclass_is_valid (T8_ECLASS_INVALID)).close ('}');
  }
  void
  doubles (const char *k, const std::vector<double> &v, double f = 1, double tol = 0)
  {
    if (*k) j.key (k);
    j.open ('[');
    for (double x : v) j.num (ex (x * f, tol));
    j.close (']');
  }
  void
  shapes ()
  {
    const int what = q.below (6);
    auto ints = [&] (int n, int m) {
      std::vector<double> v (n);
      for (auto &x : v) x = q.range (-m, m);
      return v;
    };
    if (what == 0) shape (q.below (8));
    else if (what == 1 || what == 2) { /* interpolation */
      const int d = what == 1 ? q.range (1, 3) : q.range (2, 3), n = q.range (1, 3), nv = what == 1 ? 1 << d : d + 1;
      std::vector<double> co = ints (d, 12), v = ints (nv * n, 99), r (n, 1e30);
      for (auto &x : co) x = q.below (4) ? x / 8 : q.below (2);
      /* the result may be written over the point or over the corner values */
      std::vector<double> co2 = co, v2 = v;
      co2.resize (3), v2.resize (24);
      const int over = q.below (3);
      double *out = over == 0 ? r.data () : over == 1 ? co2.data () : v2.data ();
      what == 1 ? t8_geom_linear_interpolation (co2.data (), v2.data (), n, d, out) : t8_geom_triangular_interpolation (co2.data (), v2.data (), n, d, out);
      r.assign (out, out + n);
      j.open ('{').key ("k").str (what == 1 ? "lin" : "tri").kn ("d", d).kn ("n", n);
      doubles ("co", co, 8), doubles ("v", v), doubles ("r", r, what == 1 ? std::pow (8, d) : 8);
      j.close ('}');
    }
    else if (what == 3) { /* corners of a face or an edge */
      const int c = q.range (1, 7), n = q.range (1, 4), f = q.below (t8_eclass_num_faces[c]), nv = t8_eclass_num_vertices[c];
      std::vector<double> v = ints (nv * n, 99), r (n * t8_eclass_num_vertices[t8_eclass_face_types[c][f]], 1e30), s (2 * n, 1e30);
      t8_geom_get_face_vertices ((t8_eclass_t) c, v.data (), f, n, r.data ());
      int e = -1;
      if (c >= 4 && c != 7) t8_geom_get_edge_vertices ((t8_eclass_t) c, v.data (), e = q.below (t8_eclass_num_edges[c]), n, s.data ());
      j.open ('{').key ("k").str ("corners").kn ("c", c).kn ("n", n).kn ("f", f).kn ("e", e);
      doubles ("v", v), doubles ("r", r);
      if (e >= 0) doubles ("s", s), j.key ("ev").arr (std::vector<int> (t8_edge_vertex_to_tree_vertex[c][e], t8_edge_vertex_to_tree_vertex[c][e] + 2));
      j.close ('}');
    }
    else if (what == 4) { /* the ray from a corner through a point meets the opposite face */
      const bool tet = q.below (2);
      const int x = q.range (0, 8), z = q.range (0, x), y = q.range (0, z), f = q.below (tet ? 4 : 3);
      const int co[3] = { x, tet ? y : z, tet ? z : 0 };
      const double p[3] = { co[0] / 8., co[1] / 8., co[2] / 8. };
      double r[3] = { 0, 0, 0 };
      const double *o = t8_element_corner_ref_coords[tet ? T8_ECLASS_TET : T8_ECLASS_TRIANGLE][f];
      if (p[0] == o[0] && p[1] == o[1] && p[2] == o[2]) return;
      tet ? t8_geom_get_tet_face_intersection (f, p, r) : t8_geom_get_ref_intersection (f, p, r);
      j.open ('{').key ("k").str ("ray").kn ("t", tet).kn ("f", f);
      vec ("p", p, 8), vec ("r", r, 840, 1e-7);
      if (!tet) { /* and how far the point is on the way, seen in a triangle in space */
        std::vector<double> t = { 0, 0, 0, 3, 1, 0, -1, 5, 2 }, gi (3), gp (3);
        for (auto &a : t) a += q.range (-1, 1) * 7;
        for (int a = 0; a < 3; a++) t[3 + a] = t[a] + (a == 0 ? 3 : a), t[6 + a] = t[a] + (a == 1 ? 5 : -1);
        t8_geom_triangular_interpolation (r, t.data (), 3, 2, gi.data ());
        t8_geom_triangular_interpolation (p, t.data (), 3, 2, gp.data ());
        j.kn ("s", ex (8 * t8_geom_get_triangle_scaling_factor (f, t.data (), gi.data (), gp.data ()), 1e-9));
      }
      j.close ('}');
    }
    else {
      const int n = q.range (1, 8), al = q.range (-5, 5);
      std::vector<double> v = ints (3 * n, 99), r (3 * n, 1e30), s (3 * n, 1e30), b = ints (3, 50);
      t8_cmesh_coords_axb (v.data (), r.data (), n, al, b.data ());
      t8_cmesh_translate_coordinates (v.data (), s.data (), n, b.data ());
      j.open ('{').key ("k").str ("axb").kn ("al", al);
      doubles ("v", v), doubles ("b", b), doubles ("r", r), doubles ("s", s);
      j.close ('}');
    }
  }
  void
  run (int steps)
  {
    static const sc_shmem_type_t types[] = { SC_SHMEM_BASIC, SC_SHMEM_PRESCAN,
#if defined(SC_ENABLE_MPIWINSHARED)
                                             SC_SHMEM_WINDOW, SC_SHMEM_WINDOW_PRESCAN
#endif
    };
    const bool S = MODES.find ('s') != std::string::npos, A = MODES.find ('a') != std::string::npos, M = MODES.find ('m') != std::string::npos,
               X = MODES.find ('x') != std::string::npos, E = MODES.find ('e') != std::string::npos;
    if (S) {
      if (r.below (6) == 0) t8_shmem_finalize (G.comm);
      t8_shmem_init (G.comm);
      t8_shmem_set_type (G.comm, types[r.below ((int) (sizeof types / sizeof *types))]);
    }
    for (int k = 0; k < steps; k++) {
      if (A) arr_step ();
      if (S) sstep ();
      if (M && k % 3 == 0) message ();
      if (X) helpers ();
      if (E) shapes ();
    }
    while (!as.empty ()) arr_free (0);
    while (!sh.empty ()) sfree (0);
    j.close (']');
  }
};

int
main (int argc, char **argv)
{
  vh_init (&argc, &argv);
  MODES = argv[1];
  Group G = vh_groups ();
  const uint64_t seed = (uint64_t) vh_envi ("VERIF_SEED", 1);
  const int N = (int) vh_envi ("VH_N", 10), steps = (int) vh_envi ("VH_STEPS", 14);
  const long only = vh_envi ("VH_ONLY", -1);
  std::string on = std::string (argv[2]) + "." + std::to_string (G.id);
  FILE *f = G.rank == 0 ? fopen (on.c_str (), "w") : nullptr;
  const t8_scheme *sc[2] = { vh_scheme (0), vh_scheme (1) };
  for (int k = 0; k < N; k++) {
    if (only >= 0 && k != only) continue;
    Rng r (vh_mix (seed * 7919 + (uint64_t) k * 131 + (uint64_t) G.id * 1000003 + 13));
    const int which = r.below (4) == 0;
    Story W (G, r, sc[which]);
    W.run (steps);
    std::string all = G.gather ("{\"ev\":" + W.j.t + "}");
    if (f) {
      std::string s = all.substr (1, all.size () - 2);
      size_t p;
      while ((p = s.find (",{\"ev\":", 1)) != std::string::npos) {
        fprintf (f, "%s\n", s.substr (0, p).c_str ());
        s = s.substr (p + 1);
      }
      fprintf (f, "%s\n", s.c_str ());
      fflush (f);
    }
  }
  t8_shmem_finalize (G.comm);
  for (auto x : sc) x->unref ();
  if (f) fclose (f);
  vh_merge (G, argv[2]);
  vh_fini ();
  return 0;
}
