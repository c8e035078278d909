/* Common parts of the harnesses: a JSON line writer, a seeded generator, observation of elements. Only the public
 * interface of t8code is used. */
#ifndef VH_HXX
#define VH_HXX
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <algorithm>
#include <mpi.h>
#include <sc.h>
#include <t8.h>
#include <t8_eclass/t8_eclass.h>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>

struct Rng
{
  uint64_t s;
  explicit Rng (uint64_t seed): s (seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t
  next ()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int
  below (int n)
  {
    return n <= 0 ? 0 : (int) (next () % (uint64_t) n);
  }
  int
  range (int a, int b) /* inclusive */
  {
    return a + below (b - a + 1);
  }
};

/* JSON text */
struct J
{
  std::string t;
  bool first = true;
  void
  sep ()
  {
    if (!first) t += ',';
    first = false;
  }
  J &
  open (char c)
  {
    sep ();
    t += c;
    first = true;
    return *this;
  }
  J &
  close (char c)
  {
    t += c;
    first = false;
    return *this;
  }
  J &
  key (const char *k)
  {
    sep ();
    t += '"';
    t += k;
    t += "\":";
    first = true;
    return *this;
  }
  J &
  num (long long v)
  {
    sep ();
    t += std::to_string (v);
    return *this;
  }
  J &
  str (const char *s)
  {
    sep ();
    t += '"';
    t += s;
    t += '"';
    return *this;
  }
  J &
  raw (const std::string &s)
  {
    sep ();
    t += s;
    return *this;
  }
  template <class V>
  J &
  arr (const V &v)
  {
    open ('[');
    for (auto x : v) num ((long long) x);
    return close (']');
  }
  /* unsigned big number as three base-10^8 digits, least significant first */
  J &
  big (uint64_t v)
  {
    const uint64_t b = 100000000u;
    open ('[').num ((long long) (v % b)).num ((long long) (v / b % b)).num ((long long) (v / b / b));
    return close (']');
  }
  J &
  kn (const char *k, long long v)
  {
    return key (k).num (v);
  }
};

typedef std::vector<int> Path;

/* coordinates in units of 2^-M; a value that is no multiple of it becomes -7777777 (no spec explains it) */
static inline long long
vh_scale (double x, int M)
{
  double y = std::ldexp (x, M);
  double r = std::nearbyint (y);
  if (!(std::fabs (y) < 2147483000.0) || r != y) return -7777777;
  return (long long) r;
}

static inline const char *
vh_env (const char *n, const char *d)
{
  const char *v = getenv (n);
  return v && *v ? v : d;
}
static inline long
vh_envi (const char *n, long d)
{
  const char *v = getenv (n);
  return v && *v ? atol (v) : d;
}

static inline const t8_scheme *
vh_scheme (int which)
{
  return which ? t8_scheme_new_standalone () : t8_scheme_new_default ();
}

struct Elem
{ /* owning wrapper of one element */
  const t8_scheme *s;
  t8_eclass_t c;
  t8_element_t *e = nullptr;
  Elem (const t8_scheme *s_, int c_): s (s_), c ((t8_eclass_t) c_)
  {
    /* results must not depend on what the element was before */
    static unsigned dirty = 1;
    s->element_new (c, 1, &e);
    s->set_to_root (c, e);
    for (int k = 0; k < 5; k++) {
      dirty = dirty * 1103515245u + 12345u;
      s->element_get_child (c, e, (int) ((dirty >> 16) % (unsigned) s->element_get_num_children (c, e)), e);
    }
  }
  ~Elem ()
  {
    s->element_destroy (c, 1, &e);
  }
  Elem (const Elem &) = delete;
  Elem &
  operator= (const Elem &)
    = delete;
  operator t8_element_t * () const
  {
    return e;
  }
  void
  to_path (const Path &p)
  {
    s->set_to_root (c, e);
    for (int i : p) s->element_get_child (c, e, i, e);
  }
};

static const int vh_dim[8] = { 0, 1, 2, 2, 3, 3, 3, 3 };

/* [level, shape, [[x,y,z],...]] */
static inline void
vh_obs (J &j, const t8_scheme *s, int c, const t8_element_t *e, int M)
{
  const t8_eclass_t ec = (t8_eclass_t) c;
  j.open ('[');
  j.num (s->element_get_level (ec, e));
  j.num ((int) s->element_get_shape (ec, e));
  j.open ('[');
  int n = s->element_get_num_corners (ec, e);
  if (n > 8 || n < 1) n = 0;
  for (int v = 0; v < n; v++) {
    double x[3] = { 0, 0, 0 };
    s->element_get_vertex_reference_coords (ec, e, v, x);
    j.open ('[').num (vh_scale (x[0], M)).num (vh_scale (x[1], M)).num (vh_scale (x[2], M)).close (']');
  }
  j.close (']');
  j.close (']');
}

static inline void
vh_init (int *argc, char ***argv)
{
  MPI_Init (argc, argv);
  sc_init (MPI_COMM_WORLD, 0, 0, NULL, SC_LP_ERROR);
  t8_init (SC_LP_ERROR);
}
static inline void
vh_fini ()
{
  MPI_Finalize ();
}
#endif
