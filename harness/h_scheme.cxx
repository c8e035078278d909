/* Drives the element schemes and records what they answer. Usage: h_scheme GROUP OUT
 * One line per walk: {"cls":class, "sch":0 default|1 standalone, "ml":maxlevel, "ev":[...]}.
 * Inputs (paths of child numbers, levels, faces) are chosen here; the answers are only recorded. */
#include "vh.hxx"
static const int M = 30;
static FILE *out;
static const t8_scheme *S;
static int C, SCH, ML;
static t8_eclass_t EC;

static int
shape_children (int shape) /* only used to choose inputs */
{
  static const int n[8] = { 1, 2, 4, 4, 8, 8, 8, 10 };
  return n[shape];
}
/* shape below a path: only pyramids change shape; ask the scheme for the number of children */
static Path
rnd_path (Rng &r, int len)
{
  Path p;
  Elem e (S, C);
  e.to_path (p);
  int mode = 0, k = 0;
  for (int i = 0; i < len; i++) {
    int n = S->element_get_num_children (EC, e);
    if (n < 1 || n > 10) n = shape_children (C);
    if (!k) mode = r.below (5), k = r.range (1, 8);
    k--;
    int ch = mode == 0 ? 0 : mode == 1 ? n - 1 : mode == 2 && !p.empty () && p.back () < n ? p.back () : r.below (n);
    p.push_back (ch);
    S->element_get_child (EC, e, ch, e);
  }
  return p;
}
static void
obs (J &j, const t8_element_t *e)
{
  vh_obs (j, S, C, e, M);
}
static void
kobs (J &j, const char *k, const t8_element_t *e)
{
  j.key (k);
  obs (j, e);
}
static std::string
txt (const t8_element_t *e)
{
  J j;
  obs (j, e);
  return j.t;
}

/* hierarchy */
static void
ev_R (J &j, const Path &p, Rng &r)
{
  Elem e (S, C), f (S, C);
  e.to_path (p);
  j.open ('{').key ("k").str ("R").key ("p").arr (p);
  kobs (j, "o", e);
  const int lvl = (int) p.size ();
  const bool refinable = S->element_is_refinable (EC, e);
  j.kn ("ref", refinable);
  j.kn ("nf", S->element_get_num_faces (EC, e));
  if (lvl > 0) {
    j.kn ("cid", S->element_get_child_id (EC, e));
    int ns = S->element_get_num_siblings (EC, e);
    j.kn ("ns", ns);
    S->element_get_parent (EC, e, f);
    kobs (j, "par", f);
    std::string a = txt (f);
    S->element_copy (EC, e, f);
    S->element_get_parent (EC, f, f); /* in place */
    j.kn ("par2", txt (f) == a);
    if (SCH || C == 1 || C >= 6) ns = 0; /* not provided by these schemes */
    bool same = true;
    j.key ("sib").open ('[');
    for (int i = 0; i < ns && i < 10; i++) {
      S->element_get_sibling (EC, e, i, f);
      obs (j, f);
      std::string b = txt (f);
      S->element_copy (EC, e, f);
      S->element_get_sibling (EC, f, i, f); /* in place */
      same = same && txt (f) == b;
    }
    j.close (']').kn ("sib2", same);
  }
  if (lvl < ML) {
    int n = S->element_get_num_children (EC, e);
    j.kn ("nc", n);
    j.kn ("mx", S->get_max_num_children (EC));
    if (n >= 1 && n <= 10) {
      t8_element_t *ch[10];
      S->element_new (EC, 10, ch);
      S->element_get_children (EC, e, n, ch);
      j.key ("ch").open ('[');
      for (int i = 0; i < n; i++) obs (j, ch[i]);
      j.close (']');
      bool same = true;
      for (int i = 0; i < n; i++) { /* one by one, also in place */
        S->element_get_child (EC, e, i, f);
        same = same && txt (f) == txt (ch[i]);
        S->element_copy (EC, e, f);
        S->element_get_child (EC, f, i, f);
        same = same && txt (f) == txt (ch[i]);
      }
      j.kn ("c1", same);
      /* families */
      j.key ("fam").open ('[');
      auto fam = [&] (std::vector<Path> m) {
        for (int i = 0; i < 10; i++) {
          Elem t (S, C);
          t.to_path (m[i < (int) m.size () ? i : 0]);
          S->element_copy (EC, t, ch[i]);
        }
        j.open ('[');
        j.open ('[');
        for (auto &q : m) j.arr (q);
        j.close (']');
        j.num (S->elements_are_family (EC, ch) ? 1 : 0);
        j.close (']');
      };
      std::vector<Path> m;
      for (int i = 0; i < n; i++) {
        Path q = p;
        q.push_back (i);
        m.push_back (q);
      }
      fam (m);
      if (n > 1) {
        int a = r.below (n), b = r.below (n);
        std::vector<Path> m2 = m;
        if (a != b) {
          m2[a] = m[b]; /* duplicate */
          fam (m2);
        }
        m2 = m;
        if (lvl + 1 < ML) {
          m2[n - 1].push_back (0); /* last one refined */
          fam (m2);
          m2 = m;
          m2[a].push_back (r.below (2)); /* one of them refined */
          fam (m2);
          if (lvl + 2 < ML) { /* all of them refined to their first descendants */
            m2 = m;
            for (auto &q : m2) q.push_back (0);
            fam (m2);
          }
        }
        if (lvl > 0) { /* one child replaced by the same child of another parent */
          Path q = p;
          Elem pe (S, C);
          pe.to_path (Path (p.begin (), p.end () - 1));
          int np = S->element_get_num_children (EC, pe);
          if (np >= 2 && np <= 10) {
            q.back () = (q.back () + 1 + r.below (np - 1)) % np;
            Elem qe (S, C);
            qe.to_path (q);
            int nq = S->element_get_num_children (EC, qe);
            if (nq == n) {
              m2 = m;
              q.push_back (a);
              m2[a] = q;
              fam (m2);
              /* and a shifted window over two families */
              m2.clear ();
              for (int i = 0; i < n; i++) {
                Path w = i < n - 1 ? p : Path (q.begin (), q.end () - 1);
                w.push_back (i < n - 1 ? i + 1 : 0);
                m2.push_back (w);
              }
              fam (m2);
            }
          }
        }
      }
      j.close (']');
      S->element_destroy (EC, 10, ch);
    }
  }
  j.close ('}');
}

/* curve */
static void
ev_S (J &j, const Path &p, Rng &r)
{
  Elem e (S, C), f (S, C);
  e.to_path (p);
  const int lvl = (int) p.size ();
  j.open ('{').key ("k").str ("S").key ("p").arr (p);
  std::vector<int> L = { lvl, std::min (lvl + 1, ML), ML, r.range (lvl, ML), r.range (0, lvl) };
  j.key ("lin").open ('[');
  std::vector<uint64_t> ids;
  for (int l : L) {
    uint64_t id = S->element_get_linear_id (EC, e, l);
    ids.push_back (id);
    j.open ('[').num (l).big (id).close (']');
  }
  j.close (']');
  j.key ("set").open ('[');
  for (size_t i = 0; i < L.size (); i++) {
    uint64_t n = (uint64_t) S->count_leaves_from_root (EC, L[i]);
    j.open ('[').num (L[i]);
    if (ids[i] < n) {
      S->element_set_linear_id (EC, f, L[i], ids[i]);
      obs (j, f);
    }
    else
      j.open ('[').close (']');
    j.close (']');
  }
  j.close (']');
  j.key ("anc").open ('[');
  for (int l = 1; l <= lvl; l++) j.num (S->element_get_ancestor_id (EC, e, l));
  j.close (']');
  j.key ("fd").open ('[');
  for (int l : { lvl, ML, L[3] }) {
    S->element_get_first_descendant (EC, e, f, l);
    j.open ('[').num (l);
    obs (j, f);
    j.close (']');
  }
  j.close (']').key ("ld").open ('[');
  for (int l : { lvl, ML, L[3] }) {
    S->element_get_last_descendant (EC, e, f, l);
    j.open ('[').num (l);
    obs (j, f);
    j.close (']');
  }
  j.close (']').key ("cnt").open ('[');
  for (int l : { lvl, L[3], L[4], std::min (lvl + 2, ML), ML })
    j.open ('[').num (l).big ((uint64_t) S->element_count_leaves (EC, e, l)).close (']');
  j.close (']');
  j.key ("cr").open ('[').num (L[3]).big ((uint64_t) S->count_leaves_from_root (EC, L[3])).close (']');
  /* successor: only if the path says that there is one */
  bool has = false;
  {
    Elem a (S, C);
    for (int i = lvl; i > 0 && !has; i--) {
      a.to_path (Path (p.begin (), p.begin () + i - 1));
      has = p[i - 1] + 1 < shape_children (S->element_get_shape (EC, a));
    }
  }
  j.key ("suc").open ('[');
  if (has) {
    S->element_construct_successor (EC, e, f);
    obs (j, f);
  }
  j.close (']');
  j.close ('}');
}
static void
ev_P (J &j, const Path &p, const Path &q)
{
  Elem a (S, C), b (S, C), n (S, C);
  a.to_path (p);
  b.to_path (q);
  int c = S->element_compare (EC, a, b), d = S->element_compare (EC, b, a);
  j.open ('{').key ("k").str ("P").key ("p").arr (p).key ("q").arr (q);
  j.kn ("cmp", c < 0 ? -1 : c > 0).kn ("cmr", d < 0 ? -1 : d > 0);
  j.kn ("eq", S->element_is_equal (EC, a, b) ? 1 : 0);
  j.kn ("an", S->element_is_ancestor (EC, a, b) ? 1 : 0);
  S->element_get_nca (EC, a, b, n);
  kobs (j, "nca", n);
  S->element_copy (EC, a, n);
  j.kn ("ce", S->element_is_equal (EC, a, n) && !S->element_compare (EC, a, n) ? 1 : 0);
  kobs (j, "cp", n);
  j.close ('}');
}
/* faces */
static void
ev_F (J &j, const Path &p, Rng &r)
{
  Elem e (S, C), f (S, C);
  e.to_path (p);
  const int lvl = (int) p.size ();
  const int nf = S->element_get_num_faces (EC, e);
  j.open ('{').key ("k").str ("F").key ("p").arr (p).kn ("nf", nf);
  if ((C >= 2 && C <= 4) || (SCH && C)) { /* the other classes do not offer this */
    j.key ("cf").open ('[');
    for (int k = 0; k < S->element_get_num_corners (EC, e); k++) {
      j.open ('[');
      for (int d = 0; d < vh_dim[C]; d++) j.num (S->element_get_corner_face (EC, e, k, d));
      j.close (']');
    }
    j.close (']');
  }
  j.key ("f").open ('[');
  for (int face = 0; face < nf && face < 6; face++) {
    j.open ('{');
    int fs = (int) S->element_get_face_shape (EC, e, face);
    j.kn ("fs", fs);
    static const int nv[8] = { 1, 2, 4, 3, 8, 4, 6, 5 };
    j.key ("co").open ('[');
    for (int k = 0; k < nv[fs & 7] && k < 4; k++) j.num (S->element_get_face_corner (EC, e, face, k));
    j.close (']');
    bool rb = S->element_is_root_boundary (EC, e, face);
    j.kn ("rb", rb);
    if (rb) j.kn ("tf", S->element_get_tree_face (EC, e, face));
    j.kn ("pf", S->element_face_get_parent_face (EC, e, face));
    j.key ("af").open ('[');
    for (int l = 0; l <= lvl; l++) j.num (S->element_face_get_ancestor_face (EC, e, l, face));
    j.close (']');
    if (lvl < ML) {
      int n = S->element_get_num_face_children (EC, e, face);
      j.kn ("n", n);
      if (n >= 1 && n <= 4) {
        t8_element_t *ch[4];
        int idx[4] = { -1, -1, -1, -1 };
        S->element_new (EC, n, ch);
        S->element_get_children_at_face (EC, e, face, ch, n, idx);
        j.key ("ch").open ('[');
        for (int i = 0; i < n; i++) obs (j, ch[i]);
        j.close (']').key ("ci").open ('[');
        for (int i = 0; i < n; i++) j.num (idx[i]);
        j.close (']').key ("cf").open ('[');
        for (int i = 0; i < n; i++) j.num (S->element_face_get_child_face (EC, e, face, i));
        j.close (']');
        S->element_destroy (EC, n, ch);
      }
    }
    j.key ("d").open ('[');
    for (int l : { lvl, r.range (lvl, ML), ML }) {
      j.open ('[').num (l);
      S->element_get_first_descendant_face (EC, e, face, f, l);
      obs (j, f);
      S->element_get_last_descendant_face (EC, e, face, f, l);
      obs (j, f);
      j.close (']');
    }
    j.close (']');
    j.close ('}');
  }
  j.close (']');
  /* faces at the corners */
  j.close ('}');
}
/* face neighbours inside the tree */
static void
ev_N (J &j, const Path &p)
{
  Elem e (S, C), f (S, C), g (S, C);
  e.to_path (p);
  const int nf = S->element_get_num_faces (EC, e);
  j.open ('{').key ("k").str ("N").key ("p").arr (p);
  j.key ("f").open ('[');
  for (int face = 0; face < nf && face < 6; face++) {
    int gf = -1, hf = -1;
    int in = S->element_get_face_neighbor_inside (EC, e, f, face, &gf);
    j.open ('[').num (in ? 1 : 0);
    if (in) {
      j.num (gf);
      obs (j, f);
      const int nfn = S->element_get_num_faces (EC, f);
      if (gf >= 0 && gf < nfn) { /* and back again */
        int in2 = S->element_get_face_neighbor_inside (EC, f, g, gf, &hf);
        j.num (in2 && S->element_is_equal (EC, g, e) && hf == face ? 1 : 0);
      }
      else
        j.num (0);
    }
    j.close (']');
  }
  j.close (']').close ('}');
}
/* boundary face elements, extrusion, orientation changes */
static void
ev_B (J &j, const Path &p)
{
  Elem e (S, C), x (S, C);
  e.to_path (p);
  const int nf = S->element_get_num_faces (EC, e);
  j.open ('{').key ("k").str ("B").key ("p").arr (p);
  j.key ("f").open ('[');
  for (int face = 0; face < nf && face < 6; face++) {
    j.open ('[');
    bool rb = S->element_is_root_boundary (EC, e, face);
    if (rb) {
      int tf = S->element_get_tree_face (EC, e, face);
      int fc = (int) S->element_get_face_shape (EC, e, face);
      if (tf >= 0 && tf < t8_eclass_num_faces[C] && fc < 4) {
        fc = t8_eclass_face_types[C][tf];
        Elem b (S, fc);
        S->element_get_boundary_face (EC, e, face, b);
        j.num (tf).num (fc);
        vh_obs (j, S, fc, b, M);
        int xf = S->element_extrude_face (EC, b, x, tf);
        j.num (xf);
        obs (j, x);
      }
    }
    j.close (']');
  }
  j.close (']').close ('}');
}
static void
ev_T (J &j, const Path &p)
{ /* C is a face class here */
  Elem e (S, C), x (S, C), y (S, C);
  e.to_path (p);
  static const int nv[4] = { 1, 2, 4, 3 };
  j.open ('{').key ("k").str ("T").key ("p").arr (p);
  j.key ("t").open ('[');
  for (int o = 0; o < nv[C]; o++)
    for (int sign = 0; sign < (C >= 2 ? 2 : 1); sign++)
      for (int sm = 0; sm < 2; sm++) {
        S->element_transform_face (EC, e, x, o, sign, sm);
        j.open ('[').num (o).num (sign).num (sm);
        obs (j, x);
        S->element_copy (EC, e, y);
        S->element_transform_face (EC, y, y, o, sign, sm); /* in place */
        j.num (S->element_is_equal (EC, x, y) ? 1 : 0);
        j.close (']');
      }
  j.close (']').close ('}');
}
/* reference coordinates of points given in the element's own reference cell, in 16ths */
static void
ev_G (J &j, const Path &p, Rng &r)
{
  Elem e (S, C);
  e.to_path (p);
  const int d = vh_dim[C];
  std::vector<int> q;
  std::vector<double> in, res;
  for (int i = 0; i < 5; i++) {
    int x = r.range (0, 16), y = r.range (0, 16), z = r.range (0, 16);
    if ((int) p.size () > 26) x = x & 16, y = y & 16, z = z & 16;
    if (i == 0) x = y = z = 0;
    if (i == 1) x = 16, y = z = 0;
    if (i == 2) x = y = z = 16;
    if (C == 3 && y > x) std::swap (x, y);
    if (C == 5 || C == 6 || C == 7) {
      int shape = (int) S->element_get_shape (EC, e);
      if (shape == 5) { int a[3] = { x, y, z }; std::sort (a, a + 3); x = a[2]; z = a[1]; y = a[0]; }
      else if (shape == 6) { if (y > x) std::swap (x, y); }
      else { if (z > x) std::swap (x, z); if (z > y) std::swap (y, z); }
    }
    for (int k : { x, y, z }) q.push_back (k);
    for (int k : { x, y, z }) in.push_back (k / 16.0); /* points are 3 doubles apart on input */
  }
  res.assign (5 * 3, 0.);
  S->element_get_reference_coords (EC, e, in.data (), 5, res.data ());
  j.open ('{').key ("k").str ("G").key ("p").arr (p);
  j.key ("o");
  obs (j, e);
  j.key ("q").open ('[');
  for (int i = 0; i < 5; i++) {
    long long v[3] = { 0, 0, 0 };
    /* the output has d coordinates per point */
    for (int k = 0; k < d; k++) v[k] = vh_scale (res[i * d + k], M);
    j.open ('[');
    j.open ('[').num (q[3 * i]).num (q[3 * i + 1]).num (q[3 * i + 2]).close (']');
    j.open ('[').num (v[0]).num (v[1]).num (v[2]).close (']');
    j.close (']');
  }
  j.close (']').close ('}');
}
/* packing several elements behind each other */
static void
ev_K (J &j, const std::vector<Path> &ps)
{
  const int n = (int) ps.size ();
  std::vector<t8_element_t *> a (n), b (n);
  S->element_new (EC, n, a.data ());
  S->element_new (EC, n, b.data ());
  for (int i = 0; i < n; i++) {
    Elem t (S, C);
    t.to_path (ps[i]);
    S->element_copy (EC, t, a[i]);
  }
  int sz = 0, sz2 = 0, sz3 = 0, pos = 0;
  const int cut = n / 2;
  S->element_MPI_Pack_size (EC, n, MPI_COMM_WORLD, &sz);
  S->element_MPI_Pack_size (EC, cut, MPI_COMM_WORLD, &sz2);
  S->element_MPI_Pack_size (EC, n - cut, MPI_COMM_WORLD, &sz3);
  std::vector<char> buf (sz2 + sz3 + 64, (char) 0x5a);
  S->element_MPI_Pack (EC, a.data (), cut, buf.data (), sz2 + sz3, &pos, MPI_COMM_WORLD);
  S->element_MPI_Pack (EC, a.data () + cut, n - cut, buf.data (), sz2 + sz3, &pos, MPI_COMM_WORLD);
  j.open ('{').key ("k").str ("K").key ("ps").open ('[');
  for (auto &p : ps) j.arr (p);
  j.close (']');
  j.kn ("fits", pos <= sz ? 1 : 0);
  bool guard = true;
  for (int i = sz2 + sz3; i < (int) buf.size (); i++) guard = guard && buf[i] == (char) 0x5a;
  j.kn ("guard", guard);
  int rp = 0;
  S->element_MPI_Unpack (EC, buf.data (), sz2 + sz3, &rp, b.data (), n, MPI_COMM_WORLD);
  j.kn ("same", rp == pos ? 1 : 0);
  j.key ("r").open ('[');
  for (int i = 0; i < n; i++) obs (j, b[i]);
  j.close (']').key ("eq").open ('[');
  for (int i = 0; i < n; i++) j.num (S->element_is_equal (EC, a[i], b[i]) ? 1 : 0);
  j.close (']').close ('}');
  S->element_destroy (EC, n, a.data ());
  S->element_destroy (EC, n, b.data ());
}
/* a walk of one element, moved in place where the interface allows it */
static void
walk_C (J &j, Rng &r, int steps)
{
  Elem e (S, C), f (S, C);
  S->set_to_root (EC, e);
  const int ml = C == 0 ? std::min (ML, 20) : ML;
  const bool sib = !(SCH || C == 1 || C >= 6);
  for (int k = 0; k < steps; k++) {
    const int lvl = S->element_get_level (EC, e);
    const int nf = S->element_get_num_faces (EC, e);
    const char *op = "copy";
    int a = 0, b = 0;
    switch (r.below (lvl == 0 ? 3 : 16)) {
    case 0: case 1: case 2: case 3: case 4:
      if (lvl < ml) {
        int n = S->element_get_num_children (EC, e);
        op = "child"; a = r.below (3) == 0 ? n - 1 : r.below (n);
        S->element_get_child (EC, e, a, e);
      }
      break;
    case 5: op = "parent"; S->element_get_parent (EC, e, e); break;
    case 6: case 7:
      if (sib) {
        op = "sib"; a = r.below (S->element_get_num_siblings (EC, e));
        S->element_get_sibling (EC, e, a, e);
      }
      break;
    case 8: {
      uint64_t id = S->element_get_linear_id (EC, e, lvl), n = (uint64_t) S->count_leaves_from_root (EC, lvl);
      if (id + 1 < n) {
        op = "succ";
        S->element_construct_successor (EC, e, f);
        S->element_copy (EC, f, e);
      }
      break;
    }
    case 9: {
      op = r.below (2) ? "fd" : "ld"; a = r.range (lvl, std::min (ml, lvl + 3));
      if (op[0] == 'f') S->element_get_first_descendant (EC, e, f, a); else S->element_get_last_descendant (EC, e, f, a);
      S->element_copy (EC, f, e);
      break;
    }
    case 10:
      if (nf > 0) {
        op = r.below (2) ? "ffd" : "lfd"; a = r.below (nf); b = r.range (lvl, std::min (ml, lvl + 3));
        if (op[0] == 'f') S->element_get_first_descendant_face (EC, e, a, f, b);
        else S->element_get_last_descendant_face (EC, e, a, f, b);
        S->element_copy (EC, f, e);
      }
      break;
    case 11: case 12: case 13: case 14:
      if (nf > 0) {
        int g;
        a = r.below (nf);
        if (S->element_get_face_neighbor_inside (EC, e, f, a, &g)) { op = "nb"; S->element_copy (EC, f, e); }
        else op = "nonb";
      }
      break;
    default: {
      a = r.range (lvl, ml); op = "setid";
      uint64_t id = S->element_get_linear_id (EC, e, a);
      if (id < (uint64_t) S->count_leaves_from_root (EC, a)) S->element_set_linear_id (EC, e, a, id);
    }
    }
    j.open ('{').key ("k").str ("C").key ("op").str (op).kn ("a", a).kn ("b", b);
    kobs (j, "o", e);
    j.key ("id").big (S->element_get_linear_id (EC, e, S->element_get_level (EC, e)));
    j.close ('}');
  }
}

static void
all_paths (int depth, std::vector<Path> &res)
{
  res.push_back (Path ());
  size_t i = 0;
  while (i < res.size ()) {
    Path p = res[i++];
    if ((int) p.size () >= depth) continue;
    Elem e (S, C);
    e.to_path (p);
    int n = shape_children (S->element_get_shape (EC, e));
    for (int k = 0; k < n; k++) {
      Path q = p;
      q.push_back (k);
      res.push_back (q);
    }
  }
}

int
main (int argc, char **argv)
{
  vh_init (&argc, &argv);
  if (argc < 3) return 2;
  const char g = argv[1][0];
  out = fopen (argv[2], "w");
  Rng r (vh_envi ("VERIF_SEED", 1) * 1000 + g);
  const long deep = vh_envi ("VH_DEEP", 60);
  const long budget = vh_envi ("VH_EXH", 600);
  const int chunk = 12;
  for (SCH = 0; SCH < 2; SCH++) {
    S = vh_scheme (SCH);
    for (C = 0; C < 8; C++) {
      if (SCH && (C == 3 || C > 4)) continue;
      if (g == 'T' && C > 3) continue;
      if ((g == 'N' || g == 'F' || g == 'B') && C == 0) continue;
      EC = (t8_eclass_t) C;
      ML = S->get_maxlevel (EC);
      const int real = ML;
      if (ML > 30) ML = 30;
      if (g == 'C') {
        for (long i = 0; i < deep; i++) {
          J j;
          j.open ('{').kn ("cls", C).kn ("sch", SCH).kn ("ml", ML).kn ("rml", real).key ("ev").open ('[');
          walk_C (j, r, 60);
          j.close (']').close ('}');
          fprintf (out, "%s\n", j.t.c_str ());
        }
        continue;
      }
      if (g == 'R') { /* what the class as a whole says */
        J j;
        j.open ('{').kn ("cls", C).kn ("sch", SCH).kn ("ml", ML).kn ("rml", real).key ("ev").open ('[');
        j.open ('{').key ("k").str ("Q").kn ("sch", SCH).kn ("irr", S->refines_irregular (EC) ? 1 : 0);
        j.kn ("size", (long long) S->get_element_size (EC) > 0).close ('}');
        j.close (']').close ('}');
        fprintf (out, "%s\n", j.t.c_str ());
      }
      std::vector<Path> ps;
      if (g == 'T') ML = std::min (ML, 20); /* faces of 3D elements */
      int depth = 0;
      for (long n = 1, k = shape_children (C); depth < 5 && depth < ML && n * k <= budget; depth++) n *= k;
      all_paths (depth, ps);
      for (long i = 0; i < deep; i++) {
        int len = r.below (4) == 0 ? ML : r.range (depth + 1 < ML ? depth + 1 : ML, ML);
        if (C == 0 && len > 20) len = 20;
        ps.push_back (rnd_path (r, len));
      }
      for (size_t b = 0; b < ps.size (); b += chunk) {
        J j;
        j.open ('{').kn ("cls", C).kn ("sch", SCH).kn ("ml", ML).kn ("rml", real).key ("ev").open ('[');
        const size_t b2 = std::min (ps.size (), b + chunk);
        if (g == 'K')
          ev_K (j, std::vector<Path> (ps.begin () + b, ps.begin () + b2));
        else
          for (size_t i = b; i < b2; i++) {
            const Path &p = ps[i];
            switch (g) {
            case 'R': ev_R (j, p, r); break;
            case 'S': {
              ev_S (j, p, r);
              /* partners: near (change one entry), same, ancestor, random */
              Path q = ps[r.below ((int) ps.size ())];
              ev_P (j, p, q);
              q = p;
              if (!q.empty ()) {
                q.resize (r.range (0, (int) q.size ()));
                ev_P (j, p, q);
                ev_P (j, q, p);
                Path t = rnd_path (r, r.range (0, ML - (int) q.size ()));
                Elem te (S, C);
                Path u = q;
                for (int k : t) {
                  te.to_path (u);
                  if (k >= shape_children (S->element_get_shape (EC, te))) break;
                  u.push_back (k);
                }
                ev_P (j, p, u);
              }
              break;
            }
            case 'F': ev_F (j, p, r); break;
            case 'N': ev_N (j, p); break;
            case 'B': ev_B (j, p); break;
            case 'T': ev_T (j, p); break;
            case 'G': ev_G (j, p, r); break;
            }
          }
        j.close (']').close ('}');
        fprintf (out, "%s\n", j.t.c_str ());
      }
    }

    S->unref ();
  }
  fclose (out);
  vh_fini ();
  return 0;
}
