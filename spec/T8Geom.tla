------------------------------- MODULE T8Geom -------------------------------
(* Where the points of a mesh lie in space.

   A tree is a record [c: class, g: geometry, v: its points in space].  The
   geometries map a point of the reference cell of the class to space:

     "lin"  the (multi)linear map that takes the corners of the reference cell to v
     "ax"   the box between the two points v (lines, quads, hexahedra)
     "lag1", "lag2"  Lagrange interpolation in nodes numbered corners, edges, faces, volume
     "ana"  a function of the user; here v[1] + reference point
     "zero" everything is the origin

   All points of v are integers.  A reference point is a vector of integers in
   units of 1/M; the map is exact in units of 1/Scale(tree, M).  Measures, face normals
   and containment are defined for affine trees, from the corners of an
   element in units of the inverse of its number of cells per axis. *)
EXTENDS T8Vec, T8Tables

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(a, b, c) == Dot(a, Cross(b, c))
Abs(x) == IF x < 0 THEN -x ELSE x
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
VTotal(vs) == FoldLeft(LAMBDA a, v : VAdd(a, v), <<0,0,0>>, vs)
(* the sum of weights times points *)
Comb(ws, vs) == FoldLeft(LAMBDA a, k : VAdd(a, VScale(ws[k], vs[k])), <<0,0,0>>, Times(Len(ws)))

(* ------------------------------ cells ----------------------------------- *)
ChildCell(cell, i) ==
  LET ch == ChildTable[cell[1]][i + 1]  h == cell[3] \div 2
  IN  <<ch[2], VAdd(cell[2], VScale(h, CubeCorner(ch[1]))), h>>
(* the cell of an element; the root has edge length 2^level, so the element has edge length 1 *)
CellOf(c, path) == FoldLeft(LAMBDA cell, k : ChildCell(cell, k), <<RootType[c], <<0,0,0>>, 2^Len(path)>>, path)
Verts(cell) == [k \in 1..Len(UnitVerts[cell[1]]) |-> VAdd(cell[2], VScale(cell[3], UnitVerts[cell[1]][k]))]

(* the point of an element with corners u that has the reference coordinates q/D: D times the point *)
InElement(s, u, q, D) ==
  LET d(a, b) == VSub(u[b + 1], u[a + 1])  z == VScale(D, u[1]) IN
    CASE s = VERTEX -> z
      [] s = LINE -> VAdd(z, VScale(q[1], d(0,1)))
      [] s = QUAD -> VAdd(z, VAdd(VScale(q[1], d(0,1)), VScale(q[2], d(0,2))))
      [] s = TRI  -> VAdd(z, VAdd(VScale(q[1], d(0,1)), VScale(q[2], d(1,2))))
      [] s = HEX  -> VAdd(z, VAdd(VScale(q[1], d(0,1)), VAdd(VScale(q[2], d(0,2)), VScale(q[3], d(0,4)))))
      [] s = TET  -> VAdd(z, VAdd(VScale(q[1], d(0,1)), VAdd(VScale(q[3], d(1,2)), VScale(q[2], d(2,3)))))
      [] s = PRISM -> VAdd(z, VAdd(VScale(q[1], d(0,1)), VAdd(VScale(q[2], d(1,2)), VScale(q[3], d(0,3)))))
      [] OTHER    -> VAdd(z, VAdd(VScale(q[1], d(0,1)), VAdd(VScale(q[2], d(0,2)), VScale(q[3], d(3,4)))))

(* ------------------------- Lagrange interpolation ------------------------ *)
(* the nodes in halves of the reference cell *)
LagNodes == TLCEval([c \in {LINE, QUAD, TRI, HEX} |->
    CASE c = LINE -> << <<0,0,0>>, <<2,0,0>>, <<1,0,0>> >>
      [] c = TRI -> << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<2,1,0>>, <<1,1,0>>, <<1,0,0>> >>
      [] c = QUAD -> << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<2,2,0>>, <<0,1,0>>, <<2,1,0>>, <<1,0,0>>, <<1,2,0>>, <<1,1,0>> >>
      [] OTHER -> << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<2,2,0>>, <<0,0,2>>, <<2,0,2>>, <<0,2,2>>, <<2,2,2>>,
                     <<0,2,1>>, <<0,0,1>>, <<0,1,0>>, <<0,1,2>>, <<0,1,1>>, <<2,0,1>>, <<2,2,1>>, <<2,1,0>>, <<2,1,2>>, <<2,1,1>>,
                     <<1,0,0>>, <<1,0,2>>, <<1,0,1>>, <<1,2,0>>, <<1,2,2>>, <<1,2,1>>, <<1,1,0>>, <<1,1,2>>, <<1,1,1>> >> ])
(* M^2 times the quadratic polynomial that is one at node n and zero at the other two, at x/M *)
Quad1(n, x, M) == CASE n = 0 -> (M - x) * (M - 2 * x) [] n = 1 -> 4 * x * (M - x) [] OTHER -> x * (2 * x - M)
(* barycentric coordinates of a point of the reference triangle; node n has 2, 1 or 0 of each *)
Bary(p, M) == <<M - p[1], p[1] - p[2], p[2]>>
TriBasis(n, p, M) ==
  LET b == Bary(n, 2)  l == Bary(p, M)  Two == {k \in 1..3 : b[k] = 2}  One == {k \in 1..3 : b[k] = 1} IN
  IF Two # {} THEN LET k == CHOOSE k \in Two : TRUE IN l[k] * (2 * l[k] - M)
  ELSE LET k == CHOOSE k \in One : TRUE  m == CHOOSE m \in One : m # k IN 4 * l[k] * l[m]
LagBasis(c, n, p, M) ==
  CASE c = LINE -> Quad1(n[1], p[1], M)
    [] c = TRI -> TriBasis(n, p, M)
    [] c = QUAD -> Quad1(n[1], p[1], M) * Quad1(n[2], p[2], M)
    [] OTHER -> Quad1(n[1], p[1], M) * Quad1(n[2], p[2], M) * Quad1(n[3], p[3], M)
(* one at its own node, zero at the others, and together one everywhere *)
LagrangeProper == \A c \in {LINE, QUAD, TRI, HEX} : LET N == LagNodes[c]  one == CASE c \in {LINE, TRI} -> 4 [] c = QUAD -> 16 [] OTHER -> 64 IN
  /\ Cardinality({N[k] : k \in 1..Len(N)}) = Len(N)
  /\ \A k, m \in 1..Len(N) : LagBasis(c, N[k], N[m], 2) = (IF k = m THEN one ELSE 0)
ASSUME LagrangeProper

(* -------------------------------- the maps ------------------------------- *)
MultiLinear(v, p, M, d) ==      \* the corners of the cube in Morton order
  LET W(k) == LET f(a) == IF Bit(k, a) = 1 THEN p[a + 1] ELSE M - p[a + 1] IN
              CASE d = 1 -> f(0) [] d = 2 -> f(0) * f(1) [] OTHER -> f(0) * f(1) * f(2)
      n == CASE d = 1 -> 2 [] d = 2 -> 4 [] OTHER -> 8
  IN  Comb([k \in 1..n |-> W(k - 1)], v)
Scale(t, M) ==
  CASE t.g = "ax" \/ t.g = "ana" -> M
    [] t.g = "zero" -> 1
    [] t.g = "lag2" -> (CASE t.c \in {LINE, TRI} -> M^2 [] t.c = QUAD -> M^4 [] OTHER -> M^6)
    [] OTHER -> (CASE t.c = VERTEX -> 1 [] t.c \in {LINE, TRI, TET} -> M [] t.c \in {QUAD, PRISM, PYR} -> M^2 [] OTHER -> M^3)
(* the axes along which the box of an axis aligned tree extends *)
BoxAxes(t) == LET A == {k \in 1..3 : t.v[1][k] # t.v[2][k]} IN
              [a \in 1..Dim[t.c] |-> CHOOSE k \in A : Cardinality({j \in A : j < k}) = a - 1]
(* Scale(t, M) times the image of p/M; pyramids are treated separately *)
Image(t, p, M) ==
  CASE t.g = "zero" -> <<0,0,0>>
    [] t.g = "ana" -> VAdd(VScale(M, t.v[1]), p)
    [] t.g = "ax" -> LET A == BoxAxes(t) IN
         [k \in 1..3 |-> M * t.v[1][k] + FoldLeft(LAMBDA s, a : s + (IF A[a] = k THEN p[a] * (t.v[2][k] - t.v[1][k]) ELSE 0), 0, Times(Dim[t.c]))]
    [] t.g = "lag2" -> Comb([k \in 1..Len(t.v) |-> LagBasis(t.c, LagNodes[t.c][k], p, M)], t.v)
    [] OTHER -> CASE t.c = VERTEX -> t.v[1]
         [] t.c \in {LINE, QUAD, HEX} -> MultiLinear(t.v, p, M, Dim[t.c])
         [] t.c = TRI -> Comb(<<M - p[1], p[1] - p[2], p[2]>>, t.v)
         [] t.c = TET -> Comb(<<M - p[1], p[1] - p[3], p[3] - p[2], p[2]>>, t.v)
         [] OTHER -> LET b == <<M - p[1], p[1] - p[2], p[2]>> IN      \* prism: triangle times height
              Comb([k \in 1..6 |-> IF k <= 3 THEN b[k] * (M - p[3]) ELSE b[k - 3] * p[3]], t.v)
(* a pyramid: the base is bilinear, the points of a line from the base to the apex are linear in the height.
   r is M^2 times the image of p/M up to one unit *)
PyramidOK(t, p, M, r) ==
  LET h == M - p[3] IN
  IF h = 0 THEN r = VScale(M * M, t.v[5])
  ELSE LET x == p[1] - p[3]  y == p[2] - p[3]          \* base coordinates x/h, y/h
           b == Comb(<<(h - x) * (h - y), x * (h - y), (h - x) * y, x * y>>, t.v)
       IN  \A k \in 1..3 : Abs(r[k] * h - (M * b[k] + M * p[3] * t.v[5][k] * h)) <= h
ImageOK(t, p, M, r) == IF t.g \in {"lin", "lag1"} /\ t.c = PYR THEN PyramidOK(t, p, M, r) ELSE r = Image(t, p, M)

(* ------------------------------ affine trees ----------------------------- *)
(* corners of the full tree, for boxes *)
Points(t) == IF t.g # "ax" THEN t.v
             ELSE [k \in 1..Len(UnitVerts[RootType[t.c]]) |-> Image(t, UnitVerts[RootType[t.c]][k], 1)]
(* N times the point of an affine tree with coordinates p/N *)
Affine(t, p, N) == InElement(t.c, Points(t), p, N)
IsAffine(t) == t.g \in {"lin", "ax"} /\ \A k \in 1..Len(Points(t)) : Affine(t, UnitVerts[RootType[t.c]][k], 1) = Points(t)[k]
(* the corners of an element in units of 1/2^level *)
Corners(t, path) == LET cell == CellOf(t.c, path)  u == Verts(cell)  N == 2^Len(path) IN [k \in 1..Len(u) |-> Affine(t, u[k], N)]
ElemType(t, path) == CellOf(t.c, path)[1]
(* the square of the length of a line or the area, or six times the volume, in the same units *)
Area2(P) == LET x == Cross(VSub(P[2], P[1]), VSub(P[3], P[1])) IN Dot(x, x)      \* of the parallelogram
Measure(s, P) ==
  LET d(k) == VSub(P[k + 1], P[1]) IN
  CASE s = VERTEX -> 0
    [] s = LINE -> Dot(d(1), d(1))
    [] s \in {QUAD, TRI} -> Area2(P)                   \* for a triangle the square of twice its area
    [] s = HEX -> 6 * Abs(Det(d(1), d(2), d(4)))
    [] s = TET -> Abs(Det(d(1), d(2), d(3)))
    [] s = PRISM -> 3 * Abs(Det(d(1), d(2), d(3)))
    [] OTHER -> 2 * Abs(Det(d(1), d(2), d(4)))
FaceP(ty, P, f) == [k \in 1..Len(FaceCorners[ty][f]) |-> P[FaceCorners[ty][f][k] + 1]]
FaceMeasure(ty, P, f) == LET F == FaceP(ty, P, f) IN
  CASE Len(F) = 1 -> 0 [] Len(F) = 2 -> LET d == VSub(F[2], F[1]) IN Dot(d, d) [] OTHER -> Area2(F)
(* some corner that is not on the face *)
Off(ty, P, f) == P[CHOOSE k \in 1..Len(P) : (k - 1) \notin {FaceCorners[ty][f][j] : j \in 1..Len(FaceCorners[ty][f])}]
(* a vector that points out of the element, orthogonal to the face and, for elements in a plane or on a line, inside it *)
Outward(ty, P, f) ==
  LET F == FaceP(ty, P, f)  c == VSub(Off(ty, P, f), F[1]) IN
  CASE Len(F) = 1 -> VSub(<<0,0,0>>, c)
    [] Len(F) = 2 -> LET v == VSub(F[2], F[1]) IN VSub(VScale(Dot(c, v), v), VScale(Dot(v, v), c))
    [] OTHER -> LET n == Cross(VSub(F[2], F[1]), VSub(F[3], F[1])) IN IF Dot(n, c) > 0 THEN VSub(<<0,0,0>>, n) ELSE n
(* n is K times the unit vector in the direction of m, up to rounding of its entries *)
Parallel(n, m, K) ==
  LET x == Cross(n, m)  t == Abs(m[1]) + Abs(m[2]) + Abs(m[3]) IN
  /\ \A k \in 1..3 : Abs(x[k]) <= t
  /\ Dot(n, m) > 0
  /\ Abs(Dot(n, n) - K * K) <= 4 * K
(* four times the units of the corners: does the element contain the point? (its boundary belongs to it) *)
InsideElem(ty, P, q) ==
  LET Q == [k \in 1..Len(P) |-> VScale(4, P[k])]
      in(f) == Dot(VSub(q, Q[FaceCorners[ty][f][1] + 1]), Outward(ty, P, f)) <= 0
      nf == Len(FaceCorners[ty])
  IN  CASE Dim[Shape[ty]] = 0 -> q = Q[1]
        [] Dim[Shape[ty]] = 1 -> Cross(VSub(q, Q[1]), VSub(P[2], P[1])) = <<0,0,0>> /\ \A f \in 1..nf : in(f)
        [] Dim[Shape[ty]] = 2 -> Dot(VSub(q, Q[1]), Cross(VSub(P[2], P[1]), VSub(P[3], P[1]))) = 0 /\ \A f \in 1..nf : in(f)
        [] OTHER -> \A f \in 1..nf : in(f)
=============================================================================
