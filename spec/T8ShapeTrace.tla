---------------------------- MODULE T8ShapeTrace ----------------------------
(* What the library says about its reference shapes, and its helpers that interpolate on them, compared with the shapes:
   a shape is its corner points and the sets of corners on its faces; everything else follows. *)
EXTENDS T8Scheme, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i
vars == <<w, i>>
Seq0(n) == [k \in 1..n |-> k]
Elems(s) == {s[k] : k \in 1..Len(s)}
Distinct(s) == Cardinality(Elems(s)) = Len(s)
Corners(c) == UnitVerts[RootType[c]]
Faces(c) == FaceCorners[RootType[c]]
FaceSets(c) == {Elems(Faces(c)[f]) : f \in 1..Len(Faces(c))}
(* an edge is the intersection of two faces (three dimensions), a face (two) or all (one) *)
EdgeSets(c) == CASE Dim[c] = 0 -> {} [] Dim[c] = 1 -> {{0, 1}} [] Dim[c] = 2 -> FaceSets(c)
                 [] OTHER -> {S \in {A \cap B : A \in FaceSets(c), B \in FaceSets(c)} : Cardinality(S) = 2}
FaceClass(c, f) == FaceShape(RootType[c], f)
NumFacesOf(c, t) == Cardinality({f \in 1..Len(Faces(c)) : FaceClass(c, f) = t})
(* number of boundary objects of class t *)
Boundary(c, t) == CASE Dim[t] >= Dim[c] -> 0
                    [] t = 0 -> Len(Corners(c))
                    [] t = 1 -> Cardinality(EdgeSets(c))
                    [] OTHER -> NumFacesOf(c, t)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* face f seen through its first three corners: 0 if the normal points into the shape *)
Inward(c, f) ==
  LET v(k) == Corners(c)[Faces(c)[f][k] + 1]
      n == Cross3(VSub(v(2), v(1)), VSub(v(3), v(1)))
  IN  IF \E p \in Elems(Corners(c)) : Dot3(n, VSub(p, v(1))) > 0 THEN 0 ELSE 1
Rank3(c) == CASE c = 5 -> 0 [] c = 3 -> 0 [] c = 2 -> 1 [] c = 4 -> 1 [] c = 6 -> 2 [] c = 7 -> 3 [] OTHER -> 0
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
(* the cycles of the faces of a VTK cell, as corner numbers of the cell *)
VtkFaces == [c \in 0..7 |-> CASE c \in {0, 1} -> {} [] c = 2 -> {{0,1},{1,2},{2,3},{3,0}} [] c = 3 -> {{0,1},{1,2},{2,0}}
   [] c = 4 -> {{0,4,7,3},{1,2,6,5},{0,1,5,4},{3,7,6,2},{0,3,2,1},{4,5,6,7}} [] c = 5 -> {{0,1,3},{1,2,3},{2,0,3},{0,2,1}}
   [] c = 6 -> {{0,1,2},{3,5,4},{0,3,4,1},{1,4,5,2},{2,5,3,0}} [] OTHER -> {{0,3,2,1},{0,1,4},{1,2,4},{2,3,4},{3,0,4}}]
ShapeOK(e) ==
  LET c == e.c  F == Faces(c)  nf == Len(F)  nv == Len(Corners(c))  inF(f, S) == S \subseteq Elems(F[f]) IN
  /\ e.d = Dim[c] /\ e.nv = nv /\ e.nf = nf /\ e.ne = Cardinality(EdgeSets(c)) /\ e.ok = 1
  /\ e.nc = NumChildren(RootType[c])
  /\ e.mf = <<0, 2, 4, 6>>
  /\ e.ft = [f \in 1..nf |-> FaceClass(c, f)]
  /\ e.fv = F
  /\ e.rc = Corners(c)
  /\ \A a \in 1..3 : e.ce[a] * nv = 60 * Sum([k \in 1..nv |-> Corners(c)[k][a]])
  /\ e.bc = [t \in 1..8 |-> Boundary(c, t - 1)]
  /\ \A m \in 0..3 : LET per == [t \in 1..8 |-> IF Dim[t - 1] >= m THEN Boundary(c, t - 1) ELSE 0] IN e.cb[m + 1] = <<Sum(per), per>>
  /\ {e.cm[k][1] : k \in 1..Len(e.cm)} = {t \in 0..7 : Dim[t] = Dim[c]}
  /\ \A k \in 1..Len(e.cm) : e.cm[k][2] = Sign(Rank3(c) - Rank3(e.cm[k][1]))
  /\ e.fo = [f \in 1..nf |-> IF Dim[c] < 3 THEN 0 ELSE Inward(c, f)]
  \* VTK numbers the corners in another order: a permutation that maps faces to faces
  /\ {e.tv[k] : k \in 1..nv} = 0..(nv - 1)
  /\ \A k \in 1..nv : e.vt[e.tv[k] + 1] = k - 1
  /\ \A k \in (nv + 1)..8 : e.tv[k] = -1 /\ e.vt[k] = -1
  /\ \A S \in VtkFaces[c] : {e.tv[k + 1] : k \in S} \in FaceSets(c)
  /\ "ev" \in DOMAIN e =>
       LET edge(k) == Elems(e.ev[k + 1]) IN
       /\ Len(e.ev) = e.ne /\ {edge(k) : k \in 0..(e.ne - 1)} = EdgeSets(c)
       /\ \A k \in 1..e.ne : /\ e.ev[k][1] < e.ev[k][2]
                             /\ Distinct(e.ef[k])
                             /\ Elems(e.ef[k]) = {f - 1 : f \in {f \in 1..nf : inF(f, edge(k - 1))}}
       /\ \A f \in 1..nf : /\ Distinct(e.fe[f])
                           /\ Elems(e.fe[f]) = {k \in 0..(e.ne - 1) : inF(f, edge(k))}
                           \* the edge that leaves the face at each of its corners
                           /\ \A k \in 1..Len(F[f]) : e.fn[f][k] \in 0..(e.ne - 1) /\ F[f][k] \in edge(e.fn[f][k]) /\ ~ inF(f, edge(e.fn[f][k]))
  /\ "no" \in DOMAIN e =>
       \A f \in 1..nf : \* normal to the face, all of one direction: into the shape
         LET v(k) == Corners(c)[F[f][k] + 1]  n == e.no[f] IN
         /\ Dot3(n, VSub(v(2), v(1))) = 0 /\ Dot3(n, VSub(v(3), v(1))) = 0 /\ n # <<0, 0, 0>>
(* the weight of corner k of the unit cube at the point co/8, times 8^d *)
Weight(co, k) == FoldLeft(LAMBDA a, d : a * (IF (k \div 2^(d - 1)) % 2 = 1 THEN co[d] ELSE 8 - co[d]), 1, Seq0(Len(co)))
LinOK(e) == \A a \in 1..e.n : e.r[a] = Sum([k \in 1..(2^e.d) |-> Weight(e.co, k - 1) * e.v[(k - 1) * e.n + a]])
(* simplices: the weight of a corner is the distance to the opposite face *)
Point(co) == <<co[1], co[2], IF Len(co) = 3 THEN co[3] ELSE 0>>
Simplex(d) == RootType[IF d = 2 THEN 3 ELSE 5]
TriOK(e) == LET t == Simplex(e.d)  p == Point(e.co) IN
  \A a \in 1..e.n : e.r[a] = Sum([k \in 1..(e.d + 1) |-> PlaneVal(Planes[t][k], p, 8) * e.v[(k - 1) * e.n + a]])
CornersOK(e) ==
  LET pick(S) == FoldLeft(LAMBDA a, k : a \o SubSeq(e.v, S[k] * e.n + 1, (S[k] + 1) * e.n), <<>>, Seq0(Len(S))) IN
  /\ e.r = pick(Faces(e.c)[e.f + 1])
  /\ e.e >= 0 => Elems(e.ev) \in EdgeSets(e.c) /\ e.s = pick(e.ev)
RayOK(e) ==
  LET t == Simplex(2 + e.t)  o == UnitVerts[t][e.f + 1]  l == PlaneVal(Planes[t][e.f + 1], e.p, 8) IN
  /\ \A a \in 1..3 : e.r[a] * (8 - l) = 840 * (e.p[a] - l * o[a])
  /\ "s" \in DOMAIN e => e.s = 8 - l
AxbOK(e) == \A k \in 1..Len(e.v) : LET b == e.b[((k - 1) % 3) + 1] IN e.r[k] = e.al * e.v[k] + b /\ e.s[k] = e.v[k] + b
EventOK(e) == CASE e.k = "shape" -> ShapeOK(e) [] e.k = "lin" -> LinOK(e) [] e.k = "tri" -> TriOK(e) [] e.k = "corners" -> CornersOK(e)
                [] e.k = "ray" -> RayOK(e) [] e.k = "axb" -> AxbOK(e) [] OTHER -> FALSE
Init == w \in 1..Len(Trace) /\ i = 1
Step == i <= Len(Trace[w].ev) /\ (TRUE = EventOK(Trace[w].ev[i])) /\ i' = i + 1 /\ UNCHANGED w
Done == i > Len(Trace[w].ev) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
