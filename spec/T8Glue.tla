------------------------------- MODULE T8Glue -------------------------------
(* Meshes given by the vertices of their trees, and the face connections that follow from them.

   A vertex mesh is a record
     cls   sequence of tree classes
     vid   for each tree the names of its vertices, in t8code's vertex order
   Two faces are connected if and only if they have the same vertices; the orientation of the connection has to
   identify corners with the same name. *)
EXTENDS T8Mesh

GTrees(m) == 0..(Len(m.cls) - 1)
GFaces(m, g) == 1..NumFaces(RootType[m.cls[g + 1]])
FaceVid(m, g, f) == LET fc == FaceCorners[RootType[m.cls[g + 1]]][f] IN [i \in 1..Len(fc) |-> m.vid[g + 1][fc[i] + 1]]
FaceVidSet(m, g, f) == Range(FaceVid(m, g, f))
AllFaces(m) == UNION {{<<g, f>> : f \in GFaces(m, g)} : g \in GTrees(m)}
Partners(m, g, f) == LET S == FaceVidSet(m, g, f) IN {x \in AllFaces(m) : x # <<g, f>> /\ FaceVidSet(m, x[1], x[2]) = S}
(* face f of g is the main side of its own connection and is glued with orientation o to face k of h *)
CornersMeet(m, g, f, h, k, o) ==
  LET a == FaceVid(m, g, f)  b == FaceVid(m, h, k) IN
  /\ o \in 0..(Len(a) - 1) /\ Len(a) = Len(b)
  /\ LET s == JoinSym(m.cls[g + 1], f, m.cls[h + 1], k, o) IN \A i \in 1..Len(a) : a[i] = b[s[i] + 1]
(* what a mesh may say about face f: x = <<boundary, neighbour, its face (0-based), orientation>> *)
FaceOK(m, g, f, x) ==
  LET P == Partners(m, g, f) IN
  IF P = {} THEN x = <<1, -1, -1, -1>>
  ELSE /\ x[1] = 0 /\ <<x[2], x[3] + 1>> \in P
       /\ CornersMeet(m, g, f, x[2], x[3] + 1, x[4])

(* ------------------------------- msh files -------------------------------- *)
(* Gmsh's element types and node order (file position -> t8code vertex, 0-based) *)
GmshClass == [t \in 1..15 |-> CASE t = 15 -> VERTEX [] t = 1 -> LINE [] t = 2 -> TRI [] t = 3 -> QUAD [] t = 4 -> TET
                                [] t = 5 -> HEX [] t = 6 -> PRISM [] t = 7 -> PYR [] OTHER -> -1]
GmshOrder == [c \in Classes |-> CASE c = VERTEX -> <<0>> [] c = LINE -> <<0,1>> [] c = QUAD -> <<0,1,3,2>> [] c = TRI -> <<0,1,2>>
                                [] c = HEX -> <<0,1,3,2,4,5,7,6>> [] c = TET -> <<0,1,3,2>> [] c = PRISM -> <<0,1,2,3,4,5>>
                                [] OTHER -> <<0,1,3,2,4>>]
T8Order(c, e) == LET p == GmshOrder[c] IN [v \in 1..Len(e) |-> e[CHOOSE i \in 1..Len(e) : p[i] = v - 1]]
(* the trees of the wanted dimension, in the order of the file: <<class, node ids in t8code's order>> *)
FileTrees(file) ==
  Flat([b \in 1..Len(file.blk) |->
          LET c == GmshClass[file.blk[b].t]  el == file.blk[b].el IN
          IF Dim[c] = file.dim THEN [k \in 1..Len(el) |-> <<c, T8Order(c, el[k])>>] ELSE <<>>])
FileMesh(file) == LET t == FileTrees(file) IN [cls |-> [k \in 1..Len(t) |-> t[k][1]], vid |-> [k \in 1..Len(t) |-> t[k][2]]]
FileNode(file, id) == file.node[CHOOSE k \in 1..Len(file.node) : file.node[k].id = id]

(* ---------------------------- vertex connectivity -------------------------- *)
AllVertices(vid) == UNION {Range(vid[g]) : g \in 1..Len(vid)}
AtVertex(vid, v) == UNION {{<<g - 1, k - 1>> : k \in {k \in 1..Len(vid[g]) : vid[g][k] = v}} : g \in 1..Len(vid)}
(* vt: sequence of <<vertex, number of entries, entries>> *)
VertexListsOK(vid, vt) ==
  /\ {vt[k][1] : k \in 1..Len(vt)} = AllVertices(vid) /\ Len(vt) = Cardinality(AllVertices(vid))
  /\ \A k \in 1..Len(vt) :
       LET A == AtVertex(vid, vt[k][1])  L == vt[k][3] IN
       /\ vt[k][2] = Cardinality(A) /\ Len(L) = Cardinality(A) /\ Range(L) = A
       /\ \A q \in 1..(Len(L) - 1) : L[q][1] < L[q + 1][1] \/ (L[q][1] = L[q + 1][1] /\ L[q][2] < L[q + 1][2])

(* ------------------------------ generated meshes --------------------------- *)
(* A positioned mesh: cls and pos (for each tree the positions of its corners), per = set of translations under which the
   domain is identified with itself. Faces are glued exactly if they coincide, possibly after one of the translations. *)
VNeg(a) == <<-a[1], -a[2], -a[3]>>
Zero == <<0, 0, 0>>
Shifts(per) == {Zero} \cup per \cup {VNeg(v) : v \in per}
Translate(S, t) == {VAdd(x, t) : x \in S}
FacePos(m, g, f) == LET fc == FaceCorners[RootType[m.cls[g]]][f] IN [i \in 1..Len(fc) |-> m.pos[g][fc[i] + 1]]
GluedAt(m, g, f, h, k, o, t) ==
  LET a == FacePos(m, g, f)  b == FacePos(m, h, k) IN
  /\ Len(a) = Len(b) /\ o \in 0..(Len(a) - 1) /\ Range(b) = Translate(Range(a), t)
  /\ LET s == JoinSym(m.cls[g], f, m.cls[h], k, o) IN \A i \in 1..Len(a) : VAdd(a[i], t) = b[s[i] + 1]
(* F[g][f] = <<boundary, neighbour tree (relative to first), its face, orientation>> *)
GluedOK(m, F, per, first) ==
  LET N == Len(m.cls)
      all == TLCEval(UNION {{<<g, f>> : f \in 1..NumFaces(RootType[m.cls[g]])} : g \in 1..N})
      T == TLCEval(Shifts(per))
      S == TLCEval([g \in 1..N |-> [f \in 1..NumFaces(RootType[m.cls[g]]) |-> Range(FacePos(m, g, f))]])
      bnd == TLCEval({x \in all : F[x[1]][x[2]][1] = 1})
      bset == TLCEval({S[x[1]][x[2]] : x \in bnd}) IN
  /\ \A g \in 1..N : Len(F[g]) = NumFaces(RootType[m.cls[g]])
  /\ \A x \in bnd : F[x[1]][x[2]] = <<1, -1, -1, -1>>
  /\ \A x \in all \ bnd :
       LET r == F[x[1]][x[2]]  h == r[2] - first + 1 IN
       /\ r[1] = 0 /\ h \in 1..N /\ r[3] + 1 \in 1..NumFaces(RootType[m.cls[h]])
       /\ \E t \in T : GluedAt(m, x[1], x[2], h, r[3] + 1, r[4], t) /\ (<<h, r[3] + 1>> = x => t # Zero)
       /\ F[h][r[3] + 1] = <<0, x[1] - 1 + first, x[2] - 1, r[4]>>                \* seen alike from the other side
       /\ S[x[1]][x[2]] \notin bset
  /\ Cardinality(bset) = Cardinality(bnd)                                          \* no two boundary faces coincide,
  /\ \A t \in T \ {Zero} : \A x \in bnd : Translate(S[x[1]][x[2]], t) \notin bset           \* nor are they translates of each other
Det3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
(* corners that span a tree at its first corner *)
Span(c) == CASE c = LINE -> <<1>> [] c \in {QUAD, TRI} -> <<1, 2>> [] c \in {HEX, PYR} -> <<1, 2, 4>> [] c \in {TET, PRISM} -> <<1, 2, 3>> [] OTHER -> <<>>
(* signed volume of the parallelepiped at the first corner; t8code's tetrahedra are left-handed *)
SpanVol(c, p) ==
  LET s == Span(c)
      e(i) == IF i <= Len(s) THEN VSub(p[s[i] + 1], p[1]) ELSE [d \in 1..3 |-> IF d = i THEN 1 ELSE 0] IN
  (IF c = TET THEN -1 ELSE 1) * Det3(e(1), e(2), e(3))
(* dim! times the volume of an affine tree, in units of SpanVol *)
VolWeight(c) == CASE c = QUAD -> 2 [] c = HEX -> 6 [] c = PRISM -> 3 [] c = PYR -> 2 [] OTHER -> 1
SumOver(n, f(_)) == FoldLeft(LAMBDA a, k : a + f(k), 0, [k \in 1..n |-> k])
Factorial(d) == CASE d = 3 -> 6 [] d = 2 -> 2 [] OTHER -> 1

(* a box of n[1] x n[2] x n[3] cells, each cut into K(c) trees; coordinates scaled by the number of cells *)
PerCell(c) == CASE c = TRI -> 2 [] c = TET -> 6 [] c = PRISM -> 2 [] c = PYR -> 3 [] OTHER -> 1
DigitBit(q, d) == (q \div (2 ^ (d - 1))) % 2
BoxPoint(n, B, dim, p) ==
  LET w(q) == FoldLeft(LAMBDA a, d : a * (IF DigitBit(q, d) = 1 THEN p[d] ELSE n[d] - p[d]), 1, [d \in 1..dim |-> d]) IN
  [k \in 1..3 |-> SumOver(2 ^ dim, LAMBDA q : w(q - 1) * B[q][k])]
(* trees stored by two opposite corners *)
TwoCorners(c, x) == LET dim == Dim[c] IN
  [q \in 1..(2 ^ dim) |-> [d \in 1..3 |-> IF d <= dim /\ DigitBit(q - 1, d) = 1 THEN x[2][d] ELSE x[1][d]]]
BoxPeriods(n, B, dim, per) ==
  LET N == n[1] * n[2] * n[3] IN {[k \in 1..3 |-> N * (B[2 ^ (d - 1) + 1][k] - B[1][k])] : d \in {d \in 1..dim : per[d] = 1}}
BoxOK(c, n, B, per, m, F, first) ==
  LET dim == Dim[c]  K == PerCell(c)  cells == n[1] * n[2] * n[3] IN
  /\ Len(m.cls) = cells * K
  /\ \A g \in 1..Len(m.cls) : m.cls[g] = c
  /\ \A cell \in 0..(cells - 1) :
       LET ijk == <<cell % n[1], (cell \div n[1]) % n[2], cell \div (n[1] * n[2])>>
           P == TLCEval([q \in 0..(2 ^ dim - 1) |-> BoxPoint(n, B, dim, [d \in 1..3 |-> ijk[d] + (IF d <= dim THEN DigitBit(q, d) ELSE 0)])])
           Unit(x) == LET q == CHOOSE q \in 0..(2 ^ dim - 1) : P[q] = x IN [d \in 1..3 |-> IF d <= dim THEN DigitBit(q, d) ELSE 0]
           tr == {cell * K + k : k \in 1..K} IN
       /\ \A g \in tr : \A v \in 1..Len(m.pos[g]) : \E q \in 0..(2 ^ dim - 1) : P[q] = m.pos[g][v]
       /\ \A g \in tr : SpanVol(c, [v \in 1..Len(m.pos[g]) |-> Unit(m.pos[g][v])]) > 0
       /\ SumOver(K, LAMBDA k : LET g == cell * K + k IN VolWeight(c) * SpanVol(c, [v \in 1..Len(m.pos[g]) |-> Unit(m.pos[g][v])])) = Factorial(dim)
  /\ GluedOK(m, F, BoxPeriods(n, B, dim, per), first)
(* a process may also generate a box of its own *)
BrickBox(n, dim) == [q \in 1..(2 ^ dim) |-> [d \in 1..3 |-> IF d <= dim /\ DigitBit(q - 1, d) = 1 THEN n[d] ELSE 0]]

(* the other generators: classes of their trees (in any order), and what else is known of them *)
Cnt(c, n) == [k \in 1..n |-> c]
GenClasses(name, a) ==
  CASE name = "hypercube_hybrid" -> Cnt(TET, 6) \o Cnt(PRISM, 6) \o Cnt(HEX, 4)
    [] name = "periodic_hybrid" -> Cnt(TRI, 4) \o Cnt(QUAD, 2)
    [] name \in {"periodic_line_more_trees", "line_zigzag"} -> Cnt(LINE, 3)
    [] name \in {"hybrid_gate", "hybrid_gate_deformed"} -> Cnt(TET, 2) \o Cnt(PRISM, 2) \o Cnt(HEX, 1)
    [] name = "full_hybrid" -> <<HEX, PYR, PRISM, TET>>
    [] name = "prism_deformed" -> <<PRISM>>
    [] name = "pyramid_deformed" -> <<PYR>>
    [] name = "from_class" -> <<a[1]>>
    [] name = "prism_cake" -> Cnt(PRISM, a[1])
    [] name = "pyramid_cake" -> Cnt(PYR, a[1])
    [] name = "long_brick_pyramid" -> Cnt(PYR, 3 * a[1])
    [] name = "prism_cake_funny_oriented" -> Cnt(PRISM, 6)
    [] name = "prism_geometry" -> Cnt(PRISM, 8)
    [] name = "quadrangulated_disk" -> Cnt(QUAD, 12)
    [] name = "octahedron" -> Cnt(TRI, 8)
    [] name = "icosahedron" -> Cnt(TRI, 20)
    [] name = "triangulated_cube" -> Cnt(TRI, 24)
    [] name = "quadrangulated_surface" -> Cnt(QUAD, 6)
    [] name = "prismed_octahedron" -> Cnt(PRISM, 8 * 4 ^ a[1] * a[2])
    [] name = "prismed_icosahedron" -> Cnt(PRISM, 20 * 4 ^ a[1] * a[2])
    [] name = "cubed_shell" -> Cnt(HEX, 6 * a[1] * a[1] * a[2])
    [] name = "cubed_sphere" -> Cnt(HEX, 32)
SameBag(s, t) == Len(s) = Len(t) /\ \A c \in Classes : Cardinality({k \in 1..Len(s) : s[k] = c}) = Cardinality({k \in 1..Len(t) : t[k] = c})
Closed == {"octahedron", "icosahedron", "triangulated_cube", "quadrangulated_surface", "periodic_line_more_trees", "periodic_hybrid"}
Flat2 == {"quadrangulated_disk", "periodic_hybrid"}
NumBoundary(F) == SumOver(Len(F), LAMBDA g : Cardinality({f \in 1..Len(F[g]) : F[g][f][1] = 1}))
GenVolume(name, a) == CASE name = "hypercube_hybrid" -> 6 * 8 [] name = "periodic_hybrid" -> 2 * 4 [] name = "long_brick_pyramid" -> 6 * a[1] [] OTHER -> -1
GlueGenOK(name, a, per, m, F) ==
  LET N == Len(m.cls) IN
  /\ SameBag(m.cls, GenClasses(name, a))
  /\ GluedOK(m, F, per, 0)
  /\ name \in Closed \/ (name = "hypercube_hybrid" /\ a[1] = 1) => NumBoundary(F) = 0
  /\ name \in {"prismed_octahedron", "prismed_icosahedron", "cubed_shell"} => NumBoundary(F) * a[2] = 2 * N
  /\ \A g \in 1..N : (Dim[m.cls[g]] = 3 \/ name \in Flat2) => SpanVol(m.cls[g], m.pos[g]) > 0
  /\ GenVolume(name, a) >= 0 => SumOver(N, LAMBDA g : VolWeight(m.cls[g]) * SpanVol(m.cls[g], m.pos[g])) = GenVolume(name, a)
=============================================================================
