------------------------------ MODULE T8Scheme ------------------------------
(* The refinement schemes of t8code, specified declaratively.

   An element of a tree is a PATH: the finite sequence of child numbers that
   leads from the root of the tree to it.  Everything hierarchical (parent,
   child, sibling, ancestor, nearest common ancestor, curve order, linear id,
   descendants, family) is an operation on paths.  The geometry is a map from
   paths to CELLS, defined without any bit tricks or lookup tables of the
   implementation:

     * a cell is a type (one of the shapes below) placed in a cube of the
       integer lattice with edge length 2^(M - level);
     * the children of a cell are exactly the half-size cells of its class
       that are contained in it, ordered by (position of their cube in Morton
       order, type).

   Faces, face neighbours, boundary faces and tree connections are defined by
   comparing the corner points of cells. *)
EXTENDS T8Vec, T8Tables

CONSTANT M                      \* log2 of the root length (coordinates are 0..2^M)

(* ------------------------------ classes -------------------------------- *)
(* cell types: 0 vertex, 1 line, 2 quad, 3/4 triangles, 5 hex, 6..11 the six
   Kuhn tetrahedra, 12/13 prisms over the two triangles, 14/15 pyramids *)
(* the axis order of the Kuhn tetrahedra: region  p[k] <= p[j] <= p[i] *)
(* corners (0-based) of the faces (face f is entry f+1) *)
NumFaces(t) == Len(FaceCorners[t])

(* the supporting planes: <<a, b, c, d>> for face f means a x + b y + c z + d s >= 0
   inside the cell of edge length s, with equality exactly on face f *)
(* the tables are consistent: plane f is >= 0 on the cell and vanishes exactly on face f *)

FaceShape(t, f) ==              \* f is 1-based everywhere in this module's operators
  LET d == Dim[Shape[t]]  n == Len(FaceCorners[t][f])
  IN  CASE d = 1 -> VERTEX [] d = 2 -> LINE [] n = 3 -> TRI [] OTHER -> QUAD

(* ------------------------------ refinement ------------------------------ *)
(* a cell is <<type, corner of its cube, edge length>> *)
InCell(cell, p) ==
  \A f \in 1..Len(Planes[cell[1]]) : PlaneVal(Planes[cell[1]][f], VSub(p, cell[2]), cell[3]) >= 0

NumChildren(t) == Len(ChildTable[t])

ChildCell(cell, i) ==           \* i is 0-based
  LET ch == ChildTable[cell[1]][i + 1]  h == cell[3] \div 2
  IN  <<ch[2], VAdd(cell[2], VScale(h, CubeCorner(ch[1]))), h>>

RootCell(c) == <<RootType[c], <<0,0,0>>, 2^M>>
Cell(c, path) == FoldLeft(LAMBDA cell, k : ChildCell(cell, k), RootCell(c), path)
(* the cells of all ancestors, from the root (entry 1) to the element itself *)
Chain(c, path) == FoldLeft(LAMBDA s, k : Append(s, ChildCell(s[Len(s)], k)), <<RootCell(c)>>, path)
TypeOf(c, path) == FoldLeft(LAMBDA t, k : ChildTable[t][k + 1][2], RootType[c], path)

Verts(cell) == [v \in 1..Len(UnitVerts[cell[1]]) |-> VAdd(cell[2], VScale(cell[3], UnitVerts[cell[1]][v]))]
VSum(vs, n) == FoldLeft(LAMBDA a, v : VAdd(a, v), <<0,0,0>>, SubSeq(vs, 1, n))

Children(c, path) == [i \in 1..NumChildren(TypeOf(c, path)) |-> Append(path, i - 1)]
Parent(path) == SubSeq(path, 1, Len(path) - 1)
Prefix(path, l) == SubSeq(path, 1, l)
IsAncestor(a, b) == Len(a) <= Len(b) /\ Prefix(b, Len(a)) = a

CommonLen(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {k \in 1..n : a[k] # b[k]}
  IN  IF D = {} THEN n ELSE (CHOOSE k \in D : \A m \in D : k <= m) - 1
NCA(a, b) == Prefix(a, CommonLen(a, b))
(* the curve order: ancestors first, then by the first differing child number *)
PathCmp(a, b) == LET n == CommonLen(a, b)
                 IN  IF a = b THEN 0 ELSE IF n = Len(a) THEN -1 ELSE IF n = Len(b) THEN 1
                     ELSE IF a[n + 1] < b[n + 1] THEN -1 ELSE 1

FirstDesc(path, L) == IF Len(path) >= L THEN path ELSE path \o [k \in 1..(L - Len(path)) |-> 0]
LastDesc(c, path, L) ==
  FoldLeft(LAMBDA a, k : <<Append(a[1], NumChildren(a[2]) - 1), ChildTable[a[2]][NumChildren(a[2])][2]>>,
           <<path, TypeOf(c, path)>>, Times(L - Len(path)))[1]

(* successor among the elements of the same level; the last element has none *)
SuccAt(c, path) ==              \* the deepest level at which the child number can be increased, or 0
  LET types == FoldLeft(LAMBDA s, k : Append(s, ChildTable[s[Len(s)]][k + 1][2]), <<RootType[c]>>, path)
      U == {k \in 1..Len(path) : path[k] + 1 < NumChildren(types[k])}
  IN  IF U = {} THEN 0 ELSE CHOOSE k \in U : \A m \in U : m <= k
HasSucc(c, path) == SuccAt(c, path) # 0
Succ(c, path) == LET k == SuccAt(c, path) IN FirstDesc(Append(Prefix(path, k - 1), path[k] + 1), Len(path))

(* leaf counts and linear ids *)
Count(t, n) == CountTable[n + 1][t]
LinId(c, path, L) ==
  LET q == IF Len(path) > L THEN Prefix(path, L) ELSE path
  IN  FoldLeft(LAMBDA a, k : <<BigAdd(a[1], BeforeTable[L - a[3] + 1][a[2]][k + 1]), ChildTable[a[2]][k + 1][2], a[3] + 1>>,
               <<BigZero, RootType[c], 1>>, q)[1]

(* -------------------------------- faces --------------------------------- *)
FacePts(cell, f) == LET fc == FaceCorners[cell[1]][f]  vs == Verts(cell)
                    IN  {vs[fc[i] + 1] : i \in 1..Len(fc)}
FacePtSeq(cell, f) == LET fc == FaceCorners[cell[1]][f]  vs == Verts(cell)
                    IN  [i \in 1..Len(fc) |-> vs[fc[i] + 1]]
OnFace(cell, f, p) == PlaneVal(Planes[cell[1]][f], VSub(p, cell[2]), cell[3]) = 0

(* all elements of a level whose closed cell contains all points of pts *)
LocateFrom(S, n, pts) ==        \* S: set of <<path, cell>>, n: levels still to descend
  FoldLeft(LAMBDA T, k :
     UNION {{<<Append(x[1], j), ChildCell(x[2], j)>> :
                j \in {j \in 0..(NumChildren(x[2][1]) - 1) :
                         LET cc == ChildCell(x[2], j) IN \A p \in pts : InCell(cc, p)}} : x \in T},
     S, Times(n))
Locate(c, L, pts) == LocateFrom({x \in {<< <<>>, RootCell(c)>>} : \A p \in pts : InCell(x[2], p)}, L, pts)

(* the faces of cell on which all the points lie *)
FacesWith(cell, pts) == {f \in 1..NumFaces(cell[1]) : \A p \in pts : OnFace(cell, f, p)}
TheOnly(S) == CHOOSE x \in S : TRUE

RootFacesOf(c, path, f) == FacesWith(RootCell(c), FacePts(Cell(c, path), f))
(* neighbours of the same level in the same tree: set of <<path, face>> (at most one).  The search starts at
   the smallest ancestor that has the face in its interior. *)
NeighborsInside(c, path, f) ==
  LET chain == Chain(c, path)
      cell == chain[Len(chain)]
      pts == FacePts(cell, f)
      k == FoldLeft(LAMBDA a, j : IF a # 0 THEN a ELSE IF FacesWith(chain[j], pts) = {} THEN j ELSE 0,
                    0, [j \in 1..Len(path) |-> Len(path) + 1 - j])
  IN  IF k = 0 THEN {}
      ELSE      {<<x[1], TheOnly(FacesWith(x[2], pts))>> :
                  x \in {y \in LocateFrom({<<Prefix(path, k - 1), chain[k]>>}, Len(path) - k + 1, pts) : y[1] # path}}

(* children at a face: sequence of <<child number, face of the child>> in curve order *)
FaceChildren(cell, f) == FaceChildTable[cell[1]][f]
(* the face of an ancestor (given as a cell) that contains face f of cell: 0-based, or -1 *)
AncestorFace(anc, cell, f) == LET S == FacesWith(anc, FacePts(cell, f)) IN IF S = {} THEN -1 ELSE TheOnly(S) - 1

FaceDesc(path, cell, f, L, last) ==   \* first (last) descendant of level L at face f
  FoldLeft(LAMBDA a, n : LET fc == FaceChildTable[a[2]][a[3]]
                             k == IF last THEN fc[Len(fc)] ELSE fc[1]
                         IN  <<Append(a[1], k[1]), ChildTable[a[2]][k[1] + 1][2], k[2]>>,
           <<path, cell[1], f>>, Times(L - Len(path)))[1]

(* --------------------- boundary elements and gluing ---------------------- *)
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
RootFaceCorner(c, g, k) == UnitVerts[RootType[c]][FaceCorners[RootType[c]][g][k + 1] + 1]
RootFaceClass(c, g) == FaceShape(RootType[c], g)
(* the two directions that span the face in terms of the face tree's reference element *)
FaceDir(c, g, k) ==
  LET fc == RootFaceClass(c, g) IN
  CASE k = 1 -> IF fc = VERTEX THEN <<0,0,0>> ELSE VSub(RootFaceCorner(c, g, 1), RootFaceCorner(c, g, 0))
    [] k = 2 -> IF fc = QUAD THEN VSub(RootFaceCorner(c, g, 2), RootFaceCorner(c, g, 0))
                ELSE IF fc = TRI THEN VSub(RootFaceCorner(c, g, 2), RootFaceCorner(c, g, 1)) ELSE <<0,0,0>>
(* face tree coordinates -> tree coordinates and back *)
FaceToTree(c, g, p) == VAdd(VScale(2^M, RootFaceCorner(c, g, 0)),
                            VAdd(VScale(p[1], FaceDir(c, g, 1)), VScale(p[2], FaceDir(c, g, 2))))
TreeToFace(c, g, p) ==
  LET o == VSub(p, VScale(2^M, RootFaceCorner(c, g, 0)))
      a == FaceDir(c, g, 1)  b == FaceDir(c, g, 2)
      coord(u, w) == IF u = <<0,0,0>> THEN 0
                     ELSE LET k == CHOOSE k \in 1..3 : u[k] # 0 /\ w[k] = 0 IN o[k] * u[k]
  IN  <<coord(a, b), coord(b, a), 0>>

(* the element of the face tree that is face f of the element (f on root face g) *)
BoundaryElem(c, path, f, g) ==
  LET pts == {TreeToFace(c, g, p) : p \in FacePts(Cell(c, path), f)}
  IN  TheOnly(Locate(RootFaceClass(c, g), Len(path), pts))[1]
(* the element of the tree that has face element q of root face g as face: <<path, face>> *)
Extrude(c, q, g) ==
  LET vs == Verts(Cell(RootFaceClass(c, g), q))
      pts == {FaceToTree(c, g, vs[i]) : i \in 1..Len(vs)}
      x == TheOnly(Locate(c, Len(q), pts))
  IN  <<x[1], TheOnly(FacesWith(x[2], pts))>>

(* the symmetries of a face: corner permutations (sequences of 0-based corners) *)
Syms(fc) ==
  CASE fc = VERTEX -> { <<0>> }
    [] fc = LINE -> { <<0,1>>, <<1,0>> }
    [] fc = TRI -> {p \in [1..3 -> 0..2] : Cardinality(Range(p)) = 3}
    [] fc = QUAD -> {p \in [1..4 -> 0..3] : Cardinality(Range(p)) = 4 /\ p[1] + p[4] = 3 /\ p[2] + p[3] = 3}
SymDir(fc, s, k) ==             \* image of the k-th spanning direction under the symmetry
  LET v(i) == UnitVerts[RootType[fc]][s[i] + 1] IN
  CASE k = 1 -> IF fc = VERTEX THEN <<0,0,0>> ELSE VSub(v(2), v(1))
    [] k = 2 -> IF fc = QUAD THEN VSub(v(3), v(1)) ELSE IF fc = TRI THEN VSub(v(3), v(2)) ELSE <<0,0,0>>
SymDet(fc, s) == LET a == SymDir(fc, s, 1) b == SymDir(fc, s, 2) IN a[1]*b[2] - a[2]*b[1]
InvPerm(s) == [i \in 1..Len(s) |-> (CHOOSE j \in 1..Len(s) : s[j] = i - 1) - 1]
(* sign = 0: rotation, sign = 1: reflection; corner 0 goes to corner o *)
SymOf(fc, o, sign) ==
  CHOOSE s \in Syms(fc) : s[1] = o /\ (fc \in {TRI, QUAD} => (SymDet(fc, s) > 0) = (sign = 0))
ApplySym(fc, s, p) ==
  VAdd(VScale(2^M, UnitVerts[RootType[fc]][s[1] + 1]), VAdd(VScale(p[1], SymDir(fc, s, 1)), VScale(p[2], SymDir(fc, s, 2))))
TransformFace(fc, q, o, sign, smaller) ==
  LET s0 == SymOf(fc, o, sign)
      s == IF smaller THEN s0 ELSE InvPerm(s0)
      vs == Verts(Cell(fc, q))
      pts == {ApplySym(fc, s, vs[i]) : i \in 1..Len(vs)}
  IN  TheOnly(Locate(fc, Len(q), pts))[1]

(* topological orientation of a root face: 0 if the normal points inwards *)
FaceOrient(c, g) ==
  IF Dim[c] < 3 THEN 0
  ELSE LET a == VSub(RootFaceCorner(c, g, 1), RootFaceCorner(c, g, 0))
           b == VSub(RootFaceCorner(c, g, 2), RootFaceCorner(c, g, 0))
           pl == Planes[RootType[c]][g]
       IN  IF Dot(Cross(a, b), pl) > 0 THEN 0 ELSE 1
(* is face g1 of a tree of class c1 the main (smaller) one of the pair? *)
MainFace(c1, g1, c2, g2) == ClassRank[c1] < ClassRank[c2] \/ (c1 = c2 /\ g1 <= g2)
JoinSign(c1, g1, c2, g2) == IF Dim[c1] < 3 THEN 0 ELSE IF FaceOrient(c1, g1) = FaceOrient(c2, g2) THEN 1 ELSE 0
(* the corner map of a join with orientation o, as seen from side 1 *)
JoinSym(c1, g1, c2, g2, o) ==
  LET s == SymOf(RootFaceClass(c1, g1), o, JoinSign(c1, g1, c2, g2))
  IN  IF MainFace(c1, g1, c2, g2) THEN s ELSE InvPerm(s)
(* a point of root face g1 in the coordinates of the neighbour tree *)
GluePoint(c1, g1, c2, g2, o, p) ==
  FaceToTree(c2, g2, ApplySym(RootFaceClass(c1, g1), JoinSym(c1, g1, c2, g2, o), TreeToFace(c1, g1, p)))
=============================================================================
