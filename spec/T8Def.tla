------------------------------- MODULE T8Def -------------------------------
(* The refinement schemes of t8code, specified declaratively.

   An element of a tree is a PATH: the finite sequence of child numbers that
   leads from the root of the tree to it.  Everything hierarchical (parent,
   child, sibling, ancestor, nearest common ancestor, curve order, linear id,
   descendants, family) is an operation on paths.  The geometry is a map from
   paths to CELLS, defined without any bit tricks or lookup tables of the
   implementation:

     * a cell is a type (one of the shapes below) placed in a cube of the
       integer lattice with edge length 2^(M - level);
     * the children of a cell are exactly the half-size cells of its class
       that are contained in it, ordered by (position of their cube in Morton
       order, type).

   Faces, face neighbours, boundary faces and tree connections are defined by
   comparing the corner points of cells. *)
EXTENDS T8Vec

Dim == TLCEval([c \in Classes |-> CASE c = 0 -> 0 [] c = 1 -> 1 [] c \in {2,3} -> 2 [] OTHER -> 3])
Shape == TLCEval([t \in Types |-> CASE t = 0 -> 0 [] t = 1 -> 1 [] t = 2 -> 2 [] t \in 3..4 -> 3
                            [] t = 5 -> 4 [] t \in 6..11 -> 5 [] t \in 12..13 -> 6 [] OTHER -> 7])
RootType == TLCEval([c \in Classes |-> CASE c = 0 -> 0 [] c = 1 -> 1 [] c = 2 -> 2 [] c = 3 -> 3
                            [] c = 4 -> 5 [] c = 5 -> 6 [] c = 6 -> 12 [] OTHER -> 14])
TetI == TLCEval([t \in 6..11 |-> (t - 6) \div 2])
TetJ == TLCEval([t \in 6..11 |-> ((t - 6) \div 2 + (IF (t - 6) % 2 = 0 THEN 2 ELSE 1)) % 3])
TetK == TLCEval([t \in 6..11 |-> 3 - TetI[t] - TetJ[t]])
UnitVerts == TLCEval([t \in Types |->
    CASE t = 0 -> << <<0,0,0>> >>
      [] t = 1 -> << <<0,0,0>>, <<1,0,0>> >>
      [] t = 2 -> [v \in 1..4 |-> CubeCorner(v - 1)]
      [] t = 3 -> << <<0,0,0>>, <<1,0,0>>, <<1,1,0>> >>
      [] t = 4 -> << <<0,0,0>>, <<0,1,0>>, <<1,1,0>> >>
      [] t = 5 -> [v \in 1..8 |-> CubeCorner(v - 1)]
      [] t \in 6..11 -> << <<0,0,0>>, E(TetI[t]), VAdd(E(TetI[t]), E(TetJ[t])), <<1,1,1>> >>
      [] t = 12 -> << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>> >>
      [] t = 13 -> << <<0,0,0>>, <<0,1,0>>, <<1,1,0>>, <<0,0,1>>, <<0,1,1>>, <<1,1,1>> >>
      [] t = 14 -> << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<1,1,1>> >>
      [] t = 15 -> << <<0,0,1>>, <<1,0,1>>, <<0,1,1>>, <<1,1,1>>, <<0,0,0>> >> ])
FaceCorners == TLCEval([t \in Types |->
    CASE t = 0 -> << >>
      [] t = 1 -> << <<0>>, <<1>> >>
      [] t = 2 -> << <<0,2>>, <<1,3>>, <<0,1>>, <<2,3>> >>
      [] t \in 3..4 -> << <<1,2>>, <<0,2>>, <<0,1>> >>
      [] t = 5 -> << <<0,2,4,6>>, <<1,3,5,7>>, <<0,1,4,5>>, <<2,3,6,7>>, <<0,1,2,3>>, <<4,5,6,7>> >>
      [] t \in 6..11 -> << <<1,2,3>>, <<0,2,3>>, <<0,1,3>>, <<0,1,2>> >>
      [] t \in 12..13 -> << <<1,2,4,5>>, <<0,2,3,5>>, <<0,1,3,4>>, <<0,1,2>>, <<3,4,5>> >>
      [] t = 14 -> << <<0,2,4>>, <<1,3,4>>, <<0,1,4>>, <<2,3,4>>, <<0,1,2,3>> >>
      [] t = 15 -> << <<2,3,4>>, <<0,1,4>>, <<1,3,4>>, <<0,2,4>>, <<0,1,2,3>> >> ])
NumFaces(t) == Len(FaceCorners[t])
Neg(v) == <<-v[1], -v[2], -v[3], -v[4]>>
AxF(i, j) == \* x_i - x_j >= 0
  [k \in 1..4 |-> (IF k = i + 1 THEN 1 ELSE 0) - (IF k = j + 1 THEN 1 ELSE 0)]
Lo(i) == [k \in 1..4 |-> IF k = i + 1 THEN 1 ELSE 0]
Hi(i) == [k \in 1..4 |-> IF k = i + 1 THEN -1 ELSE IF k = 4 THEN 1 ELSE 0]
Planes == TLCEval([t \in Types |->
    CASE t = 0 -> << >>
      [] t = 1 -> << Lo(0), Hi(0) >>
      [] t = 2 -> << Lo(0), Hi(0), Lo(1), Hi(1) >>
      [] t = 3 -> << Hi(0), AxF(0,1), Lo(1) >>
      [] t = 4 -> << Hi(1), AxF(1,0), Lo(0) >>
      [] t = 5 -> << Lo(0), Hi(0), Lo(1), Hi(1), Lo(2), Hi(2) >>
      [] t \in 6..11 -> << Hi(TetI[t]), AxF(TetI[t], TetJ[t]), AxF(TetJ[t], TetK[t]), Lo(TetK[t]) >>
      [] t = 12 -> << Hi(0), AxF(0,1), Lo(1), Lo(2), Hi(2) >>
      [] t = 13 -> << Hi(1), AxF(1,0), Lo(0), Lo(2), Hi(2) >>
      [] t = 14 -> << AxF(0,2), Hi(0), AxF(1,2), Hi(1), Lo(2) >>
      [] t = 15 -> << AxF(2,1), Lo(1), AxF(2,0), Lo(0), Hi(2) >> ])
TablesConsistent ==
  \A t \in Types : \A f \in 1..NumFaces(t) : \A v \in 1..Len(UnitVerts[t]) :
     LET val == PlaneVal(Planes[t][f], UnitVerts[t][v], 1)
     IN  /\ val >= 0
         /\ (val = 0) <=> (v - 1) \in {FaceCorners[t][f][c] : c \in 1..Len(FaceCorners[t][f])}
ASSUME TablesConsistent
InCell(cell, p) ==
  \A f \in 1..Len(Planes[cell[1]]) : PlaneVal(Planes[cell[1]][f], VSub(p, cell[2]), cell[3]) >= 0
ChildTypes == TLCEval([t \in Types |-> CASE t \in {3,4} -> {3,4} [] t \in 6..11 -> 6..11 [] t \in {12,13} -> {12,13}
                                 [] t \in {14,15} -> {14,15,6,9} [] OTHER -> {t}])
NCubes == TLCEval([t \in Types |-> CASE Dim[Shape[t]] = 0 -> 1 [] Dim[Shape[t]] = 1 -> 2 [] Dim[Shape[t]] = 2 -> 4 [] OTHER -> 8])
ChildSet(t) ==
  {<<n, u>> \in (0..(NCubes[t] - 1)) \X ChildTypes[t] :
     \A v \in 1..Len(UnitVerts[u]) : InCell(<<t, <<0,0,0>>, 2>>, VAdd(CubeCorner(n), UnitVerts[u][v]))}
ChildBefore(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* for each type the sequence of <<cube, type>> of its children in curve order *)
ChildTable == TLCEval([t \in Types |-> LET S == ChildSet(t) IN
     TLCEval([i \in 1..Cardinality(S) |-> CHOOSE a \in S : Cardinality({b \in S : ChildBefore(b, a)}) = i - 1])])
NumChildren(t) == Len(ChildTable[t])
ChildCell(cell, i) ==           \* i is 0-based
  LET ch == ChildTable[cell[1]][i + 1]  h == cell[3] \div 2
  IN  <<ch[2], VAdd(cell[2], VScale(h, CubeCorner(ch[1]))), h>>
Verts(cell) == [v \in 1..Len(UnitVerts[cell[1]]) |-> VAdd(cell[2], VScale(cell[3], UnitVerts[cell[1]][v]))]
(* CountTable[n + 1][t]: leaves of a cell of type t refined uniformly n times *)
CountTable == TLCEval(FoldLeft(LAMBDA s, n : Append(s, TLCEval([t \in Types |->
             IF n > 21 /\ Len(ChildTable[t]) >= 8 THEN BigZero ELSE FoldLeft(LAMBDA a, ch : BigAdd(a, s[n][ch[2]]), BigZero, ChildTable[t])])),
           << [t \in Types |-> BigOne] >>, Times(30)))
(* BeforeTable[n + 1][t][k + 1]: leaves (n levels below) of the children before child k *)
BeforeTable == TLCEval([n1 \in 1..31 |-> TLCEval([t \in Types |->
     FoldLeft(LAMBDA s, ch : Append(s, BigAdd(s[Len(s)], CountTable[n1][ch[2]])), <<BigZero>>, ChildTable[t])])])
FacePts(cell, f) == LET fc == FaceCorners[cell[1]][f]  vs == Verts(cell)
                    IN  {vs[fc[i] + 1] : i \in 1..Len(fc)}
OnFace(cell, f, p) == PlaneVal(Planes[cell[1]][f], VSub(p, cell[2]), cell[3]) = 0
(* children at a face: sequence of <<child number, face of the child>> in curve order *)
FaceChildrenOf(cell, f) ==
  LET S == {<<i, g>> \in (0..(NumChildren(cell[1]) - 1)) \X (1..6) :
              LET cc == ChildCell(cell, i) IN g <= NumFaces(cc[1]) /\ \A p \in FacePts(cc, g) : OnFace(cell, f, p)}
  IN  [n \in 1..Cardinality(S) |-> CHOOSE a \in S : Cardinality({b \in S : b[1] < a[1]}) = n - 1]
FaceChildTable == TLCEval([t \in Types |-> TLCEval([f \in 1..NumFaces(t) |-> TLCEval(FaceChildrenOf(<<t, <<0,0,0>>, 2>>, f))])])
ClassRank == TLCEval([c \in Classes |-> CASE c = TRI -> 1 [] c = QUAD -> 2 [] c = TET -> 1 [] c = HEX -> 2
                                  [] c = PRISM -> 3 [] c = PYR -> 4 [] OTHER -> 0])
=============================================================================
