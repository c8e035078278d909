------------------------------ MODULE T8Cursor ------------------------------
(* The state machine a user of an element scheme drives: one element of one
   tree, moved by the operations of the scheme.  Every action is one call. *)
EXTENDS T8Scheme
CONSTANTS L,                    \* deepest level
          ClassSet              \* classes explored
VARIABLES cls, path
cvars == <<cls, path>>

CInit == cls \in ClassSet /\ path = <<>>

ToRoot == path' = <<>> /\ UNCHANGED cls
ToChild(i) == /\ Len(path) < L
              /\ i \in 0..(NumChildren(TypeOf(cls, path)) - 1)
              /\ path' = Append(path, i) /\ UNCHANGED cls
ToParent == path # <<>> /\ path' = Parent(path) /\ UNCHANGED cls
ToSibling(i) == /\ path # <<>>
                /\ i \in 0..(NumChildren(TypeOf(cls, Parent(path))) - 1)
                /\ path' = Append(Parent(path), i) /\ UNCHANGED cls
ToSuccessor == HasSucc(cls, path) /\ path' = Succ(cls, path) /\ UNCHANGED cls
ToFirstDesc(l) == l \in Len(path)..L /\ path' = FirstDesc(path, l) /\ UNCHANGED cls
ToLastDesc(l) == l \in Len(path)..L /\ path' = LastDesc(cls, path, l) /\ UNCHANGED cls
ToFirstFaceDesc(f, l) == /\ l \in Len(path)..L /\ f \in 1..NumFaces(TypeOf(cls, path))
                         /\ path' = FaceDesc(path, Cell(cls, path), f, l, FALSE) /\ UNCHANGED cls
ToLastFaceDesc(f, l) == /\ l \in Len(path)..L /\ f \in 1..NumFaces(TypeOf(cls, path))
                        /\ path' = FaceDesc(path, Cell(cls, path), f, l, TRUE) /\ UNCHANGED cls
ToNeighbor(f) == /\ f \in 1..NumFaces(TypeOf(cls, path))
                 /\ NeighborsInside(cls, path, f) # {}
                 /\ path' = TheOnly(NeighborsInside(cls, path, f))[1] /\ UNCHANGED cls
(* to the ancestor of level l via the nearest common ancestor with the last descendant of a sibling *)
ToNCA(q) == path' = NCA(path, q) /\ UNCHANGED cls

CNext == \/ ToParent \/ ToSuccessor
         \/ \E i \in 0..9 : ToChild(i) \/ ToSibling(i)
         \/ \E l \in 0..L : ToFirstDesc(l) \/ ToLastDesc(l)
         \/ \E f \in 1..6 : ToNeighbor(f)
         \/ \E f \in 1..6, l \in 0..L : ToFirstFaceDesc(f, l) \/ ToLastFaceDesc(f, l)
CSpec == CInit /\ [][CNext]_cvars

(* -------------------- what the scheme has to guarantee -------------------- *)
Cur == Cell(cls, path)
TypeInv == \A i \in 1..Len(path) : path[i] \in 0..(NumChildren(TypeOf(cls, Prefix(path, i - 1))) - 1)
InsideRoot == \A v \in 1..Len(Verts(Cur)) : InCell(RootCell(cls), Verts(Cur)[v])

(* volume in units of 1/6 of a cube of the edge length (1/2 in 2D) *)
Vol(t) == CASE t \in {0, 1, 2} -> 1 [] t \in {3, 4} -> 1 [] t = 5 -> 6 [] t \in 6..11 -> 1 [] t \in {12, 13} -> 3 [] OTHER -> 2
VolSum(t) == FoldLeft(LAMBDA a, ch : a + Vol(ch[2]), 0, ChildTable[t])
Pow2(d) == CASE d = 0 -> 1 [] d = 1 -> 2 [] d = 2 -> 4 [] OTHER -> 8
(* children lie in their parent and fill its volume; two of them never share an interior point
   (twice the barycentre-like interior point test: no child's corner sum lies strictly inside another) *)
StrictlyIn(cell, p, k) ==       \* p / k strictly inside cell
  \A f \in 1..NumFaces(cell[1]) :
     PlaneVal(Planes[cell[1]][f], VSub(p, VScale(k, cell[2])), k * cell[3]) > 0
Tiling ==
  LET t == Cur[1]  n == NumChildren(t) IN
  Len(path) < L =>
  /\ \A i \in 1..n : \A v \in 1..Len(Verts(ChildCell(Cur, i - 1))) : InCell(Cur, Verts(ChildCell(Cur, i - 1))[v])
  /\ VolSum(t) = Vol(t) * Pow2(Dim[cls])
  /\ Dim[cls] > 0 => \A i, k \in 1..n : i # k =>
       LET vs == Verts(ChildCell(Cur, i - 1)) IN ~StrictlyIn(ChildCell(Cur, k - 1), VSum(vs, Len(vs)), Len(vs))
(* neighbours are mutual *)
NeighborMutual ==
  \A f \in 1..NumFaces(Cur[1]) :
    LET N == NeighborsInside(cls, path, f) IN
    /\ Cardinality(N) <= 1
    /\ (N = {}) <=> (RootFacesOf(cls, path, f) # {})
    /\ \A x \in N : NeighborsInside(cls, x[1], x[2]) = {<<path, f>>}
(* the curve: ids of children continue the id of the parent, successors add one *)
CurveInv ==
  /\ LinId(cls, FirstDesc(path, L), L) = LinId(cls, path, L)
  /\ BigAdd(LinId(cls, path, L), Count(Cur[1], L - Len(path))) = BigAdd(LinId(cls, LastDesc(cls, path, L), L), BigOne)
  /\ HasSucc(cls, path) => LinId(cls, Succ(cls, path), Len(path)) = BigAdd(LinId(cls, path, Len(path)), BigOne)
(* boundary elements: extruding the boundary element gives the element back *)
BoundaryInv ==
  \A f \in 1..NumFaces(Cur[1]) : \A g \in RootFacesOf(cls, path, f) :
     Extrude(cls, BoundaryElem(cls, path, f, g), g) = <<path, f>>
FaceInv ==
  Len(path) < L =>
  \A f \in 1..NumFaces(Cur[1]) :
     LET fc == FaceChildren(Cur, f) IN
     /\ Len(fc) = Pow2(Dim[cls] - 1)
     /\ \A i \in 1..Len(fc) : AncestorFace(Cur, ChildCell(Cur, fc[i][1]), fc[i][2]) = f - 1
=============================================================================
