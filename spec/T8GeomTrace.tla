----------------------------- MODULE T8GeomTrace ----------------------------
(* What real meshes and forests say about points in space, against T8Geom.

   The state is the set of live meshes: hm[h] is the list of trees of mesh (or
   forest) number h.  Meshes are made, derived from each other, wrapped in
   forests and destroyed in any order; what a query on h returns depends only
   on hm[h]. *)
EXTENDS T8Geom, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i, hm
vars == <<w, i, hm>>

TreeOf(e) == hm[e.h][e.t + 1]
(* image of the points p/M of a tree *)
EvalOK(e) == LET t == TreeOf(e) IN
  Len(e.p) = Len(e.r) /\ \A k \in 1..Len(e.p) : ImageOK(t, e.p[k], e.M, e.r[k])
(* the columns of the jacobian of the user's function are the unit vectors; nothing is written beyond them *)
JacOK(e) == e.j = 1
BoxOf(vs) == [k \in 1..6 |-> LET a == (k + 1) \div 2  S == {vs[j][a] : j \in 1..Len(vs)} IN
                             IF k % 2 = 1 THEN CHOOSE x \in S : \A y \in S : x <= y ELSE CHOOSE x \in S : \A y \in S : x >= y]
BoundsOK(e) == LET T == hm[e.h] IN
  /\ e.ok = 1
  /\ e.b = BoxOf(Flat([k \in 1..Len(e.loc) |-> T[e.loc[k] + 1].v]))
NegOK(e) == LET t == TreeOf(e)  d(k) == VSub(t.v[k + 1], t.v[1]) IN
  e.n = (IF t.g # "lin" \/ Dim[t.c] < 3 THEN 0
         ELSE LET s == CASE t.c = TET -> -Det(d(1), d(2), d(3)) [] t.c = PRISM -> Det(d(1), d(2), d(3)) [] OTHER -> Det(d(1), d(2), d(4))
              IN IF s < 0 THEN 1 ELSE 0)
(* points of an element: its corners, points given by their coordinates in the element, its centroid *)
ElemOK(e) ==
  LET t == TreeOf(e)  cell == CellOf(t.c, e.p)  s == Shape[cell[1]]  u == Verts(cell)  N == 2^Len(e.p)  n == Len(u) IN
  /\ Len(e.x) = n
  /\ \A k \in 1..n : ImageOK(t, u[k], N, e.x[k])
  /\ Len(e.q) = Len(e.r)
  /\ \A k \in 1..Len(e.q) : ImageOK(t, InElement(s, u, e.q[k], e.D), N * e.D, e.r[k])
  /\ "st" \in DOMAIN e =>                  \* stretched about the middle (1/2, 1/2, 1/2) by st/4
       \A k \in 1..Len(e.q) : ImageOK(t, InElement(s, u, [a \in 1..3 |-> 4 * e.D + (2 * e.q[k][a] - e.D) * e.st[a]], 8 * e.D), N * 8 * e.D, e.sr[k])
  /\ "c" \in DOMAIN e => ImageOK(t, VTotal(u), N * n, e.c)
  /\ "lc" \in DOMAIN e => e.lc = VTotal(e.x)          \* n times the mean of the corners
(* measures of an element of an affine tree *)
MeasOK(e) ==
  LET t == TreeOf(e)  ty == ElemType(t, e.p)  s == Shape[ty]  P == TLCEval(Corners(t, e.p))  n == Len(P)  nf == Len(FaceCorners[ty]) IN
  /\ e.v = Measure(s, P)
  /\ Len(e.fa) = nf /\ Len(e.fn) = nf /\ Len(e.fc) = nf
  /\ \A f \in 1..nf : LET F == FaceP(ty, P, f) IN
       /\ e.fa[f] = FaceMeasure(ty, P, f)
       /\ e.fc[f] = VTotal(F)
       /\ Parallel(e.fn[f], Outward(ty, P, f), e.K)
  /\ LET S == VTotal(P)                    \* n times the centroid; the diameter is between the extreme distances
         D == {LET x == VSub(VScale(n, P[k]), S) IN Dot(x, x) : k \in 1..n} IN
     /\ \E d \in D : e.d + 1 >= 4 * d
     /\ \E d \in D : e.d - 1 <= 4 * d
     /\ s = LINE => e.d = 4 * Measure(s, P)
InsideOK(e) ==
  LET t == TreeOf(e)  ty == ElemType(t, e.p)  P == TLCEval(Corners(t, e.p)) IN
  Len(e.q) = Len(e.in) /\ \A k \in 1..Len(e.q) : e.in[k] = (IF InsideElem(ty, P, e.q[k]) THEN 1 ELSE 0)

(* ------------------------------ output files ------------------------------ *)
(* An output file lists the cells of one process.  A cell refers to points of its own; the order of its points is one that VTK gives a cell
   of its type, up to symmetries of the cell: faces of the VTK cell are faces of the element. *)
VtkType == [s \in 0..7 |-> <<1, 3, 9, 5, 12, 10, 13, 14>>[s + 1]]
VtkFaces == [s \in 0..7 |->
  CASE s = VERTEX -> {{0}}
    [] s = LINE -> {{0}, {1}}
    [] s = QUAD -> {{0,1}, {1,2}, {2,3}, {3,0}}
    [] s = TRI -> {{0,1}, {1,2}, {2,0}}
    [] s = HEX -> {{0,1,2,3}, {4,5,6,7}, {0,1,5,4}, {1,2,6,5}, {2,3,7,6}, {3,0,4,7}}
    [] s = TET -> {{0,1,2}, {0,1,3}, {0,2,3}, {1,2,3}}
    [] s = PRISM -> {{0,1,2}, {3,4,5}, {0,1,4,3}, {1,2,5,4}, {2,0,3,5}}
    [] OTHER -> {{0,1,2,3}, {0,1,4}, {1,2,4}, {2,3,4}, {3,0,4}}]
(* the faces of the cell of a class as sets of corners *)
OwnFaces(s) == IF s = VERTEX THEN {{0}} ELSE LET F == FaceCorners[RootType[s]] IN {{F[f][k] : k \in 1..Len(F[f])} : f \in 1..Len(F)}
NumCorners(s) == Len(UnitVerts[RootType[s]])
(* the number of faces that two corners share *)
Shared(F, a, b) == Cardinality({f \in F : a \in f /\ b \in f})
VtkOrders == TLCEval([s \in 0..7 |->
  LET n == NumCorners(s)  own == TLCEval(OwnFaces(s))  vf == VtkFaces[s]
      fits(o, c) == \A j \in 1..Len(o) : o[j] # c /\ Shared(own, o[j], c) = Shared(vf, j - 1, Len(o))
      all == FoldLeft(LAMBDA O, k : UNION {{Append(o, c) : c \in {c \in 0..(n - 1) : fits(o, c)}} : o \in O}, {<<>>}, Times(n))
  IN  {o \in all : {{o[v + 1] : v \in f} : f \in vf} = own}])
(* the points x of the file are the corners u (in units of 1/N of the tree) of an element of shape s *)
CellPointsOK(t, s, u, N, x) ==
  /\ Len(x) = Len(u)
  /\ \E o \in VtkOrders[s] : \A k \in 1..Len(u) : ImageOK(t, u[o[k] + 1], N, x[k])
ArrayOK(a, name, c, v) == a.ok = 1 /\ a.n = name /\ a.c = c /\ a.v = v
Four(v) == [k \in 1..Len(v) |-> 4 * v[k]]
Rep(x, n) == [k \in 1..n |-> x]
(* cells: number of corners and VTK type of each *)
CellsOK(e, nv, ty) ==
  LET total == FoldLeft(LAMBDA a, x : a + x, 0, nv) IN
  /\ e.file = 1 /\ e.wf = 1 /\ e.piece = 1 /\ e.posok = 1
  /\ e.nc = Len(nv) /\ e.np = total /\ e.npos = 3 * total
  /\ Len(e.cells) = 3
  /\ ArrayOK(e.cells[1], "connectivity", 1, Four([k \in 1..total |-> k - 1]))
  /\ ArrayOK(e.cells[2], "offsets", 1, Four(Tail(FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, nv))))
  /\ ArrayOK(e.cells[3], "types", 1, Four(ty))
(* the master file names the files of all processes and the same arrays *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
PieceName(n, r) == n \o "_000" \o Digits[r + 1] \o ".vtu"
SameArrays(A, B) == /\ Len(A) = Len(B)
                    /\ \A k \in 1..Len(A) : A[k].n = B[k].n /\ A[k].t = B[k].t /\ A[k].c = B[k].c /\ B[k].ok = 1
MasterOK(e, np) ==
  LET m == e.pv IN
  /\ m.file = 1 /\ m.wf = 1 /\ m.grid = 1 /\ m.stray = 0
  /\ m.src = [k \in 1..np |-> PieceName(e.name, k - 1)]
  /\ Len(m.pos) = 1 /\ m.pos[1].n = "Position" /\ m.pos[1].c = 3 /\ m.pos[1].t = e.post /\ m.pos[1].ok = 1
  /\ SameArrays(e.cd, m.cd) /\ SameArrays(e.pd, m.pd)
VtkOK(e) ==
  LET T == hm[e.h]
      nl == Len(e.el)
      all == IF e.wg = 1 THEN e.el \o e.gh ELSE e.el
      n == Len(all)
      cell == TLCEval([k \in 1..n |-> CellOf(T[all[k][1] + 1].c, all[k][2])])
      shape == TLCEval([k \in 1..n |-> Shape[cell[k][1]]])
      nv == TLCEval([k \in 1..n |-> NumCorners(shape[k])])
      own(f(_)) == [k \in 1..n |-> IF k <= nl THEN f(k) ELSE -1]
      std == << <<"treeid", own(LAMBDA k : all[k][1])>>, <<"mpirank", Rep(e.rank, n)>>,
                <<"level", [k \in 1..n |-> Len(all[k][2])]>>, <<"element_id", own(LAMBDA k : e.fe + k - 1)>> >>
      want == FoldLeft(LAMBDA a, k : IF e.fl[k] = 1 THEN Append(a, std[k]) ELSE a, <<>>, Times(4))
      m == Len(want)
      perPoint(d) == FoldLeft(LAMBDA a, k : FoldLeft(LAMBDA b, j : b \o SubSeq(d.v, (k - 1) * d.c + 1, k * d.c), a, Times(nv[k])), <<>>, Times(n))
  IN  /\ e.ret = 1 /\ e.none = 0
      /\ CellsOK(e, nv, [k \in 1..n |-> VtkType[shape[k]]])
      /\ \A k \in 1..n : CellPointsOK(T[all[k][1] + 1], shape[k], Verts(cell[k]), 2^Len(all[k][2]), e.pts[k])
      /\ Len(e.cd) = m + Len(e.ds) /\ Len(e.pd) = Len(e.ds)
      /\ \A k \in 1..m : ArrayOK(e.cd[k], want[k][1], 1, Four(want[k][2]))
      /\ \A k \in 1..Len(e.ds) : LET d == e.ds[k] IN
           /\ ArrayOK(e.cd[m + k], d.n, d.c, SubSeq(d.v, 1, d.c * n))
           /\ ArrayOK(e.pd[k], d.n \o "_points", d.c, perPoint(d))
      /\ e.rank = 0 => MasterOK(e, e.P)
VtkMeshOK(e) ==
  LET T == hm[e.h]  nl == Len(e.el)  all == e.el \o e.gh  n == Len(all)
      class(k) == T[all[k] + 1].c
      nv == [k \in 1..n |-> NumCorners(class(k))]
      writes == e.part = 1 \/ e.rank = 0      \* a mesh that every process knows is written once
      write == IF e.part = 1 THEN e.P ELSE 1
  IN  IF e.bare = 1 THEN e.ret = 0            \* a ghost without coordinates
      ELSE /\ e.ret = 1
           /\ IF ~ writes THEN e.file = 0
              ELSE /\ CellsOK(e, nv, [k \in 1..n |-> VtkType[class(k)]])
                   /\ \A k \in 1..n : CellPointsOK(T[all[k] + 1], class(k), UnitVerts[RootType[class(k)]], 1, e.pts[k])
                   /\ Len(e.cd) = 2 /\ Len(e.pd) = 0
                   /\ ArrayOK(e.cd[1], "treeid", 1, Four([k \in 1..n |-> IF k <= nl THEN all[k] ELSE -1]))
                   /\ ArrayOK(e.cd[2], "mpirank", 1, Four(Rep(e.rank, n)))
                   /\ e.rank = 0 => MasterOK(e, write)

QueryOK(e) == CASE e.k = "eval" -> EvalOK(e) [] e.k = "jac" -> JacOK(e) [] e.k = "box" -> BoundsOK(e) [] e.k = "neg" -> NegOK(e)
                [] e.k = "el" -> ElemOK(e) [] e.k = "me" -> MeasOK(e) [] e.k = "in" -> InsideOK(e)
                [] e.k = "vtk" -> VtkOK(e) [] e.k = "vtkc" -> VtkMeshOK(e)

Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
With(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Init == w \in 1..Len(Trace) /\ i = 1 /\ hm = <<>>
Step == /\ i <= Len(Trace[w].ev)
        /\ LET e == Trace[w].ev[i] IN
           CASE e.k = "new" -> hm' = With(hm, e.h, e.t)
             [] e.k = "derive" -> e.f \in DOMAIN hm /\ hm' = With(hm, e.h, hm[e.f])
             [] e.k = "free" -> e.h \in DOMAIN hm /\ hm' = Without(hm, e.h)
             [] OTHER -> e.h \in DOMAIN hm /\ (TRUE = QueryOK(e)) /\ UNCHANGED hm
        /\ i' = i + 1 /\ UNCHANGED w
Done == i > Len(Trace[w].ev) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
