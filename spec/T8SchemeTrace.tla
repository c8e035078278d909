---------------------------- MODULE T8SchemeTrace ----------------------------
(* Validates what the real element schemes answered (one JSON line per walk)
   against T8Scheme / T8Cursor.  An event that the specification does not
   explain leaves its walk without a successor state: TLC reports a deadlock. *)
EXTENDS T8Cursor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i
vars == <<cls, path, w, i>>

(* an observation is <<level, shape, corner points>> *)
ObsOK(o, c, p) == LET cell == Cell(c, p) IN
                  o[1] = Len(p) /\ o[2] = Shape[cell[1]] /\ o[3] = Verts(cell)
ObsCell(o, n, cell) == o[1] = n /\ o[2] = Shape[cell[1]] /\ o[3] = Verts(cell)
B(x) == IF x THEN 1 ELSE 0
Has(e, k) == k \in DOMAIN e

IsFamily(c, ps) == /\ ps[1] # <<>>
                   /\ ps = Children(c, Parent(ps[1]))
QR(e, c, ml) ==
  LET p == e.p  cell == Cell(c, p)  n == NumChildren(cell[1]) IN
  /\ ObsCell(e.o, Len(p), cell)
  /\ e.nf = NumFaces(cell[1])
  /\ e.ref = B(Len(p) < ml)
  /\ Len(p) > 0 =>
       LET pc == Cell(c, Parent(p)) IN
       /\ e.cid = p[Len(p)]
       /\ e.ns = NumChildren(pc[1])
       /\ ObsCell(e.par, Len(p) - 1, pc) /\ e.par2 = 1 /\ e.sib2 = 1
       /\ Len(e.sib) \in {0, e.ns}
       /\ \A k \in 1..Len(e.sib) : ObsCell(e.sib[k], Len(p), ChildCell(pc, k - 1))
  /\ Has(e, "nc") =>
       /\ e.nc = n /\ e.mx >= n
       /\ Len(e.ch) = n
       /\ e.c1 = 1
       /\ \A k \in 1..n : ObsCell(e.ch[k], Len(p) + 1, ChildCell(cell, k - 1))
       /\ \A k \in 1..Len(e.fam) : e.fam[k][2] = B(IsFamily(c, e.fam[k][1]))
QS(e, c) ==
  LET p == e.p  t == TypeOf(c, p)
      At(l) == IF l <= Len(p) THEN Prefix(p, l) ELSE FirstDesc(p, l) IN
  /\ \A k \in 1..Len(e.lin) : e.lin[k][2] = LinId(c, p, e.lin[k][1])
  /\ \A k \in 1..Len(e.set) : e.set[k][2] # <<>> /\ ObsOK(e.set[k][2], c, At(e.set[k][1]))
  /\ e.anc = p
  /\ \A k \in 1..Len(e.fd) : ObsOK(e.fd[k][2], c, FirstDesc(p, e.fd[k][1]))
  /\ \A k \in 1..Len(e.ld) : ObsOK(e.ld[k][2], c, LastDesc(c, p, e.ld[k][1]))
  /\ \A k \in 1..Len(e.cnt) : e.cnt[k][2] = IF e.cnt[k][1] < Len(p) THEN BigZero ELSE Count(t, e.cnt[k][1] - Len(p))
  /\ e.cr[2] = Count(RootType[c], e.cr[1])
  /\ IF HasSucc(c, p) THEN Len(e.suc) = 1 /\ ObsOK(e.suc[1], c, Succ(c, p)) ELSE e.suc = <<>>
QP(e, c) ==
  /\ e.cmp = PathCmp(e.p, e.q) /\ e.cmr = - PathCmp(e.p, e.q)
  /\ e.eq = B(e.p = e.q)
  /\ e.an = B(IsAncestor(e.p, e.q))
  /\ ObsOK(e.nca, c, NCA(e.p, e.q))
  /\ e.ce = 1 /\ ObsOK(e.cp, c, e.p)
QF(e, c) ==
  LET p == e.p  chain == Chain(c, p)  cell == chain[Len(chain)] IN
  /\ e.nf = NumFaces(cell[1]) /\ Len(e.f) = e.nf
  /\ Has(e, "cf") =>                       \* the faces around each corner
       \A k \in 1..Len(e.cf) : LET F == {f \in 1..e.nf : (k - 1) \in Range(FaceCorners[cell[1]][f])} IN
         Len(e.cf[k]) = Cardinality(F) /\ Range(e.cf[k]) = {f - 1 : f \in F}
  /\ \A f \in 1..e.nf :
       LET x == e.f[f]  root == RootFacesOf(c, p, f) IN
       /\ x.fs = FaceShape(cell[1], f)
       /\ x.co = FaceCorners[cell[1]][f]
       /\ x.rb = B(root # {})
       /\ root # {} => x.tf = TheOnly(root) - 1
       /\ x.pf = IF p = <<>> THEN f - 1 ELSE AncestorFace(chain[Len(p)], cell, f)
       /\ Len(x.af) = Len(p) + 1
       /\ \A l \in 0..Len(p) : x.af[l + 1] = AncestorFace(chain[l + 1], cell, f)
       /\ Has(x, "n") =>
            LET fc == FaceChildren(cell, f) IN
            /\ x.n = Len(fc) /\ Len(x.ch) = x.n
            /\ \A k \in 1..x.n : /\ x.ci[k] = fc[k][1]
                                 /\ x.cf[k] = fc[k][2] - 1
                                 /\ ObsCell(x.ch[k], Len(p) + 1, ChildCell(cell, fc[k][1]))
       /\ \A k \in 1..Len(x.d) :
            /\ ObsOK(x.d[k][2], c, FaceDesc(p, cell, f, x.d[k][1], FALSE))
            /\ ObsOK(x.d[k][3], c, FaceDesc(p, cell, f, x.d[k][1], TRUE))
QN(e, c) ==
  /\ Len(e.f) = NumFaces(TypeOf(c, e.p))
  /\ \A f \in 1..Len(e.f) :
       LET x == e.f[f]  N == NeighborsInside(c, e.p, f) IN
       IF N = {} THEN x[1] = 0
       ELSE LET y == TheOnly(N) IN x[1] = 1 /\ x[2] = y[2] - 1 /\ ObsOK(x[3], c, y[1]) /\ x[4] = 1
QB(e, c) ==
  /\ Len(e.f) = NumFaces(TypeOf(c, e.p))
  /\ \A f \in 1..Len(e.f) :
       LET x == e.f[f]  root == RootFacesOf(c, e.p, f) IN
       IF root = {} THEN x = <<>>
       ELSE LET g == TheOnly(root)  q == BoundaryElem(c, e.p, f, g) IN
            /\ Len(x) = 5
            /\ x[1] = g - 1 /\ x[2] = RootFaceClass(c, g)
            /\ ObsOK(x[3], RootFaceClass(c, g), q)
            /\ x[4] = f - 1 /\ ObsOK(x[5], c, e.p)
QT(e, c) ==
  \A k \in 1..Len(e.t) : LET x == e.t[k] IN
     ObsOK(x[4], c, TransformFace(c, e.p, x[1], x[2], x[3] = 1)) /\ x[5] = 1
(* affine image of a point given in 16ths of the reference cell *)
MulDiv(d, x) == IF x % 16 = 0 THEN VScale(x \div 16, d) ELSE VScale(x, <<d[1] \div 16, d[2] \div 16, d[3] \div 16>>)
RefPoint(s, v, q) ==
  LET d(a, b) == VSub(v[b + 1], v[a + 1]) IN
  VAdd(v[1],
    CASE s = VERTEX -> <<0,0,0>>
      [] s = LINE -> MulDiv(d(0,1), q[1])
      [] s = QUAD -> VAdd(MulDiv(d(0,1), q[1]), MulDiv(d(0,2), q[2]))
      [] s = TRI  -> VAdd(MulDiv(d(0,1), q[1]), MulDiv(d(1,2), q[2]))
      [] s = HEX  -> VAdd(MulDiv(d(0,1), q[1]), VAdd(MulDiv(d(0,2), q[2]), MulDiv(d(0,4), q[3])))
      [] s = TET  -> VAdd(MulDiv(d(0,1), q[1]), VAdd(MulDiv(d(1,2), q[3]), MulDiv(d(2,3), q[2])))
      [] s = PRISM -> VAdd(MulDiv(d(0,1), q[1]), VAdd(MulDiv(d(1,2), q[2]), MulDiv(d(0,3), q[3])))
      [] OTHER    -> VAdd(MulDiv(d(0,1), q[1]), VAdd(MulDiv(d(0,2), q[2]), MulDiv(d(3,4), q[3]))))
QG(e, c) ==
  LET cell == Cell(c, e.p)  v == Verts(cell) IN
  /\ ObsCell(e.o, Len(e.p), cell)
  /\ \A k \in 1..Len(e.q) : e.q[k][2] = RefPoint(Shape[cell[1]], v, e.q[k][1])
QK(e, c) ==
  /\ e.fits = 1 /\ e.guard = 1 /\ e.same = 1
  /\ Len(e.r) = Len(e.ps)
  /\ \A k \in 1..Len(e.ps) : e.eq[k] = 1 /\ ObsOK(e.r[k], c, e.ps[k])

(* what a class as a whole answers: every class can be refined at least 18 times; only pyramids have different numbers of children *)
QQ(e, c, ml) == /\ ml >= 18
                /\ e.irr = B(c = PYR)
                /\ e.size = 1
QueryOK(e, c, ml) ==
  CASE e.k = "Q" -> QQ(e, c, ml) [] e.k = "R" -> QR(e, c, ml) [] e.k = "S" -> QS(e, c) [] e.k = "P" -> QP(e, c)
    [] e.k = "F" -> QF(e, c) [] e.k = "N" -> QN(e, c) [] e.k = "B" -> QB(e, c)
    [] e.k = "T" -> QT(e, c) [] e.k = "G" -> QG(e, c) [] e.k = "K" -> QK(e, c)

(* a recorded move of the cursor must be a step of T8Cursor *)
MoveOK(e) ==
  /\ CASE e.op = "root" -> ToRoot
       [] e.op = "child" -> ToChild(e.a)
       [] e.op = "parent" -> ToParent
       [] e.op = "sib" -> ToSibling(e.a)
       [] e.op = "succ" -> ToSuccessor
       [] e.op = "fd" -> ToFirstDesc(e.a)
       [] e.op = "ld" -> ToLastDesc(e.a)
       [] e.op = "ffd" -> ToFirstFaceDesc(e.a + 1, e.b)
       [] e.op = "lfd" -> ToLastFaceDesc(e.a + 1, e.b)
       [] e.op = "nb" -> ToNeighbor(e.a + 1)
       [] e.op = "nonb" -> NeighborsInside(cls, path, e.a + 1) = {} /\ UNCHANGED cvars
       [] e.op = "setid" -> path' = FirstDesc(path, e.a) /\ UNCHANGED cls
       [] e.op = "copy" -> UNCHANGED cvars
  /\ TRUE = ObsOK(e.o, cls, path')
  /\ e.id = LinId(cls, path', Len(path'))

Init == w \in 1..Len(Trace) /\ i = 1 /\ cls = Trace[w].cls /\ path = <<>>
Step == /\ i <= Len(Trace[w].ev)
        /\ LET e == Trace[w].ev[i] IN
           IF e.k = "C" THEN MoveOK(e) ELSE (TRUE = QueryOK(e, cls, Trace[w].rml)) /\ UNCHANGED cvars
        /\ i' = i + 1 /\ UNCHANGED w
Done == i > Len(Trace[w].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
