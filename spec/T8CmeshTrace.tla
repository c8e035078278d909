---------------------------- MODULE T8CmeshTrace ----------------------------
(* Replays histories of real coarse meshes against T8Cmesh. *)
EXTENDS T8Cmesh, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i, table
vars == <<w, i, table>>
B(x) == IF x THEN 1 ELSE 0
IsInjectiveSeq(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)

TreeOK(h, K, o, local) ==
  /\ o.g \in Trees(h.mesh)
  /\ o.c = ClassOf(h.mesh, o.g)
  /\ o.f = [f \in 1..NumFaces(RootType[o.c]) |-> FaceView(h.mesh, K, o.g, f - 1)]
  /\ LET A == AttrView(h.attr, o.g) IN Len(o.a) = Cardinality(A) /\ {o.a[k] : k \in 1..Len(o.a)} = A
  /\ local => o.geo = h.geo[o.g + 1] /\ o.v = h.vx[o.g + 1]
ProcOK(h, t, p, o) ==
  LET m == h.mesh
      L == LocalTrees(m, t, p)
      H == TLCEval(IF t = <<>> THEN {} ELSE GhostTrees(m, t, p))
      K == L \cup H
  IN  /\ o.com = 1 /\ o.ok = 1 /\ o.emp = 0
      /\ o.part = B(t # <<>>) /\ o.dim = h.dim /\ o.ng = NumTrees(m)
      /\ o.tab = t
      /\ o.nl = Cardinality(L) /\ o.nh = Cardinality(H)
      /\ L # {} => o.first = Min(L)
      /\ Len(o.tr) = o.nl /\ Len(o.gh) = o.nh
      /\ \A k \in 1..o.nl : o.tr[k].g = Min(L) + k - 1 /\ TreeOK(h, K, o.tr[k], TRUE)
      /\ {o.gh[k].g : k \in 1..o.nh} = H
      /\ \A k \in 1..o.nh : TreeOK(h, K, o.gh[k], FALSE)
      /\ \A g \in Trees(m) :
           LET id == o.id[g + 1] IN
           IF g \in L THEN id = g - Min(L)
           ELSE IF g \in H THEN id >= o.nl /\ id < o.nl + o.nh /\ o.gh[id - o.nl + 1].g = g
           ELSE id < 0
AllOK(h, t, o) == /\ Len(o) = h.P
                  /\ \A p \in 0..(h.P - 1) : ProcOK(h, t, p, o[p + 1])

DoNew(e, h) == /\ table' = (IF e.how \in {"rep", "bcast"} THEN <<>> ELSE e.t)
               /\ TRUE = AllOK(h, table', e.o)
HalfTable(t) == [k \in 1..Len(t) |-> IF k = 1 \/ k = Len(t) THEN t[k]
                                     ELSE t[k] - ((LastAt(t, k - 2) - FirstAt(t, k - 2) + 1) \div 2)]
DoPart(e, h) == /\ Valid(e.t) /\ Total(e.t) = NumTrees(h.mesh) /\ Len(e.t) = h.P + 1
                /\ CASE e.kind = "tab" -> TRUE
                     [] e.kind = "conc" -> \A p \in 0..(h.P - 1) : TreesAt(e.t, p) = IF p = e.proc THEN Trees(h.mesh) ELSE {}
                     [] e.kind = "rand" -> e.proc = 0 => \A p \in 1..h.P : e.t[p] >= 0
                     [] e.kind = "half" -> e.t = HalfTable(table)
                /\ table' = e.t /\ TRUE = AllOK(h, table', e.o)
DoUnif(e, h) == /\ e.t = UniformTable(h.mesh, e.l, h.P)
                /\ table' = e.t /\ TRUE = AllOK(h, table', e.o)
DoCopy(e, h) == /\ UNCHANGED table /\ TRUE = AllOK(h, table, e.o)
                /\ \A p \in 1..h.P : e.eq[p] = 1
(* what process p sees of a mesh, without the numbering of ghosts *)
View(m, attr, t, p) ==
  LET L == LocalTrees(m, t, p)  H == IF t = <<>> THEN {} ELSE GhostTrees(m, t, p) IN
  <<L, H, [g \in L \cup H |-> <<ClassOf(m, g), [f \in 1..NumFaces(RootType[ClassOf(m, g)]) |-> Across(m, g, f - 1)], AttrView(attr, g)>>]>>
DoEq(e, h) == /\ UNCHANGED table
              /\ TRUE = LET t == IF e.pt = 1 THEN e.t ELSE <<>> IN
                 \A p \in 0..(h.P - 1) :
                   LET same == /\ View(h.mesh, h.attr, t, p) = View(e.m2, e.a2, t, p)
                                /\ \A g \in LocalTrees(h.mesh, t, p) : h.geo[g + 1] = e.g2[g + 1] IN
                   IF t = <<>> THEN e.eq[p + 1] = B(same)
                   ELSE ~ same => e.eq[p + 1] = 0
(* bounds of a uniform refinement: the processes have consecutive, even shares of the elements *)
BoundsOK(h, l, b) ==
  LET m == h.mesh
      eo == ElemOffsets(m, l)
      n == eo[Len(eo)]
      ut == UniformTable(m, l, h.P)
  IN  \A p \in 0..(h.P - 1) :
        LET x == b[p + 1]  from == FirstOf(n, p, h.P)  to == FirstOf(n, p + 1, h.P) IN
        IF from >= to THEN x[3] < x[1] /\ x[5] = 0
        ELSE /\ x[1] \in Trees(m) /\ x[3] \in Trees(m)
             /\ eo[x[1] + 1] + x[2] = from /\ x[2] >= 0 /\ from < eo[x[1] + 2]
             /\ eo[x[3] + 1] + x[4] = to /\ x[4] > 0 /\ to <= eo[x[3] + 2]
             /\ x[5] = B(ut[p + 1] < 0)
DoBounds(e, h) == /\ UNCHANGED table
                  /\ TRUE = BoundsOK(h, e.l, e.b)
                  /\ \A p \in 1..h.P : e.u[p] # <<>> => TRUE = BoundsOK(h, e.l, e.u)

(* the same for rows of trees at levels at which the numbers of elements do not fit into TLC's integers *)
BigBoundsOK(h, l, b) ==
  LET tab == TLCEval([c \in {h.cls[k] : k \in 1..Len(h.cls)} |-> Count(RootType[c], l)])
      eo == TLCEval(FoldLeft(LAMBDA a, c : Append(a, BigAdd(a[Len(a)], tab[c])), <<BigZero>>, h.cls))
      n == eo[Len(eo)]
      share(x, p) == ~BigLess(BigMul(n, p), BigMul(x, h.P)) /\ BigLess(BigMul(n, p), BigMul(BigAdd(x, BigOne), h.P))   \* x = n * p / P
      Tr == 0..(Len(h.cls) - 1)
      empty(p) == b[p + 1][3] < b[p + 1][1]
      from(p) == BigAdd(eo[b[p + 1][1] + 1], b[p + 1][2])
      to(p) == BigAdd(eo[b[p + 1][3] + 1], b[p + 1][4])
  IN  \A p \in 0..(h.P - 1) :
        LET x == b[p + 1] IN
        IF empty(p)      \* then no element is between the shares
        THEN /\ x[5] = 0
             /\ LET q == IF \E r \in 0..(p - 1) : ~empty(r) THEN to(Max({r \in 0..(p - 1) : ~empty(r)})) ELSE BigZero IN share(q, p) /\ share(q, p + 1)
        ELSE /\ x[1] \in Tr /\ x[3] \in Tr
             /\ share(from(p), p) /\ BigLess(from(p), eo[x[1] + 2])
             /\ share(to(p), p + 1) /\ x[4] # BigZero /\ ~BigLess(eo[x[3] + 2], to(p))
             /\ BigLess(from(p), to(p))
             /\ x[5] = B(x[2] # BigZero)
DoBigBounds(e, h) == /\ UNCHANGED table
                     /\ TRUE = BigBoundsOK(h, e.l, e.b)
                     /\ \A p \in 1..h.P : e.u[p] # <<>> => TRUE = BigBoundsOK(h, e.l, e.u)

(* ----------------------------- tables alone ------------------------------- *)
DoCount(e, h) == UNCHANGED table /\ e.c = Cardinality(Tables(h.P, h.n))
DoTab(e, h) ==
  LET t == e.t  P == Len(t) - 1 IN
  /\ UNCHANGED table /\ Valid(t)
  /\ \A p \in 0..(P - 1) :
       e.p[p + 1] = <<FirstAt(t, p), LastAt(t, p), Cardinality(TreesAt(t, p)), B(EmptyAt(t, p)), NextNonempty(t, p), t[p + 1]>>
  /\ Len(e.g) = Total(t)
  /\ TRUE = \A g \in 0..(Total(t) - 1) :
       LET q == e.g[g + 1]  O == Owners(t, g) IN
       /\ q.in = [p \in 1..P |-> B(p - 1 \in O)]
       /\ q.any \in O /\ q.fo = Min(O) /\ q.lo = Max(O) /\ q.so \in O /\ q.so2 \in O
       /\ \A k \in 1..P : q.ex[k] \in O
       /\ q.all = SetToSortSeq(O, <)
       /\ Len(q.nx) = Cardinality(O)
       /\ \A k \in 1..Len(q.nx) : LET p == q.nx[k][1] IN
            q.nx[k] = <<p, NextOwner(t, g, p), PrevOwner(t, g, p), Min(O), Max(O)>>
DoPair(e, h) ==
  LET s == e.s  t == e.t  P == Len(t) - 1
      S == TLCEval([a \in 0..(P - 1) |-> [b \in 0..(P - 1) |-> Sends(s, t, a, b)]])
  IN
  /\ UNCHANGED table
  /\ TRUE = \A a \in 0..(P - 1), b \in 0..(P - 1) :
       /\ e.to[a + 1][b + 1] = B(S[a][b] # {})
       /\ e.tree[a + 1][b + 1] = SetToSortSeq(S[a][b], <)
  /\ \A a \in 0..(P - 1) : e.no[a + 1] = B(\A b \in 0..(P - 1) : S[a][b] = {})
  /\ TRUE = \A k \in 1..Len(e.rs) : LET x == e.rs[k] IN
       x[4] = Cardinality({a \in x[1]..x[2] : S[a][x[3]] # {}})

Step(e, h) ==
  CASE e.op = "new" -> DoNew(e, h)
    [] e.op = "part" -> DoPart(e, h)
    [] e.op = "unif" -> DoUnif(e, h)
    [] e.op = "copy" -> DoCopy(e, h)
    [] e.op = "eq" -> DoEq(e, h)
    [] e.op = "bounds" -> DoBounds(e, h)
    [] e.op = "bigb" -> DoBigBounds(e, h)
    [] e.op = "mem" -> UNCHANGED table /\ e.m = [p \in 1..h.P |-> 0]      \* all memory has been returned
    [] e.op = "count" -> DoCount(e, h)
    [] e.op = "tab" -> DoTab(e, h)
    [] e.op = "pair" -> DoPair(e, h)
Init == w \in 1..Len(Trace) /\ i = 1 /\ table = <<>>
Next == \/ /\ i <= Len(Trace[w].ev)
           /\ Step(Trace[w].ev[i], Trace[w])
           /\ i' = i + 1 /\ w' = w
        \/ /\ i > Len(Trace[w].ev) /\ UNCHANGED vars
=============================================================================
