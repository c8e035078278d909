---------------------------- MODULE T8ForestTrace ----------------------------
(* Replays histories of real (multi-process) forests against T8Forest.  Every
   line of the trace is one history: a mesh, the number of processes and the
   collective operations with what each process observed afterwards. *)
EXTENDS T8Forest, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i, prev
vars == <<mesh, parts, w, i, prev>>
B(x) == IF x THEN 1 ELSE 0
Has(e, k) == k \in DOMAIN e

(* ---------------- what every process reports about its part -------------- *)
ObsParts(e) == [r \in 1..Len(e.obs) |-> e.obs[r].el]
TreesOf(seq) == LET T == {seq[k][1] : k \in 1..Len(seq)} IN SetToSortSeq(T, <)
RankOK(m, ps, off, r, o) ==
  LET seq == ps[r]  T == TreesOf(seq) IN
  /\ o.nl = Len(seq) /\ o.ng = off[Len(off)] /\ o.fe = off[r]
  /\ Len(o.tr) = Len(T)
  /\ \A k \in 1..Len(T) :
       /\ o.tr[k][1] = T[k] /\ o.tr[k][2] = ClassOf(m, T[k])
       /\ o.tr[k][3] = Cardinality({j \in 1..Len(seq) : seq[j][1] < T[k]})
       /\ o.tr[k][4] = Cardinality({j \in 1..Len(seq) : seq[j][1] = T[k]})
  /\ o.gt = NumTrees(m)
  /\ o.ok = 1                   \* random access, tree look-ups and the library's own checks agree
ObsOK(m, ps, e) ==
  LET off == Offsets(ps) IN
  /\ Len(e.obs) = Len(ps)
  /\ \A r \in 1..Len(ps) : RankOK(m, ps, off, r, e.obs[r])
  /\ \A r \in 1..Len(ps) : \A k \in 1..Len(ps[r]) : ValidPath(m, ps[r][k])

(* ------------------------------ operations ------------------------------- *)
DoNew(e, h) == /\ New(h.mesh, h.P, e.l, ObsParts(e))
               /\ TRUE = ObsOK(h.mesh, parts', e)
DoAdapt(e, h) == /\ Adapt(e.rec = 1, h.maxl, e.holes = 1, e.calls)
                 /\ ObsParts(e) = parts' /\ TRUE = ObsOK(mesh, parts', e)
                 /\ e.eq = [r \in 1..P |-> B(parts[r] = parts'[r])]
                 /\ e.holes2 = 0 => (Tiles(mesh, Cat(parts')) /\ Sorted(Cat(parts')))
(* may the boundaries be at o0 (weighted: the accumulated weight in front of a boundary is the share of the processes in front) *)
BaseOK(e, o0) ==
  LET N == Count1(parts) IN
  /\ Len(o0) = P + 1 /\ o0[1] = 0 /\ o0[P + 1] = N
  /\ CASE e.kind = "even" -> \A r \in 1..P : o0[r + 1] - o0[r] \in {N \div P, (N + P - 1) \div P}
       [] e.kind = "weight" -> WeightedOK(Flat(e.wt), o0)
       [] e.kind = "offs" -> o0 = Append(e.off, N)
(* all boundaries that a partition for coarsening may start from *)
BaseSet(e) ==
  LET N == Count1(parts) IN
  CASE e.kind = "even" -> {EvenOffsets(N, P)}
    [] e.kind = "weight" -> WeightedSet(Flat(e.wt), P)
    [] e.kind = "offs" -> {Append(e.off, N)}
DoPart(e, h) == /\ IF e.pfc = 1 THEN \E o0 \in BaseSet(e) : PartitionCoarsening(ObsParts(e), o0)
                   ELSE Partition(ObsParts(e)) /\ BaseOK(e, Offsets(ObsParts(e)))
                /\ TRUE = ObsOK(mesh, parts', e)
DoBal(e, h) == /\ Balance(ObsParts(e), e.repart = 1)
               /\ TRUE = ObsOK(mesh, parts', e)
               /\ e.isb = [r \in 1..P |-> 1]
(* several operations in one commit: adapt, then partition, then balance *)
DoCombo(e, h) ==
  LET runs == [r \in 1..P |-> AdaptRun(mesh, parts[r], h.maxl, e.rec = 1, FALSE, e.calls[r])]
      ad == IF e.ad = 1 THEN [r \in 1..P |-> runs[r].out] ELSE parts
      ps == ObsParts(e)
      new == Cat(ps)
  IN  /\ UNCHANGED mesh
      /\ e.ad = 1 => \A r \in 1..P : AdaptOK(mesh, parts[r], runs[r])
      /\ IF e.bal = 1 THEN Sorted(new) /\ SetOf(new) = BalanceClosure(mesh, SetOf(Cat(ad)))
         ELSE new = Cat(ad)
      /\ Len(ps) = P
      /\ IF e.bal = 0 THEN (IF e.pa = 1 THEN EvenCounts(ps, Len(new)) ELSE ps = ad)
         ELSE IF e.repart = 1 THEN EvenCounts(ps, Len(new)) \/ (e.pa = 0 /\ ps = ad)
         ELSE IF e.pa = 0 THEN \A r \in 1..P : \A k \in 1..Len(ps[r]) : Covering(SetOf(ad[r]), ps[r][k]) # {}
         ELSE TRUE
      /\ parts' = ps /\ TRUE = ObsOK(mesh, parts', e)
DoCopy(e, h) == /\ UNCHANGED <<mesh, parts>> /\ ObsParts(e) = parts /\ TRUE = ObsOK(mesh, parts, e)
                /\ e.eq = [r \in 1..P |-> 1]

(* ------------------------------- queries ---------------------------------- *)
RankOf(ps, x) == CHOOSE r \in 1..Len(ps) : \E k \in 1..Len(ps[r]) : ps[r][k] = x
(* ghost layer of process r as reported *)
GhostOK(m, ps, L, n, own, r, o) ==
  LET mine == SetOf(ps[r])
      G == UNION {UNION {{y[1] : y \in LeafNeighbors(m, L, n, x, f)} : f \in LeafFaces(m, x)} : x \in mine} \ mine
      T == TreesOf(o.el)
      R == SetToSortSeq({own[x] - 1 : x \in G}, <)
  IN  /\ SetOf(o.el) = G /\ Len(o.el) = Cardinality(G)
      /\ Sorted(o.el)
      /\ Len(o.tr) = Len(T)
      /\ \A k \in 1..Len(T) :
           /\ o.tr[k][1] = T[k] /\ o.tr[k][2] = ClassOf(m, T[k])
           /\ o.tr[k][3] = Cardinality({j \in 1..Len(o.el) : o.el[j][1] < T[k]})
           /\ o.tr[k][4] = Cardinality({j \in 1..Len(o.el) : o.el[j][1] = T[k]})
      /\ Len(o.rem) = Len(R)
      /\ \A k \in 1..Len(R) :
           LET first == CHOOSE j \in 1..Len(o.el) : own[o.el[j]] - 1 = R[k] /\ \A l \in 1..(j - 1) : own[o.el[l]] - 1 # R[k] IN
           /\ o.rem[k][1] = R[k]
           /\ o.rem[k][3] = first - 1
           /\ T[o.rem[k][2] + 1] = o.el[first][1]
      /\ o.ok = 1
OwnMap(ps) == LET all == Cat(ps)  off == Offsets(ps)
                  rk == [k \in 1..Len(all) |-> CHOOSE r \in 1..Len(ps) : off[r] < k /\ k <= off[r + 1]]
              IN  FoldLeft(LAMBDA f, k : f @@ (all[k] :> rk[k]), <<>>, [k \in 1..Len(all) |-> k])
DoGhost(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ Len(e.g) = P
  /\ TRUE = LET all == TLCEval(Cat(parts))  L == TLCEval(SetOf(all))  n == Deepest(all)  own == TLCEval(OwnMap(parts))
         tc == TLCEval(TooCoarse(mesh, L))
     IN  \A r \in 1..P : /\ GhostOK(mesh, parts, L, n, own, r, e.g[r])
                          /\ e.isb[r] = B(tc \cap SetOf(parts[r]) = {})
(* exchanged data: value of element with global index k (0-based) is 3k + 5; gl: the ghosts in index order *)
DoExch(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = LET all == Cat(parts)  idx == TLCEval(Idx(all))  off == Offsets(parts) IN
     \A r \in 1..P : LET v == e.v[r]  n == Len(parts[r])
                          val(k) == IF e.mod > 0 THEN (3 * k + 5) % e.mod ELSE 3 * k + 5 IN
       /\ Len(v) = n + Len(e.gl[r])
       /\ \A k \in 1..n : v[k] = val(off[r] + k - 1)
       /\ \A k \in 1..Len(e.gl[r]) : v[n + k] = val(idx[e.gl[r][k]] - 1)
(* leaf face neighbours: per process the entries <<index, face, <<index, dual face>>..., class, tree, orientation>>;
   indices count the own leaves and then the ghosts *)
DoLfn(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = LET all == TLCEval(Cat(parts))  L == TLCEval(SetOf(all))  n == Deepest(all) IN
     \A r \in 1..P :
       LET known == TLCEval(parts[r] \o e.gl[r])
           have == TLCEval(SetOf(known))
       IN  \A k \in 1..Len(e.q[r]) :
             LET q == e.q[r][k]
                 x == known[q.i + 1]
                 N == {y \in LeafNeighbors(mesh, L, n, x, q.f + 1) : y[1] \in have}
                 c == ClassOf(mesh, x[1])
                 rf == FacesWith(RootCell(c), FacePts(Cell(c, x[2]), q.f + 1))
                 a == IF rf = {} THEN <<>> ELSE Across(mesh, x[1], TheOnly(rf) - 1)
             IN  /\ Len(q.n) = Cardinality(N)
                 /\ {<<known[q.n[j][1] + 1], q.n[j][2] + 1>> : j \in 1..Len(q.n)} = N
                 /\ N # {} => \A y \in N : q.c = ClassOf(mesh, y[1][1]) /\ q.t = y[1][1]
                 /\ N # {} => q.o = (IF a = <<>> THEN 0 ELSE a[3])
                 /\ q.ok = 1
                 \* which part of a coarser neighbour's face it is
                 /\ IF Cardinality(N) = 1 /\ Len(TheOnly(N)[1][2]) = Len(x[2]) - 1
                    THEN LET y == TheOnly(N)  fc == FaceChildTable[LeafType(mesh, y[1])][y[2]]
                         IN  q.sub + 1 \in 1..Len(fc) /\ Append(y[1][2], fc[q.sub + 1][1]) = NB(mesh, x, q.f + 1)[1][2]
                    ELSE q.sub = -1
(* queries about single elements: owner, leaf test, descendants, neighbours, owners at a face *)
DoElem(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = LET all == Cat(parts)  n == Deepest(all)  own == TLCEval(OwnMap(parts))  L == DOMAIN own
         owners(x, f) == LET C == Covering(L, x) IN
                         IF C # {} THEN {own[TheOnly(C)] - 1}
                         ELSE {own[y[1]] - 1 : y \in TouchingInside(mesh, L, x, f, n)}
     IN
     /\ \A r \in 1..P :          \* are the first and the last tree shared with other processes
          e.sh[r] = IF parts[r] = <<>> THEN <<0, 0>>
                    ELSE LET o == Offsets(parts) IN
                         <<B(o[r] > 0 /\ all[o[r]][1] = parts[r][1][1]), B(o[r + 1] < Len(all) /\ all[o[r + 1] + 1][1] = parts[r][Len(parts[r])][1])>>
     /\ \A r \in 1..P : \A k \in 1..Len(e.q[r]) :
       LET q == e.q[r][k]  x == <<q.x[1], q.x[2]>>
           fd == <<x[1], FirstDesc(x[2], IF Len(x[2]) > n THEN Len(x[2]) ELSE n)>>
           nb == IF Has(q, "f") THEN NB(mesh, x, q.f + 1) ELSE <<>>
       IN  /\ q.own = own[TheOnly(Covering(L, fd))] - 1
           /\ q.ck = [j \in 1..P |-> B(q.own = j - 1)]
           /\ Has(q, "leaf") => q.leaf = B(x \in SetOf(parts[r]))
           /\ Has(q, "desc") => q.desc = B(\E j \in 1..Len(parts[r]) : parts[r][j] # x /\ parts[r][j][1] = x[1] /\ IsAncestor(x[2], parts[r][j][2]))
           /\ Has(q, "of") => q.of = SetToSortSeq(owners(x, q.f + 1), <)
           /\ Has(q, "nb") => IF nb = <<>> THEN q.nb = <<>>
                              ELSE q.nb = <<nb[1][1], nb[1][2], nb[2] - 1, ClassOf(mesh, nb[1][1])>>
           /\ Has(q, "on") => q.on = IF nb = <<>> THEN <<>> ELSE SetToSortSeq(owners(nb[1], nb[2]), <)
           /\ Has(q, "hn") =>
                IF nb = <<>> THEN q.hn = <<>>
                ELSE LET fc == FaceChildTable[LeafType(mesh, nb[1])][nb[2]]
                         H == {<<nb[1][1], Append(nb[1][2], fc[j][1]), fc[j][2] - 1>> : j \in 1..Len(fc)}
                     IN  {q.hn[j] : j \in 1..Len(q.hn)} = H /\ Len(q.hn) = Cardinality(H)
(* data moved with a partition *)
DoPdata(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = LET off == Offsets(parts) IN
     \A r \in 1..P : e.d[r] = [k \in 1..Len(parts[r]) |-> LET v == 3 * (off[r] + k - 1) + 5
                                                           IN  IF e.mod > 0 THEN v % e.mod ELSE v]
(* correspondence of the leaves before and after one adaptation: <<tree, refine, #out, first out, #in, first in>> *)
ReplExpected(m, old, new) ==
  LET step(a, k) ==             \* a = <<position in old, position in new, calls>>
        IF a[1] > Len(old) THEN a
        ELSE LET x == old[a[1]]
                 y == IF a[2] <= Len(new) THEN new[a[2]] ELSE <<-1, <<>> >>
                 call(rf, no, ni) == <<x[1], rf, no, TreeIndex(old, a[1]), ni, IF a[2] <= Len(new) /\ ni > 0 THEN TreeIndex(new, a[2]) ELSE -1>>
             IN  IF x = y THEN <<a[1] + 1, a[2] + 1, Append(a[3], call(0, 1, 1))>>
                 ELSE IF x[1] = y[1] /\ IsAncestor(x[2], y[2]) THEN
                   LET n == NumChildren(LeafType(m, x)) IN <<a[1] + 1, a[2] + n, Append(a[3], call(1, 1, n))>>
                 ELSE IF x[1] = y[1] /\ IsAncestor(y[2], x[2]) THEN
                   LET n == Cardinality({j \in a[1]..(a[1] + NumChildren(LeafType(m, y)) - 1) :
                                          j <= Len(old) /\ old[j][1] = y[1] /\ IsAncestor(y[2], old[j][2])})
                   IN  <<a[1] + n, a[2] + 1, Append(a[3], call(-1, n, 1))>>
                 ELSE <<a[1] + 1, a[2], Append(a[3], call(-2, 1, 0))>>
  IN  FoldLeft(step, <<1, 1, <<>> >>, Times(Len(old)))[3]
DoRepl(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = \A r \in 1..P : e.c[r] = ReplExpected(mesh, prev[r], parts[r])
(* top-down search: elements that contain own leaves, in pre-order, none below a rejected element.  The search may start
   at the smallest element that contains all own leaves of a tree. *)
CommonOf(seq, g) == LET T == {seq[j][2] : j \in {j \in 1..Len(seq) : seq[j][1] = g}} IN
                    LET p == CHOOSE p \in T : TRUE IN
                    Prefix(p, CHOOSE n \in 0..Len(p) : /\ \A q \in T : IsAncestor(Prefix(p, n), q)
                                                      /\ n < Len(p) => \E q \in T : ~ IsAncestor(Prefix(p, n + 1), q))
DoSearch(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = \A r \in 1..P :
       LET seq == parts[r]
           L == TLCEval(SetOf(seq))
           anc == TLCEval(UNION {{<<seq[j][1], Prefix(seq[j][2], k)>> : k \in 0..Len(seq[j][2])} : j \in 1..Len(seq)})
           calls == e.c[r]      \* <<tree, path, is leaf, first leaf index in tree, number of leaves, answer>>
           no == TLCEval({<<calls[k][1], calls[k][2]>> : k \in {k \in 1..Len(calls) : calls[k][6] = 0}})
           may == {x \in anc : \A k \in 0..(Len(x[2]) - 1) : <<x[1], Prefix(x[2], k)>> \notin no}
           top == TLCEval([g \in {seq[j][1] : j \in 1..Len(seq)} |-> Len(CommonOf(seq, g))])
           called == TLCEval({<<calls[k][1], calls[k][2]>> : k \in 1..Len(calls)})
       IN  /\ called \subseteq may
           /\ \A x \in may : Len(x[2]) >= top[x[1]] => x \in called
           /\ Len(calls) = Cardinality(called)
           /\ \A k \in 1..(Len(calls) - 1) : LeafCmp(<<calls[k][1], calls[k][2]>>, <<calls[k+1][1], calls[k+1][2]>>) = -1
           /\ \A k \in 1..Len(calls) :
                LET x == <<calls[k][1], calls[k][2]>>
                    J == {j \in 1..Len(seq) : seq[j][1] = x[1] /\ IsAncestor(x[2], seq[j][2])}
                    j0 == CHOOSE j \in J : \A l \in J : j <= l
                IN  /\ calls[k][3] = B(x \in L)
                    /\ calls[k][4] = TreeIndex(seq, j0)
                    /\ calls[k][5] = Cardinality(J)
(* search with queries 0..nq-1 whose answers depend on the element: element calls c = <<tree, path, leaf, index, leaves, answer>>,
   query calls q = <<query, tree, path, leaf, index, leaves, answer>>.  A query is asked at an element if and only if the element and all
   elements above were accepted, and all elements above matched the query; an element with such a query is presented. *)
CallOK(seq, L, c) ==
  LET J == {j \in 1..Len(seq) : seq[j][1] = c[1] /\ IsAncestor(c[2], seq[j][2])}
  IN  /\ J # {} /\ c[3] = B(<<c[1], c[2]>> \in L) /\ c[4] = TreeIndex(seq, CHOOSE j \in J : \A l \in J : j <= l) /\ c[5] = Cardinality(J)
DoQcall(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = \A r \in 1..P :
       LET seq == parts[r]
           L == TLCEval(SetOf(seq))
           anc == TLCEval(UNION {{<<seq[j][1], Prefix(seq[j][2], k)>> : k \in 0..Len(seq[j][2])} : j \in 1..Len(seq)})
           top == TLCEval([g \in {seq[j][1] : j \in 1..Len(seq)} |-> Len(CommonOf(seq, g))])
           C == e.c[r]  Q == e.q[r]
           el == TLCEval({<<C[k][1], C[k][2]>> : k \in 1..Len(C)})
           yes == TLCEval({<<C[k][1], C[k][2]>> : k \in {k \in 1..Len(C) : C[k][6] = 1}})
           asked == TLCEval([q \in 0..(e.nq - 1) |-> {<<Q[k][2], Q[k][3]>> : k \in {k \in 1..Len(Q) : Q[k][1] = q}}])
           match == TLCEval([q \in 0..(e.nq - 1) |-> {<<Q[k][2], Q[k][3]>> : k \in {k \in 1..Len(Q) : Q[k][1] = q /\ Q[k][7] = 1}}])
           above(x, S) == \A k \in top[x[1]]..(Len(x[2]) - 1) : <<x[1], Prefix(x[2], k)>> \in S
           reach == TLCEval({x \in anc : Len(x[2]) >= top[x[1]] /\ above(x, yes)})
       IN  TRUE = (
           /\ e.u[r] = 1
           /\ el \subseteq reach
           /\ \A q \in 0..(e.nq - 1) : {x \in reach : above(x, match[q])} \subseteq el
           /\ \A q \in 0..(e.nq - 1) : asked[q] = {x \in reach : x \in yes /\ above(x, match[q])}
           /\ Len(C) = Cardinality(el) /\ Len(Q) = FoldLeft(LAMBDA a, q : a + Cardinality(asked[q - 1]), 0, [q \in 1..e.nq |-> q])
           /\ \A k \in 1..(Len(C) - 1) : LeafCmp(<<C[k][1], C[k][2]>>, <<C[k+1][1], C[k+1][2]>>) = -1
           /\ \A k \in 1..(Len(Q) - 1) : LeafCmp(<<Q[k][2], Q[k][3]>>, <<Q[k+1][2], Q[k+1][3]>>) <= 0
           /\ \A k \in 1..Len(C) : CallOK(seq, L, C[k])
           /\ \A k \in 1..Len(Q) : CallOK(seq, L, Tail(Q[k])))
(* search with queries (points given as deepest descendants): every leaf that contains a query is reported for it *)
DoQuery(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = \A r \in 1..P :
       LET L == SetOf(parts[r]) IN
       {<<e.m[r][k][1], <<e.m[r][k][2], e.m[r][k][3]>> >> : k \in 1..Len(e.m[r])}
         = UNION {{<<q - 1, y>> : y \in Covering(L, e.qs[q])} : q \in 1..Len(e.qs)}
       /\ Len(e.m[r]) = Cardinality(UNION {{<<q - 1, y>> : y \in Covering(L, e.qs[q])} : q \in 1..Len(e.qs)})
(* iteration over the leaves at a face of an element *)
DoIterF(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = \A r \in 1..P : LET L == TLCEval(SetOf(parts[r]))  n == Deepest(parts[r])
           anc == TLCEval(UNION {{<<x[1], Prefix(x[2], j)>> : j \in 0..Len(x[2])} : x \in L}) IN
       \A k \in 1..Len(e.q[r]) :
         LET q == e.q[r][k]
             T == {y[1] : y \in TouchingIn(mesh, L, <<q.x[1], q.x[2]>>, q.f + 1, n, LAMBDA z : z \in anc)}
         IN  /\ {parts[r][q.l[j] + 1] : j \in 1..Len(q.l)} = T
             /\ Len(q.l) = Cardinality(T)

(* ------------------------------ mesh handle ------------------------------- *)
NumVerts == [c \in 0..7 |-> <<1, 2, 4, 3, 8, 4, 6, 5>>[c + 1]]
(* view of all elements: <<tree, path, handle id, ghost, level, #faces, #vertices, shape, index in tree, faces>> *)
KnownOf(e, r) == [k \in 1..Len(e.el[r]) |-> <<e.el[r][k][1], e.el[r][k][2]>>]
DoHview(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ e.dim = Dim[mesh.cls[1]]
  /\ TRUE = LET all == TLCEval(Cat(parts))  L == TLCEval(SetOf(all))  n == Deepest(all) IN
     \A r \in 1..P :
       LET known == TLCEval(KnownOf(e, r))  nl == Len(parts[r])
           gl == SubSeq(known, nl + 1, Len(known))
           have == TLCEval(SetOf(known))
       IN  /\ Len(known) >= nl /\ SubSeq(known, 1, nl) = parts[r]
           /\ e.gh = 0 => Len(known) = nl
           /\ e.gh = 1 => SetOf(gl) = Ghosts(mesh, parts, r) /\ Sorted(gl)
           /\ \A k \in 1..Len(known) :
                LET v == e.el[r][k]  x == known[k]  t == LeafType(mesh, x) IN
                /\ v[3] = k - 1 /\ v[4] = B(k > nl) /\ v[5] = Len(x[2]) /\ v[6] = NumFaces(t) /\ v[7] = NumVerts[Shape[t]] /\ v[8] = Shape[t]
                /\ v[9] = IF k <= nl THEN TreeIndex(parts[r], k) ELSE TreeIndex(gl, k - nl)
                /\ Len(v[10]) = NumFaces(t)
                /\ \A f \in 1..NumFaces(t) : v[10][f] = <<FaceShape(t, f)>> \o FaceCorners[t][f]
           /\ \A k \in 1..Len(e.q[r]) :
                LET q == e.q[r][k]
                    N == {y \in LeafNeighbors(mesh, L, n, known[q.i + 1], q.f + 1) : y[1] \in have}
                IN  /\ q.ok = 1 /\ Len(q.n) = Cardinality(N)
                    /\ {<<known[q.n[j][1] + 1], q.n[j][2] + 1>> : j \in 1..Len(q.n)} = N
(* ranks of the elements and the list of faces (balanced meshes): every face of an own element is exactly one face of the list *)
BOUNDARY == 0
CONFORMAL == 1
MORTAR == 2
MPI_CONFORMAL == 3
MPI_MORTAR == 4
OrientAt(m, x, f) == LET c == ClassOf(m, x[1])
                         rf == FacesWith(RootCell(c), FacePts(Cell(c, x[2]), f))
                         a == IF rf = {} THEN <<>> ELSE Across(m, x[1], TheOnly(rf) - 1)
                     IN  IF a = <<>> THEN 0 ELSE a[3]
(* the face of the list that x's face f belongs to: <<type, orientation, first side(s), set of the other sides>> *)
FaceOf(m, L, n, mine, x, f) ==
  LET N == TLCEval(LeafNeighbors(m, L, n, x, f))
      o == OrientAt(m, x, f)
      mpi(S) == \E y \in S : y[1] \notin mine
  IN  IF N = {} THEN <<BOUNDARY, 0, {<<x, f>>}, {}>>
      ELSE IF \E y \in N : Len(y[1][2]) = Len(x[2]) THEN <<IF mpi(N) THEN MPI_CONFORMAL ELSE CONFORMAL, o, {<<x, f>>} \cup N, {}>>
      ELSE IF \E y \in N : Len(y[1][2]) < Len(x[2]) THEN
        LET y == TheOnly(N)  S == TLCEval(LeafNeighbors(m, L, n, y[1], y[2])) IN
        IF y[1] \in mine THEN <<IF mpi(S) THEN MPI_MORTAR ELSE MORTAR, o, {y}, S>>
        ELSE <<MPI_MORTAR, o, {y}, {z \in S : z[1] \in mine}>>
      ELSE <<IF mpi(N) THEN MPI_MORTAR ELSE MORTAR, o, {<<x, f>>}, N>>
(* ef, fa: as reported; known: own elements, then ghosts; nl: number of own ones; rk: ranks *)
FaceListOK(m, L, n, nl, known, mine, rk, ef, fa) ==
  LET side(s) == <<known[s[1] + 1], s[2] + 1>>
      conf(k) == fa[k][1] \in {CONFORMAL, MPI_CONFORMAL} IN
  /\ \A k \in 1..Len(fa) :
       /\ Len(fa[k]) >= 3
       /\ \A j \in 3..Len(fa[k]) : fa[k][j][1] + 1 \in 1..Len(known) /\ fa[k][j][3] = rk[fa[k][j][1] + 1]
       /\ \A i1, i2 \in 3..Len(fa[k]) : i1 # i2 => fa[k][i1] # fa[k][i2]
       /\ \E j \in 3..Len(fa[k]) : fa[k][j][3] = -1                            \* it touches an own element
       /\ conf(k) => Len(fa[k]) = 4 /\ fa[k][3][1] <= fa[k][4][1]
       /\ \A j \in 3..Len(fa[k]) : ef[fa[k][j][1] + 1][fa[k][j][2] + 1] = k - 1
  /\ Len(known) > 0 => Len(ef) = Len(known)
  /\ \A k \in 1..nl :
       /\ Len(ef[k]) = Cardinality(LeafFaces(m, known[k]))
       /\ \A f \in 1..Len(ef[k]) :
            /\ ef[k][f] + 1 \in 1..Len(fa)
            /\ LET d == ef[k][f] + 1 IN
               \A w0 \in {FaceOf(m, L, n, mine, known[k], f)} :
               /\ fa[d][1] = w0[1] /\ fa[d][2] = w0[2]
               /\ IF conf(d) THEN {side(fa[d][3]), side(fa[d][4])} = w0[3]
                  ELSE {side(fa[d][3])} = w0[3] /\ {side(fa[d][j]) : j \in 4..Len(fa[d])} = w0[4]
  /\ \A k \in (nl + 1)..Len(known) : \A f \in 1..Len(ef[k]) :                \* ghosts know the faces they share
       IF ef[k][f] = -1 THEN TRUE ELSE \E j \in 3..Len(fa[ef[k][f] + 1]) : side(fa[ef[k][f] + 1][j]) = <<known[k], f>>
DoHface(e, h) ==
  /\ UNCHANGED <<mesh, parts>>
  /\ TRUE = \A all \in {Cat(parts)} : \A L \in {SetOf(all)} : \A n \in {Deepest(all)} : \A own \in {OwnMap(parts)} :      \* (bound so that they are evaluated once)
     /\ e.bal = B(TooCoarse(mesh, L) = {})
     /\ \A r \in 1..P : \A known \in {parts[r] \o e.gl[r]} : \A nl \in {Len(parts[r])} :
          /\ e.rk[r] = [k \in 1..Len(known) |-> IF k <= nl THEN -1 ELSE own[known[k]] - 1]
          /\ e.bal = 1 => \A mine \in {SetOf(parts[r])} : (TRUE = FaceListOK(mesh, L, n, nl, known, mine, e.rk[r], e.ef[r], e.fa[r]))     \* (an expression: no branching over witnesses)

Step(e, h) ==
  CASE e.op = "new" -> DoNew(e, h)
    [] e.op = "adapt" -> DoAdapt(e, h)
    [] e.op = "part" -> DoPart(e, h)
    [] e.op = "bal" -> DoBal(e, h)
    [] e.op = "combo" -> DoCombo(e, h)
    [] e.op = "copy" -> DoCopy(e, h)
    [] e.op = "ghost" -> DoGhost(e, h)
    [] e.op = "exch" -> DoExch(e, h)
    [] e.op = "lfn" -> DoLfn(e, h)
    [] e.op = "elem" -> DoElem(e, h)
    [] e.op = "pdata" -> DoPdata(e, h)
    [] e.op = "repl" -> DoRepl(e, h)
    [] e.op = "search" -> DoSearch(e, h)
    [] e.op = "query" -> DoQuery(e, h)
    [] e.op = "qcall" -> DoQcall(e, h)
    [] e.op = "iterf" -> DoIterF(e, h)
    [] e.op = "hview" -> DoHview(e, h)
    [] e.op = "hface" -> DoHface(e, h)
    [] e.op = "mem" -> UNCHANGED <<mesh, parts>> /\ e.m = [r \in 1..P |-> 0]      \* all memory has been returned

Init == /\ w \in 1..Len(Trace) /\ i = 1 /\ prev = <<>>
        /\ mesh = [cls |-> <<>>, join |-> <<>>] /\ parts = <<>>
Next == \/ /\ i <= Len(Trace[w].ev)
           /\ Step(Trace[w].ev[i], Trace[w])
           /\ i' = i + 1 /\ w' = w
           /\ prev' = IF Trace[w].ev[i].op \in {"adapt", "part", "bal", "combo", "copy"} THEN parts ELSE prev
        \/ /\ i > Len(Trace[w].ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
