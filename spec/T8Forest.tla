------------------------------ MODULE T8Forest ------------------------------
(* The distributed forest: which leaves exist and which process owns them.

   State
     mesh    the coarse mesh
     parts   parts[r] is the sequence of leaves of process r-1, in curve order
   The forest of all processes is the concatenation of the parts.  The actions
   are the collective operations that derive a forest from a forest. *)
EXTENDS T8Mesh

VARIABLES mesh, parts
fvars == <<mesh, parts>>

P == Len(parts)
Cat(ps) == Flat(ps)
Count1(ps) == FoldLeft(LAMBDA a, s : a + Len(s), 0, ps)
(* index of the first element of each process in the whole sequence (0-based), and the total *)
Offsets(ps) == FoldLeft(LAMBDA a, s : Append(a, a[Len(a)] + Len(s)), <<0>>, ps)
Cut(seq, off) == [r \in 1..(Len(off) - 1) |-> SubSeq(seq, off[r] + 1, off[r + 1])]

(* --------------------------- sanity of a forest -------------------------- *)
ValidPath(m, x) ==
  /\ x[1] \in 0..(NumTrees(m) - 1)
  /\ FoldLeft(LAMBDA t, k : IF t >= 0 /\ k >= 0 /\ k < NumChildren(t) THEN ChildTable[t][k + 1][2] ELSE -1,
              RootType[ClassOf(m, x[1])], x[2]) >= 0
Sorted(seq) == \A i \in 1..(Len(seq) - 1) : LeafCmp(seq[i], seq[i + 1]) = -1 /\ ~ Overlap(seq[i], seq[i + 1])
(* the leaves cover every tree: each leaf is followed by the leaf whose first corner of the curve is next *)
FirstAt(x, n) == <<x[1], FirstDesc(x[2], n)>>
Deepest(seq) == FoldLeft(LAMBDA a, x : IF Len(x[2]) > a THEN Len(x[2]) ELSE a, 0, seq)
Tiles(m, seq) ==
  LET n == Deepest(seq)
      last(x) == LastDesc(ClassOf(m, x[1]), x[2], n)
      first(x) == FirstDesc(x[2], n)
  IN  /\ Len(seq) > 0
      /\ seq[1][1] = 0 /\ first(seq[1]) = FirstDesc(<<>>, n)
      /\ \A i \in 1..(Len(seq) - 1) :
           LET x == seq[i]  y == seq[i + 1]  c == ClassOf(m, x[1]) IN
           IF HasSucc(c, last(x)) THEN y[1] = x[1] /\ first(y) = Succ(c, last(x))
           ELSE y[1] = x[1] + 1 /\ first(y) = FirstDesc(<<>>, n)
      /\ LET z == seq[Len(seq)] IN z[1] = NumTrees(m) - 1 /\ ~ HasSucc(ClassOf(m, z[1]), last(z))

(* -------------------------------- new ------------------------------------ *)
(* The partition of a new forest and the default partition: counts differ by at most one. *)
EvenCounts(ps, n) == \A r \in 1..Len(ps) : Len(ps[r]) \in {n \div Len(ps), (n + Len(ps) - 1) \div Len(ps)}

New(m, n, l, ps) ==
  /\ mesh' = m /\ parts' = ps
  /\ Len(ps) = n
  /\ Cat(ps) = Uniform(m, l)
  /\ EvenCounts(ps, Count1(ps))

(* ------------------------------- adapt ----------------------------------- *)
(* is a complete family starting at position i of seq *)
FamilySize(m, x) == IF x[2] = <<>> THEN 0 ELSE NumChildren(LeafType(m, ParentLeaf(x)))
IsFamilyAt(m, seq, i) ==
  LET x == seq[i]  n == FamilySize(m, x) IN
  /\ n > 0
  /\ i + n - 1 <= Len(seq)
  /\ \A k \in 0..(n - 1) : seq[i + k] = <<x[1], Append(Parent(x[2]), k)>>
(* are the n leaves at position i all the leaves of the parent that exist in seq *)
IsPartFamilyAt(m, seq, i, n) ==
  LET x == seq[i] IN
  /\ x[2] # <<>> /\ n > 0 /\ i + n - 1 <= Len(seq)
  /\ \A k \in 0..(n - 1) : seq[i + k][1] = x[1] /\ Len(seq[i + k][2]) = Len(x[2]) /\ Parent(seq[i + k][2]) = Parent(x[2])
  /\ i > 1 => ~ (seq[i - 1][1] = x[1] /\ IsAncestor(Parent(x[2]), seq[i - 1][2]))
  /\ i + n <= Len(seq) => ~ (seq[i + n][1] = x[1] /\ IsAncestor(Parent(x[2]), seq[i + n][2]))

(* One process adapts its leaves `seq`.  A call is <<tree, index in tree, is_family, elements, decision>>; the
   decisions are the user's, everything else follows.  The fold state is
     pos    next leaf of seq to consider
     out    leaves produced so far
     stack  refined elements still to be asked about (recursive only)
     ask    TRUE: the tail of out is a family of elements that must be offered again (recursive only)
     low    elements of out up to here may not be offered again (recursive only)
     ok     all calls so far were the ones required                                                    *)
TreeIndex(seq, i) == Cardinality({j \in 1..(i - 1) : seq[j][1] = seq[i][1]})
TailFamily(m, out, low) ==      \* start of the family that ends with the last element of out, or 0
  IF out = <<>> THEN 0
  ELSE LET z == out[Len(out)]  n == FamilySize(m, z)  s == Len(out) - n + 1 IN
       IF n > 1 /\ s > low /\ out[s][1] = z[1] /\ Parent(out[s][2]) = Parent(z[2]) /\ IsFamilyAt(m, out, s) THEN s ELSE 0

AdaptStep(m, seq, maxl, rec, holes, st, call) ==
  IF ~ st.ok THEN st ELSE
  LET g == call[1]  idx == call[2]  fam == call[3]  els == call[4]  d == call[5]
      bad == [st EXCEPT !.ok = FALSE]
      canref(x) == Len(x[2]) < maxl
      askAfter(out) == rec /\ TailFamily(m, out, st.low) # 0
  IN
  IF st.stack # <<>> THEN       \* a refined element is offered on its own
    LET x == st.stack[1]  rest == Tail(st.stack) IN
    IF ~ (fam = 0 /\ Len(els) = 1 /\ <<g, els[1]>> = x /\ d \in {-2, 0, 1}) THEN bad
    ELSE LET ns == IF d = 1 /\ canref(x) THEN ChildLeaves(m, x) \o rest ELSE rest
             no == IF d = -2 \/ (d = 1 /\ canref(x)) THEN st.out ELSE Append(st.out, x)
         IN  [st EXCEPT !.stack = ns, !.out = no, !.low = IF ns = <<>> THEN Len(no) ELSE st.low]
  ELSE IF st.ask THEN           \* a family of produced elements is offered for coarsening
    LET s == TailFamily(m, st.out, st.low)
        n == Len(st.out) - s + 1 IN
    IF ~ (fam = 1 /\ Len(els) = n /\ \A k \in 1..n : <<g, els[k]>> = st.out[s + k - 1]) THEN bad
    ELSE IF d = -1 THEN LET no == Append(SubSeq(st.out, 1, s - 1), ParentLeaf(st.out[s]))
                        IN  [st EXCEPT !.out = no, !.ask = TailFamily(m, no, st.low) # 0]
    ELSE [st EXCEPT !.ask = FALSE]
  ELSE IF st.pos > Len(seq) THEN bad
  ELSE
    LET x == seq[st.pos]
        famOK == IF holes THEN \/ fam = 0 /\ Len(els) = 1
                               \/ fam = 1 /\ IsPartFamilyAt(m, seq, st.pos, Len(els))
                 ELSE IF IsFamilyAt(m, seq, st.pos) THEN fam = 1 /\ Len(els) = FamilySize(m, x)
                      ELSE fam = 0 /\ Len(els) = 1
    IN
    IF ~ (g = x[1] /\ idx = TreeIndex(seq, st.pos) /\ famOK
          /\ \A k \in 1..Len(els) : <<g, els[k]>> = seq[st.pos + k - 1]
          /\ d \in (IF fam = 1 THEN {-2, -1, 0, 1} ELSE {-2, 0, 1})) THEN bad
    ELSE IF d = 1 /\ canref(x) THEN
           IF rec THEN [st EXCEPT !.pos = @ + 1, !.stack = ChildLeaves(m, x)]
           ELSE [st EXCEPT !.pos = @ + 1, !.out = @ \o ChildLeaves(m, x)]
    ELSE IF d = -1 THEN LET no == Append(st.out, ParentLeaf(x))
                        IN  [st EXCEPT !.pos = @ + Len(els), !.out = no, !.ask = askAfter(no)]
    ELSE IF d = -2 THEN [st EXCEPT !.pos = @ + 1]
    ELSE LET no == Append(st.out, x) IN [st EXCEPT !.pos = @ + 1, !.out = no, !.ask = askAfter(no)]

AdaptRun(m, seq, maxl, rec, holes, calls) ==
  FoldLeft(LAMBDA st, c : AdaptStep(m, seq, maxl, rec, holes, st, c),
           [pos |-> 1, out |-> <<>>, stack |-> <<>>, ask |-> FALSE, low |-> 0, ok |-> TRUE], calls)
(* the leaves after adapting with these calls, or <<>> marked not ok *)
AdaptOK(m, seq, st) == st.ok /\ st.pos = Len(seq) + 1 /\ st.stack = <<>> /\ ~ st.ask

Adapt(rec, maxl, holes, calls) ==
  /\ UNCHANGED mesh
  /\ Len(calls) = P
  /\ LET runs == TLCEval([r \in 1..P |-> AdaptRun(mesh, parts[r], maxl, rec, holes, calls[r])])
     IN  /\ TRUE = \A r \in 1..P : AdaptOK(mesh, parts[r], runs[r])
         /\ parts' = [r \in 1..P |-> runs[r].out]

(* ----------------------------- partition --------------------------------- *)
(* the boundary b (0-based index of the first leaf behind it) splits the complete family at s (1-based) *)
SplitFamilyAt(m, seq, b) ==
  {s \in (IF b > 9 THEN b - 9 ELSE 1)..b : IsFamilyAt(m, seq, s) /\ s + FamilySize(m, seq[s]) - 1 > b}
(* weighted boundaries: the weight in front of boundary r does not exceed the share of the processes in front of it,
   and would reach it with one more leaf *)
WeightSums(w) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, w)
WeightedOK(w, o) ==
  LET s == WeightSums(w)  n == Len(o) - 1  tot == s[Len(s)] IN
  \A r \in 2..n : /\ n * s[o[r] + 1] <= tot * (r - 1)
                  /\ o[r] < Len(w) => n * s[o[r] + 2] >= tot * (r - 1)
WeightedSet(w, n) ==
  LET s == TLCEval(WeightSums(w))  tot == s[Len(s)]
      cand(r) == IF r = 1 THEN {0} ELSE IF r = n + 1 THEN {Len(w)}
                 ELSE {i \in 0..Len(w) : n * s[i + 1] <= tot * (r - 1) /\ (i < Len(w) => n * s[i + 2] >= tot * (r - 1))}
  IN  FoldLeft(LAMBDA A, r : {Append(a, i) : a \in A, i \in cand(r)}, {<<>>}, [r \in 1..(n + 1) |-> r])
EvenOffsets(N, n) == [r \in 1..(n + 1) |-> (N * (r - 1)) \div n]
(* a partition for coarsening moves a boundary only if it splits a family, and then to one of the family's ends *)
Coarsenable(m, seq, o0, o1) ==
  /\ Len(o1) = Len(o0)
  /\ \A r \in 1..Len(o0) :
       LET S == IF r = 1 \/ r = Len(o0) THEN {} ELSE SplitFamilyAt(m, seq, o0[r]) IN
       IF S = {} THEN o1[r] = o0[r]
       ELSE \E s \in S : o1[r] \in {s - 1, s - 1 + FamilySize(m, seq[s])}
  /\ \A r \in 2..(Len(o1) - 1) : o1[r] >= o1[r - 1] /\ SplitFamilyAt(m, seq, o1[r]) = {}

Partition(ps) ==                \* the leaves stay, the owners change
  /\ UNCHANGED mesh
  /\ Len(ps) = P
  /\ Cat(ps) = Cat(parts)
  /\ parts' = ps
PartitionEven(ps) == Partition(ps) /\ EvenCounts(ps, Count1(ps))
PartitionCoarsening(ps, base) == Partition(ps) /\ Coarsenable(mesh, Cat(parts), base, Offsets(ps))

(* ------------------------------ adjacency --------------------------------- *)
IndexOf(seq) == TLCEval([x \in {seq[i] : i \in 1..Len(seq)} |-> CHOOSE i \in 1..Len(seq) : seq[i] = x])
(* faster: sets of leaves as the domain of a function built by a fold *)
Idx(seq) == FoldLeft(LAMBDA f, i : f @@ (seq[i] :> i), <<>>, [i \in 1..Len(seq) |-> i])

(* the leaf of L (a set of leaves) that covers x, if any *)
Covering(L, x) == {y \in {<<x[1], Prefix(x[2], k)>> : k \in 0..Len(x[2])} : y \in L}
(* all leaves of L inside element x that touch its face f: set of <<leaf, face>>; n: deepest level of L *)
TouchingIn(m, L, x, f, n, In(_)) ==      \* only elements with In are entered
  LET start == <<{}, {<<x, f>>}>>
      expand(e) == LET fc == FaceChildTable[LeafType(m, e[1])][e[2]]
                   IN  {<< <<e[1][1], Append(e[1][2], fc[i][1])>>, fc[i][2]>> : i \in 1..Len(fc)}
      round(a) == LET done == {e \in a[2] : e[1] \in L}
                  IN  <<a[1] \cup done, UNION {{y \in expand(e) : In(y[1])} : e \in a[2] \ done}>>
      fin == FoldLeft(LAMBDA a, k : IF a[2] = {} THEN a ELSE round(a), start, Times(n - Len(x[2]) + 1))
  IN  fin[1]
TouchingInside(m, L, x, f, n) == TouchingIn(m, L, x, f, n, LAMBDA y : TRUE)
(* the leaves across face f of x: set of <<leaf, face of that leaf>> *)
LeafNeighbors(m, L, n, x, f) ==
  LET nb == NB(m, x, f) IN
  IF nb = <<>> THEN {}
  ELSE LET C == Covering(L, nb[1]) IN
       IF C # {} THEN
         LET y == TheOnly(C)
             c == ClassOf(m, y[1])
         IN  {<<y, AncestorFace(Cell(c, y[2]), Cell(c, nb[1][2]), nb[2]) + 1>>}
       ELSE TouchingInside(m, L, nb[1], nb[2], n)
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}

(* ------------------------------- balance ---------------------------------- *)
(* leaves that are more than one level coarser than a face neighbour *)
TooCoarse(m, L) ==
  UNION {UNION {LET nb == NB(m, x, f) IN
                IF nb = <<>> THEN {} ELSE {y \in Covering(L, nb[1]) : Len(y[2]) + 1 < Len(x[2])} : f \in LeafFaces(m, x)}
         : x \in {x \in L : Len(x[2]) >= 2}}
(* The smallest balanced refinement of L.  F holds the leaves that may still have a neighbour that is too coarse: a leaf
   without one never gets one, because its neighbours only become finer. *)
CoarseNear(m, L, x) ==
  UNION {LET nb == NB(m, x, f) IN
         IF nb = <<>> THEN {} ELSE {y \in Covering(L, nb[1]) : Len(y[2]) + 1 < Len(x[2])} : f \in LeafFaces(m, x)}
RECURSIVE BalanceFrom(_, _, _)
BalanceFrom(m, L, F) ==
  LET near == TLCEval([x \in F |-> CoarseNear(m, L, x)])
      T == TLCEval(UNION {near[x] : x \in F})
      new == TLCEval(UNION {SetOf(ChildLeaves(m, y)) : y \in T})
  IN  IF T = {} THEN L
      ELSE BalanceFrom(m, TLCEval((L \ T) \cup new),
                       TLCEval(({x \in F : near[x] # {}} \ T) \cup {y \in new : Len(y[2]) >= 2}))
BalanceClosure(m, L) == BalanceFrom(m, L, {x \in L : Len(x[2]) >= 2})
IsBalanced(m, L) == TooCoarse(m, L) = {}

(* ps holds exactly the smallest balanced refinement; without repartitioning every process keeps its part *)
Balance(ps, repart) ==
  LET old == Cat(parts)  new == Cat(ps) IN
  /\ UNCHANGED mesh
  /\ Len(ps) = P
  /\ Sorted(new)
  /\ SetOf(new) = BalanceClosure(mesh, SetOf(old))
  /\ IF repart THEN (new = old /\ ps = parts) \/ EvenCounts(ps, Len(new))
     ELSE \A r \in 1..P : \A i \in 1..Len(ps[r]) : Covering(SetOf(parts[r]), ps[r][i]) # {}
  /\ parts' = ps

(* -------------------------------- ghosts ----------------------------------- *)
(* the ghosts of each process: leaves of other processes across a face of an own leaf *)
Owner(ps) == [r \in 1..Len(ps) |-> SetOf(ps[r])]
Ghosts(m, ps, r) ==
  LET all == Cat(ps)  L == SetOf(all)  n == Deepest(all)  mine == SetOf(ps[r]) IN
  UNION {UNION {{y[1] : y \in LeafNeighbors(m, L, n, x, f)} : f \in LeafFaces(m, x)} : x \in mine} \ mine
=============================================================================
