------------------------------ MODULE MCForest ------------------------------
(* The distributed forest as a state machine, for all histories of adapting, repartitioning and balancing on small
   meshes: every reachable forest, with every distribution over the processes.  What the trace validation assumes about
   the specification is checked here: forests stay complete and sorted, neighbours and ghosts are mutual, balancing
   gives the least balanced refinement (independent of who owns what), partition for coarsening always exists. *)
EXTENDS T8Forest
CONSTANTS NP, MaxL2, MaxL3, Deep2, Deep3

Quad == 2  Tri == 3  Hex == 4  Tet == 5  Prism == 6  Pyra == 7
Meshes2 == {[cls |-> <<Quad, Quad>>, join |-> << <<0, 1, 1, 0, 0>> >>],
            [cls |-> <<Quad, Quad>>, join |-> << <<0, 1, 1, 3, 1>> >>],
            [cls |-> <<Quad, Tri>>, join |-> << <<0, 1, 1, 0, 0>> >>],
            [cls |-> <<Tri, Tri>>, join |-> << <<0, 0, 1, 2, 1>>, <<0, 1, 1, 1, 0>> >>],
            [cls |-> <<1, 1>>, join |-> << <<0, 1, 1, 0, 0>>, <<0, 0, 1, 1, 0>> >>],
            [cls |-> <<Quad>>, join |-> << <<0, 0, 0, 1, 0>>, <<0, 2, 0, 3, 1>> >>]}
Meshes3 == {[cls |-> <<Tet, Tet>>, join |-> << <<0, 1, 1, 2, 1>> >>],
            [cls |-> <<Pyra, Hex>>, join |-> << <<0, 4, 1, 0, 0>> >>],
            [cls |-> <<Prism, Tet>>, join |-> << <<0, 4, 1, 3, 2>> >>],
            [cls |-> <<Hex>>, join |-> << <<0, 0, 0, 3, 1>> >>],
            [cls |-> <<Pyra, Pyra>>, join |-> << <<0, 0, 1, 2, 1>> >>]}
Dim3(m) == m.cls[1] >= 4
MaxL(m) == IF Dim3(m) THEN MaxL3 ELSE MaxL2

MInit == /\ mesh \in Meshes2 \cup Meshes3
         /\ parts = Cut(Uniform(mesh, 0), EvenOffsets(NumTrees(mesh), NP))

(* the calls of one process whose user refines the leaf `ref` and coarsens the family that starts at `coa` (0: nothing) *)
Calls(m, seq, ref, coa) ==
  LET step(a, k) ==
        IF a[1] > Len(seq) THEN a
        ELSE LET i == a[1]  x == seq[i]  fam == IsFamilyAt(m, seq, i)
                 els == IF fam THEN [j \in 1..FamilySize(m, x) |-> seq[i + j - 1][2]] ELSE <<x[2]>>
                 d == IF i = ref THEN 1 ELSE IF i = coa THEN -1 ELSE 0
             IN  <<IF d = -1 THEN i + Len(els) ELSE i + 1,
                   Append(a[2], <<x[1], TreeIndex(seq, i), IF fam THEN 1 ELSE 0, els, d>>)>>
  IN  FoldLeft(step, <<1, <<>> >>, seq)[2]
Total(ps) == Count1(ps)
DoAdapt ==
  \E r \in 1..NP : \E i \in 1..Len(parts[r]) : \E what \in {"ref", "coa"} :
    /\ IF what = "ref" THEN Len(parts[r][i][2]) < MaxL(mesh) ELSE IsFamilyAt(mesh, parts[r], i)
    /\ what = "ref" => TRUE = (Total(parts) <= (IF Dim3(mesh) THEN Deep3 ELSE Deep2))
    /\ Adapt(FALSE, MaxL(mesh), FALSE,
             [q \in 1..NP |-> Calls(mesh, parts[q], IF q = r /\ what = "ref" THEN i ELSE 0, IF q = r /\ what = "coa" THEN i ELSE 0)])
DoPartition ==
  LET seq == Cat(parts) IN
  \E o \in [1..(NP + 1) -> 0..Len(seq)] :
    /\ o[1] = 0 /\ o[NP + 1] = Len(seq) /\ \A k \in 1..NP : o[k] <= o[k + 1]
    /\ Partition(Cut(seq, o))
Refined(m, seq, B) ==         \* the leaves of B under each leaf of seq, in curve order
  SetToSortSeq({y \in B : Covering(SetOf(seq), y) # {}}, LAMBDA a, b : LeafCmp(a, b) = -1)
DoBalance ==
  LET B == TLCEval(BalanceClosure(mesh, SetOf(Cat(parts))))
  IN  Balance([r \in 1..NP |-> Refined(mesh, parts[r], B)], FALSE)
MNext == DoAdapt \/ DoPartition \/ DoBalance
MSpec == MInit /\ [][MNext]_fvars

(* ------------------------------- invariants ------------------------------- *)
All == Cat(parts)
Complete == Tiles(mesh, All) /\ Sorted(All) /\ \A i \in 1..Len(All) : ValidPath(mesh, All[i])
Mutual == LET L == SetOf(All)  n == Deepest(All) IN
  \A x \in L : \A f \in LeafFaces(mesh, x) : \A y \in LeafNeighbors(mesh, L, n, x, f) :
     <<x, f>> \in LeafNeighbors(mesh, L, n, y[1], y[2])
GhostsMutual ==
  LET gh == TLCEval([r \in 1..NP |-> Ghosts(mesh, parts, r)]) IN
  \A r, q \in 1..NP : r # q => ((\E y \in gh[r] : y \in SetOf(parts[q])) <=> (\E x \in gh[q] : x \in SetOf(parts[r])))
GhostsForeign == \A r \in 1..NP : Ghosts(mesh, parts, r) \cap SetOf(parts[r]) = {}
LeastBalance ==
  LET L == SetOf(All)  B == TLCEval(BalanceClosure(mesh, L))
      added == {ParentLeaf(y) : y \in B \ L}
      tops == {p \in added : SetOf(ChildLeaves(mesh, p)) \subseteq B}
  IN  /\ IsBalanced(mesh, B)
      /\ \A y \in B : Covering(L, y) # {}
      /\ BalanceClosure(mesh, B) = B
      /\ IsBalanced(mesh, L) <=> B = L
      /\ Tiles(mesh, SetToSortSeq(B, LAMBDA a, b : LeafCmp(a, b) = -1))
      (* no refinement was superfluous *)
      /\ \A p \in tops : ~ IsBalanced(mesh, (B \ SetOf(ChildLeaves(mesh, p))) \cup {p})
CoarsenableExists ==
  LET seq == All  o == Offsets(parts)
      cand(r) == IF r = 1 \/ r = NP + 1 \/ SplitFamilyAt(mesh, seq, o[r]) = {} THEN {o[r]}
                 ELSE UNION {{s - 1, s - 1 + FamilySize(mesh, seq[s])} : s \in SplitFamilyAt(mesh, seq, o[r])}
  IN  \E p \in {p \in [1..(NP + 1) -> UNION {cand(r) : r \in 1..(NP + 1)}] : \A r \in 1..(NP + 1) : p[r] \in cand(r)} :
        Coarsenable(mesh, seq, o, p)
EvenExists == LET o == EvenOffsets(Len(All), NP) IN
  /\ EvenCounts(Cut(All, o), Len(All))
  /\ \A e \in WeightedSet([k \in 1..Len(All) |-> 1], NP) : WeightedOK([k \in 1..Len(All) |-> 1], e)
  /\ o \in WeightedSet([k \in 1..Len(All) |-> 1], NP)
=============================================================================
