------------------------------ MODULE MCBalance ------------------------------
(* Balancing as a distributed protocol: in each round every process gets the leaves of the others that touch its own,
   refines its leaves that are more than one level coarser than one of them, optionally the leaves are spread again, and
   all vote; the protocol ends when nobody refined anything.  For all interleavings, all distributions of the leaves and
   several graded and badly graded forests on small meshes: it ends, and with the forest that T8Forest!Balance specifies. *)
EXTENDS T8Forest
CONSTANTS NP, Depth, Big      \* Big: also three dimensional trees and every distribution
VARIABLES phase,    \* what each process does next
          seen,     \* the foreign leaves each process knows
          vote,     \* TRUE: the process did not refine in this round
          goal      \* the specified result
bvars == <<mesh, parts, phase, seen, vote, goal>>
R == 1..NP

Meshes == {[cls |-> <<2, 2>>, join |-> << <<0, 1, 1, 3, 1>> >>],
           [cls |-> <<3, 2>>, join |-> << <<0, 0, 1, 2, 1>> >>],
           [cls |-> <<3>>, join |-> << <<0, 0, 0, 1, 1>> >>],
           [cls |-> <<1, 1, 1>>, join |-> << <<0, 1, 1, 0, 0>>, <<1, 1, 2, 0, 0>> >>],
           [cls |-> <<7, 5>>, join |-> << <<0, 1, 1, 3, 1>> >>]}
Order(S) == SetToSortSeq(S, LAMBDA a, b : LeafCmp(a, b) = -1)
(* refine the leaf that contains `way`, `n` times; way picks child number k, or the last one if there are fewer *)
RefineAt(m, L, x) == (L \ {x}) \cup SetOf(ChildLeaves(m, x))
RefChain(m, g, way, n) ==
  FoldLeft(LAMBDA a, k : LET c == ChildLeaves(m, a[2])
                         IN  <<RefineAt(m, a[1], a[2]), c[IF way[k] + 1 <= Len(c) THEN way[k] + 1 ELSE Len(c)]>>,
           <<SetOf(Uniform(m, 0)), <<g, <<>> >> >>, [k \in 1..n |-> k])[1]
Ways == {<<0, 3, 0>>, <<1, 1, 1>>, <<3, 0, 3>>, <<9, 9, 9>>}
BInit == /\ mesh \in {m \in Meshes : Big \/ m.cls[1] <= 3}
         /\ \E g \in 0..(NumTrees(mesh) - 1), wy \in (IF Big THEN Ways ELSE {<<0, 3, 0>>, <<9, 9, 9>>}) :
              LET seq == TLCEval(Order(RefChain(mesh, g, wy, IF mesh.cls[1] > 3 THEN 2 ELSE Depth))) IN
              /\ \E o \in [1..(NP + 1) -> 0..Len(seq)] :
                   /\ o[1] = 0 /\ o[NP + 1] = Len(seq) /\ \A k \in 1..NP : o[k] <= o[k + 1] /\ (Big \/ (o[k] % 4) = 2 \/ o[k] = 0)
                   /\ parts = Cut(seq, o)
              /\ goal = BalanceClosure(mesh, SetOf(seq))
         /\ phase = [r \in R |-> "look"] /\ seen = [r \in R |-> {}] /\ vote = [r \in R |-> TRUE]

(* the exchange is collective: all look at the same forest *)
Look == /\ \A r \in R : phase[r] = "look"
        /\ seen' = [r \in R |-> Ghosts(mesh, parts, r)]
        /\ phase' = [r \in R |-> "refine"]
        /\ UNCHANGED <<mesh, parts, vote, goal>>
(* a process sees only its own leaves and those it was sent *)
Refine(r) ==
  /\ phase[r] = "refine"
  /\ LET mine == SetOf(parts[r])  T == TLCEval(TooCoarse(mesh, mine \cup seen[r]) \cap mine)
     IN  /\ parts' = [parts EXCEPT ![r] = Flat([k \in 1..Len(@) |-> IF @[k] \in T THEN ChildLeaves(mesh, @[k]) ELSE <<@[k]>>])]
         /\ vote' = [vote EXCEPT ![r] = T = {}]
  /\ phase' = [phase EXCEPT ![r] = "vote"]
  /\ UNCHANGED <<mesh, seen, goal>>
Spread == {parts, Cut(Cat(parts), EvenOffsets(Count1(parts), NP))}
Decide == /\ \A r \in R : phase[r] = "vote"
          /\ phase' = [r \in R |-> IF \A q \in R : vote[q] THEN "done" ELSE "look"]
          /\ parts' \in Spread
          /\ UNCHANGED <<mesh, seen, vote, goal>>
Done == /\ \A r \in R : phase[r] = "done"
        /\ UNCHANGED bvars
BNext == Look \/ Decide \/ Done \/ \E r \in R : Refine(r)
BSpec == BInit /\ [][BNext]_bvars /\ WF_bvars(Look \/ Decide \/ \E r \in R : Refine(r))

(* never finer than the result; complete at any time; what the process sees is enough *)
NeverTooFine == \A x \in SetOf(Cat(parts)) : (x \in goal) \/ (\E y \in goal : y[1] = x[1] /\ IsAncestor(x[2], y[2]))
Complete == Tiles(mesh, Cat(parts)) /\ Sorted(Cat(parts))
Result == (\A r \in R : phase[r] = "done") => SetOf(Cat(parts)) = goal
Ends == <>(\A r \in R : phase[r] = "done")
=============================================================================
