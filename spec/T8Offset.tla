------------------------------ MODULE T8Offset ------------------------------
(* How the trees 0..n-1 of a coarse mesh are spread over processes 0..P-1, and
   which process hands which tree to which process when the spread changes.

   A SPREAD is a sequence R of P pairs <<first, last>> (an empty process has
   last = first - 1).  Its TABLE is the array of P+1 numbers that the library
   works with: entry p is the first tree of p, or -first-1 if an earlier
   process has this tree as well; an empty process has the next tree nobody
   in front of it has; the last entry is n. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Procs(t) == 0..(Len(t) - 2)
Total(t) == t[Len(t)]
FirstAt(t, p) == IF t[p + 1] < 0 THEN -t[p + 1] - 1 ELSE t[p + 1]
Shared(t, p) == t[p + 1] < 0
LastAt(t, p) == (IF t[p + 2] < 0 THEN -t[p + 2] ELSE t[p + 2]) - 1
TreesAt(t, p) == FirstAt(t, p)..LastAt(t, p)
EmptyAt(t, p) == TreesAt(t, p) = {}
Owners(t, g) == {p \in Procs(t) : g \in TreesAt(t, p)}
(* the tables that describe a spread *)
Valid(t) ==
  /\ t[1] = 0
  /\ \A p \in Procs(t) : FirstAt(t, p) >= 0 /\ LastAt(t, p) >= FirstAt(t, p) - 1
  /\ \A p \in Procs(t) : EmptyAt(t, p) => ~ Shared(t, p)
  /\ \A p \in Procs(t) : Shared(t, p) =>
       \E q \in 0..(p - 1) : /\ ~ EmptyAt(t, q) /\ LastAt(t, q) = FirstAt(t, p)
                             /\ \A k \in (q + 1)..(p - 1) : EmptyAt(t, k)
  /\ \A p \in Procs(t) : ~ Shared(t, p) => \A q \in 0..(p - 1) : LastAt(t, q) < FirstAt(t, p)
  /\ t[Len(t)] >= 0
Tables(P, n) == {t \in [1..(P + 1) -> (-n)..n] : t[P + 1] = n /\ Valid(t)}

NextNonempty(t, p) == LET S == {q \in Procs(t) : q > p /\ ~ EmptyAt(t, q)} IN IF S = {} THEN Len(t) - 1 ELSE Min(S)
NextOwner(t, g, p) == LET S == {q \in Owners(t, g) : q > p} IN IF S = {} THEN -1 ELSE Min(S)
PrevOwner(t, g, p) == LET S == {q \in Owners(t, g) : q < p} IN IF S = {} THEN -1 ELSE Max(S)

(* ---------------- changing from table s to table t ------------------------
   process b gets tree g of its new part from itself if it has it already and
   otherwise from the smallest process that has it *)
Sender(s, b, g) == IF g \in TreesAt(s, b) THEN b ELSE Min(Owners(s, g))
Sends(s, t, a, b) == {g \in TreesAt(t, b) : Sender(s, b, g) = a}
SendsTo(s, t, a, b) == Sends(s, t, a, b) # {}
NoSend(s, t, a) == \A b \in Procs(t) : ~ SendsTo(s, t, a, b)
=============================================================================
