------------------------------ MODULE MCOffset ------------------------------
(* The repartition of a coarse mesh as a protocol: every process looks at the
   old and the new table, sends what it has to send to each process and waits
   for exactly the processes that send to it. For all tables of up to MaxP
   processes and MaxN trees, and all interleavings of sends and receives. *)
EXTENDS T8Offset
CONSTANTS MaxP, MaxN
VARIABLES old, new, net, todo, got, wait
vars == <<old, new, net, todo, got, wait>>
Init == \E P \in 1..MaxP, n \in 1..MaxN :
          /\ old \in Tables(P, n) /\ new \in Tables(P, n)
          /\ net = {}
          /\ todo = {<<a, b>> \in (0..(P - 1)) \X (0..(P - 1)) : SendsTo(old, new, a, b)}
          /\ got = [b \in 0..(P - 1) |-> <<>>]
          /\ wait = [b \in 0..(P - 1) |-> {a \in 0..(P - 1) : SendsTo(old, new, a, b)}]
Send == \E m \in todo : /\ todo' = todo \ {m}
                        /\ net' = net \cup {<<m[1], m[2], Sends(old, new, m[1], m[2])>>}
                        /\ UNCHANGED <<old, new, got, wait>>
Recv == \E m \in net : /\ net' = net \ {m}
                       /\ m[1] \in wait[m[2]]
                       /\ wait' = [wait EXCEPT ![m[2]] = @ \ {m[1]}]
                       /\ got' = [got EXCEPT ![m[2]] = @ \o SetToSortSeq(m[3], <)]
                       /\ UNCHANGED <<old, new, todo>>
Done == todo = {} /\ net = {} /\ (\A b \in DOMAIN wait : wait[b] = {}) /\ UNCHANGED vars
Next == Send \/ Recv \/ Done
Spec == Init /\ [][Next]_vars
(* nobody is sent a tree it does not get, or twice; in the end all have their trees *)
OnlyOwn == \A b \in DOMAIN got : ToSet(got[b]) \subseteq TreesAt(new, b) /\ Len(got[b]) = Cardinality(ToSet(got[b]))
SendOwn == \A m \in net : m[3] \subseteq TreesAt(old, m[1]) /\ m[3] # {}
Complete == (todo = {} /\ net = {}) => \A b \in DOMAIN got : ToSet(got[b]) = TreesAt(new, b)
(* what a process sends to one other process is an interval, and everybody in between sends as well *)
Intervals == \A a \in Procs(old), b \in Procs(old) : LET S == Sends(old, new, a, b) IN S # {} => S = Min(S)..Max(S)
Covered == UNION {TreesAt(old, p) : p \in Procs(old)} = 0..(Total(old) - 1)
=============================================================================
