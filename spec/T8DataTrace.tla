----------------------------- MODULE T8DataTrace ----------------------------
(* Containers: element arrays, arrays in shared memory, packed messages.

   The state hm maps every live array to its content: a sequence of elements
   (child numbers from the root) or of numbers.  Every operation changes the
   content of the array it is applied to, and of no other one. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i, hm
vars == <<w, i, hm>>

With(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
Cat(S) == FoldLeft(LAMBDA a, x : a \o x, <<>>, S)
Count(n) == [k \in 1..n |-> k]
Set(v, at, x) == FoldLeft(LAMBDA a, k : [a EXCEPT ![at[k] + 1] = x[k]], v, Count(Len(at)))
(* sums of the contributions of all processes before process p *)
Prefix(in) == LET n == Len(in[1]) IN
  FoldLeft(LAMBDA a, p : Append(a, [k \in 1..n |-> a[p][k] + in[p][k]]), <<[k \in 1..n |-> 0]>>, Count(Len(in)))

Reads(e) ==
  LET v == hm[e.h] IN
  CASE e.k = "read" ->
         /\ e.ok = 1 /\ e.n = Len(v) /\ e.len = Len(v) /\ e.p = v /\ e.f = v /\ e.b = Reverse(v)
         /\ \A k \in 1..Len(e.jp) : LET x == e.jp[k] IN x[2] = 1 /\ x[3] = x[1] /\ x[4] = v[x[1] + 1] /\ x[5] = x[4] /\ x[6] = 1 /\ x[8] = x[1] - x[7] /\ x[9] = Len(v) - x[1]
    [] e.k = "view" -> e.n = e.m /\ e.p = SubSeq(v, e.o + 1, e.o + e.m)
    [] e.k = "find" -> IF e.r = -1 THEN \A k \in 1..Len(v) : v[k] # e.p ELSE e.r \in 0..(Len(v) - 1) /\ v[e.r + 1] = e.p
    [] e.k = "sread" -> e.v = v /\ e.u = v /\ ("g" \in DOMAIN e => e.g = v)
    [] e.k = "seq" -> e.r = IF e.s = 1 /\ v = hm[e.f] THEN 1 ELSE 0
    \* in an ordered array a number is found if and only if it is there
    [] e.k = "sbin" -> \/ \E k \in 1..(Len(v) - 1) : v[k] > v[k + 1]
                       \/ IF e.r = -1 THEN \A k \in 1..Len(v) : v[k] # e.x ELSE e.r \in 0..(Len(v) - 1) /\ v[e.r + 1] = e.x
    [] OTHER -> FALSE

(* ---- small helpers: vectors, matrices, sorting ---- *)
V3(f(_)) == [k \in 1..3 |-> f(k)]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sub(a, b) == V3(LAMBDA k : a[k] - b[k])
Abs(n) == IF n < 0 THEN -n ELSE n
Zero3 == <<0, 0, 0>>
(* two unit vectors r, s (in units of 1/10000) that make a right-handed orthogonal system with v *)
TripodOK(v, r, s) ==
  LET m == Abs(v[1]) + Abs(v[2]) + Abs(v[3]) IN
  /\ Abs(Dot(r, r) - 100000000) <= 40000 /\ Abs(Dot(s, s) - 100000000) <= 40000 /\ Abs(Dot(r, s)) <= 40000
  /\ Abs(Dot(v, r)) <= m /\ Abs(Dot(v, s)) <= m
  /\ LET a == V3(LAMBDA k : r[k] \div 100)  b == V3(LAMBDA k : s[k] \div 100) IN Dot(v, Cross(a, b)) > 0
VecOK(e) ==
  LET x == e.x  y == e.y  z == e.z  al == e.al
      same(X, Y, Z) == e.x9 = X /\ e.y9 = Y /\ e.z9 = Z
      keep == same(x, y, z)
  IN CASE e.op = 0 -> e.r = Dot(x, x) /\ keep
       [] e.op = 1 -> e.r = Dot(Sub(x, y), Sub(x, y)) /\ keep
       [] e.op = 2 -> e.r = Dot(x, y) /\ keep
       [] e.op = 3 -> same(x, y, x)
       [] e.op = 4 -> same(V3(LAMBDA k : al * x[k]), y, z)
       [] e.op = 5 -> same(x, V3(LAMBDA k : al * x[k]), z)
       [] e.op = 6 -> same(x, V3(LAMBDA k : al * x[k] + e.be), z)
       [] e.op = 7 -> same(x, V3(LAMBDA k : y[k] + al * x[k]), z)
       [] e.op = 8 -> same(x, y, V3(LAMBDA k : y[k] + al * x[k]))
       [] e.op = 9 -> same(x, y, Cross(x, y))
       [] e.op = 10 -> same(x, y, Sub(x, y))
       [] e.op = 11 -> e.r = Cross(Sub(y, x), Sub(z, x)) /\ keep
       [] e.op = 12 -> e.r = IF \A k \in 1..3 : Abs(x[k] - e.y2[k]) <= e.tol THEN 1 ELSE 0
       \* the length of v is a multiple of n: n * direction is integral
       [] e.op \in {13, 14} -> LET l == IF e.op = 13 THEN 1 ELSE e.l IN
                               /\ Dot(e.r, e.r) = l * l * e.n * e.n /\ Cross(e.v, e.r) = Zero3 /\ Dot(e.v, e.r) > 0
       [] e.op = 15 -> TripodOK(e.v, e.r, e.s) /\ e.x9 = e.v
       [] e.op = 16 -> e.r = x[1] * y[2] - x[2] * y[1] /\ keep
       [] OTHER -> FALSE
PlaneOK(e) == LET d(k) == Sub(e.p[k], e.p[1]) IN e.r = IF Dot(d(2), Cross(d(3), d(4))) = 0 THEN 1 ELSE 0
Mul(A, B) == V3(LAMBDA r : V3(LAMBDA c : A[r][1] * B[1][c] + A[r][2] * B[2][c] + A[r][3] * B[3][c]))
App(A, v) == V3(LAMBDA r : Dot(A[r], v))
(* n times the rotation about an axis that turns the next axis towards the one after it *)
Rot(ax, c, d, n) == LET p == ((ax + 1) % 3) + 1  q == ((ax + 2) % 3) + 1 IN
  V3(LAMBDA r : V3(LAMBDA k : CASE r = ax + 1 /\ k = r -> n [] r = p /\ k = p -> c [] r = q /\ k = q -> c
                                [] r = p /\ k = q -> -d [] r = q /\ k = p -> d [] OTHER -> 0))
MatOK(e) == e.C = Mul(e.A, e.B) /\ e.b = App(e.A, e.a) /\ e.R = Rot(e.ax, e.c, e.d, e.n) /\ e.Ra = App(Rot(e.ax, e.c, e.d, e.n), e.a)
(* r[c+1] is the number of entries of a smaller category *)
SplitOK(e) == e.r = [c \in 1..(e.nc + 1) |-> Cardinality({k \in 1..Len(e.v) : e.v[k] \div 10 < c - 1})]
HelperOK(e) == CASE e.k = "vec" -> VecOK(e) [] e.k = "plane" -> PlaneOK(e) [] e.k = "mat" -> MatOK(e) [] e.k = "split" -> SplitOK(e)

After(e) ==
  CASE e.k = "new" -> e.p
    [] e.k = "push" -> hm[e.h] \o e.p
    [] e.k = "size" -> IF e.n <= Len(hm[e.h]) THEN SubSeq(hm[e.h], 1, e.n) ELSE hm[e.h] \o e.p
    [] e.k = "set" -> [hm[e.h] EXCEPT ![e.i + 1] = e.p]
    [] e.k \in {"copy", "scopy"} -> hm[e.f]
    [] e.k = "snew" -> [k \in 1..e.n |-> "undefined"]
    [] e.k = "swrite" -> Set(hm[e.h], e.i, e.v)
    [] e.k = "sgather" -> Cat(e.in)
    [] e.k = "sprefix" -> Cat(Prefix(e.in))

Init == w \in 1..Len(Trace) /\ i = 1 /\ hm = <<>>
Step == /\ i <= Len(Trace[w].ev)
        /\ LET e == Trace[w].ev[i] IN
           CASE e.k = "msg" -> e.ok = 1 /\ e.n = Len(e.sent) /\ (TRUE = (e.got = e.sent)) /\ UNCHANGED hm
             [] e.k \in {"vec", "plane", "mat", "split"} -> (TRUE = HelperOK(e)) /\ UNCHANGED hm
             [] e.k \in {"new", "snew"} -> e.h \notin DOMAIN hm /\ (e.k = "snew" => e.ok = 1 /\ e.n = e.w) /\ hm' = With(hm, e.h, After(e))
             [] e.k = "free" -> e.h \in DOMAIN hm /\ ("z" \in DOMAIN e => e.z = 1) /\ hm' = Without(hm, e.h)
             [] e.k \in {"push", "size", "set", "copy", "swrite", "scopy", "sgather", "sprefix"} ->
                  /\ e.h \in DOMAIN hm /\ (e.k = "swrite" => e.w = 1)
                  /\ (e.k \in {"sgather", "sprefix"} => Len(After(e)) = Len(hm[e.h]))
                  /\ hm' = [hm EXCEPT ![e.h] = After(e)]
             [] OTHER -> e.h \in DOMAIN hm /\ (TRUE = Reads(e)) /\ UNCHANGED hm
        /\ i' = i + 1 /\ UNCHANGED w
Done == i > Len(Trace[w].ev) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
