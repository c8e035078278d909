------------------------------- MODULE BigNat -------------------------------
(* Natural numbers below 10^24 as triples of base-10^8 digits, least significant
   first: TLC's integers have 32 bits, linear ids have 64. *)
EXTENDS Integers, Sequences

BigBase == 100000000
BigZero == <<0, 0, 0>>
BigOne == <<1, 0, 0>>
BigNorm(a, b, c) ==
  LET b1 == b + a \div BigBase IN <<a % BigBase, b1 % BigBase, c + b1 \div BigBase>>
BigFrom(n) == BigNorm(n, 0, 0)
BigAdd(x, y) == BigNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
BigMul(x, k) == BigNorm(x[1] * k, x[2] * k, x[3] * k)      \* 0 <= k <= 20
BigLess(x, y) == \/ x[3] < y[3]
                 \/ x[3] = y[3] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1]))
=============================================================================
