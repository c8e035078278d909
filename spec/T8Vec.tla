------------------------------- MODULE T8Vec -------------------------------
(* classes, cell types and integer vectors *)
EXTENDS Integers, Sequences, FiniteSets, BigNat, SequencesExt, TLC
(* cell types: 0 vertex, 1 line, 2 quad, 3/4 triangles, 5 hex, 6..11 the six
   Kuhn tetrahedra, 12/13 prisms over the two triangles, 14/15 pyramids *)
VERTEX == 0  LINE == 1  QUAD == 2  TRI == 3  HEX == 4  TET == 5  PRISM == 6  PYR == 7
Classes == 0..7
Types == 0..15
Bit(n, k) == (n \div (IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE 4)) % 2
CubeCorner(n) == <<Bit(n, 0), Bit(n, 1), Bit(n, 2)>>
E(i) == [k \in 1..3 |-> IF k = i + 1 THEN 1 ELSE 0]
VAdd(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
VSub(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
VScale(s, p) == <<s * p[1], s * p[2], s * p[3]>>
PlaneVal(pl, p, s) == pl[1] * p[1] + pl[2] * p[2] + pl[3] * p[3] + pl[4] * s
Times(n) == [k \in 1..n |-> k]
=============================================================================
