------------------------------- MODULE T8Cmesh -------------------------------
(* The coarse mesh: one global mesh (classes, face connections, attributes of
   trees) that is either replicated or spread over the processes, and what a
   process may see of it. *)
EXTENDS T8Mesh, T8Offset

Trees(m) == 0..(NumTrees(m) - 1)
NeighborTrees(m, g) == {a[1] : a \in {Across(m, g, f) : f \in 0..(NumFaces(RootType[ClassOf(m, g)]) - 1)} \ {<<>>}}
(* the trees of process p (0-based): all of them if table is <<>> *)
LocalTrees(m, table, p) == IF table = <<>> THEN Trees(m) ELSE TreesAt(table, p)
GhostTrees(m, table, p) == LET L == LocalTrees(m, table, p) IN (UNION {NeighborTrees(m, g) : g \in L}) \ L
(* what a process that knows the trees K says about face f of tree g: <<boundary, neighbour, its face, orientation, its class>> *)
FaceView(m, K, g, f) ==
  LET a == Across(m, g, f) IN
  IF a = <<>> THEN <<1, -1, -1, -1, -1>>
  ELSE IF a[1] \notin K THEN <<0, -1, -1, -1, -1>>
  ELSE <<0, a[1], a[2], a[3], ClassOf(m, a[1])>>
(* the attributes of tree g: the last value that was set for each package and key *)
AttrView(attr, g) ==
  {<<attr[k][2], attr[k][3], attr[k][4]>> :
     k \in {k \in 1..Len(attr) : /\ attr[k][1] = g
                                 /\ \A j \in (k + 1)..Len(attr) :
                                      ~ (attr[j][1] = g /\ attr[j][2] = attr[k][2] /\ attr[j][3] = attr[k][3])}}

(* elements of a uniform refinement of level l in front of each tree, and in total *)
ElemOffsets(m, l) ==
  FoldLeft(LAMBDA s, g : Append(s, s[Len(s)] + Count(RootType[ClassOf(m, g - 1)], l)[1]), <<0>>, [g \in 1..NumTrees(m) |-> g])
(* first element of process p of P for n elements *)
FirstOf(n, p, P) == (n * p) \div P
(* the table that a uniform refinement of level l asks for *)
UniformTable(m, l, P) ==
  LET eo == ElemOffsets(m, l)
      n == eo[Len(eo)]
      treeOf(e) == CHOOSE g \in Trees(m) : eo[g + 1] <= e /\ e < eo[g + 2]
      entry(p) == LET b == FirstOf(n, p, P)  e == FirstOf(n, p + 1, P) IN
                  IF b = n THEN NumTrees(m)
                  ELSE LET g == treeOf(b) IN
                       IF eo[g + 1] = b THEN g
                       ELSE IF b = e THEN g + 1 ELSE -g - 1
  IN  [p \in 1..(P + 1) |-> IF p = P + 1 THEN NumTrees(m) ELSE entry(p - 1)]
=============================================================================
