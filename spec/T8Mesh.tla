------------------------------- MODULE T8Mesh -------------------------------
(* Coarse meshes (trees glued at faces) and face neighbours across trees.

   A mesh is a record
     cls   sequence of tree classes; tree g (0-based) is entry g+1
     join  sequence of face connections <<g1, f1, g2, f2, o>> (all 0-based),
           o the orientation as documented for t8_cmesh_set_join
   A LEAF is <<g, path>>. *)
EXTENDS T8Scheme

Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
ClassOf(m, g) == m.cls[g + 1]
NumTrees(m) == Len(m.cls)
LeafType(m, x) == TypeOf(ClassOf(m, x[1]), x[2])
LeafFaces(m, x) == 1..NumFaces(LeafType(m, x))
LeafLevel(x) == Len(x[2])

(* what lies across face f (0-based) of tree g: <<g2, f2, o>> or <<>> at the boundary *)
Across(m, g, f) ==
  LET J == {k \in 1..Len(m.join) : \/ m.join[k][1] = g /\ m.join[k][2] = f
                                   \/ m.join[k][3] = g /\ m.join[k][4] = f}
  IN  IF J = {} THEN <<>>
      ELSE LET j == m.join[CHOOSE k \in J : TRUE]
           IN  IF j[1] = g /\ j[2] = f THEN <<j[3], j[4], j[5]>> ELSE <<j[1], j[2], j[5]>>

(* the face neighbour of the same level: <<leaf, face>> (face 1-based) or <<>> *)
NB(m, x, f) ==
  LET c == ClassOf(m, x[1])
      inside == NeighborsInside(c, x[2], f)
  IN  IF inside # {} THEN LET y == TheOnly(inside) IN << <<x[1], y[1]>>, y[2]>>
      ELSE LET cell == Cell(c, x[2])
               g == TheOnly(FacesWith(RootCell(c), FacePts(cell, f)))
               a == Across(m, x[1], g - 1)
           IN  IF a = <<>> THEN <<>>
               ELSE LET c2 == ClassOf(m, a[1])
                        fc == RootFaceClass(c, g)
                        s == JoinSym(c, g, c2, a[2] + 1, a[3])
                        pts == {FaceToTree(c2, a[2] + 1, ApplySym(fc, s, TreeToFace(c, g, p))) : p \in FacePts(cell, f)}
                        y == TheOnly(Locate(c2, Len(x[2]), pts))
                    IN  << <<a[1], y[1]>>, TheOnly(FacesWith(y[2], pts))>>

(* the order of the space-filling curve on leaves *)
LeafCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1) ELSE PathCmp(x[2], y[2])
Overlap(x, y) == x[1] = y[1] /\ (IsAncestor(x[2], y[2]) \/ IsAncestor(y[2], x[2]))

ChildLeaves(m, x) == [i \in 1..NumChildren(LeafType(m, x)) |-> <<x[1], Append(x[2], i - 1)>>]
ParentLeaf(x) == <<x[1], Parent(x[2])>>

(* the descendants of level l of all trees, in curve order *)
RECURSIVE UniformOf(_, _, _)
UniformOf(m, s, l) == IF l = 0 THEN s
                      ELSE UniformOf(m, TLCEval(Flat([i \in 1..Len(s) |-> ChildLeaves(m, s[i])])), l - 1)
Uniform(m, l) == UniformOf(m, [k \in 1..NumTrees(m) |-> <<k - 1, <<>> >>], l)
=============================================================================
