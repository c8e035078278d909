--------------------------- MODULE T8TablesCheck ---------------------------
(* the literal tables used for speed are those of the declarative definition *)
EXTENDS T8Tables, Integers
D == INSTANCE T8Def
VARIABLE x
ASSUME /\ D!Dim = Dim /\ D!RootType = RootType /\ D!ClassRank = ClassRank /\ D!Shape = Shape
       /\ D!UnitVerts = UnitVerts /\ D!FaceCorners = FaceCorners /\ D!Planes = Planes
ASSUME D!ChildTable = ChildTable
ASSUME D!FaceChildTable = FaceChildTable
ASSUME \A n \in 1..31 : D!CountTable[n] = CountTable[n]
ASSUME \A n \in 1..31 : D!BeforeTable[n] = BeforeTable[n]
Init == x = 0
Next == UNCHANGED x
=============================================================================
