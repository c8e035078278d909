---------------------------- MODULE T8TablesGen ----------------------------
(* prints the tables of T8Def (input of lib/gentables.py) *)
EXTENDS T8Def
P(n, v) == PrintT("TABLE " \o n \o " " \o ToString(v))
T0(f) == [i \in 1..16 |-> f[i - 1]]
C0(f) == [i \in 1..8 |-> f[i - 1]]
ASSUME P("Dim", C0(Dim)) /\ P("RootType", C0(RootType)) /\ P("ClassRank", C0(ClassRank))
ASSUME P("Shape", T0(Shape)) /\ P("NCubes", T0(NCubes)) /\ P("UnitVerts", T0(UnitVerts)) /\ P("FaceCorners", T0(FaceCorners))
ASSUME P("Planes", T0(Planes)) /\ P("ChildTable", T0(ChildTable)) /\ P("FaceChildTable", T0(FaceChildTable))
ASSUME P("CountTable", [n \in 1..31 |-> T0(CountTable[n])])
ASSUME P("BeforeTable", [n \in 1..31 |-> T0(BeforeTable[n])])
=============================================================================
