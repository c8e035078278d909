------------------------------ MODULE T8Tables ------------------------------
(* GENERATED by lib/gentables.py from T8Def; T8TablesCheck proves that they agree. *)
EXTENDS Integers, TLC
Dim == TLCEval([t \in 0..7 |-> <<0, 1, 2, 2, 3, 3, 3, 3>>[t + 1]])
RootType == TLCEval([t \in 0..7 |-> <<0, 1, 2, 3, 5, 6, 12, 14>>[t + 1]])
ClassRank == TLCEval([t \in 0..7 |-> <<0, 0, 2, 1, 2, 1, 3, 4>>[t + 1]])
Shape == TLCEval([t \in 0..15 |-> <<0, 1, 2, 3, 3, 4, 5, 5, 5, 5, 5, 5, 6, 6, 7, 7>>[t + 1]])
NCubes == TLCEval([t \in 0..15 |-> <<1, 2, 4, 4, 4, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8>>[t + 1]])
UnitVerts == TLCEval([t \in 0..15 |-> <<<<<<0, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>>>, <<<<0, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<1, 1, 1>>>>, <<<<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<0, 0, 0>>>>>>[t + 1]])
FaceCorners == TLCEval([t \in 0..15 |-> <<<<>>, <<<<0>>, <<1>>>>, <<<<0, 2>>, <<1, 3>>, <<0, 1>>, <<2, 3>>>>, <<<<1, 2>>, <<0, 2>>, <<0, 1>>>>, <<<<1, 2>>, <<0, 2>>, <<0, 1>>>>, <<<<0, 2, 4, 6>>, <<1, 3, 5, 7>>, <<0, 1, 4, 5>>, <<2, 3, 6, 7>>, <<0, 1, 2, 3>>, <<4, 5, 6, 7>>>>, <<<<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>>>>, <<<<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>>>>, <<<<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>>>>, <<<<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>>>>, <<<<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>>>>, <<<<1, 2, 3>>, <<0, 2, 3>>, <<0, 1, 3>>, <<0, 1, 2>>>>, <<<<1, 2, 4, 5>>, <<0, 2, 3, 5>>, <<0, 1, 3, 4>>, <<0, 1, 2>>, <<3, 4, 5>>>>, <<<<1, 2, 4, 5>>, <<0, 2, 3, 5>>, <<0, 1, 3, 4>>, <<0, 1, 2>>, <<3, 4, 5>>>>, <<<<0, 2, 4>>, <<1, 3, 4>>, <<0, 1, 4>>, <<2, 3, 4>>, <<0, 1, 2, 3>>>>, <<<<2, 3, 4>>, <<0, 1, 4>>, <<1, 3, 4>>, <<0, 2, 4>>, <<0, 1, 2, 3>>>>>>[t + 1]])
Planes == TLCEval([t \in 0..15 |-> <<<<>>, <<<<1, 0, 0, 0>>, <<-1, 0, 0, 1>>>>, <<<<1, 0, 0, 0>>, <<-1, 0, 0, 1>>, <<0, 1, 0, 0>>, <<0, -1, 0, 1>>>>, <<<<-1, 0, 0, 1>>, <<1, -1, 0, 0>>, <<0, 1, 0, 0>>>>, <<<<0, -1, 0, 1>>, <<-1, 1, 0, 0>>, <<1, 0, 0, 0>>>>, <<<<1, 0, 0, 0>>, <<-1, 0, 0, 1>>, <<0, 1, 0, 0>>, <<0, -1, 0, 1>>, <<0, 0, 1, 0>>, <<0, 0, -1, 1>>>>, <<<<-1, 0, 0, 1>>, <<1, 0, -1, 0>>, <<0, -1, 1, 0>>, <<0, 1, 0, 0>>>>, <<<<-1, 0, 0, 1>>, <<1, -1, 0, 0>>, <<0, 1, -1, 0>>, <<0, 0, 1, 0>>>>, <<<<0, -1, 0, 1>>, <<-1, 1, 0, 0>>, <<1, 0, -1, 0>>, <<0, 0, 1, 0>>>>, <<<<0, -1, 0, 1>>, <<0, 1, -1, 0>>, <<-1, 0, 1, 0>>, <<1, 0, 0, 0>>>>, <<<<0, 0, -1, 1>>, <<0, -1, 1, 0>>, <<-1, 1, 0, 0>>, <<1, 0, 0, 0>>>>, <<<<0, 0, -1, 1>>, <<-1, 0, 1, 0>>, <<1, -1, 0, 0>>, <<0, 1, 0, 0>>>>, <<<<-1, 0, 0, 1>>, <<1, -1, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, -1, 1>>>>, <<<<0, -1, 0, 1>>, <<-1, 1, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, -1, 1>>>>, <<<<1, 0, -1, 0>>, <<-1, 0, 0, 1>>, <<0, 1, -1, 0>>, <<0, -1, 0, 1>>, <<0, 0, 1, 0>>>>, <<<<0, -1, 1, 0>>, <<0, 1, 0, 0>>, <<-1, 0, 1, 0>>, <<1, 0, 0, 0>>, <<0, 0, -1, 1>>>>>>[t + 1]])
ChildTable == TLCEval([t \in 0..15 |-> <<<<<<0, 0>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>>>, <<<<0, 3>>, <<1, 3>>, <<1, 4>>, <<3, 3>>>>, <<<<0, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>>>, <<<<0, 5>>, <<1, 5>>, <<2, 5>>, <<3, 5>>, <<4, 5>>, <<5, 5>>, <<6, 5>>, <<7, 5>>>>, <<<<0, 6>>, <<1, 6>>, <<1, 10>>, <<1, 11>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<7, 6>>>>, <<<<0, 7>>, <<1, 7>>, <<1, 8>>, <<1, 9>>, <<3, 6>>, <<3, 7>>, <<3, 11>>, <<7, 7>>>>, <<<<0, 8>>, <<2, 6>>, <<2, 7>>, <<2, 8>>, <<3, 8>>, <<3, 9>>, <<3, 10>>, <<7, 8>>>>, <<<<0, 9>>, <<2, 9>>, <<2, 10>>, <<2, 11>>, <<6, 7>>, <<6, 8>>, <<6, 9>>, <<7, 9>>>>, <<<<0, 10>>, <<4, 8>>, <<4, 9>>, <<4, 10>>, <<6, 6>>, <<6, 10>>, <<6, 11>>, <<7, 10>>>>, <<<<0, 11>>, <<4, 6>>, <<4, 7>>, <<4, 11>>, <<5, 9>>, <<5, 10>>, <<5, 11>>, <<7, 11>>>>, <<<<0, 12>>, <<1, 12>>, <<1, 13>>, <<3, 12>>, <<4, 12>>, <<5, 12>>, <<5, 13>>, <<7, 12>>>>, <<<<0, 13>>, <<2, 12>>, <<2, 13>>, <<3, 13>>, <<4, 13>>, <<6, 12>>, <<6, 13>>, <<7, 13>>>>, <<<<0, 14>>, <<1, 9>>, <<1, 14>>, <<2, 6>>, <<2, 14>>, <<3, 6>>, <<3, 9>>, <<3, 14>>, <<3, 15>>, <<7, 14>>>>, <<<<0, 15>>, <<4, 6>>, <<4, 9>>, <<4, 14>>, <<4, 15>>, <<5, 9>>, <<5, 15>>, <<6, 6>>, <<6, 15>>, <<7, 15>>>>>>[t + 1]])
FaceChildTable == TLCEval([t \in 0..15 |-> <<<<>>, <<<<<<0, 1>>>>, <<<<1, 2>>>>>>, <<<<<<0, 1>>, <<2, 1>>>>, <<<<1, 2>>, <<3, 2>>>>, <<<<0, 3>>, <<1, 3>>>>, <<<<2, 4>>, <<3, 4>>>>>>, <<<<<<1, 1>>, <<3, 1>>>>, <<<<0, 2>>, <<3, 2>>>>, <<<<0, 3>>, <<1, 3>>>>>>, <<<<<<2, 1>>, <<3, 1>>>>, <<<<0, 2>>, <<3, 2>>>>, <<<<0, 3>>, <<2, 3>>>>>>, <<<<<<0, 1>>, <<2, 1>>, <<4, 1>>, <<6, 1>>>>, <<<<1, 2>>, <<3, 2>>, <<5, 2>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 3>>, <<4, 3>>, <<5, 3>>>>, <<<<2, 4>>, <<3, 4>>, <<6, 4>>, <<7, 4>>>>, <<<<0, 5>>, <<1, 5>>, <<2, 5>>, <<3, 5>>>>, <<<<4, 6>>, <<5, 6>>, <<6, 6>>, <<7, 6>>>>>>, <<<<<<1, 1>>, <<4, 1>>, <<5, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<4, 2>>, <<6, 3>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 3>>, <<2, 2>>, <<7, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<3, 4>>, <<4, 4>>>>>>, <<<<<<1, 1>>, <<4, 1>>, <<5, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<5, 2>>, <<6, 3>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 3>>, <<3, 2>>, <<7, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<5, 4>>>>>>, <<<<<<3, 1>>, <<4, 1>>, <<5, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<4, 2>>, <<6, 3>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 2>>, <<3, 3>>, <<7, 3>>>>, <<<<0, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>>>>>, <<<<<<1, 1>>, <<5, 1>>, <<6, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<4, 3>>, <<6, 2>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 3>>, <<3, 2>>, <<7, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<6, 4>>>>>>, <<<<<<3, 1>>, <<5, 1>>, <<6, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<4, 3>>, <<5, 2>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 2>>, <<3, 3>>, <<7, 3>>>>, <<<<0, 4>>, <<2, 4>>, <<3, 4>>, <<5, 4>>>>>>, <<<<<<3, 1>>, <<5, 1>>, <<6, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<4, 3>>, <<6, 2>>, <<7, 2>>>>, <<<<0, 3>>, <<2, 2>>, <<3, 3>>, <<7, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<3, 4>>, <<6, 4>>>>>>, <<<<<<1, 1>>, <<3, 1>>, <<5, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<3, 2>>, <<4, 2>>, <<7, 2>>>>, <<<<0, 3>>, <<1, 3>>, <<4, 3>>, <<5, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<3, 4>>>>, <<<<4, 5>>, <<5, 5>>, <<6, 5>>, <<7, 5>>>>>>, <<<<<<2, 1>>, <<3, 1>>, <<6, 1>>, <<7, 1>>>>, <<<<0, 2>>, <<3, 2>>, <<4, 2>>, <<7, 2>>>>, <<<<0, 3>>, <<2, 3>>, <<4, 3>>, <<6, 3>>>>, <<<<0, 4>>, <<1, 4>>, <<2, 4>>, <<3, 4>>>>, <<<<4, 5>>, <<5, 5>>, <<6, 5>>, <<7, 5>>>>>>, <<<<<<0, 1>>, <<3, 2>>, <<4, 1>>, <<9, 1>>>>, <<<<2, 2>>, <<5, 1>>, <<7, 2>>, <<9, 2>>>>, <<<<0, 3>>, <<1, 2>>, <<2, 3>>, <<9, 3>>>>, <<<<4, 4>>, <<6, 1>>, <<7, 4>>, <<9, 4>>>>, <<<<0, 5>>, <<2, 5>>, <<4, 5>>, <<7, 5>>>>>>, <<<<<<0, 1>>, <<7, 3>>, <<8, 1>>, <<9, 1>>>>, <<<<0, 2>>, <<1, 4>>, <<4, 2>>, <<6, 2>>>>, <<<<0, 3>>, <<5, 3>>, <<6, 3>>, <<9, 3>>>>, <<<<0, 4>>, <<2, 4>>, <<4, 4>>, <<8, 4>>>>, <<<<4, 5>>, <<6, 5>>, <<8, 5>>, <<9, 5>>>>>>>>[t + 1]])
CountTableL == <<<<<<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>, <<1, 0, 0>>>>, <<<<1, 0, 0>>, <<2, 0, 0>>, <<4, 0, 0>>, <<4, 0, 0>>, <<4, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<8, 0, 0>>, <<10, 0, 0>>, <<10, 0, 0>>>>, <<<<1, 0, 0>>, <<4, 0, 0>>, <<16, 0, 0>>, <<16, 0, 0>>, <<16, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<92, 0, 0>>, <<92, 0, 0>>>>, <<<<1, 0, 0>>, <<8, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<64, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<512, 0, 0>>, <<808, 0, 0>>, <<808, 0, 0>>>>, <<<<1, 0, 0>>, <<16, 0, 0>>, <<256, 0, 0>>, <<256, 0, 0>>, <<256, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<6896, 0, 0>>, <<6896, 0, 0>>>>, <<<<1, 0, 0>>, <<32, 0, 0>>, <<1024, 0, 0>>, <<1024, 0, 0>>, <<1024, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<32768, 0, 0>>, <<57760, 0, 0>>, <<57760, 0, 0>>>>, <<<<1, 0, 0>>, <<64, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<4096, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<477632, 0, 0>>, <<477632, 0, 0>>>>, <<<<1, 0, 0>>, <<128, 0, 0>>, <<16384, 0, 0>>, <<16384, 0, 0>>, <<16384, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<2097152, 0, 0>>, <<3914368, 0, 0>>, <<3914368, 0, 0>>>>, <<<<1, 0, 0>>, <<256, 0, 0>>, <<65536, 0, 0>>, <<65536, 0, 0>>, <<65536, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<31874816, 0, 0>>, <<31874816, 0, 0>>>>, <<<<1, 0, 0>>, <<512, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<262144, 0, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<34217728, 1, 0>>, <<58357760, 2, 0>>, <<58357760, 2, 0>>>>, <<<<1, 0, 0>>, <<1024, 0, 0>>, <<1048576, 0, 0>>, <<1048576, 0, 0>>, <<1048576, 0, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<87017472, 20, 0>>, <<87017472, 20, 0>>>>, <<<<1, 0, 0>>, <<2048, 0, 0>>, <<4194304, 0, 0>>, <<4194304, 0, 0>>, <<4194304, 0, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<89934592, 85, 0>>, <<17072128, 168, 0>>, <<17072128, 168, 0>>>>, <<<<1, 0, 0>>, <<4096, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<16777216, 0, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<62171136, 1352, 0>>, <<62171136, 1352, 0>>>>, <<<<1, 0, 0>>, <<8192, 0, 0>>, <<67108864, 0, 0>>, <<67108864, 0, 0>>, <<67108864, 0, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<55813888, 5497, 0>>, <<50933760, 10864, 0>>, <<50933760, 10864, 0>>>>, <<<<1, 0, 0>>, <<16384, 0, 0>>, <<68435456, 2, 0>>, <<68435456, 2, 0>>, <<68435456, 2, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<28858112, 87177, 0>>, <<28858112, 87177, 0>>>>, <<<<1, 0, 0>>, <<32768, 0, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<73741824, 10, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<72088832, 351843, 0>>, <<59193088, 698985, 0>>, <<59193088, 698985, 0>>>>, <<<<1, 0, 0>>, <<65536, 0, 0>>, <<94967296, 42, 0>>, <<94967296, 42, 0>>, <<94967296, 42, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<43513856, 5601288, 0>>, <<43513856, 5601288, 0>>>>, <<<<1, 0, 0>>, <<131072, 0, 0>>, <<79869184, 171, 0>>, <<79869184, 171, 0>>, <<79869184, 171, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<13685248, 22517998, 0>>, <<67925760, 44866729, 0>>, <<67925760, 44866729, 0>>>>, <<<<1, 0, 0>>, <<262144, 0, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<19476736, 687, 0>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<62295552, 59272370, 3>>, <<62295552, 59272370, 3>>>>, <<<<1, 0, 0>>, <<524288, 0, 0>>, <<77906944, 2748, 0>>, <<77906944, 2748, 0>>, <<77906944, 2748, 0>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<75855872, 41151880, 14>>, <<11701248, 76210164, 28>>, <<11701248, 76210164, 28>>>>, <<<<1, 0, 0>>, <<1048576, 0, 0>>, <<11627776, 10995, 0>>, <<11627776, 10995, 0>>, <<11627776, 10995, 0>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<73630976, 21868507, 230>>, <<73630976, 21868507, 230>>>>, <<<<1, 0, 0>>, <<2097152, 0, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<46511104, 43980, 0>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<54775808, 33720368, 922>>, <<69173760, 48071230, 1842>>, <<69173760, 48071230, 1842>>>>, <<<<1, 0, 0>>, <<4194304, 0, 0>>, <<86044416, 175921, 0>>, <<86044416, 175921, 0>>, <<86044416, 175921, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<8388608, 0, 0>>, <<44177664, 703687, 0>>, <<44177664, 703687, 0>>, <<44177664, 703687, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<16777216, 0, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<76710656, 2814749, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<33554432, 0, 0>>, <<6842624, 11258999, 0>>, <<6842624, 11258999, 0>>, <<6842624, 11258999, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<67108864, 0, 0>>, <<27370496, 45035996, 0>>, <<27370496, 45035996, 0>>, <<27370496, 45035996, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<34217728, 1, 0>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<9481984, 80143985, 1>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<68435456, 2, 0>>, <<37927936, 20575940, 7>>, <<37927936, 20575940, 7>>, <<37927936, 20575940, 7>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<36870912, 5, 0>>, <<51711744, 82303761, 28>>, <<51711744, 82303761, 28>>, <<51711744, 82303761, 28>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<1, 0, 0>>, <<73741824, 10, 0>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<6846976, 29215046, 115>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>
CountTable == TLCEval([n \in 1..31 |-> TLCEval([t \in 0..15 |-> CountTableL[n][t + 1]])])
BeforeTableL == <<<<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>, <<9, 0, 0>>, <<10, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<5, 0, 0>>, <<6, 0, 0>>, <<7, 0, 0>>, <<8, 0, 0>>, <<9, 0, 0>>, <<10, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<2, 0, 0>>, <<4, 0, 0>>>>, <<<<0, 0, 0>>, <<4, 0, 0>>, <<8, 0, 0>>, <<12, 0, 0>>, <<16, 0, 0>>>>, <<<<0, 0, 0>>, <<4, 0, 0>>, <<8, 0, 0>>, <<12, 0, 0>>, <<16, 0, 0>>>>, <<<<0, 0, 0>>, <<4, 0, 0>>, <<8, 0, 0>>, <<12, 0, 0>>, <<16, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>, <<24, 0, 0>>, <<32, 0, 0>>, <<40, 0, 0>>, <<48, 0, 0>>, <<56, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<10, 0, 0>>, <<18, 0, 0>>, <<28, 0, 0>>, <<36, 0, 0>>, <<46, 0, 0>>, <<54, 0, 0>>, <<62, 0, 0>>, <<72, 0, 0>>, <<82, 0, 0>>, <<92, 0, 0>>>>, <<<<0, 0, 0>>, <<10, 0, 0>>, <<18, 0, 0>>, <<26, 0, 0>>, <<36, 0, 0>>, <<46, 0, 0>>, <<54, 0, 0>>, <<64, 0, 0>>, <<72, 0, 0>>, <<82, 0, 0>>, <<92, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<4, 0, 0>>, <<8, 0, 0>>>>, <<<<0, 0, 0>>, <<16, 0, 0>>, <<32, 0, 0>>, <<48, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<16, 0, 0>>, <<32, 0, 0>>, <<48, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<16, 0, 0>>, <<32, 0, 0>>, <<48, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>, <<320, 0, 0>>, <<384, 0, 0>>, <<448, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<92, 0, 0>>, <<156, 0, 0>>, <<248, 0, 0>>, <<312, 0, 0>>, <<404, 0, 0>>, <<468, 0, 0>>, <<532, 0, 0>>, <<624, 0, 0>>, <<716, 0, 0>>, <<808, 0, 0>>>>, <<<<0, 0, 0>>, <<92, 0, 0>>, <<156, 0, 0>>, <<220, 0, 0>>, <<312, 0, 0>>, <<404, 0, 0>>, <<468, 0, 0>>, <<560, 0, 0>>, <<624, 0, 0>>, <<716, 0, 0>>, <<808, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<8, 0, 0>>, <<16, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>, <<192, 0, 0>>, <<256, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>, <<1536, 0, 0>>, <<2048, 0, 0>>, <<2560, 0, 0>>, <<3072, 0, 0>>, <<3584, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<808, 0, 0>>, <<1320, 0, 0>>, <<2128, 0, 0>>, <<2640, 0, 0>>, <<3448, 0, 0>>, <<3960, 0, 0>>, <<4472, 0, 0>>, <<5280, 0, 0>>, <<6088, 0, 0>>, <<6896, 0, 0>>>>, <<<<0, 0, 0>>, <<808, 0, 0>>, <<1320, 0, 0>>, <<1832, 0, 0>>, <<2640, 0, 0>>, <<3448, 0, 0>>, <<3960, 0, 0>>, <<4768, 0, 0>>, <<5280, 0, 0>>, <<6088, 0, 0>>, <<6896, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<16, 0, 0>>, <<32, 0, 0>>>>, <<<<0, 0, 0>>, <<256, 0, 0>>, <<512, 0, 0>>, <<768, 0, 0>>, <<1024, 0, 0>>>>, <<<<0, 0, 0>>, <<256, 0, 0>>, <<512, 0, 0>>, <<768, 0, 0>>, <<1024, 0, 0>>>>, <<<<0, 0, 0>>, <<256, 0, 0>>, <<512, 0, 0>>, <<768, 0, 0>>, <<1024, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>, <<20480, 0, 0>>, <<24576, 0, 0>>, <<28672, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<6896, 0, 0>>, <<10992, 0, 0>>, <<17888, 0, 0>>, <<21984, 0, 0>>, <<28880, 0, 0>>, <<32976, 0, 0>>, <<37072, 0, 0>>, <<43968, 0, 0>>, <<50864, 0, 0>>, <<57760, 0, 0>>>>, <<<<0, 0, 0>>, <<6896, 0, 0>>, <<10992, 0, 0>>, <<15088, 0, 0>>, <<21984, 0, 0>>, <<28880, 0, 0>>, <<32976, 0, 0>>, <<39872, 0, 0>>, <<43968, 0, 0>>, <<50864, 0, 0>>, <<57760, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<32, 0, 0>>, <<64, 0, 0>>>>, <<<<0, 0, 0>>, <<1024, 0, 0>>, <<2048, 0, 0>>, <<3072, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<1024, 0, 0>>, <<2048, 0, 0>>, <<3072, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<1024, 0, 0>>, <<2048, 0, 0>>, <<3072, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>, <<98304, 0, 0>>, <<131072, 0, 0>>, <<163840, 0, 0>>, <<196608, 0, 0>>, <<229376, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<57760, 0, 0>>, <<90528, 0, 0>>, <<148288, 0, 0>>, <<181056, 0, 0>>, <<238816, 0, 0>>, <<271584, 0, 0>>, <<304352, 0, 0>>, <<362112, 0, 0>>, <<419872, 0, 0>>, <<477632, 0, 0>>>>, <<<<0, 0, 0>>, <<57760, 0, 0>>, <<90528, 0, 0>>, <<123296, 0, 0>>, <<181056, 0, 0>>, <<238816, 0, 0>>, <<271584, 0, 0>>, <<329344, 0, 0>>, <<362112, 0, 0>>, <<419872, 0, 0>>, <<477632, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<64, 0, 0>>, <<128, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>, <<12288, 0, 0>>, <<16384, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>, <<1310720, 0, 0>>, <<1572864, 0, 0>>, <<1835008, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<477632, 0, 0>>, <<739776, 0, 0>>, <<1217408, 0, 0>>, <<1479552, 0, 0>>, <<1957184, 0, 0>>, <<2219328, 0, 0>>, <<2481472, 0, 0>>, <<2959104, 0, 0>>, <<3436736, 0, 0>>, <<3914368, 0, 0>>>>, <<<<0, 0, 0>>, <<477632, 0, 0>>, <<739776, 0, 0>>, <<1001920, 0, 0>>, <<1479552, 0, 0>>, <<1957184, 0, 0>>, <<2219328, 0, 0>>, <<2696960, 0, 0>>, <<2959104, 0, 0>>, <<3436736, 0, 0>>, <<3914368, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<128, 0, 0>>, <<256, 0, 0>>>>, <<<<0, 0, 0>>, <<16384, 0, 0>>, <<32768, 0, 0>>, <<49152, 0, 0>>, <<65536, 0, 0>>>>, <<<<0, 0, 0>>, <<16384, 0, 0>>, <<32768, 0, 0>>, <<49152, 0, 0>>, <<65536, 0, 0>>>>, <<<<0, 0, 0>>, <<16384, 0, 0>>, <<32768, 0, 0>>, <<49152, 0, 0>>, <<65536, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>, <<6291456, 0, 0>>, <<8388608, 0, 0>>, <<10485760, 0, 0>>, <<12582912, 0, 0>>, <<14680064, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<3914368, 0, 0>>, <<6011520, 0, 0>>, <<9925888, 0, 0>>, <<12023040, 0, 0>>, <<15937408, 0, 0>>, <<18034560, 0, 0>>, <<20131712, 0, 0>>, <<24046080, 0, 0>>, <<27960448, 0, 0>>, <<31874816, 0, 0>>>>, <<<<0, 0, 0>>, <<3914368, 0, 0>>, <<6011520, 0, 0>>, <<8108672, 0, 0>>, <<12023040, 0, 0>>, <<15937408, 0, 0>>, <<18034560, 0, 0>>, <<21948928, 0, 0>>, <<24046080, 0, 0>>, <<27960448, 0, 0>>, <<31874816, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<256, 0, 0>>, <<512, 0, 0>>>>, <<<<0, 0, 0>>, <<65536, 0, 0>>, <<131072, 0, 0>>, <<196608, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<65536, 0, 0>>, <<131072, 0, 0>>, <<196608, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<65536, 0, 0>>, <<131072, 0, 0>>, <<196608, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>, <<83886080, 0, 0>>, <<663296, 1, 0>>, <<17440512, 1, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<31874816, 0, 0>>, <<48652032, 0, 0>>, <<80526848, 0, 0>>, <<97304064, 0, 0>>, <<29178880, 1, 0>>, <<45956096, 1, 0>>, <<62733312, 1, 0>>, <<94608128, 1, 0>>, <<26482944, 2, 0>>, <<58357760, 2, 0>>>>, <<<<0, 0, 0>>, <<31874816, 0, 0>>, <<48652032, 0, 0>>, <<65429248, 0, 0>>, <<97304064, 0, 0>>, <<29178880, 1, 0>>, <<45956096, 1, 0>>, <<77830912, 1, 0>>, <<94608128, 1, 0>>, <<26482944, 2, 0>>, <<58357760, 2, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<512, 0, 0>>, <<1024, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>, <<786432, 0, 0>>, <<1048576, 0, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>, <<2653184, 4, 0>>, <<36870912, 5, 0>>, <<71088640, 6, 0>>, <<5306368, 8, 0>>, <<39524096, 9, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<58357760, 2, 0>>, <<92575488, 3, 0>>, <<50933248, 6, 0>>, <<85150976, 7, 0>>, <<43508736, 10, 0>>, <<77726464, 11, 0>>, <<11944192, 13, 0>>, <<70301952, 15, 0>>, <<28659712, 18, 0>>, <<87017472, 20, 0>>>>, <<<<0, 0, 0>>, <<58357760, 2, 0>>, <<92575488, 3, 0>>, <<26793216, 5, 0>>, <<85150976, 7, 0>>, <<43508736, 10, 0>>, <<77726464, 11, 0>>, <<36084224, 14, 0>>, <<70301952, 15, 0>>, <<28659712, 18, 0>>, <<87017472, 20, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<1024, 0, 0>>, <<2048, 0, 0>>>>, <<<<0, 0, 0>>, <<1048576, 0, 0>>, <<2097152, 0, 0>>, <<3145728, 0, 0>>, <<4194304, 0, 0>>>>, <<<<0, 0, 0>>, <<1048576, 0, 0>>, <<2097152, 0, 0>>, <<3145728, 0, 0>>, <<4194304, 0, 0>>>>, <<<<0, 0, 0>>, <<1048576, 0, 0>>, <<2097152, 0, 0>>, <<3145728, 0, 0>>, <<4194304, 0, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>, <<68709120, 53, 0>>, <<42450944, 64, 0>>, <<16192768, 75, 0>>, <<89934592, 85, 0>>>>, <<<<0, 0, 0>>, <<87017472, 20, 0>>, <<60759296, 31, 0>>, <<47776768, 52, 0>>, <<21518592, 63, 0>>, <<8536064, 84, 0>>, <<82277888, 94, 0>>, <<56019712, 105, 0>>, <<43037184, 126, 0>>, <<30054656, 147, 0>>, <<17072128, 168, 0>>>>, <<<<0, 0, 0>>, <<87017472, 20, 0>>, <<60759296, 31, 0>>, <<34501120, 42, 0>>, <<21518592, 63, 0>>, <<8536064, 84, 0>>, <<82277888, 94, 0>>, <<69295360, 115, 0>>, <<43037184, 126, 0>>, <<30054656, 147, 0>>, <<17072128, 168, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<2048, 0, 0>>, <<4096, 0, 0>>>>, <<<<0, 0, 0>>, <<4194304, 0, 0>>, <<8388608, 0, 0>>, <<12582912, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<4194304, 0, 0>>, <<8388608, 0, 0>>, <<12582912, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<4194304, 0, 0>>, <<8388608, 0, 0>>, <<12582912, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<89934592, 85, 0>>, <<79869184, 171, 0>>, <<69803776, 257, 0>>, <<59738368, 343, 0>>, <<49672960, 429, 0>>, <<39607552, 515, 0>>, <<29542144, 601, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<17072128, 168, 0>>, <<7006720, 254, 0>>, <<24078848, 422, 0>>, <<14013440, 508, 0>>, <<31085568, 676, 0>>, <<21020160, 762, 0>>, <<10954752, 848, 0>>, <<28026880, 1016, 0>>, <<45099008, 1184, 0>>, <<62171136, 1352, 0>>>>, <<<<0, 0, 0>>, <<17072128, 168, 0>>, <<7006720, 254, 0>>, <<96941312, 339, 0>>, <<14013440, 508, 0>>, <<31085568, 676, 0>>, <<21020160, 762, 0>>, <<38092288, 930, 0>>, <<28026880, 1016, 0>>, <<45099008, 1184, 0>>, <<62171136, 1352, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<4096, 0, 0>>, <<8192, 0, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>, <<50331648, 0, 0>>, <<67108864, 0, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>, <<97383680, 3435, 0>>, <<16860416, 4123, 0>>, <<36337152, 4810, 0>>, <<55813888, 5497, 0>>>>, <<<<0, 0, 0>>, <<62171136, 1352, 0>>, <<81647872, 2039, 0>>, <<43819008, 3392, 0>>, <<63295744, 4079, 0>>, <<25466880, 5432, 0>>, <<44943616, 6119, 0>>, <<64420352, 6806, 0>>, <<26591488, 8159, 0>>, <<88762624, 9511, 0>>, <<50933760, 10864, 0>>>>, <<<<0, 0, 0>>, <<62171136, 1352, 0>>, <<81647872, 2039, 0>>, <<1124608, 2727, 0>>, <<63295744, 4079, 0>>, <<25466880, 5432, 0>>, <<44943616, 6119, 0>>, <<7114752, 7472, 0>>, <<26591488, 8159, 0>>, <<88762624, 9511, 0>>, <<50933760, 10864, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<8192, 0, 0>>, <<16384, 0, 0>>>>, <<<<0, 0, 0>>, <<67108864, 0, 0>>, <<34217728, 1, 0>>, <<1326592, 2, 0>>, <<68435456, 2, 0>>>>, <<<<0, 0, 0>>, <<67108864, 0, 0>>, <<34217728, 1, 0>>, <<1326592, 2, 0>>, <<68435456, 2, 0>>>>, <<<<0, 0, 0>>, <<67108864, 0, 0>>, <<34217728, 1, 0>>, <<1326592, 2, 0>>, <<68435456, 2, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<55813888, 5497, 0>>, <<11627776, 10995, 0>>, <<67441664, 16492, 0>>, <<23255552, 21990, 0>>, <<79069440, 27487, 0>>, <<34883328, 32985, 0>>, <<90697216, 38482, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<50933760, 10864, 0>>, <<6747648, 16362, 0>>, <<57681408, 27226, 0>>, <<13495296, 32724, 0>>, <<64429056, 43588, 0>>, <<20242944, 49086, 0>>, <<76056832, 54583, 0>>, <<26990592, 65448, 0>>, <<77924352, 76312, 0>>, <<28858112, 87177, 0>>>>, <<<<0, 0, 0>>, <<50933760, 10864, 0>>, <<6747648, 16362, 0>>, <<62561536, 21859, 0>>, <<13495296, 32724, 0>>, <<64429056, 43588, 0>>, <<20242944, 49086, 0>>, <<71176704, 59950, 0>>, <<26990592, 65448, 0>>, <<77924352, 76312, 0>>, <<28858112, 87177, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<16384, 0, 0>>, <<32768, 0, 0>>>>, <<<<0, 0, 0>>, <<68435456, 2, 0>>, <<36870912, 5, 0>>, <<5306368, 8, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<68435456, 2, 0>>, <<36870912, 5, 0>>, <<5306368, 8, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<68435456, 2, 0>>, <<36870912, 5, 0>>, <<5306368, 8, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>, <<32555520, 219902, 0>>, <<79066624, 263882, 0>>, <<25577728, 307863, 0>>, <<72088832, 351843, 0>>>>, <<<<0, 0, 0>>, <<28858112, 87177, 0>>, <<75369216, 131157, 0>>, <<4227328, 218335, 0>>, <<50738432, 262315, 0>>, <<79596544, 349492, 0>>, <<26107648, 393473, 0>>, <<72618752, 437453, 0>>, <<1476864, 524631, 0>>, <<30334976, 611808, 0>>, <<59193088, 698985, 0>>>>, <<<<0, 0, 0>>, <<28858112, 87177, 0>>, <<75369216, 131157, 0>>, <<21880320, 175138, 0>>, <<50738432, 262315, 0>>, <<79596544, 349492, 0>>, <<26107648, 393473, 0>>, <<54965760, 480650, 0>>, <<1476864, 524631, 0>>, <<30334976, 611808, 0>>, <<59193088, 698985, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<32768, 0, 0>>, <<65536, 0, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>, <<21225472, 32, 0>>, <<94967296, 42, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<72088832, 351843, 0>>, <<44177664, 703687, 0>>, <<16266496, 1055531, 0>>, <<88355328, 1407374, 0>>, <<60444160, 1759218, 0>>, <<32532992, 2111062, 0>>, <<4621824, 2462906, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<59193088, 698985, 0>>, <<31281920, 1050829, 0>>, <<90475008, 1749814, 0>>, <<62563840, 2101658, 0>>, <<21756928, 2800644, 0>>, <<93845760, 3152487, 0>>, <<65934592, 3504331, 0>>, <<25127680, 4203317, 0>>, <<84320768, 4902302, 0>>, <<43513856, 5601288, 0>>>>, <<<<0, 0, 0>>, <<59193088, 698985, 0>>, <<31281920, 1050829, 0>>, <<3370752, 1402673, 0>>, <<62563840, 2101658, 0>>, <<21756928, 2800644, 0>>, <<93845760, 3152487, 0>>, <<53038848, 3851473, 0>>, <<25127680, 4203317, 0>>, <<84320768, 4902302, 0>>, <<43513856, 5601288, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<65536, 0, 0>>, <<131072, 0, 0>>>>, <<<<0, 0, 0>>, <<94967296, 42, 0>>, <<89934592, 85, 0>>, <<84901888, 128, 0>>, <<79869184, 171, 0>>>>, <<<<0, 0, 0>>, <<94967296, 42, 0>>, <<89934592, 85, 0>>, <<84901888, 128, 0>>, <<79869184, 171, 0>>>>, <<<<0, 0, 0>>, <<94967296, 42, 0>>, <<89934592, 85, 0>>, <<84901888, 128, 0>>, <<79869184, 171, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>, <<83553280, 14073748, 0>>, <<60263936, 16888498, 0>>, <<36974592, 19703248, 0>>, <<13685248, 22517998, 0>>>>, <<<<0, 0, 0>>, <<43513856, 5601288, 0>>, <<20224512, 8416038, 0>>, <<63738368, 14017326, 0>>, <<40449024, 16832076, 0>>, <<83962880, 22433364, 0>>, <<60673536, 25248114, 0>>, <<37384192, 28062864, 0>>, <<80898048, 33664152, 0>>, <<24411904, 39265441, 0>>, <<67925760, 44866729, 0>>>>, <<<<0, 0, 0>>, <<43513856, 5601288, 0>>, <<20224512, 8416038, 0>>, <<96935168, 11230787, 0>>, <<40449024, 16832076, 0>>, <<83962880, 22433364, 0>>, <<60673536, 25248114, 0>>, <<4187392, 30849403, 0>>, <<80898048, 33664152, 0>>, <<24411904, 39265441, 0>>, <<67925760, 44866729, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<131072, 0, 0>>, <<262144, 0, 0>>>>, <<<<0, 0, 0>>, <<79869184, 171, 0>>, <<59738368, 343, 0>>, <<39607552, 515, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<79869184, 171, 0>>, <<59738368, 343, 0>>, <<39607552, 515, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<79869184, 171, 0>>, <<59738368, 343, 0>>, <<39607552, 515, 0>>, <<19476736, 687, 0>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<13685248, 22517998, 0>>, <<27370496, 45035996, 0>>, <<41055744, 67553994, 0>>, <<54740992, 90071992, 0>>, <<68426240, 12589990, 1>>, <<82111488, 35107988, 1>>, <<95796736, 57625986, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<67925760, 44866729, 0>>, <<81611008, 67384727, 0>>, <<49536768, 12251457, 1>>, <<63222016, 34769455, 1>>, <<31147776, 79636185, 1>>, <<44833024, 2154183, 2>>, <<58518272, 24672181, 2>>, <<26444032, 69538911, 2>>, <<94369792, 14405640, 3>>, <<62295552, 59272370, 3>>>>, <<<<0, 0, 0>>, <<67925760, 44866729, 0>>, <<81611008, 67384727, 0>>, <<95296256, 89902725, 0>>, <<63222016, 34769455, 1>>, <<31147776, 79636185, 1>>, <<44833024, 2154183, 2>>, <<12758784, 47020913, 2>>, <<26444032, 69538911, 2>>, <<94369792, 14405640, 3>>, <<62295552, 59272370, 3>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<262144, 0, 0>>, <<524288, 0, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>>>, <<<<0, 0, 0>>, <<19476736, 687, 0>>, <<38953472, 1374, 0>>, <<58430208, 2061, 0>>, <<77906944, 2748, 0>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>, <<47409920, 719925, 9>>, <<56891904, 80863910, 10>>, <<66373888, 61007895, 12>>, <<75855872, 41151880, 14>>>>, <<<<0, 0, 0>>, <<62295552, 59272370, 3>>, <<71777536, 39416355, 5>>, <<34073088, 98688726, 8>>, <<43555072, 78832711, 10>>, <<5850624, 38105082, 14>>, <<15332608, 18249067, 16>>, <<24814592, 98393052, 17>>, <<87110144, 57665422, 21>>, <<49405696, 16937793, 25>>, <<11701248, 76210164, 28>>>>, <<<<0, 0, 0>>, <<62295552, 59272370, 3>>, <<71777536, 39416355, 5>>, <<81259520, 19560340, 7>>, <<43555072, 78832711, 10>>, <<5850624, 38105082, 14>>, <<15332608, 18249067, 16>>, <<77628160, 77521437, 19>>, <<87110144, 57665422, 21>>, <<49405696, 16937793, 25>>, <<11701248, 76210164, 28>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<524288, 0, 0>>, <<1048576, 0, 0>>>>, <<<<0, 0, 0>>, <<77906944, 2748, 0>>, <<55813888, 5497, 0>>, <<33720832, 8246, 0>>, <<11627776, 10995, 0>>>>, <<<<0, 0, 0>>, <<77906944, 2748, 0>>, <<55813888, 5497, 0>>, <<33720832, 8246, 0>>, <<11627776, 10995, 0>>>>, <<<<0, 0, 0>>, <<77906944, 2748, 0>>, <<55813888, 5497, 0>>, <<33720832, 8246, 0>>, <<11627776, 10995, 0>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<75855872, 41151880, 14>>, <<51711744, 82303761, 28>>, <<27567616, 23455642, 43>>, <<3423488, 64607523, 57>>, <<79279360, 5759403, 72>>, <<55135232, 46911284, 86>>, <<30991104, 88063165, 100>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<11701248, 76210164, 28>>, <<87557120, 17362044, 43>>, <<99258368, 93572208, 71>>, <<75114240, 34724089, 86>>, <<86815488, 10934253, 115>>, <<62671360, 52086134, 129>>, <<38527232, 93238015, 143>>, <<50228480, 69448179, 172>>, <<61929728, 45658343, 201>>, <<73630976, 21868507, 230>>>>, <<<<0, 0, 0>>, <<11701248, 76210164, 28>>, <<87557120, 17362044, 43>>, <<63412992, 58513925, 57>>, <<75114240, 34724089, 86>>, <<86815488, 10934253, 115>>, <<62671360, 52086134, 129>>, <<74372608, 28296298, 158>>, <<50228480, 69448179, 172>>, <<61929728, 45658343, 201>>, <<73630976, 21868507, 230>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<1048576, 0, 0>>, <<2097152, 0, 0>>>>, <<<<0, 0, 0>>, <<11627776, 10995, 0>>, <<23255552, 21990, 0>>, <<34883328, 32985, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<11627776, 10995, 0>>, <<23255552, 21990, 0>>, <<34883328, 32985, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<11627776, 10995, 0>>, <<23255552, 21990, 0>>, <<34883328, 32985, 0>>, <<46511104, 43980, 0>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>, <<34234880, 46075230, 576>>, <<41081856, 75290276, 691>>, <<47928832, 4505322, 807>>, <<54775808, 33720368, 922>>>>, <<<<0, 0, 0>>, <<73630976, 21868507, 230>>, <<80477952, 51083553, 345>>, <<54108928, 72952061, 575>>, <<60955904, 2167107, 691>>, <<34586880, 24035615, 921>>, <<41433856, 53250661, 1036>>, <<48280832, 82465707, 1151>>, <<21911808, 4334215, 1382>>, <<95542784, 26202722, 1612>>, <<69173760, 48071230, 1842>>>>, <<<<0, 0, 0>>, <<73630976, 21868507, 230>>, <<80477952, 51083553, 345>>, <<87324928, 80298599, 460>>, <<60955904, 2167107, 691>>, <<34586880, 24035615, 921>>, <<41433856, 53250661, 1036>>, <<15064832, 75119169, 1266>>, <<21911808, 4334215, 1382>>, <<95542784, 26202722, 1612>>, <<69173760, 48071230, 1842>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<2097152, 0, 0>>, <<4194304, 0, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>>>, <<<<0, 0, 0>>, <<46511104, 43980, 0>>, <<93022208, 87960, 0>>, <<39533312, 131941, 0>>, <<86044416, 175921, 0>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<54775808, 33720368, 922>>, <<9551616, 67440737, 1844>>, <<64327424, 1161105, 2767>>, <<19103232, 34881474, 3689>>, <<73879040, 68601842, 4611>>, <<28654848, 2322211, 5534>>, <<83430656, 36042579, 6456>>, <<38206464, 69762948, 7378>>>>, <<<<0, 0, 0>>, <<69173760, 48071230, 1842>>, <<23949568, 81791599, 2764>>, <<93123328, 29862829, 4607>>, <<47899136, 63583198, 5529>>, <<17072896, 11654429, 7372>>, <<71848704, 45374797, 8294>>, <<26624512, 79095166, 9216>>, <<95798272, 27166396, 11059>>, <<64972032, 75237627, 12901>>, <<34145792, 23308858, 14744>>>>, <<<<0, 0, 0>>, <<69173760, 48071230, 1842>>, <<23949568, 81791599, 2764>>, <<78725376, 15511967, 3687>>, <<47899136, 63583198, 5529>>, <<17072896, 11654429, 7372>>, <<71848704, 45374797, 8294>>, <<41022464, 93446028, 10136>>, <<95798272, 27166396, 11059>>, <<64972032, 75237627, 12901>>, <<34145792, 23308858, 14744>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<4194304, 0, 0>>, <<8388608, 0, 0>>>>, <<<<0, 0, 0>>, <<86044416, 175921, 0>>, <<72088832, 351843, 0>>, <<58133248, 527765, 0>>, <<44177664, 703687, 0>>>>, <<<<0, 0, 0>>, <<86044416, 175921, 0>>, <<72088832, 351843, 0>>, <<58133248, 527765, 0>>, <<44177664, 703687, 0>>>>, <<<<0, 0, 0>>, <<86044416, 175921, 0>>, <<72088832, 351843, 0>>, <<58133248, 527765, 0>>, <<44177664, 703687, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<8388608, 0, 0>>, <<16777216, 0, 0>>>>, <<<<0, 0, 0>>, <<44177664, 703687, 0>>, <<88355328, 1407374, 0>>, <<32532992, 2111062, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<44177664, 703687, 0>>, <<88355328, 1407374, 0>>, <<32532992, 2111062, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<44177664, 703687, 0>>, <<88355328, 1407374, 0>>, <<32532992, 2111062, 0>>, <<76710656, 2814749, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<16777216, 0, 0>>, <<33554432, 0, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>>>, <<<<0, 0, 0>>, <<76710656, 2814749, 0>>, <<53421312, 5629499, 0>>, <<30131968, 8444249, 0>>, <<6842624, 11258999, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<33554432, 0, 0>>, <<67108864, 0, 0>>>>, <<<<0, 0, 0>>, <<6842624, 11258999, 0>>, <<13685248, 22517998, 0>>, <<20527872, 33776997, 0>>, <<27370496, 45035996, 0>>>>, <<<<0, 0, 0>>, <<6842624, 11258999, 0>>, <<13685248, 22517998, 0>>, <<20527872, 33776997, 0>>, <<27370496, 45035996, 0>>>>, <<<<0, 0, 0>>, <<6842624, 11258999, 0>>, <<13685248, 22517998, 0>>, <<20527872, 33776997, 0>>, <<27370496, 45035996, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<67108864, 0, 0>>, <<34217728, 1, 0>>>>, <<<<0, 0, 0>>, <<27370496, 45035996, 0>>, <<54740992, 90071992, 0>>, <<82111488, 35107988, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<27370496, 45035996, 0>>, <<54740992, 90071992, 0>>, <<82111488, 35107988, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<27370496, 45035996, 0>>, <<54740992, 90071992, 0>>, <<82111488, 35107988, 1>>, <<9481984, 80143985, 1>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<34217728, 1, 0>>, <<68435456, 2, 0>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>>>, <<<<0, 0, 0>>, <<9481984, 80143985, 1>>, <<18963968, 60287970, 3>>, <<28445952, 40431955, 5>>, <<37927936, 20575940, 7>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<68435456, 2, 0>>, <<36870912, 5, 0>>>>, <<<<0, 0, 0>>, <<37927936, 20575940, 7>>, <<75855872, 41151880, 14>>, <<13783808, 61727821, 21>>, <<51711744, 82303761, 28>>>>, <<<<0, 0, 0>>, <<37927936, 20575940, 7>>, <<75855872, 41151880, 14>>, <<13783808, 61727821, 21>>, <<51711744, 82303761, 28>>>>, <<<<0, 0, 0>>, <<37927936, 20575940, 7>>, <<75855872, 41151880, 14>>, <<13783808, 61727821, 21>>, <<51711744, 82303761, 28>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<36870912, 5, 0>>, <<73741824, 10, 0>>>>, <<<<0, 0, 0>>, <<51711744, 82303761, 28>>, <<3423488, 64607523, 57>>, <<55135232, 46911284, 86>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<51711744, 82303761, 28>>, <<3423488, 64607523, 57>>, <<55135232, 46911284, 86>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<51711744, 82303761, 28>>, <<3423488, 64607523, 57>>, <<55135232, 46911284, 86>>, <<6846976, 29215046, 115>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>, <<<<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<73741824, 10, 0>>, <<47483648, 21, 0>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>>>, <<<<0, 0, 0>>, <<6846976, 29215046, 115>>, <<13693952, 58430092, 230>>, <<20540928, 87645138, 345>>, <<27387904, 16860184, 461>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>>>>>
BeforeTable == TLCEval([n \in 1..31 |-> TLCEval([t \in 0..15 |-> BeforeTableL[n][t + 1]])])
=============================================================================
