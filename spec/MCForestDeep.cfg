SPECIFICATION MSpec
CONSTANTS NP = 3
 MaxL2 = 2
 MaxL3 = 2
 Deep2 = 9
 Deep3 = 9
 M = 6
INVARIANTS Complete Mutual GhostsMutual GhostsForeign LeastBalance CoarsenableExists EvenExists
CHECK_DEADLOCK FALSE
