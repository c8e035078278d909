SPECIFICATION MSpec
CONSTANTS NP = 2
 MaxL2 = 2
 MaxL3 = 2
 Deep2 = 6
 Deep3 = 2
 M = 6
INVARIANTS Complete Mutual GhostsMutual GhostsForeign LeastBalance CoarsenableExists EvenExists
CHECK_DEADLOCK FALSE
