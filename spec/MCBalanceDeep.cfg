SPECIFICATION BSpec
CONSTANTS NP = 2
 Depth = 3
 M = 6
 Big = TRUE
INVARIANTS NeverTooFine Complete Result
PROPERTIES Ends
CHECK_DEADLOCK FALSE
