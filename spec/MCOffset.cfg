CONSTANTS MaxP = 3
 MaxN = 3
INIT Init
NEXT Next
INVARIANTS OnlyOwn SendOwn Complete Intervals Covered
