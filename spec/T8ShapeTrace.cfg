CONSTANT M = 6
INIT Init
NEXT Next
