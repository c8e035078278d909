CONSTANT M = 30
INIT Init
NEXT Next
