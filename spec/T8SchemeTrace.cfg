SPECIFICATION Spec
CONSTANTS M = 30
 L = 30
 ClassSet = {0,1,2,3,4,5,6,7}
CHECK_DEADLOCK TRUE
