SPECIFICATION CSpec
CONSTANTS M = 6
 L = 3
 ClassSet = {1,2,3,4,5,6,7}
INVARIANTS TypeInv InsideRoot Tiling NeighborMutual CurveInv BoundaryInv FaceInv
CHECK_DEADLOCK FALSE
