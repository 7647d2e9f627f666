SPECIFICATION Spec
CONSTANTS
 MaxW = 4
 MaxL = 4
 MaxDim = 3
 MaxItems = 4
INVARIANT Feasible
INVARIANT PointsFree
INVARIANT OneOwner
CHECK_DEADLOCK FALSE
