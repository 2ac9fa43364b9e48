SPECIFICATION Spec
CONSTANTS Bound = 3
 Deep = 3
INVARIANTS FirstFound FromNode Nothing Deeper Equality Equivalence OneType Size0 InOrder
CHECK_DEADLOCK FALSE
