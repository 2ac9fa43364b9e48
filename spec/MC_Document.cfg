SPECIFICATION Spec
CONSTANT Bound = 3
INVARIANTS Complete Rooted Added Ordered Empty
CHECK_DEADLOCK FALSE
