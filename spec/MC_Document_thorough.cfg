SPECIFICATION Spec
CONSTANT Bound = 5
INVARIANTS Complete Rooted Added Ordered Empty
CHECK_DEADLOCK FALSE
