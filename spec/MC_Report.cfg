SPECIFICATION Spec
CONSTANT Bound = 4
INVARIANTS Known TwoRows ItsLine Below Above Colours
PROPERTY Still
CHECK_DEADLOCK FALSE
