SPECIFICATION Spec
CONSTANT Bound = 3
INVARIANTS Braces Parens InOrder Errors Embedded
PROPERTY Monotone
CHECK_DEADLOCK FALSE
