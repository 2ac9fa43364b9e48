SPECIFICATION Spec
CONSTANT Bound = 5
INVARIANTS Braces Parens InOrder Errors Embedded
PROPERTY Monotone
CHECK_DEADLOCK FALSE
