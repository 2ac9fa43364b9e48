SPECIFICATION Spec
INVARIANTS Pieces Independent Searched
PROPERTY Keeps
CHECK_DEADLOCK FALSE
