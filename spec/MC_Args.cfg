SPECIFICATION Spec
CONSTANTS Longest = 3
INVARIANTS Decides Taken Interleaves
CHECK_DEADLOCK FALSE
