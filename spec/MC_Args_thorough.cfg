SPECIFICATION Spec
CONSTANTS Longest = 4
INVARIANTS Decides Taken Interleaves
CHECK_DEADLOCK FALSE
