SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Alphabet = {"a", ":", "(", ")", "\"", "\\", ";", "\n", " ", "E"}
INVARIANTS Tiling Complete AcceptsExactly Mirrors Places ErrorPlace
CHECK_DEADLOCK FALSE
