SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Alphabet = {"a", "1", ":", "(", ")", "\"", "\\", ";", "\n", " ", "E"}
INVARIANTS Tiling Complete AcceptsExactly Mirrors Places ErrorPlace
CHECK_DEADLOCK FALSE
