SPECIFICATION Spec
CONSTANTS Bound = 4
 Alphabet = {"a", "(", ")", ":", "\"", "\\", " ", "n", ";", "\n"}
INVARIANTS RoundTrip TextOf Embedded
CHECK_DEADLOCK FALSE
