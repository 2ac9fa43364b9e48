SPECIFICATION Spec
CONSTANTS Bound = 6
 Alphabet = {"a", "(", ")", ":", "\"", "\\", " ", "n", ";", "\n"}
INVARIANTS RoundTrip TextOf Embedded
CHECK_DEADLOCK FALSE
