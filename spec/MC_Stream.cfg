SPECIFICATION Spec
CONSTANTS Bound = 3
 Ops = 4
 Alphabet = {"a", "(", ")", ":", "\"", " ", "\\"}
INVARIANTS InOrder AllOfIt Before0
PROPERTY Others
CHECK_DEADLOCK FALSE
