SPECIFICATION Spec
CONSTANTS Bound = 4
 Ops = 4
 Alphabet = {"a", "(", ")", ":", "\"", " ", "\\"}
INVARIANTS InOrder AllOfIt Before0
PROPERTY Others
CHECK_DEADLOCK FALSE
