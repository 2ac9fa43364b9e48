SPECIFICATION Spec
INVARIANTS Identified Values0
PROPERTIES Identity Scoped Grows Expanded
CHECK_DEADLOCK FALSE
