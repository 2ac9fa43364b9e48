SPECIFICATION Spec
CONSTANTS Top = 2
          Depth = 1
          Kids = 2
          Ends0 = {"", " "}
INVARIANTS Balanced Escaped Placed
PROPERTY Monotone
CHECK_DEADLOCK FALSE
