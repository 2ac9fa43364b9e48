SPECIFICATION Spec
CONSTANTS Top = 1
          Depth = 2
          Kids = 1
          Ends0 = {""}
INVARIANTS Balanced Escaped Placed
PROPERTY Monotone
CHECK_DEADLOCK FALSE
