SPECIFICATION Spec
CONSTANTS Keys = {"b", "a"}
          Values0 = {"1"}
          Largest = 6
          Sep = "/"
INVARIANTS Complete Addressable Agree Separated InKeyOrder
CHECK_DEADLOCK FALSE
