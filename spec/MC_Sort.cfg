SPECIFICATION Spec
CONSTANTS Keys = {"1", "2", "10", "1.0", "-1", "1e1", "", "a", "ab", "B", "-", "-0", "0", "nan"}
          Longest = 3
INVARIANTS Permutation Ordered Stable NumbersFirst Total Idempotent
CHECK_DEADLOCK FALSE
