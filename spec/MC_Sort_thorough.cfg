SPECIFICATION Spec
CONSTANTS Keys = {"1", "2", "10", "1.0", "-1", "1e1", "", "a", "ab", "B", "-", "-0", "0", "nan", "inf", "-inf", ".5", "-1.5", "+1", "01", "1 ", "12", "Z"}
          Longest = 3
INVARIANTS Permutation Ordered Stable NumbersFirst Total Idempotent
CHECK_DEADLOCK FALSE
