SPECIFICATION Spec
CONSTANTS Texts = {"a", "é "}
          Refs = {"", "0", "1", "n", "2"}
          Fills0 = {"", "*", "0"}
          Aligns0 = {"", "<", "^", ">"}
          Widths = {"", "4", "5"}
          Precs = {"", "0", "2"}
          Args0 <- ArgsThorough
          Most = 2
INVARIANTS Decided Fills Unused Balanced
CHECK_DEADLOCK FALSE
