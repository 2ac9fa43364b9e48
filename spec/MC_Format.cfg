SPECIFICATION Spec
CONSTANTS Texts = {"a"}
          Refs = {"", "0", "1", "n"}
          Fills0 = {"", "*"}
          Aligns0 = {"", "<", "^", ">"}
          Widths = {"", "5"}
          Precs = {"", "1"}
          Args0 <- ArgsQuick
          Most = 2
INVARIANTS Decided Fills Unused Balanced
CHECK_DEADLOCK FALSE
