SPECIFICATION Spec
CONSTANTS Args0 = {"--sexp", "--html", "--nodoc", "-", "-v", "-Id", "-Ie", "good", "fail", "dir", "none", "--oops"}
          Longest = 3
INVARIANTS Exclusive Separate Mistake NoTarget
PROPERTY Terminates
CHECK_DEADLOCK FALSE
