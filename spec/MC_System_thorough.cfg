SPECIFICATION Spec
CONSTANTS Pieces = {"(p", ")", "(%do ", "(%define x", " a", " %x", " :k", "(%log ", "(%include q)", "(%include r)", "(%include s)", "\"", "\n"}
          Longest = 4
          Formats = {"sexp", "text", "html", "xml!", "css"}
INVARIANTS Located Shown0 Result0 OneStep
PROPERTY Terminates
CHECK_DEADLOCK FALSE
