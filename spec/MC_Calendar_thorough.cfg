SPECIFICATION Spec
CONSTANTS
  Starts = {1968, 1899, 1999, 2020, 0, 9990, 1582, 2096}
  Span = 1500
  Secs = {0, 1, 43199, 43200, 86399}
  Offsets = {"0", "-5.5", "13.75", "-23.99", "0.0003"}
  Formats = {"%F %T", "%c", "%G-W%V-%u %I:%M:%S%p", "%v%n%r", "%Y %U %a %X", "%j %Y %k:%M:%S", "%A %d %B %C%y %l %M %S %P", "%W %w %Y %H%M%S", "%+"}
INVARIANTS Consecutive Weeks Determined RoundTrip Wins
CHECK_DEADLOCK FALSE
