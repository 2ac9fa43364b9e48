SPECIFICATION Spec
CONSTANTS
  Starts = {1968, 1999, 2020, 0}
  Span = 380
  Secs = {0, 86399}
  Offsets = {"-5.5", "13.75"}
  Formats = {"%F %T", "%c", "%G-W%V-%u %I:%M:%S%p", "%v%n%r", "%Y %U %a %X"}
INVARIANTS Consecutive Weeks Determined RoundTrip Wins
CHECK_DEADLOCK FALSE
