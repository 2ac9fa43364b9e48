SPECIFICATION Spec
CONSTANTS
  Bodies = {"(%define x 1)(p %x)", "(%ifdef x yes no)(%log a)%x", "(%include q)(%log %x)(%define (f a) %a)"}
  Most = 2
  Rounds = 3
INVARIANT Independent
INVARIANT Repeats
PROPERTY Separate
CHECK_DEADLOCK FALSE
