SPECIFICATION Spec
CONSTANTS
  Bodies = {"(%embed q)(%for x in (1 2) %x)(%log (%f 1))", "(%define x 1)(p %x)", "(%ifdef x yes no)(%log a)%x", "(%include q)(%log %x)(%define (f a) %a)"}
  Most = 3
  Rounds = 4
INVARIANT Independent
INVARIANT Repeats
PROPERTY Separate
CHECK_DEADLOCK FALSE
