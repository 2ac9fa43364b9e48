SPECIFICATION Spec
INVARIANTS Law Again
CONSTANTS
  Pre = {"", "(%define x 1)(%define (f p) (r %p))", "(%define (x) b %y)(%define y 2 (3))(%define f q)", "(%define (f &x) %x)(%define x (a :k 4))", "(%define x (%log d) 5)(%define (y) %x %x)(%define (f a b) %b %a)", "(%define (f x) (%match %x ((a b) %b) (() no) (u %u)))(%define (x) %y)"}
  Pool = {"1", "s", "(1 (2))", "(a :k 3)", "()", "'q r'", "((1) b)"}
  Bodies = {"%x", "(%f %x)", "(%log %x)", "(%define x 9)", "u", "(u :k %x)", "()", "(%define (f) %x)", "(%do %x (%f u))", "(%ifdef y %y)", "(%nope)", "(%define y %x)", "(%log a (%f %x))", "(u t %x)", "(%f (%f %x))", "(%match %x ((x y) %y) (a %a) (_ %x))", "(%for x in (1 (2)) (%f %x))"}
  Most = 3
CHECK_DEADLOCK FALSE
