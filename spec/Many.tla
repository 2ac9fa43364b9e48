------------------------------- MODULE Many --------------------------------
(* Several documents in one process, or in several.  Each is made, expanded, *)
(* generated and dropped on its own; what becomes of it is decided by its    *)
(* text and its surroundings alone.                                          *)
EXTENDS System

\* The expansion of a document, form by form.
Expansion(forms, x) == LET r == ExpNodes(forms, Fresh(x)) IN [ok |-> r.ok, out |-> IF r.ok THEN r.out ELSE <<>>, log |-> r.st.log]

=============================================================================
