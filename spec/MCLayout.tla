------------------------------ MODULE MCLayout ------------------------------
(* Two-bit bytes: every declaration of up to three fields.                  *)
EXTENDS LayoutMachine
P(f, u, a, b) == [f |-> f, u |-> u, a |-> a, b |-> b]
TypesV == {<<[k |-> "bool"], 0>>, <<[k |-> "sint", s |-> 0, n |-> 2, w |-> 3], 0>>,
           <<[k |-> "int", s |-> 0, n |-> 1], 2>>, <<[k |-> "enum", e |-> 1, c |-> 0], 0>>}
PositionsV == {P("none", 1, 0, 0), P("one", 1, 1, 0), P("incl", 1, 2, 4), P("incl", BYTE, 1, 0), P("excl", 1, 4, 6), P("from", 1, 3, 0)}
AttrsV == {<<0, 0>>, <<2, 0>>, <<0, 1>>}
SizesV == {0, 1, 3}
=============================================================================
