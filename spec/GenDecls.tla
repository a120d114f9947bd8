------------------------------- MODULE GenDecls ------------------------------
(* Eight-bit bytes: declarations of one and two fields, printed with their    *)
(* verdicts for the real compiler to agree with.                             *)
EXTENDS LayoutMachine
P(f, u, a, b) == [f |-> f, u |-> u, a |-> a, b |-> b]
TypesV == {<<[k |-> "bool"], 0>>, <<[k |-> "bool"], 3>>,
           <<[k |-> "sint", s |-> 0, n |-> 1, w |-> 3], 0>>, <<[k |-> "sint", s |-> 1, n |-> 2, w |-> 9], 0>>,
           <<[k |-> "int", s |-> 0, n |-> 1], 0>>, <<[k |-> "int", s |-> 0, n |-> 2], 0>>,
           <<[k |-> "int", s |-> 0, n |-> 1], 2>>, <<[k |-> "enum", e |-> 1, c |-> 0], 0>>}
PositionsV == {P("none", 1, 0, 0), P("one", 1, 7, 0), P("incl", 1, 0, 7), P("incl", 1, 15, 7), P("incl", 1, 6, 8),
               P("incl", BYTE, 1, 0), P("excl", 1, 3, 7), P("from", 1, 4, 0), P("from", BYTE, 1, 0)}
AttrsV == {<<0, 0>>, <<9, 0>>, <<0, 4>>}
SizesV == {0, 1, 2}
=============================================================================
