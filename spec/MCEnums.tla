------------------------------- MODULE MCEnums ------------------------------
\* Two-bit bytes: native types of 2, 4, 8 and 16 bits, boundaries of all of them.
EXTENDS EnumMachine
GivensV == {Zeros(WideBits)} \cup UNION {Around(k) : k \in {0, 1, 2, 3, 4, 7, 8, 15}}
TypesV == {""}
=============================================================================
