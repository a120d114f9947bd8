-------------------------------- MODULE PSDoc -------------------------------
(***************************************************************************)
(* The documentation table of a packed structure: its size in bytes, and    *)
(* one row per field or array element, in declaration order, with the first *)
(* and last bit it occupies (most significant bit of the first byte is 0),  *)
(* its name and its declared type.                                          *)
(***************************************************************************)
EXTENDS PSLayout

DocSize(d) == Bytes(Lay[d].bits)

\* The type of an array's element is what is declared; types are compared as
\* source text without blanks (ts: per field of the declaration).
DocRow(d, ts, i) ==
  LET s == Lay[d].slots[i]
      f == Structs[d].fields[s.f]
  IN  [s |-> s.s, e |-> s.s + s.w - 1,
       name |-> IF f.arr = 0 THEN f.name ELSE f.name \o "[" \o ToString(s.e - 1) \o "]",
       type |-> ts[s.f]]
DocRows(d, ts) == [i \in 1..Len(Lay[d].slots) |-> DocRow(d, ts, i)]
=============================================================================
