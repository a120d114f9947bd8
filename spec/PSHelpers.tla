------------------------------ MODULE PSHelpers ------------------------------
(***************************************************************************)
(* The small public helpers: size markers (a width in bits and the bytes    *)
(* that hold it), fixed byte arrays as a register, and what errors and      *)
(* reserved values look like when shown.                                    *)
(***************************************************************************)
EXTENDS PSBits

VARIABLE arr
NewArr(n, x) == arr' = Rep(n, x)
Put(i, b)    == i < Len(arr) /\ arr' = [arr EXCEPT ![i + 1] = b]
\* Towards the end, by fewer bytes than there are; zeroes come in.
Shifted(a, k) == Zeros(k) \o SubSeq(a, 1, Len(a) - k)
ShiftBy(k)   == k < Len(arr) /\ arr' = Shifted(arr, k)

\* A marker of n bits: bits, bytes needed; do they fill them?
MarkerBytes(n) == CeilDiv(n, BYTE)
FillsBytes(n) == n % BYTE = 0

ErrorNames == <<"InvalidValue", "BitsError", "BufferTooSmall", "NotImplemented", "InstanceRequiredForSize",
                "MoreThanOneDynamicType", "BufferSizeMismatch", "BufferModMismatch", "SliceIndexingError", "InternalError">>
ErrorFields == [BufferSizeMismatch |-> <<"expected", "actual">>, BufferModMismatch |-> <<"actual_size", "modulo_required">>,
                SliceIndexingError |-> <<"slice_len">>]
ErrorText(v, a, b) ==
  LET n == ErrorNames[v + 1] IN
  IF n \notin DOMAIN ErrorFields THEN n
  ELSE LET f == ErrorFields[n] IN
       n \o " { " \o f[1] \o ": " \o ToString(a) \o (IF Len(f) = 2 THEN ", " \o f[2] \o ": " \o ToString(b) ELSE "") \o " }"
\* Carried as data: the name of a plain error, or the name over the numbers.
Quoted(s) == "\"" \o s \o "\""
ErrorData(v, a, b) ==
  LET n == ErrorNames[v + 1] IN
  IF n \notin DOMAIN ErrorFields THEN Quoted(n)
  ELSE LET f == ErrorFields[n] IN
       "{" \o Quoted(n) \o ":{" \o Quoted(f[1]) \o ":" \o ToString(a)
       \o (IF Len(f) = 2 THEN "," \o Quoted(f[2]) \o ":" \o ToString(b) ELSE "") \o "}}"
ReservedText(x) == "Reserved - always " \o ToString(x)
=============================================================================
