------------------------------ MODULE PSDisplay -----------------------------
(***************************************************************************)
(* The text forms: debug text of values and the packing visualisation.      *)
(***************************************************************************)
EXTENDS PSSession

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
  IF i > Len(ss) THEN ""
  ELSE (IF i = 1 THEN "" ELSE sep) \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)
ConcatStr(ss) == Join(ss, "")

RECURSIVE Blank(_)
Blank(n) == IF n <= 0 THEN "" ELSE " " \o Blank(n - 1)
RightAlign(s, n) == Blank(n - Len(s)) \o s
LeftAlign(s, n)  == s \o Blank(n - Len(s))

IntText(s, bytes) == IF s = 1 THEN SignedDecText(BytesToBits(bytes)) ELSE DecText(BytesToBits(bytes))

RECURSIVE DebugText(_, _)
DebugText(t, v) ==
  CASE t.k = "bool" -> IF v[1] = 1 THEN "true" ELSE "false"
    [] t.k \in {"int", "sint", "msb", "lsb"} -> IntText(t.s, v)
    [] t.k = "res" -> IF t.v = 1 THEN "Reserved - always 1" ELSE "Reserved - always 0"
    [] t.k = "unit" -> "()"
    [] t.k = "cust" -> "[" \o Join(TLCEval([i \in 1..Len(v) |-> ToString(v[i])]), ", ") \o "]"
    [] t.k = "bytes" -> "[" \o Join(TLCEval([i \in 1..Len(v) |-> ToString(v[i][1])]), ", ") \o "]"
    [] t.k = "enum" ->
         LET name == Enums[t.e].vars[v[1]].name
             text == IF v[1] = 0 THEN "CatchAll(" \o IntText(EnumTab[t.e].s, Tail(v)) \o ")"
                     ELSE IF t.c = 1 THEN "Enum(" \o name \o ")" ELSE name
         IN  text
    [] t.k = "tup" -> "(" \o Join(TLCEval([i \in 1..Len(v) |-> DebugText(t.ts[i], v[i])]), ", ")
                         \o (IF Len(v) = 1 THEN ",)" ELSE ")")
    [] t.k = "vec" -> "[" \o Join(TLCEval([i \in 1..Len(v) |-> DebugText(t.t, v[i])]), ", ") \o "]"
    [] t.k = "ref" ->
         LET F == Structs[t.d].fields
             one(f) == F[f].name \o ": " \o
                       (IF F[f].arr = 0 THEN DebugText(F[f].ty, v[f])
                        ELSE "[" \o Join(TLCEval([e \in 1..F[f].arr |-> DebugText(F[f].ty, v[f][e])]), ", ") \o "]")
         IN  IF Len(F) = 0 THEN Structs[t.d].name
             ELSE Structs[t.d].name \o " { " \o Join(TLCEval([f \in 1..Len(F) |-> one(f)]), ", ") \o " }"

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
HexText(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexDigit[(n \div 16) + 1] \o HexDigit[(n % 16) + 1]
BitText(bits) == ConcatStr(TLCEval([i \in 1..Len(bits) |-> ToString(bits[i])]))

CRLF == "\r\n"
Dump(title, items) == title \o CRLF \o "[" \o Join(items, ", ") \o "]" \o CRLF \o CRLF

FieldName(d, s) ==
  LET f == Structs[d].fields[s.f]
  IN  IF s.e = 0 THEN f.name ELSE f.name \o "[" \o ToString(s.e - 1) \o "]"

RECURSIVE MaxSeq(_, _, _)
MaxSeq(s, i, m) == IF i > Len(s) THEN m ELSE MaxSeq(s, i + 1, Max(m, s[i]))

\* The widest field for which bits are shown.
WIDEST == 33

FieldLines(d, v, bits) ==
  LET ss == Lay[d].slots
      names == TLCEval([i \in 1..Len(ss) |-> FieldName(d, ss[i])])
      nw == MaxSeq(TLCEval([i \in 1..Len(ss) |-> Len(names[i])]), 1, 0) + 1
      bw == MaxSeq(TLCEval([i \in 1..Len(ss) |-> ss[i].w]), 1, 0)
      val(i) == "\"" \o DebugText(ss[i].t, SlotVal(v, ss[i])) \o "\""
      line(i) == IF bw > WIDEST
                 THEN RightAlign(names[i], nw) \o " | " \o val(i) \o CRLF
                 ELSE RightAlign(names[i], nw)
                      \o " | bits " \o RightAlign(ToString(ss[i].s), 3) \o ":"
                      \o LeftAlign(ToString(ss[i].s + ss[i].w - 1), 3)
                      \o " | 0b" \o BitText(SubSeq(bits, ss[i].s + 1, ss[i].s + ss[i].w))
                      \o Blank(bw - ss[i].w) \o " | " \o val(i) \o CRLF
  IN  ConcatStr(TLCEval([i \in 1..Len(ss) |-> line(i)]))

\* fl: which of header, decimal, hexadecimal, binary, fields are on.
\* bs: the packed bytes.
ShowOf(d, v, bs, fl) ==
  LET bits == BytesToBits(bs)
      n == Len(bs)
      on(i, text) == IF fl[i] = 1 THEN text ELSE ""
  IN  on(1, Structs[d].name \o " (" \o ToString(n) \o (IF n = 1 THEN " byte)" ELSE " bytes)") \o CRLF \o CRLF)
      \o on(2, Dump("Decimal", TLCEval([i \in 1..n |-> ToString(bs[i])])))
      \o on(3, Dump("Hex", TLCEval([i \in 1..n |-> "0x" \o HexText(bs[i])])))
      \o on(4, Dump("Binary", TLCEval([i \in 1..n |-> "0b" \o BitText(ByteTable[bs[i]])])))
      \o on(5, FieldLines(d, v, bits))

\* bs: the bytes that packing the current value gives.
PackedNow == BitsToBytes(EncS(T.d, cur))
ShowAllowed(fl, bs, r) == r = Ok(ShowOf(T.d, cur, bs, fl))
Show(fl, r) == ShowAllowed(fl, PackedNow, r) /\ UNCHANGED svars

ShowDebugAllowed(r) == r = Ok(DebugText(T, cur))
ShowDebug(r) == ShowDebugAllowed(r) /\ UNCHANGED svars
=============================================================================
