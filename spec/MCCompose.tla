------------------------------ MODULE MCCompose ------------------------------
(***************************************************************************)
(* The slice interface explored exhaustively over two-bit bytes: tuples of  *)
(* two and three members, vectors, and one more level of nesting, put to    *)
(* every byte string up to MaxLen.  What composition means is stated here   *)
(* as a relation (a byte string reads as a value when some way of cutting   *)
(* it up does), against which the computed Decode and Image are compared.   *)
(***************************************************************************)
EXTENDS PSSession

CONSTANTS MaxLen, Deep

Fld(n, t, a, b) == [name |-> n, ty |-> t, arr |-> 0, pos |-> [f |-> "incl", u |-> 1, a |-> a, b |-> b],
                    szn |-> 0, szu |-> 1, esn |-> 0, esu |-> 1, end |-> "none"]
\* Three bits in two bytes: an enum of values 0, 2, 3 and a flag.
StructsV == << [name |-> "S", sz |-> 2, num |-> "msb0", end |-> "none",
                fields |-> << Fld("a", [k |-> "enum", e |-> 1, c |-> 0], 0, 1), Fld("b", [k |-> "bool"], 3, 3) >>] >>
EnumsV == << [name |-> "E", ty |-> "", vars |-> << [name |-> "A", d |-> <<0, 0, 0, 0, 0, 0, 0, 0, 2>>, sfx |-> ""],
                                                   [name |-> "B", d |-> <<>>, sfx |-> ""],
                                                   [name |-> "C", d |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, sfx |-> ""] >>] >>
ObjsV == <<>>

Bool == [k |-> "bool"]
U8 == [k |-> "int", s |-> 0, n |-> 1]
Wrap(k, s, w) == [k |-> k, s |-> s, n |-> IF w <= BYTE THEN 1 ELSE 2, w |-> w]
Leaves == {Bool, U8, [k |-> "bytes", n |-> 2], [k |-> "unit"], [k |-> "cust", n |-> 1], [k |-> "ref", d |-> 1],
           [k |-> "res", v |-> 1, w |-> 3], Wrap("msb", 1, 1), Wrap("lsb", 0, 3)}
Few == {Bool, [k |-> "unit"], [k |-> "cust", n |-> 1], [k |-> "bytes", n |-> 2], Wrap("lsb", 1, 3)}
Vec(t) == [k |-> "vec", t |-> t]
Tup(ts) == [k |-> "tup", ts |-> ts]
Vecs(S) == {Vec(t) : t \in {x \in S : StaticSize(x) > 0}}
Pairs(S) == {Tup(<<x, y>>) : x \in S, y \in S}
Static(S) == {t \in S : ~IsDynamic(t)}
M == Leaves \cup Vecs({Bool, [k |-> "cust", n |-> 1], [k |-> "bytes", n |-> 2]})
N == Few \cup {Vec(Bool), Vec([k |-> "bytes", n |-> 2])}
Flat == Leaves \cup Vecs(Leaves) \cup Pairs(M)
Nested == {Tup(<<x, y, z>>) : x \in N, y \in N, z \in N}
          \cup Vecs(Pairs(Few))
          \cup {Tup(<<x, y>>) : x \in Pairs({Bool, Vec([k |-> "cust", n |-> 1]), [k |-> "bytes", n |-> 2]}), y \in N}
          \cup {Tup(<<y, x>>) : x \in Pairs({Bool, Vec([k |-> "cust", n |-> 1]), [k |-> "bytes", n |-> 2]}), y \in N}
Types == IF Deep THEN Flat \cup Nested ELSE Flat

VARIABLES rt, bytes, phase
cvars == <<obj, cur, buf, rt, bytes, phase>>
Init == SessionInit /\ rt = [k |-> "unit"] /\ bytes = <<>> /\ phase = "start"
Choose == phase = "start" /\ phase' = "chosen" /\ rt' \in Types /\ UNCHANGED <<obj, cur, buf, bytes>>
Feed == /\ phase \in {"chosen", "fed"} /\ Len(bytes) < MaxLen
        /\ phase' = "fed" /\ \E b \in Byte : bytes' = Append(bytes, b)
        /\ UNCHANGED <<obj, cur, buf, rt>>
Next == Choose \/ Feed
Spec == Init /\ [][Next]_cvars

(***************************************************************************)
(* The relation: all values some division of the input reads as, and        *)
(* whether some division has acceptable lengths.                            *)
(***************************************************************************)
RECURSIVE Readings(_, _)
RECURSIVE ReadTup(_, _, _)
RECURSIVE ReadVec(_, _)
\* Values of members i.. that the bytes read as.
ReadTup(ts, i, b) ==
  IF i > Len(ts) THEN IF b = <<>> THEN {<<>>} ELSE {}
  ELSE UNION {{<<h>> \o r : h \in Readings(ts[i], SubSeq(b, 1, n)), r \in ReadTup(ts, i + 1, SubSeq(b, n + 1, Len(b)))}
              : n \in 0..Len(b)}
ReadVec(t, b) ==
  IF b = <<>> THEN {<<>>}
  ELSE UNION {{<<h>> \o r : h \in Readings(t, SubSeq(b, 1, n)), r \in ReadVec(t, SubSeq(b, n + 1, Len(b)))} : n \in 1..Len(b)}
Readings(t, b) ==
  CASE t.k = "tup" -> ReadTup(t.ts, 1, b)
    [] t.k = "vec" -> ReadVec(t.t, b)
    [] OTHER -> Decode(t, b).v

RECURSIVE Fits(_, _)
\* Could a value of this type have this many bytes?
Fits(t, n) ==
  CASE t.k = "tup" -> IF t.ts = <<>> THEN n = 0
                      ELSE \E m \in 0..n : Fits(Head(t.ts), m) /\ Fits(Tup(Tail(t.ts)), n - m)
    [] t.k = "vec" -> n = 0 \/ \E m \in 1..n : Fits(t.t, m) /\ Fits(t, n - m)
    [] OTHER -> n = CeilDiv(BitsOf(t), BYTE)

RECURSIVE Dynamics(_)
\* How often is a length open?  (tuple with more than one such member: anywhere inside)
Dynamics(t) == CASE t.k = "vec" -> 1
                 [] t.k = "tup" -> SumSeq([i \in 1..Len(t.ts) |-> Min(1, Dynamics(t.ts[i]))], 1)
                 [] OTHER -> 0
RECURSIVE Ambiguous(_)
Ambiguous(t) == CASE t.k = "tup" -> Dynamics(t) > 1 \/ \E i \in 1..Len(t.ts) : Ambiguous(t.ts[i])
                  [] t.k = "vec" -> Ambiguous(t.t)
                  [] OTHER -> FALSE

R == Decode(rt, bytes)
Judged == phase # "start"
Mismatch(e) == e[1] \in {"BufferSizeMismatch", "BufferModMismatch"}

Exclusive == Judged => (R.v = {}) # (R.e = {})
\* C16, C17: decoding is reading.
Reads == (Judged /\ ~Ambiguous(rt)) => R.v = Readings(rt, bytes)
\* C15, C16, C17: complaints about lengths are made exactly when no value has this length.
Lengths == (Judged /\ ~Ambiguous(rt)) =>
  /\ (Fits(rt, Len(bytes)) => \A e \in R.e : ~Mismatch(e))
  /\ (~Fits(rt, Len(bytes)) => R.v = {} /\ \E e \in R.e : Mismatch(e))
\* ... and say what was wrong.
Reports == Judged => \A e \in R.e :
  /\ e[1] = "BufferSizeMismatch" => e[2] # e[3] /\ e[3] <= Len(bytes) /\ (~IsDynamic(rt) => e[2] = StaticSize(rt) /\ e[3] = Len(bytes))
  /\ e[1] = "BufferModMismatch" => e[2] % e[3] # 0 /\ e[2] <= Len(bytes)
\* C16: more than one dynamic member.
TwoDynamic == (Judged /\ rt.k = "tup" /\ Dynamics(rt) > 1) => R.e = {Err("MoreThanOneDynamicType")}
\* C01, C15, C22: what was read packs back, to the same length.
Back == Judged => \A v \in R.v :
  LET img == Image(rt, v)
      out == BitsToBytes([i \in 1..Len(img) |-> IF img[i] = 2 THEN 1 ELSE img[i]])
  IN  /\ SizeOf(rt, v) = Len(bytes)
      /\ Len(img) = Len(bytes) * BYTE
      /\ Decode(rt, out) = R
      /\ Store(rt, v) = v
      /\ ~IsDynamic(rt) => StaticSize(rt) = Len(bytes)
\* Members are packed independently of each other, one after the other.
Independent == (Judged /\ rt.k = "tup") => \A v \in R.v :
  \A i \in 1..Len(rt.ts) :
    LET before == SumSeq([j \in 1..(i - 1) |-> SizeOf(rt.ts[j], v[j])], 1) * BYTE
        img == Image(rt, v)
    IN  SubSeq(img, before + 1, before + SizeOf(rt.ts[i], v[i]) * BYTE) = Image(rt.ts[i], v[i])
\* Refusal of a member is refusal of the whole.
Refusal == Judged => \A v \in R.v :
  Refuses(rt, v) <=> (CASE rt.k = "tup" -> \E i \in 1..Len(v) : Refuses(rt.ts[i], v[i])
                        [] rt.k = "vec" -> \E i \in 1..Len(v) : Refuses(rt.t, v[i])
                        [] rt.k = "cust" -> bytes[1] = 2
                        [] OTHER -> FALSE)
=============================================================================
