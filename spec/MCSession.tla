------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* The session explored exhaustively over small structures of three bytes   *)
(* of two bits each: every layout of one field of every kind (at every      *)
(* offset, in both endiannesses, both bit numberings, as arrays and nested) *)
(* and some of the layouts of two fields, written to PS_WORLD by            *)
(* pslib/small.py; every value of them and every buffer.  The properties    *)
(* are stated here independently of the codec: integers by arithmetic, the  *)
(* frame conditions by flipping single bits.                                *)
(***************************************************************************)
EXTENDS PSSession, Json, IOUtils

World == JsonDeserialize(IOEnv.PS_WORLD)
StructsV == World.structs
EnumsV == World.enums
ObjsV == World.objs
P(a, b) == [f |-> "incl", u |-> 1, a |-> a, b |-> b]

(***************************************************************************)
(* All values of a type.                                                    *)
(***************************************************************************)
Raw(n) == [1..n -> Byte]
RECURSIVE ValuesS(_)
LeafValues(t) ==
  CASE t.k = "bool" -> {<<0>>, <<1>>}
    [] t.k \in {"int", "sint"} -> Raw(t.n)
    [] t.k = "enum" -> {<<i>> : i \in 1..Len(EnumTab[t.e].ds)} \cup
                       (IF t.c = 0 THEN {} ELSE {<<0>> \o p : p \in Raw(EnumTab[t.e].n)})
    [] t.k = "res" -> {<<>>}
    [] t.k = "ref" -> ValuesS(t.d)
FieldValues(f) == IF f.arr = 0 THEN LeafValues(f.ty) ELSE [1..f.arr -> LeafValues(f.ty)]
ValuesS(d) ==
  LET F == Structs[d].fields IN
  IF Len(F) = 1 THEN {<<x>> : x \in FieldValues(F[1])}
  ELSE {<<x, y>> : x \in FieldValues(F[1]), y \in FieldValues(F[2])}

(***************************************************************************)
(* The session.  Three steps suffice to reach everything that can be        *)
(* observed, as no operation depends on more than value and arguments.      *)
(***************************************************************************)
VARIABLE phase
D == T.d
mvars == <<obj, cur, buf, phase>>
Init == SessionInit /\ phase = "start"
Choose == /\ phase = "start" /\ phase' = "chosen"
          /\ \E o \in 1..Len(Objs) : obj' = o
          /\ UNCHANGED <<cur, buf>>
Begin == /\ phase = "chosen"
         /\ \E v \in ValuesS(D) : New(obj, v, Ok(Store(T, v)))
         /\ phase' = "new"
DoPack == phase = "new" /\ Pack(Ok(BitsToBytes(EncS(D, cur)))) /\ phase' = "packed"
Receive == /\ phase = "chosen"
           /\ \E b \in Raw(Structs[D].sz) :
                /\ UNCHANGED obj /\ buf' = b /\ phase' = "received"
                /\ cur' = LET r == DecS(D, BytesToBits(b)) IN IF r.ok THEN <<r.v>> ELSE <<>>
Next == Choose \/ Begin \/ DoPack \/ Receive
Spec == Init /\ [][Next]_mvars

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
Slots == Lay[D].slots
BitsOut == BytesToBits(buf)

\* C01: what was packed unpacks to the value, normalised; packing never fails.
RoundTrip == phase = "packed" => LET r == DecS(D, BitsOut) IN
               r.ok /\ (LosslessS(D) => EqS(D, NormS(D, cur), r.v))
\* C01: what was unpacked packs to the same bits, except unowned and reserved ones,
\* and unpacking that gives the same value again.
Canonical == (phase = "received" /\ cur # <<>>) =>
  LET out == EncS(D, cur[1])
      k == KindS(D)
  IN  /\ \A b \in 1..Len(out) : out[b] = IF k[b] = 2 THEN BitsOut[b] ELSE k[b]
      /\ DecS(D, out) = [ok |-> TRUE, v |-> cur[1], e |-> {}]
\* C02: nobody's bits are zero.
Frame == phase = "packed" => \A b \in 1..Len(BitsOut) :
  (\A i \in 1..Len(Slots) : b - 1 \notin Slots[i].s..(Slots[i].s + Slots[i].w - 1)) => BitsOut[b] = 0
\* C02, C14: replacing one element's value changes no bit outside the element's range.
Outside(s, x, y) == \A b \in 1..Len(x) : (b <= s.s \/ b > s.s + s.w) => x[b] = y[b]
Isolated == (phase = "new") => \A i \in 1..Len(Slots) :
  LET s == Slots[i]
      x == EncS(D, cur)
  IN  \A y \in LeafValues(s.t) :
        LET v == [cur EXCEPT ![s.f] = IF s.e = 0 THEN y ELSE [@ EXCEPT ![s.e] = y]] IN Outside(s, x, EncS(D, v))

\* C03: flipping a bit outside a field changes nothing about it; flipping one of an
\* integer's changes the integer.
SlotRes(i, bits) ==
  LET s == Slots[i] b == SubSeq(bits, s.s + 1, s.s + s.w) IN
  IF s.t.k = "ref" THEN DecS(s.t.d, ZExt(b, Bytes(Lay[s.t.d].bits) * BYTE)) ELSE LeafDec(s.t, s.w, s.lsb, b)
Flip(bits, b) == [bits EXCEPT ![b] = 1 - @]
OwnBitsOnly == phase = "received" => \A b \in 1..Len(BitsOut) :
  LET r == DecS(D, Flip(BitsOut, b)) IN
  \A i \in 1..Len(Slots) :
    LET s == Slots[i]
        mine == b - 1 \in s.s..(s.s + s.w - 1)
        now(v) == IF s.e = 0 THEN v[s.f] ELSE v[s.f][s.e]
    IN  /\ (~mine /\ cur # <<>> /\ r.ok) => now(cur[1]) = now(r.v)
        /\ (mine /\ cur # <<>> /\ r.ok /\ s.t.k \in {"int", "sint"}) => now(cur[1]) # now(r.v)
        /\ (mine /\ s.t.k = "res") => (r.ok <=> cur # <<>>) /\ (r.ok => r.v = cur[1])
\* C03, C12: a bit without owner never decides anything.
UnownedIgnored == phase = "received" => \A b \in 1..Len(BitsOut) :
  Lay[D].own[b][1] = 0 => DecS(D, Flip(BitsOut, b)) = DecS(D, BitsOut)

\* C07, C08: integers by arithmetic.
RECURSIVE ValB(_, _)
ValB(x, i) == IF i = 0 THEN 0 ELSE ValB(x, i - 1) * Pow2(BYTE) + x[i]
RECURSIVE ValBits(_, _)
ValBits(x, i) == IF i = 0 THEN 0 ELSE 2 * ValBits(x, i - 1) + x[i]
Num(bits) == ValBits(bits, Len(bits))
RECURSIVE LittleEndian(_, _)
\* The number that little-endian bits denote: whole bytes from the low end, then the rest.
LittleEndian(bits, w) ==
  IF Len(bits) <= BYTE THEN Num(bits)
  ELSE LET rest == SubSeq(bits, BYTE + 1, Len(bits)) IN Num(SubSeq(bits, 1, BYTE)) + Pow2(BYTE) * LittleEndian(rest, w)
Signed(s, w, n) == IF s = 1 /\ n >= Pow2(w - 1) THEN n - Pow2(w) ELSE n
Native(t, x) == Signed(t.s, t.n * BYTE, ValB(x, Len(x)))
ByArithmetic == (phase = "received" /\ cur # <<>>) => \A i \in 1..Len(Slots) :
  LET s == Slots[i]
      b == SubSeq(BitsOut, s.s + 1, s.s + s.w)
      n == IF s.lsb THEN LittleEndian(b, s.w) ELSE Num(b)
  IN  s.t.k \in {"int", "sint"} => Native(s.t, SlotVal(cur[1], s)) = Signed(s.t.s, s.w, n)
PackedByArithmetic == phase = "packed" => \A i \in 1..Len(Slots) :
  LET s == Slots[i]
      b == SubSeq(BitsOut, s.s + 1, s.s + s.w)
      n == IF s.lsb THEN LittleEndian(b, s.w) ELSE Num(b)
  IN  s.t.k \in {"int", "sint"} => (Native(s.t, SlotVal(cur, s)) - n) % Pow2(s.w) = 0

\* C12: unpacking succeeds exactly when every enum and boolean pattern is a defined one.
RECURSIVE DefinedS(_, _)
DefinedS(d, bits) ==
  \A i \in 1..Len(Lay[d].slots) :
    LET s == Lay[d].slots[i]
        b == SubSeq(bits, s.s + 1, s.s + s.w)
        n == IF s.lsb THEN LittleEndian(b, s.w) ELSE Num(b)
    IN  CASE s.t.k = "bool" -> n \in {0, 1}
          [] s.t.k = "enum" -> s.t.c = 1 \/ (IF s.t.e = 1 THEN n \in {0, 2, 3} ELSE Signed(1, s.w, n) \in {-3, 2})
          [] s.t.k = "ref"  -> DefinedS(s.t.d, ZExt(b, Bytes(Lay[s.t.d].bits) * BYTE))
          [] OTHER -> TRUE
Validity == phase = "received" => ((cur # <<>>) <=> DefinedS(D, BitsOut))

\* C13: reserved bits are fixed in everything that is packed.
Reserved == (phase = "packed" \/ (phase = "received" /\ cur # <<>>)) =>
  LET out == IF phase = "packed" THEN BitsOut ELSE EncS(D, cur[1]) IN
  \A i \in 1..Len(Slots) : Slots[i].t.k = "res" => \A b \in 1..Slots[i].w : out[Slots[i].s + b] = Slots[i].t.v

\* C04: the mirrored declaration packs and unpacks the same.
MirrorOf(d) ==
  [d EXCEPT !.num = IF @ = "msb0" THEN "lsb0" ELSE "msb0",
            !.fields = [i \in 1..Len(d.fields) |->
               [d.fields[i] EXCEPT !.pos = P(d.sz * BYTE - 1 - PosHi(d.fields[i].pos), d.sz * BYTE - 1 - PosLo(d.fields[i].pos))]]]
Mirrored == phase = "chosen" => LET m == Elab(MirrorOf(Structs[D]), Lay) IN m.v = "ok" /\ m.slots = Lay[D].slots /\ m.own = Lay[D].own

\* The image of huge structures by its one bits is the same image.
OneBits == {b - 1 : b \in {c \in 1..Len(BitsOut) : BitsOut[c] = 1}}
SparseIsDense == /\ phase = "packed" => SparseS(D, cur) = OneBits
                 /\ phase = "received" => SparseDecS(D, OneBits) = DecS(D, BitsOut)

\* C15, C22: only slices of the packed size are accepted, and results do not depend on what was there.
Sizes1 == phase = "packed" => /\ Len(buf) = SizeOf(T, cur) /\ Len(buf) = StaticSize(T) /\ Len(buf) = Bytes(BitsOf(T))
                              /\ \A n \in 0..(Len(buf) + 1) :
                                   (\E r \in {Ok(<<>>)} : PackIntoAllowed(Zeros(n), buf, r)) <=> n = Len(buf)
=============================================================================
