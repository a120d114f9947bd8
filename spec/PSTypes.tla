------------------------------- MODULE PSTypes ------------------------------
(***************************************************************************)
(* The declarations the system works on (structs and enums, as data) and    *)
(* the leaf types.  Structs and Enums are constants: sequences of           *)
(* declaration records, referring to each other by index, a struct only to  *)
(* earlier ones.                                                            *)
(*                                                                          *)
(* Type terms:                                                              *)
(*   [k |-> "bool"]                                                         *)
(*   [k |-> "int",  s |-> 0|1, n |-> bytes]            native integers      *)
(*   [k |-> "sint", s |-> 0|1, n |-> bytes, w |-> bits] width-limited ones  *)
(*   [k |-> "enum", e |-> index, c |-> 0|1]   c = 1: wrapped in a catch-all *)
(*   [k |-> "res",  v |-> 0|1, w |-> bits]             reserved bits        *)
(*   [k |-> "ref",  d |-> index]                       nested struct        *)
(*   [k |-> "cust", n |-> bytes]      a type whose codec the user wrote: its  *)
(*        bytes, except that it refuses to pack when the first one is 238     *)
(*        and to unpack when it is 221                                        *)
(*                                                                          *)
(* Values: bool <<b>>; integers and custom types their bytes; enum <<variant index>> or      *)
(* <<0, b1, ..>> for an unknown discriminant kept by a catch-all; reserved  *)
(* <<>>; struct the sequence of its fields' values; array the sequence of   *)
(* its elements' values.                                                    *)
(***************************************************************************)
EXTENDS PSBits

CONSTANTS Structs, Enums

(***************************************************************************)
(* Enums: every variant is given its discriminant as a wide bit vector.     *)
(***************************************************************************)
WIDE == 9                                   \* bytes; covers 0..2^64-1 and -2^63..
WideBits == WIDE * BYTE

\* The language's rule: a given discriminant is itself, the first one is 0,
\* any other is its predecessor plus one.
RECURSIVE DiscsUpTo(_, _)
DiscsUpTo(vs, n) ==
  IF n = 0 THEN <<>>
  ELSE LET p == DiscsUpTo(vs, n - 1)
           d == IF vs[n].d # <<>> THEN BytesToBits(vs[n].d)
                ELSE IF n = 1 THEN Zeros(WideBits) ELSE Inc(p[n - 1])
       IN  Append(p, d)

FitsUnsigned(d, w) == \A i \in 1..(Len(d) - w) : d[i] = 0
FitsSigned(d, w)   == \A i \in 1..(Len(d) - w) : d[i] = d[Len(d) - w + 1]
FitsIn(d, s, w)    == IF s = 1 THEN FitsSigned(d, w) ELSE FitsUnsigned(d, w)

\* Native integer sizes in bytes, and the widths each native type serves.
Natives == <<1, 2, 4, 8>>
NativeFor(n, w) == \E i \in 1..4 : Natives[i] = n /\ w <= n * BYTE /\ w >= 1
                                   /\ (i > 1 => w > Natives[i - 1] * BYTE)

Narrowest(ds, s) ==
  LET ok(i) == \A j \in 1..Len(ds) : FitsIn(ds[j], s, Natives[i] * BYTE)
  IN  IF \E i \in 1..4 : ok(i)
      THEN Natives[CHOOSE i \in 1..4 : ok(i) /\ \A j \in 1..(i - 1) : ~ok(j)]
      ELSE 0

TypeNames == [u8 |-> <<0, 1>>, i8 |-> <<1, 1>>, u16 |-> <<0, 2>>, i16 |-> <<1, 2>>,
              u32 |-> <<0, 4>>, i32 |-> <<1, 4>>, u64 |-> <<0, 8>>, i64 |-> <<1, 8>>]

\* The type that suffixed literals of a declaration name: "" when there is
\* none, "?" when they disagree.
Suffix(en) ==
  LET S == {en.vars[i].sfx : i \in 1..Len(en.vars)} \ {""}
  IN  IF S = {} THEN "" ELSE IF \E x \in S : S = {x} THEN CHOOSE x \in S : TRUE ELSE "?"

\* The primitive type: the forced one, that of a literal's suffix, or the
\* narrowest that holds every discriminant.
EnumInfo(en) ==
  LET ds  == DiscsUpTo(en.vars, Len(en.vars))
      neg == \E i \in 1..Len(ds) : ds[i][1] = 1
      ty  == IF en.ty # "" THEN en.ty ELSE Suffix(en)
      s   == IF ty \notin {"", "?"} THEN TypeNames[ty][1] ELSE IF neg THEN 1 ELSE 0
      n   == IF ty \notin {"", "?"} THEN TypeNames[ty][2] ELSE Narrowest(ds, s)
  IN  [ds |-> ds, s |-> s, n |-> n,
       soft |-> ty = "?",
       fits |-> n > 0 /\ \A i \in 1..Len(ds) : FitsIn(ds[i], s, n * BYTE),
       nodup |-> \A i, j \in 1..Len(ds) : ds[i] = ds[j] => i = j]
EnumTab == LET es == TLCEval(Enums) IN TLCEval([i \in 1..Len(es) |-> EnumInfo(es[i])])

\* The discriminant of a value of an enum, as the primitive's bits.
EnumBits(e, v) ==
  IF v[1] = 0 THEN BytesToBits(Tail(v))
  ELSE LowBits(EnumTab[e].ds[v[1]], EnumTab[e].n * BYTE)

\* The value that a primitive's bits denote: variant index, or 0.
VariantOf(e, bits) ==
  LET wide == IF EnumTab[e].s = 1 THEN SExt(bits, WideBits) ELSE ZExt(bits, WideBits)
      hit  == {i \in 1..Len(EnumTab[e].ds) : EnumTab[e].ds[i] = wide}
  IN  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j

(***************************************************************************)
(* Leaf codecs.  LeafEnc gives exactly w bits; LeafDec inverts it and can   *)
(* fail (an undefined boolean or enum pattern).                             *)
(***************************************************************************)
Normal(s, n, w, bytes) ==           \* the w-bit integer a native value becomes
  LET low == LowBits(BytesToBits(bytes), w)
  IN  BitsToBytes(IF s = 1 THEN SExt(low, n * BYTE) ELSE ZExt(low, n * BYTE))

IntEnc(w, lsb, bytes) ==
  LET low == LowBits(BytesToBits(bytes), w) IN IF lsb THEN EncLsb(low) ELSE low
IntDec(s, n, lsb, bits) ==
  LET low == IF lsb THEN DecLsb(bits) ELSE bits
  IN  BitsToBytes(IF s = 1 THEN SExt(low, n * BYTE) ELSE ZExt(low, n * BYTE))

LeafEnc(t, w, lsb, v) ==
  CASE t.k = "bool" -> ZExt(v, w)
    [] t.k = "int"  -> IntEnc(w, lsb, v)
    [] t.k = "sint" -> IntEnc(w, lsb, v)
    [] t.k = "res"  -> Rep(w, t.v)
    [] t.k = "enum" -> LET b == LowBits(EnumBits(t.e, v), w)
                       IN  IF lsb THEN EncLsb(b) ELSE b

InvalidValue == <<"InvalidValue">>
Bad == [ok |-> FALSE, v |-> <<>>, e |-> {InvalidValue}]
BadWith(es) == [ok |-> FALSE, v |-> <<>>, e |-> es]
Good(v) == [ok |-> TRUE, v |-> v, e |-> {}]

\* The user-written codec's refusals.
NoPack == <<"BitsError">>
NoUnpack == <<"NotImplemented">>
CustRefuses(v) == v[1] = 238 % Pow2(BYTE)
CustDec(bytes) == IF bytes[1] = 221 % Pow2(BYTE) THEN BadWith({NoUnpack}) ELSE Good(bytes)

LeafDec(t, w, lsb, bits) ==
  CASE t.k = "bool" -> IF AllBits(SubSeq(bits, 1, w - 1), 0) THEN Good(<<bits[w]>>) ELSE Bad
    [] t.k = "int"  -> Good(IntDec(t.s, t.n, lsb, bits))
    [] t.k = "sint" -> Good(IntDec(t.s, t.n, lsb, bits))
    [] t.k = "res"  -> Good(<<>>)
    [] t.k = "enum" -> LET prim == IntDec(EnumTab[t.e].s, EnumTab[t.e].n, lsb, bits)
                           i == VariantOf(t.e, BytesToBits(prim))
                       IN  IF i > 0 THEN Good(<<i>>)
                           ELSE IF t.c = 1 THEN Good(<<0>> \o prim)
                           ELSE Bad

(***************************************************************************)
(* What a value becomes when it is stored: width-limited integers are       *)
(* normalised, everything else is unchanged.                                *)
(***************************************************************************)
LeafStore(t, v) ==
  IF t.k = "sint" THEN Normal(t.s, t.n, t.w, v) ELSE v

\* Values are equal up to the catch-all's rule: by primitive value.
LeafEq(t, a, b) ==
  IF t.k = "enum" THEN EnumBits(t.e, a) = EnumBits(t.e, b) ELSE a = b
=============================================================================
