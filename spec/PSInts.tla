-------------------------------- MODULE PSInts ------------------------------
(***************************************************************************)
(* The width-limited integers as a system of their own: a register of some  *)
(* type <<s, n, w>> (signed?, native bytes, width), loaded from native      *)
(* values, from bytes in either order, from packed bytes in either          *)
(* endianness or by deserialising, and read back in all these ways.         *)
(* The register's content `num` is always a normalised native value.        *)
(***************************************************************************)
EXTENDS PSTypes

VARIABLES ity,           \* <<s, n, w>>, or <<>> before the first load
          num            \* native bytes, big endian two's complement
ivars == <<ity, num>>

Sg(t) == t[1]
Nb(t) == t[2]
Wd(t) == t[3]

IntTypes == {<<s, n, w>> \in (0..1) \X {Natives[i] : i \in 1..4} \X (1..(8 * BYTE)) : NativeFor(n, w)}

NormT(t, x) == Normal(Sg(t), Nb(t), Wd(t), x)
ByteLen(t) == CeilDiv(Wd(t), BYTE)

\* The value's two's-complement bytes, as many as the width needs.
MsbBytes(t, x) == SubSeq(x, Nb(t) - ByteLen(t) + 1, Nb(t))
LsbBytes(t, x) == Rev(MsbBytes(t, x))

\* The native value such bytes denote.
OfMsb(t, b) == NormT(t, TLCEval([i \in 1..Nb(t) |-> IF i <= Nb(t) - Len(b) THEN 0 ELSE b[i - (Nb(t) - Len(b))]]))
OfLsb(t, b) == OfMsb(t, Rev(b))

\* The packed layouts: w bits at the low end of the bytes, the bits above
\* them (there are fewer than BYTE) ignored.
PadBits(t) == ByteLen(t) * BYTE - Wd(t)
PackBits(t, lsb, x) == IntEnc(Wd(t), lsb, x)
PackedAs(t, lsb, x, b) ==
  /\ Len(b) = ByteLen(t)
  /\ LowBits(BytesToBits(b), Wd(t)) = PackBits(t, lsb, x)
OfPacked(t, lsb, b) == IntDec(Sg(t), Nb(t), lsb, LowBits(BytesToBits(b), Wd(t)))

Mask(t) == BitsToBytes(ZExt(Ones(Wd(t)), Nb(t) * BYTE))
NumText(s, x) == IF s = 1 THEN SignedDecText(BytesToBits(x)) ELSE DecText(BytesToBits(x))

Fits(t, x) == NormT(t, x) = x

(***************************************************************************)
(* Actions.                                                                *)
(***************************************************************************)
Init == ity = <<>> /\ num = <<>>
SetTo(t, x) == ity' = t /\ num' = x
Load(t, x)      == SetTo(t, NormT(t, x))
LoadDefault(t)  == SetTo(t, TLCEval([i \in 1..Nb(t) |-> 0]))
LoadMsb(t, b)   == SetTo(t, OfMsb(t, b))
LoadLsb(t, b)   == SetTo(t, OfLsb(t, b))
UnpackAs(t, lsb, b) == SetTo(t, OfPacked(t, lsb, b))
Read == UNCHANGED ivars
=============================================================================
