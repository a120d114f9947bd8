------------------------------- MODULE MCInts -------------------------------
(* All registers of all types, loaded in every way with every value, with small bytes. *)
EXTENDS PSInts

CONSTANT MAXN
NoDecls == <<>>
Bytes(n) == [1..n -> Byte]
MaxNative == Natives[4]

Types == {t \in IntTypes : Nb(t) <= MAXN}

Next == \E t \in Types :
          \/ \E x \in Bytes(Nb(t)) : Load(t, x)
          \/ LoadDefault(t)
          \/ \E b \in Bytes(ByteLen(t)) : \/ LoadMsb(t, b) \/ LoadLsb(t, b)
                                           \/ UnpackAs(t, FALSE, b) \/ UnpackAs(t, TRUE, b)
\* One load decides the state, so exploring two levels is exploring all.
Once == ity = <<>>
NextOnce == Once /\ Next
Spec == Init /\ [][NextOnce]_ivars

RECURSIVE ValB(_, _)
ValB(x, i) == IF i = 0 THEN 0 ELSE ValB(x, i - 1) * Pow2(BYTE) + x[i]
UVal(x) == ValB(x, Len(x))
SVal(x) == LET m == Pow2(Len(x) * BYTE) IN IF 2 * UVal(x) >= m THEN UVal(x) - m ELSE UVal(x)
NumVal(t, x) == IF Sg(t) = 1 THEN SVal(x) ELSE UVal(x)

\* The register always holds a value its width can hold.
InRange ==
  ity # <<>> => LET v == NumVal(ity, num) IN
    IF Sg(ity) = 1 THEN -Pow2(Wd(ity) - 1) <= v /\ v < Pow2(Wd(ity) - 1)
    ELSE 0 <= v /\ v < Pow2(Wd(ity))

\* Normalising is reduction modulo 2^w; normalised values are fixed points.
Modular == \A t \in Types : \A x \in Bytes(Nb(t)) :
  LET y == NormT(t, x) IN
  /\ (UVal(x) - UVal(y)) % Pow2(Wd(t)) = 0
  /\ NormT(t, y) = y
  /\ Fits(t, x) <=> (IF Sg(t) = 1 THEN SVal(x) \in (-Pow2(Wd(t) - 1)) .. (Pow2(Wd(t) - 1) - 1) ELSE UVal(x) < Pow2(Wd(t)))

\* Conversions invert each other and the two orders mirror each other.
Inverse ==
  ity # <<>> =>
    /\ OfMsb(ity, MsbBytes(ity, num)) = num
    /\ OfLsb(ity, LsbBytes(ity, num)) = num
    /\ Rev(LsbBytes(ity, num)) = MsbBytes(ity, num)
    /\ \A lsb \in BOOLEAN : OfPacked(ity, lsb, BitsToBytes(ZExt(PackBits(ity, lsb, num), ByteLen(ity) * BYTE))) = num
    /\ PadBits(ity) = 0 => /\ OfPacked(ity, TRUE, LsbBytes(ity, num)) = num
                           /\ PackedAs(ity, TRUE, num, LsbBytes(ity, num))
    /\ PackedAs(ity, FALSE, num, MsbBytes(ity, num))

\* Bits above the width never matter.
PadIgnored ==
  \A t \in Types : \A b \in Bytes(ByteLen(t)) : \A lsb \in BOOLEAN :
    LET c == BitsToBytes(ZExt(LowBits(BytesToBits(b), Wd(t)), ByteLen(t) * BYTE)) IN
    /\ OfPacked(t, lsb, b) = OfPacked(t, lsb, c)
    /\ (OfMsb(t, b) = OfMsb(t, c))

\* The text of a value is its decimal notation.
TextOk == ity # <<>> => NumText(Sg(ity), num) = ToString(NumVal(ity, num))

ASSUME Modular
ASSUME PadIgnored
=============================================================================
