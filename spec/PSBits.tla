------------------------------- MODULE PSBits -------------------------------
(***************************************************************************)
(* Bit vectors.  A bit vector is a sequence of 0/1, most significant bit    *)
(* first, so index i+1 is the bit at MSB0 position i.  Integers of any      *)
(* size are byte sequences, big endian, two's complement (TLC's own         *)
(* integers are 32 bit).  BYTE, the number of bits in a byte, is a          *)
(* constant: 8 when recorded behaviour of the real code is judged, smaller  *)
(* in the exhaustive design-level models, whose state spaces would          *)
(* otherwise be out of reach.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT BYTE
ASSUME BYTE \in 1..8

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Byte == 0 .. (Pow2(BYTE) - 1)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

BitPow == TLCEval([i \in 1..BYTE |-> Pow2(BYTE - i)])
ByteTable == TLCEval([v \in Byte |-> [i \in 1..BYTE |-> (v \div BitPow[i]) % 2]])

\* The bits of a byte sequence, in transmission order.
BytesToBits(bs) ==
  TLCEval([i \in 1..(Len(bs) * BYTE) |->
             ByteTable[bs[((i - 1) \div BYTE) + 1]][((i - 1) % BYTE) + 1]])

RECURSIVE ByteAt(_, _, _)
ByteAt(bits, base, i) ==
  IF i > BYTE THEN 0 ELSE bits[base + i] * BitPow[i] + ByteAt(bits, base, i + 1)

\* Inverse of BytesToBits; Len(bits) must be a multiple of BYTE.
BitsToBytes(bits) ==
  TLCEval([k \in 1..(Len(bits) \div BYTE) |-> ByteAt(bits, (k - 1) * BYTE, 1)])

Zeros(n) == TLCEval([i \in 1..n |-> 0])
Ones(n)  == TLCEval([i \in 1..n |-> 1])
Rep(n, x) == TLCEval([i \in 1..n |-> x])

\* The w low-order bits of a vector that has at least w bits.
LowBits(bits, w) == SubSeq(bits, Len(bits) - w + 1, Len(bits))

\* Widen a vector to n bits, by zeroes or by its sign bit.
ZExt(bits, n) == Zeros(n - Len(bits)) \o bits
SExt(bits, n) == Rep(n - Len(bits), IF Len(bits) = 0 THEN 0 ELSE bits[1]) \o bits

\* Widen or cut to exactly n bits, keeping the low-order end.
Fit(bits, n) == IF Len(bits) >= n THEN LowBits(bits, n) ELSE ZExt(bits, n)

(***************************************************************************)
(* Little-endian layout of w bits: the whole low-order bytes first, least   *)
(* significant byte first, then the remaining w mod BYTE high-order bits.   *)
(* LsbIx(w)[i] is the index in the MSB-first vector of the i-th bit of the  *)
(* little-endian layout.                                                    *)
(***************************************************************************)
LsbIx(w, i) ==
  LET q == w \div BYTE
      j == (i - 1) \div BYTE          \* byte number within the layout
      k == (i - 1) % BYTE
  IN  IF j < q THEN w - BYTE * (j + 1) + k + 1 ELSE k + 1
EncLsb(bits) == LET w == Len(bits) IN TLCEval([i \in 1..w |-> bits[LsbIx(w, i)]])

\* Where bit p of the MSB-first vector sits in the little-endian layout.
LsbPos(w, p) ==
  LET q == w \div BYTE
      r == w % BYTE
      j == (w - p) \div BYTE          \* byte number counted from the low end
      k == (w - p) % BYTE             \* bit number within it, from the low end
  IN  IF j < q THEN j * BYTE + (BYTE - k) ELSE q * BYTE + (r - k)
DecLsb(bits) == LET w == Len(bits) IN TLCEval([p \in 1..w |-> bits[LsbPos(w, p)]])

\* Reversal of a sequence.
Rev(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

\* All bits of a vector equal to x.
AllBits(bits, x) == \A i \in 1..Len(bits) : bits[i] = x

(***************************************************************************)
(* Arithmetic on bit vectors of equal length, two's complement.             *)
(***************************************************************************)
RECURSIVE IncAt(_, _)
IncAt(bits, i) ==
  IF i = 0 THEN bits
  ELSE IF bits[i] = 0 THEN [bits EXCEPT ![i] = 1]
  ELSE IncAt([bits EXCEPT ![i] = 0], i - 1)
Inc(bits) == TLCEval(IncAt(bits, Len(bits)))
Neg(bits) == Inc(TLCEval([i \in 1..Len(bits) |-> 1 - bits[i]]))

\* Decimal text of an unsigned bit vector (long division by ten, so that
\* 64-bit values can be written although TLC's integers have 32 bits).
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE DivTen(_, _, _, _)
DivTen(bits, i, rem, quo) ==
  IF i > Len(bits) THEN <<quo, rem>>
  ELSE LET cur == rem * 2 + bits[i]
       IN  DivTen(bits, i + 1, cur % 10, Append(quo, cur \div 10))
RECURSIVE DecText(_)
DecText(bits) ==
  LET qr == DivTen(bits, 1, 0, <<>>)
      d  == Digit[qr[2] + 1]
  IN  IF AllBits(qr[1], 0) THEN d ELSE DecText(qr[1]) \o d
SignedDecText(bits) == IF bits[1] = 1 THEN "-" \o DecText(Neg(bits)) ELSE DecText(bits)
=============================================================================
