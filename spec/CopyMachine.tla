----------------------------- MODULE CopyMachine -----------------------------
(***************************************************************************)
(* How a field that is not byte aligned gets into and out of the packed     *)
(* bytes: byte by byte, every byte of the field's own image split over two  *)
(* bytes of the target by masks and shifts.  This is the algorithm the      *)
(* generated code uses; it is checked here to refine the placement that     *)
(* PSCodec specifies (own bits in order, all others untouched) for every    *)
(* width and offset up to the bounds.                                       *)
(***************************************************************************)
EXTENDS PSBits, Bitwise

CONSTANTS MaxWidth,      \* bits of the field
          AllContents    \* every content, or only unit vectors and their complements

VARIABLES w, off, img, rest, i, target, back, phase
cvars == <<w, off, img, rest, i, target, back, phase>>

FieldLen == CeilDiv(w, BYTE)
TargetLen == CeilDiv(off + w, BYTE)
Shift == (FieldLen * BYTE - w) - off
Low(x, n) == x % Pow2(n)                          \* x & ones(n)
Shl(x, n) == (x * Pow2(n)) % Pow2(BYTE)
Shr(x, n) == x \div Pow2(n)
Sh(x, n) == IF n >= 0 THEN Shl(x, n) ELSE Shr(x, -n)
\* How many of byte k's bits belong to the field (k from 1).
Mask(k) == IF k = 1 THEN w - (FieldLen - 1) * BYTE ELSE BYTE

Unit(n, k, x) == [j \in 1..n |-> IF j = k THEN x ELSE 1 - x]
Contents(n) == IF AllContents THEN [1..n -> {0, 1}] ELSE {Unit(n, k, x) : k \in 0..n, x \in {0, 1}}

Whole(bits) == BitsToBytes(ZExt(bits, FieldLen * BYTE))

Init == w = 0 /\ off = 0 /\ img = <<>> /\ rest = 0 /\ i = 1 /\ target = <<>> /\ back = <<>> /\ phase = "start"
Choose == /\ phase = "start" /\ phase' = "chosen"
          /\ w' \in 1..MaxWidth /\ off' \in 0..(BYTE - 1)
          /\ UNCHANGED <<img, rest, i, target, back>>
\* Other fields may already have set any of the other bits: none or all.
Fill(x) == TLCEval([b \in 1..(TargetLen * BYTE) |-> IF b > off /\ b <= off + w THEN 0 ELSE x])
Begin == /\ phase = "chosen" /\ phase' = "pack" /\ i' = 1
         /\ \E c \in Contents(w) : img' = c
         /\ \E x \in {0, 1} : rest' = x /\ target' = BitsToBytes(Fill(x))
         /\ UNCHANGED <<w, off, back>>

Packed == Whole(img)
\* One round of the packing loop.
PackByte ==
  /\ phase = "pack" /\ i <= FieldLen
  /\ LET a == [target EXCEPT ![i] = @ | Sh(Low(Packed[i], Mask(i)), Shift)]
     IN  target' = IF Shift < 0 THEN [a EXCEPT ![i + 1] = @ | Shl(Low(Packed[i], -Shift), BYTE + Shift)]
                   ELSE IF Shift > 0 /\ i < FieldLen
                        THEN [a EXCEPT ![i] = @ | Shr(Packed[i + 1], BYTE - Shift)]
                   ELSE a
  /\ i' = i + 1
  /\ UNCHANGED <<w, off, img, rest, back, phase>>
Turn == /\ phase = "pack" /\ i = FieldLen + 1
        /\ phase' = "unpack" /\ i' = 1
        /\ back' = TLCEval([k \in 1..FieldLen |-> 0])
        /\ UNCHANGED <<w, off, img, rest, target>>
\* One round of the unpacking loop.
UnpackByte ==
  /\ phase = "unpack" /\ i <= FieldLen
  /\ LET a == [back EXCEPT ![i] = @ | Low(Sh(target[i], -Shift), Mask(i))]
     IN  back' = IF Shift < 0 THEN [a EXCEPT ![i] = @ | Low(Shr(target[i + 1], BYTE + Shift), -Shift)]
                 ELSE IF Shift > 0 /\ i < FieldLen
                      THEN [a EXCEPT ![i + 1] = @ | Shl(target[i], BYTE - Shift)]
                 ELSE a
  /\ i' = i + 1
  /\ UNCHANGED <<w, off, img, rest, target, phase>>
Next == Choose \/ Begin \/ PackByte \/ Turn \/ UnpackByte
Spec == Init /\ [][Next]_cvars

\* The specification's placement.
Placed == TLCEval([b \in 1..(TargetLen * BYTE) |-> IF b > off /\ b <= off + w THEN img[b - off] ELSE rest])
PackRefines == (phase = "pack" /\ i = FieldLen + 1) => target = BitsToBytes(Placed)
UnpackRefines == (phase = "unpack" /\ i = FieldLen + 1) => back = Whole(img)
\* No round reaches beyond the target, or sets another field's bit.
Within == phase \in {"pack", "unpack"} =>
  /\ Len(target) = TargetLen
  /\ LET t == BytesToBits(target) IN \A b \in 1..(TargetLen * BYTE) : (b <= off \/ b > off + w) => t[b] = rest
=============================================================================
