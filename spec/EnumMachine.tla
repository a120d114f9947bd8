----------------------------- MODULE EnumMachine ----------------------------
(***************************************************************************)
(* Reading an enum declaration variant by variant, keeping the running      *)
(* discriminant as a magnitude and a sign: the state a derive has to carry. *)
(* The declarative meaning (DiscsUpTo, Narrowest) must agree with it on     *)
(* every declaration, conversions must invert each other, and the backing   *)
(* type must be minimal.  Every finished declaration is printed, to be put  *)
(* to the real derive (BYTE = 8).                                           *)
(***************************************************************************)
EXTENDS PSTypes, Json

CONSTANTS MaxVars, Givens, TypeChoices, GEN

VARIABLES vars, ty, mag, neg, phase
evars == <<vars, ty, mag, neg, phase>>

NoDecls == <<>>
Here == [ty |-> ty, vars |-> vars]

\* Magnitudes of wide two's-complement values.
IsNeg(d) == d[1] = 1
Mag(d) == IF IsNeg(d) THEN Neg(d) ELSE d
Dec(b) == Neg(Inc(Neg(b)))
IsZero(b) == AllBits(b, 0)
One == Inc(Zeros(WideBits))

Init == vars = <<>> /\ ty \in TypeChoices /\ mag = Zeros(WideBits) /\ neg = FALSE /\ phase = "vars"

Given(d) ==
  /\ vars' = Append(vars, [d |-> BitsToBytes(d), sfx |-> ""])
  /\ mag' = Mag(d) /\ neg' = IsNeg(d)
Implied ==
  /\ vars' = Append(vars, [d |-> <<>>, sfx |-> ""])
  /\ IF vars = <<>> THEN mag' = Zeros(WideBits) /\ neg' = FALSE
     ELSE IF neg THEN mag' = Dec(mag) /\ neg' = (mag # One)
     ELSE mag' = Inc(mag) /\ neg' = FALSE

AddVariant == /\ phase = "vars" /\ Len(vars) < MaxVars
              /\ Implied \/ \E d \in Givens : Given(d)
              /\ UNCHANGED <<ty, phase>>

Info == EnumInfo(Here)
InLanguage(i) == FitsUnsigned(i, 8 * BYTE) \/ FitsSigned(i, 8 * BYTE)
Meaningful == LET I == Info IN /\ I.fits /\ I.nodup /\ \A i \in 1..Len(I.ds) : InLanguage(I.ds[i])

Close == /\ phase = "vars" /\ vars # <<>>
         /\ phase' = "done"
         /\ IF GEN /\ Meaningful THEN PrintT("DECL " \o ToJson([ty |-> ty, vars |-> vars])) ELSE TRUE
         /\ UNCHANGED <<vars, ty, mag, neg>>

Next == AddVariant \/ Close
Spec == Init /\ [][Next]_evars

\* The running discriminant is the last declared one.
Running ==
  vars # <<>> => LET d == DiscsUpTo(vars, Len(vars))[Len(vars)] IN
                 /\ neg = IsNeg(d) /\ mag = Mag(d)

\* Narrowest: every discriminant fits, and none of the narrower types of that
\* sign holds them all.
Minimal ==
  (phase = "done" /\ ty = "") => LET I == Info IN
    IF I.n = 0
    THEN \E i \in 1..Len(I.ds) : ~FitsIn(I.ds[i], I.s, 8 * BYTE)
    ELSE /\ I.fits
         /\ (I.s = 1) <=> (\E i \in 1..Len(I.ds) : IsNeg(I.ds[i]))
         /\ \A k \in 1..4 : Natives[k] < I.n => \E i \in 1..Len(I.ds) : ~FitsIn(I.ds[i], I.s, Natives[k] * BYTE)

\* A primitive denotes the variant it came from, and no other.
Inverse ==
  (phase = "done" /\ Meaningful) => LET I == Info IN
    \A i \in 1..Len(I.ds) :
      LET b == LowBits(I.ds[i], I.n * BYTE)
          w == IF I.s = 1 THEN SExt(b, WideBits) ELSE ZExt(b, WideBits)
      IN  {j \in 1..Len(I.ds) : I.ds[j] = w} = {i}

P2(k) == TLCEval([i \in 1..WideBits |-> IF i = WideBits - k THEN 1 ELSE 0])
Around(k) == {P2(k), Dec(P2(k)), Neg(P2(k)), Dec(Neg(P2(k))), Inc(Neg(P2(k)))}
=============================================================================
