------------------------------- MODULE PSEnums ------------------------------
(***************************************************************************)
(* Primitive enums on their own: conversions from and to primitives and     *)
(* strings, and the catch-all wrapper.  Names are sequences of code points. *)
(***************************************************************************)
EXTENDS PSTypes

\* Lower case, for the letters that names are made of here (ASCII, Latin-1).
LowerC(c) == IF (c \in 65..90) \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerC(s[i])])

Vars(e) == Enums[e].vars
NameOf(e, i) == Vars(e)[i].cs

\* The variants a string may convert to; {} means: to nothing.
ByName(e, s) == {i \in 1..Len(Vars(e)) : NameOf(e, i) = s}
ByLower(e, s) == {i \in 1..Len(Vars(e)) : Lower(NameOf(e, i)) = s}
Picks(S, r) == IF S = {} THEN r = 0 ELSE r \in S

AllVariants(e) == TLCEval([i \in 1..Len(Vars(e)) |-> i])

\* Names of the primitive types.
TypeName(s, n) == CHOOSE x \in DOMAIN TypeNames : TypeNames[x] = <<s, n>>
PrimName(e) == TypeName(EnumTab[e].s, EnumTab[e].n)

\* The discriminant as bytes of a primitive type of n bytes.
PrimBytes(e, i, n) == BitsToBytes(LowBits(EnumTab[e].ds[i], n * BYTE))

\* The variant that a primitive of a type denotes, 0 for none.
VariantFor(e, s, bytes) ==
  LET b == BytesToBits(bytes)
      wide == IF s = 1 THEN SExt(b, WideBits) ELSE ZExt(b, WideBits)
      hit == {i \in 1..Len(EnumTab[e].ds) : EnumTab[e].ds[i] = wide}
  IN  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE

Str(s, bytes) == LET b == BytesToBits(bytes) IN IF s = 1 THEN SignedDecText(b) ELSE DecText(b)

\* Declarations with a meaning: distinct discriminants that fit the type.
EnumSane(e) == EnumTab[e].fits /\ EnumTab[e].nodup /\ ~EnumTab[e].soft
=============================================================================
