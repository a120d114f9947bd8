------------------------------ MODULE PSLayout ------------------------------
(***************************************************************************)
(* Elaboration of a struct declaration into a layout, field by field, the   *)
(* way the documentation prescribes it.  Elab is the operator form used by  *)
(* the trace specifications; LayoutMachine.tla steps through the same       *)
(* operators one field per action and checks them against an independent    *)
(* declarative notion of well-formedness.                                   *)
(*                                                                          *)
(* Field: [name, ty, arr, pos, szn, szu, esn, esu, end]                     *)
(*   arr  0 or the number of array elements                                 *)
(*   pos  [f |-> "none" | "one" | "from" | "incl" | "excl", u, a, b],       *)
(*        u the number of bits per unit (1, or BYTE for byte positions)     *)
(*   szn * szu, esn * esu   declared size / element size in bits, 0: none   *)
(*   end  "none" | "msb" | "lsb"                                            *)
(* Struct: [name, sz, num, end, fields]; sz bytes, 0: none;                 *)
(*   num  "none" | "msb0" | "lsb0"                                          *)
(***************************************************************************)
EXTENDS PSTypes

Bytes(bits) == CeilDiv(bits, BYTE)

Builtin(t) ==
  CASE t.k = "bool" -> 1
    [] t.k = "int"  -> t.n * BYTE
    [] t.k \in {"sint", "res"} -> t.w
    [] OTHER -> 0

IsRange(p) == p.f \in {"one", "incl", "excl"}
\* The first and last bit a position denotes, as written.
PosLo(p) == CASE p.f = "one"  -> p.a * p.u
              [] p.f = "incl" -> Min(p.a, p.b) * p.u
              [] p.f = "excl" -> p.a * p.u
PosHi(p) == CASE p.f = "one"  -> (p.a + 1) * p.u - 1
              [] p.f = "incl" -> (Max(p.a, p.b) + 1) * p.u - 1
              [] p.f = "excl" -> p.b * p.u - 1

Count(f) == IF f.arr = 0 THEN 1 ELSE f.arr

\* Width of a field in bits; 0 when it cannot be determined, -1 when the
\* attributes are not allowed on it.
FieldWidth(f) ==
  IF f.szn > 0 THEN (IF f.arr > 1 THEN -1 ELSE f.szn * f.szu)
  ELSE IF f.esn > 0 THEN f.esn * f.esu * Count(f)
  ELSE IF IsRange(f.pos) THEN PosHi(f.pos) - PosLo(f.pos) + 1
  ELSE Builtin(f.ty) * Count(f)

\* Whether a type can live in a field of w bits.  lay: layouts so far.
TypeFits(t, w, lay) ==
  CASE t.k = "bool" -> w >= 1 /\ w <= BYTE
    [] t.k = "int"  -> NativeFor(t.n, w)
    [] t.k = "sint" -> Bytes(w) = Bytes(t.w)
    [] t.k = "res"  -> Bytes(w) = Bytes(t.w)
    [] t.k = "enum" -> NativeFor(EnumTab[t.e].n, w)
    [] t.k = "cust" -> Bytes(w) = t.n
    [] t.k = "ref"  -> lay[t.d].v = "ok" /\ Bytes(w) = Bytes(lay[t.d].bits)

\* Declarations whose attributes contradict each other, or that make a field
\* narrower than its content, have no documented meaning: not judged.
TypeExact(t, w) ==
  CASE t.k \in {"sint", "res"} -> w = t.w
    [] t.k = "enum" -> \A i \in 1..Len(EnumTab[t.e].ds) :
                          FitsIn(EnumTab[t.e].ds[i], EnumTab[t.e].s, w)
    [] OTHER -> TRUE
Contradictory(f) ==
  \/ f.szn > 0 /\ f.esn > 0
  \/ (f.szn > 0 \/ f.esn > 0) /\ IsRange(f.pos)
       /\ FieldWidth(f) # PosHi(f.pos) - PosLo(f.pos) + 1
  \/ f.pos.f = "excl" /\ f.pos.b <= f.pos.a

NeedsEndian(t) == t.k \in {"int", "sint", "enum"}

\* State of the elaboration: [v, prev, slots, bits, soft]
ElabInit == [v |-> "ok", prev |-> -1, slots |-> <<>>, hi |-> -1, soft |-> FALSE]

Fail(st, why) == [st EXCEPT !.v = why]

PlaceField(d, fi, st, lay) ==
  LET f == d.fields[fi]
      w == FieldWidth(f)
      c == Count(f)
      lo == CASE f.pos.f = "none" -> st.prev + 1
              [] f.pos.f = "from" -> f.pos.a * f.pos.u
              [] OTHER -> IF d.num = "lsb0" THEN d.sz * BYTE - 1 - PosHi(f.pos)
                                            ELSE PosLo(f.pos)
      hi == IF IsRange(f.pos) THEN lo + (PosHi(f.pos) - PosLo(f.pos)) ELSE lo + w - 1
      ew == w \div c
      lsb == LET e == IF f.end # "none" THEN f.end ELSE d.end IN e = "lsb" /\ ew > BYTE
      noend == f.end = "none" /\ d.end = "none"
      new == [e \in 1..c |-> [f |-> fi, e |-> IF f.arr = 0 THEN 0 ELSE e,
                              s |-> lo + (e - 1) * ew, w |-> ew, t |-> f.ty,
                              lsb |-> lsb /\ NeedsEndian(f.ty)]]
  IN  IF w = -1 THEN Fail(st, "array-size-attribute")
      ELSE IF f.arr = -1 THEN Fail(st, "empty-array")
      ELSE IF w = 0 THEN Fail(st, "no-width")
      ELSE IF d.num = "none" /\ f.pos.f # "none" THEN Fail(st, "no-numbering")
      ELSE IF d.num = "lsb0" /\ ~IsRange(f.pos) THEN Fail(st, "lsb0-needs-range")
      ELSE IF d.num = "lsb0" /\ d.sz = 0 THEN Fail(st, "lsb0-needs-size")
      ELSE IF lo < 0 THEN Fail(st, "out-of-bounds")
      ELSE IF w % c # 0 THEN Fail(st, "uneven-array")
      ELSE IF ~TypeFits(f.ty, ew, lay) THEN Fail(st, "type-width")
      ELSE IF NeedsEndian(f.ty) /\ ew > BYTE /\ noend THEN Fail(st, "no-endian")
      ELSE [v |-> "ok", prev |-> hi, slots |-> st.slots \o new, hi |-> Max(st.hi, hi),
            soft |-> st.soft \/ Contradictory(f) \/ ~TypeExact(f.ty, ew)]

RECURSIVE PlaceAll(_, _, _, _)
PlaceAll(d, fi, st, lay) ==
  IF fi > Len(d.fields) \/ st.v # "ok" THEN st
  ELSE PlaceAll(d, fi + 1, TLCEval(PlaceField(d, fi, st, lay)), lay)

\* Longer structures are only judged by their one bits (SparseS).
DenseBits == 1000000

Overlap(a, b) == a.s < b.s + b.w /\ b.s < a.s + a.w

\* Closing checks and the final layout: its verdict, size in bits, slots in
\* declaration order, and the owner of every bit of the packed bytes.
Finish(d, st) ==
  LET bits == IF d.sz > 0 THEN d.sz * BYTE ELSE st.hi + 1
      ss   == st.slots
      v == IF st.v # "ok" THEN st.v
           ELSE IF bits = 0 THEN "empty"
           ELSE IF Len(d.fields) > 0 /\ d.fields[1].pos.f = "none" /\ d.sz = 0 /\ bits % BYTE # 0
                THEN "first-field-auto"
           ELSE IF \E i \in 1..Len(ss) : ss[i].s + ss[i].w > bits THEN "out-of-bounds"
           ELSE IF \E i, j \in 1..Len(ss) : i < j /\ Overlap(ss[i], ss[j]) THEN "overlap"
           ELSE "ok"
  IN  [v |-> v, soft |-> st.soft, bits |-> bits, slots |-> ss,
       own |-> IF v # "ok" \/ bits > DenseBits THEN <<>>
               ELSE LET blank == Rep(Bytes(bits) * BYTE, <<0, 0>>)
                        idx == [b \in 1..Len(blank) |->
                                  LET hit == {i \in 1..Len(ss) : ss[i].s < b /\ b <= ss[i].s + ss[i].w}
                                  IN  IF hit = {} THEN <<0, 0>>
                                      ELSE LET i == CHOOSE i \in hit : TRUE IN <<i, b - ss[i].s>>]
                    IN  TLCEval(idx)]

Elab(d, lay) == Finish(d, PlaceAll(d, 1, ElabInit, lay))

RECURSIVE LayUpTo(_, _)
LayUpTo(ss, n) ==
  IF n = 0 THEN <<>>
  ELSE LET p == LayUpTo(ss, n - 1) IN Append(p, TLCEval(Elab(ss[n], p)))
Lay == LET ss == TLCEval(Structs) IN TLCEval(LayUpTo(ss, Len(ss)))
=============================================================================
