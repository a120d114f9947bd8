------------------------------- MODULE PSCodec ------------------------------
(***************************************************************************)
(* Packing and unpacking of whole values, given a layout.                   *)
(***************************************************************************)
EXTENDS PSLayout

SlotVal(v, s) == IF s.e = 0 THEN v[s.f] ELSE v[s.f][s.e]

RECURSIVE EncS(_, _)
\* The packed bits of struct number d holding value v.
EncS(d, v) ==
  LET L  == Lay[d]
      fb == TLCEval([i \in 1..Len(L.slots) |->
              LET s == L.slots[i] IN
              IF s.t.k = "ref" THEN Fit(EncS(s.t.d, SlotVal(v, s)), s.w)
              ELSE IF s.t.k = "cust" THEN Fit(BytesToBits(SlotVal(v, s)), s.w)
              ELSE LeafEnc(s.t, s.w, s.lsb, SlotVal(v, s))])
  IN  TLCEval([b \in 1..Len(L.own) |->
         IF L.own[b][1] = 0 THEN 0 ELSE fb[L.own[b][1]][L.own[b][2]]])

RECURSIVE DecSlots(_, _)
\* The value denoted by what the slots of a struct hold, or Bad.
DecSlots(d, held) ==
  LET L  == Lay[d]
      fd == TLCEval([i \in 1..Len(L.slots) |->
              LET s == L.slots[i]
                  b == held[i] IN
              IF s.t.k = "cust" THEN CustDec(BitsToBytes(ZExt(b, s.t.n * BYTE)))
              ELSE IF s.t.k = "ref"
                   THEN LET bits == ZExt(b, Bytes(Lay[s.t.d].bits) * BYTE)
                            ss   == Lay[s.t.d].slots
                        IN  DecSlots(s.t.d, [j \in 1..Len(ss) |-> SubSeq(bits, ss[j].s + 1, ss[j].s + ss[j].w)])
              ELSE LeafDec(s.t, s.w, s.lsb, b)])
      slotAt(f, e) == CHOOSE i \in 1..Len(L.slots) : L.slots[i].f = f /\ L.slots[i].e = e
      F  == Structs[d].fields
  IN  IF \E i \in 1..Len(fd) : ~fd[i].ok
      THEN BadWith(UNION {fd[i].e : i \in 1..Len(fd)})
      ELSE Good(TLCEval([f \in 1..Len(F) |->
             IF F[f].arr = 0 THEN fd[slotAt(f, 0)].v
             ELSE [e \in 1..F[f].arr |-> fd[slotAt(f, e)].v]]))
\* The value that packed bits denote.
DecS(d, bits) == LET ss == Lay[d].slots IN
                 DecSlots(d, [j \in 1..Len(ss) |-> SubSeq(bits, ss[j].s + 1, ss[j].s + ss[j].w)])

\* The same for structures too long to be written out, as the set of positions
\* of the one bits.  Nested structures are of ordinary length.
SlotBits(s, v) ==
  IF s.t.k = "ref" THEN Fit(EncS(s.t.d, v), s.w)
  ELSE IF s.t.k = "cust" THEN Fit(BytesToBits(v), s.w)
  ELSE LeafEnc(s.t, s.w, s.lsb, v)
SparseS(d, v) ==
  LET L == Lay[d] IN
  UNION {LET s == L.slots[i]
             b == TLCEval(SlotBits(s, SlotVal(v, s)))
         IN  {s.s + k - 1 : k \in {k \in 1..s.w : b[k] = 1}} : i \in 1..Len(L.slots)}
SparseDecS(d, ones) ==
  LET ss == Lay[d].slots IN
  DecSlots(d, TLCEval([j \in 1..Len(ss) |-> TLCEval([k \in 1..ss[j].w |-> IF ss[j].s + k - 1 \in ones THEN 1 ELSE 0])]))

RECURSIVE RefusesS(_, _)
\* Does packing fail because a custom type in it refuses?
RefusesS(d, v) ==
  \E i \in 1..Len(Lay[d].slots) :
    LET s == Lay[d].slots[i] IN
    CASE s.t.k = "cust" -> CustRefuses(SlotVal(v, s))
      [] s.t.k = "ref"  -> RefusesS(s.t.d, SlotVal(v, s))
      [] OTHER -> FALSE

RECURSIVE StoreS(_, _)
\* What a value becomes when it is built from native field values.
StoreS(d, v) ==
  LET F == Structs[d].fields
      st(t, x) == IF t.k = "ref" THEN StoreS(t.d, x) ELSE LeafStore(t, x)
  IN  TLCEval([f \in 1..Len(F) |->
         IF F[f].arr = 0 THEN st(F[f].ty, v[f])
         ELSE [e \in 1..F[f].arr |-> st(F[f].ty, v[f][e])]])

RECURSIVE NormS(_, _)
\* What is left of a value when it is packed: an integer in a field narrower
\* than its type is normalised to the field's width.
NormS(d, v) ==
  LET F == Structs[d].fields
      w(f) == FieldWidth(F[f]) \div Count(F[f])
      nm(t, n, x) ==
        CASE t.k = "ref" -> NormS(t.d, x)
          [] t.k \in {"int", "sint"} -> Normal(t.s, t.n, Min(n, IF t.k = "sint" THEN t.w ELSE n), x)
          [] t.k = "enum" /\ x[1] = 0 -> <<0>> \o Normal(EnumTab[t.e].s, EnumTab[t.e].n, n, Tail(x))
          [] OTHER -> x
  IN  TLCEval([f \in 1..Len(F) |->
         IF F[f].arr = 0 THEN nm(F[f].ty, w(f), v[f])
         ELSE [e \in 1..F[f].arr |-> nm(F[f].ty, w(f), v[f][e])]])

RECURSIVE EqS(_, _, _)
EqS(d, a, b) ==
  LET F == Structs[d].fields
      eq(t, x, y) == IF t.k = "ref" THEN EqS(t.d, x, y) ELSE LeafEq(t, x, y)
  IN  \A f \in 1..Len(F) :
         IF F[f].arr = 0 THEN eq(F[f].ty, a[f], b[f])
         ELSE \A e \in 1..F[f].arr : eq(F[f].ty, a[f][e], b[f][e])

(***************************************************************************)
(* What re-packing an unpacked value must make of every bit: 0 or 1 where   *)
(* the bit is fixed (unowned, reserved), 2 where it is reproduced.          *)
(***************************************************************************)
RECURSIVE KindS(_)
KindS(d) ==
  LET L == Lay[d]
      sk == TLCEval([i \in 1..Len(L.slots) |->
              LET s == L.slots[i] IN
              CASE s.t.k = "res" -> Rep(s.w, s.t.v)
                [] s.t.k = "ref" -> Fit(KindS(s.t.d), s.w)
                [] OTHER -> Rep(s.w, 2)])
  IN  TLCEval([b \in 1..Len(L.own) |->
         IF L.own[b][1] = 0 THEN 0 ELSE sk[L.own[b][1]][L.own[b][2]]])

\* The bits that reserved fields own, at any depth: 0, 1, or 2 for all others.
RECURSIVE ReservedS(_)
ReservedS(d) ==
  LET L == Lay[d]
      sk == TLCEval([i \in 1..Len(L.slots) |->
              LET s == L.slots[i] IN
              CASE s.t.k = "res" -> Rep(s.w, s.t.v)
                [] s.t.k = "ref" -> LET r == ReservedS(s.t.d) IN
                                    IF Len(r) >= s.w THEN LowBits(r, s.w) ELSE Rep(s.w - Len(r), 2) \o r
                [] OTHER -> Rep(s.w, 2)])
  IN  TLCEval([b \in 1..Len(L.own) |->
         IF L.own[b][1] = 0 THEN 2 ELSE sk[L.own[b][1]][L.own[b][2]]])

\* Does every nested struct keep all the bits it owns?  (A field narrower than
\* its nested struct keeps the low-order bits only.)
RECURSIVE LosslessS(_)
LosslessS(d) ==
  \A i \in 1..Len(Lay[d].slots) :
    LET s == Lay[d].slots[i] IN
    s.t.k = "ref" =>
      /\ LosslessS(s.t.d)
      /\ LET o == Lay[s.t.d].own IN \A b \in 1..(Len(o) - s.w) : o[b][1] = 0

\* Is a struct, with everything nested in it, one whose meaning is specified?
RECURSIVE SaneS(_)
SaneS(d) == /\ Lay[d].v = "ok" /\ ~Lay[d].soft
            /\ \A f \in 1..Len(Structs[d].fields) :
                 LET t == Structs[d].fields[f].ty IN t.k = "ref" => SaneS(t.d)
=============================================================================
