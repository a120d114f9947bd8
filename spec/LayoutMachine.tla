---------------------------- MODULE LayoutMachine ----------------------------
(***************************************************************************)
(* Elaboration of a declaration as a state machine: the structure's own     *)
(* attributes, then one field per step through the same PlaceField that     *)
(* PSLayout uses, then the closing checks.  WellFormed says independently,  *)
(* over sets of bit positions, which declarations have a fault; the machine *)
(* must accept exactly the others, and accepted layouts must be sound.      *)
(*                                                                          *)
(* Explored exhaustively over the small alphabets below.  With GEN = TRUE   *)
(* every declaration is printed with its verdict, to be put to the real     *)
(* compiler; with BYTE = 8 the declarations are meaningful to it.           *)
(***************************************************************************)
EXTENDS PSLayout, Json, FiniteSets

CONSTANTS MaxFields, FieldTypes, Positions, SizeAttrs, StructSizes, GEN

VARIABLES decl, st, phase
vars == <<decl, st, phase>>

NoStructs == <<>>
\* One enum, of two variants, as a type without a width of its own.
TwoVariants == <<[name |-> "E1", ty |-> "",
                  vars |-> <<[name |-> "A", d |-> <<>>, sfx |-> ""], [name |-> "B", d |-> <<>>, sfx |-> ""]>>]>>

Name == <<"a", "b", "c", "d">>
Fields(i) ==
  {[name |-> Name[i], ty |-> t[1], arr |-> t[2], pos |-> p, szn |-> z[1], szu |-> 1, esn |-> z[2], esu |-> 1, end |-> e] :
     t \in FieldTypes, p \in Positions, z \in SizeAttrs, e \in {"none", "msb"}}

Init == /\ decl \in [name : {"S"}, sz : StructSizes, num : {"none", "msb0", "lsb0"}, end : {"none", "lsb"}, fields : {<<>>}]
        /\ st = ElabInit
        /\ phase = "fields"

AddField ==
  /\ phase = "fields" /\ Len(decl.fields) < MaxFields /\ st.v = "ok"
  /\ \E f \in Fields(Len(decl.fields) + 1) :
       /\ ~Contradictory(f)                     \* no documented meaning
       /\ (f.end = "none" \/ (NeedsEndian(f.ty) /\ decl.end = "none"))   \* fewer symmetric cases
       /\ decl' = [decl EXCEPT !.fields = Append(@, f)]
       /\ st' = PlaceField(decl', Len(decl'.fields), st, <<>>)
  /\ UNCHANGED phase

Result == Finish(decl, st)
Close ==
  /\ phase = "fields" /\ decl.fields # <<>>
  /\ st' = Result
  /\ phase' = "done"
  /\ IF GEN /\ ~Result.soft /\ (st.v # "ok" => TRUE)
     THEN PrintT("DECL " \o ToJson([d |-> decl, v |-> Result.v])) ELSE TRUE
  /\ UNCHANGED decl

Next == AddField \/ Close
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The declarative notion.                                                  *)
(***************************************************************************)
F == decl.fields
N == Len(F)

\* The width a field is declared or known to have, if it has one.
Width(f) ==
  IF f.szn > 0 THEN f.szn
  ELSE IF f.esn > 0 THEN f.esn * Count(f)
  ELSE IF IsRange(f.pos) THEN Cardinality(PosLo(f.pos)..PosHi(f.pos))
  ELSE Builtin(f.ty) * Count(f)

RECURSIVE Bits(_)
\* The set of physical positions a field occupies.
Bits(i) ==
  LET f == F[i]
      written == PosLo(f.pos)..PosHi(f.pos)
      after == IF i = 1 THEN 0 ELSE 1 + (CHOOSE m \in Bits(i - 1) : \A x \in Bits(i - 1) : x <= m)
      from == IF f.pos.f = "from" THEN f.pos.a * f.pos.u ELSE after
  IN  IF IsRange(f.pos)
      THEN (IF decl.num = "lsb0" THEN {decl.sz * BYTE - 1 - b : b \in written} ELSE written)
      ELSE from..(from + Width(f) - 1)

\* Faults a field has by itself, whatever the others are.
FieldFault(f) ==
  \/ f.szn > 0 /\ f.arr > 1
  \/ Width(f) = 0
  \/ Width(f) % Count(f) # 0
  \/ decl.num = "none" /\ f.pos.f # "none"
  \/ decl.num = "lsb0" /\ (~IsRange(f.pos) \/ decl.sz = 0)
  \/ ~TypeFits(f.ty, Width(f) \div Count(f), <<>>)
  \/ NeedsEndian(f.ty) /\ Width(f) \div Count(f) > BYTE /\ f.end = "none" /\ decl.end = "none"

SelfFault == \E i \in 1..N : FieldFault(F[i])
All == UNION {Bits(i) : i \in 1..N}
TotalBits == IF decl.sz > 0 THEN decl.sz * BYTE
             ELSE 1 + (CHOOSE m \in All : \A x \in All : x <= m)
Faulty ==
  \/ SelfFault
  \/ \E i, j \in 1..N : i # j /\ Bits(i) \cap Bits(j) # {}
  \/ \E b \in All : b < 0 \/ b >= TotalBits
  \/ F[1].pos.f = "none" /\ decl.sz = 0 /\ TotalBits % BYTE # 0

Accepted == phase = "done" /\ st.v = "ok"
MachineIsDeclarative == phase = "done" => ((st.v = "ok") <=> ~Faulty)

\* Soundness of accepted layouts.
SlotBits(s) == s.s..(s.s + s.w - 1)
NoOverlap == Accepted => \A i, j \in 1..Len(st.slots) : i # j => SlotBits(st.slots[i]) \cap SlotBits(st.slots[j]) = {}
Inside == Accepted => \A i \in 1..Len(st.slots) : SlotBits(st.slots[i]) \subseteq 0..(st.bits - 1)
\* A field's slots are exactly its bits, in equal parts, in order.
Covers == Accepted => \A i \in 1..N :
            LET mine == SelectSeq(st.slots, LAMBDA s : s.f = i) IN
            /\ Len(mine) = Count(F[i])
            /\ UNION {SlotBits(mine[k]) : k \in 1..Len(mine)} = Bits(i)
            /\ \A k \in 1..(Len(mine) - 1) : mine[k].s + mine[k].w = mine[k + 1].s /\ mine[k].w = mine[k + 1].w
\* Own and slots agree, and no bit has two owners.
OwnIsSlots == Accepted =>
  /\ Len(st.own) = Bytes(st.bits) * BYTE
  /\ \A b \in 1..Len(st.own) :
       LET o == st.own[b] IN
       IF o[1] = 0 THEN b - 1 \notin All
       ELSE st.slots[o[1]].s + o[2] = b /\ o[2] \in 1..st.slots[o[1]].w

\* The declaration with LSB0 numbering is the mirror image of the MSB0 one.
MirrorImage ==
  (Accepted /\ decl.num = "lsb0") =>
    LET W == decl.sz * BYTE
        mp(p) == [p EXCEPT !.f = "incl", !.u = 1, !.a = W - 1 - PosHi(p), !.b = W - 1 - PosLo(p)]
        m == [decl EXCEPT !.num = "msb0", !.fields = [i \in 1..N |-> [F[i] EXCEPT !.pos = mp(F[i].pos)]]]
        r == Elab(m, <<>>)
    IN  r.v = "ok" /\ r.slots = st.slots /\ r.bits = st.bits
=============================================================================
