------------------------------- MODULE PSShape -------------------------------
(***************************************************************************)
(* The items the two derives may be put on.  A declaration is described by  *)
(* how it departs from the simplest one.  Deriving is refused, at compile   *)
(* time, exactly when the declaration has a trait that is not supported:    *)
(* nothing that the derive does not understand is packed or numbered        *)
(* somehow.                                                                 *)
(*                                                                          *)
(* Supported(d) says it declaratively.  The machine below reads a           *)
(* declaration the way a derive does - the item, its own attributes, then   *)
(* one member after the other - and stops at the first thing it cannot      *)
(* support; it must agree wherever in the declaration that stands.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxMembers, MaxOdd, GEN

(* Traits of a structure's field: its type, and the size attribute it has. *)
PlainTypes == {"u8", "array", "array-hex", "array-suffix", "array-of-one"}
OddTypes == {"array-empty", "array-nested", "array-named", "array-computed", "tuple", "reference"}
Arrays == {"array", "array-hex", "array-suffix"}
PlainAttrs == {"none", "whole", "element"}
OddAttrs == {"misplaced", "bad-size", "bad-position", "bad-endian", "bad-syntax"}
FieldMembers == [k : {"field"}, t : PlainTypes \cup OddTypes, a : PlainAttrs \cup OddAttrs]
\* A size for the whole of an array of several elements is not understood.
FieldOk(m) == m.t \in PlainTypes /\ m.a \in PlainAttrs /\ ~(m.a = "whole" /\ m.t \in Arrays)

(* Traits of an enum's variant: what it holds, and how its number is written. *)
PlainNumbers == {"none", "decimal", "hex", "negated", "suffixed"}
OddNumbers == {"constant", "sum", "cast", "byte", "inverted", "shifted", "twice-negated", "block"}
VariantMembers == {[k |-> "variant", t |-> h, a |-> n] : h \in {"unit", "tuple", "record"}, n \in PlainNumbers \cup OddNumbers}
VariantOk(m) == m.t = "unit" /\ m.a \in PlainNumbers

MemberOk(m) == IF m.k = "field" THEN FieldOk(m) ELSE VariantOk(m)

Derives == {"PackedStruct", "PrimitiveEnum"}
Items == {"struct", "tuple-struct", "enum", "union"}
Wanted(derive) == IF derive = "PackedStruct" THEN "struct" ELSE "enum"
Generics == {"none", "type", "lifetime", "const"}
ItemMembers(item) == IF item = "enum" THEN VariantMembers ELSE FieldMembers

\* The structure's own attribute: none or a good one, one that belongs on a field, one with a value that means nothing.
Own == {"none", "misplaced", "bad-size", "bad-numbering", "bad-endian", "bad-syntax"}

VARIABLES d,     \* [derive, item, gen, own, ms]
          at,    \* what the derive has read: 0 nothing, i members otherwise
          verdict
vars == <<d, at, verdict>>

Supported(x) ==
  /\ x.item = Wanted(x.derive)
  /\ x.gen = "none"
  /\ x.own = "none"
  /\ \A i \in 1..Len(x.ms) : MemberOk(x.ms[i])

Odd(x) == Cardinality({i \in 1..Len(x.ms) : ~MemberOk(x.ms[i])})
          + (IF x.item = Wanted(x.derive) THEN 0 ELSE 1) + (IF x.gen = "none" THEN 0 ELSE 1) + (IF x.own = "none" THEN 0 ELSE 1)

\* What the language itself accepts without the derive.
Sane(x) ==
  /\ x.gen # "none" => x.item = "struct"
  /\ x.own # "none" => x.item = "struct"
  /\ x.item # "struct" /\ x.item # "enum" => \A i \in 1..Len(x.ms) : x.ms[i] = [k |-> "field", t |-> "u8", a |-> "none"]
  /\ x.derive = "PrimitiveEnum" /\ x.item # "enum" => \A i \in 1..Len(x.ms) : x.ms[i].t = "u8" /\ x.ms[i].a = "none"
  /\ x.derive = "PackedStruct" /\ x.item = "enum" => \A i \in 1..Len(x.ms) : VariantOk(x.ms[i]) /\ x.ms[i].a = "none"
  /\ \A i \in 1..Len(x.ms) : x.ms[i].k = "field" => (x.ms[i].a = "element" => x.ms[i].t # "u8")
  \* numbers of variants that hold something need an explicit representation
  /\ \A i \in 1..Len(x.ms) : x.ms[i].k = "variant" /\ x.ms[i].t # "unit" => \A j \in 1..Len(x.ms) : x.ms[j].a = "none"

Init == /\ d \in {[derive |-> v, item |-> i, gen |-> g, own |-> m, ms |-> <<>>] :
                    v \in Derives, i \in Items, g \in Generics, m \in Own}
        /\ d.derive = "PrimitiveEnum" => d.gen = "none" /\ d.own = "none"
        /\ at = -1 /\ verdict = "writing"

\* The user writes one more member.
Write == /\ verdict = "writing" /\ Len(d.ms) < MaxMembers
         /\ \E m \in ItemMembers(d.item) : d' = [d EXCEPT !.ms = Append(@, m)]
         /\ Sane(d') /\ Odd(d') <= MaxOdd
         /\ UNCHANGED <<at, verdict>>

\* The derive reads the declaration.
Start == /\ verdict = "writing" /\ d.ms # <<>> /\ Sane(d)
         /\ verdict' = IF d.item # Wanted(d.derive) THEN "wrong item"
                       ELSE IF d.own # "none" THEN "own attribute"
                       ELSE IF d.gen # "none" THEN "generic" ELSE "reading"
         /\ at' = 0 /\ UNCHANGED d
Read == /\ verdict = "reading" /\ at < Len(d.ms)
        /\ at' = at + 1
        /\ verdict' = IF MemberOk(d.ms[at + 1]) THEN "reading" ELSE "member"
        /\ UNCHANGED d
End == /\ \/ verdict = "reading" /\ at = Len(d.ms) /\ verdict' = "ok"
          \/ verdict \in {"wrong item", "own attribute", "generic", "member"} /\ verdict' = "refused"
       /\ IF GEN THEN PrintT("DECL " \o ToJson([d |-> d, ok |-> verdict = "reading"])) ELSE TRUE
       /\ UNCHANGED <<d, at>>
Next == Write \/ Start \/ Read \/ End
Spec == Init /\ [][Next]_vars

MachineIsDeclarative == /\ verdict = "ok" => Supported(d)
                        /\ verdict = "refused" => ~Supported(d)
\* Whatever is written after something unsupported does not make it supported.
NeverHealed == [][verdict = "writing" /\ ~Supported(d) => ~Supported(d')]_vars
=============================================================================
