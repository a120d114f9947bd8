------------------------------ MODULE TraceEnum -----------------------------
(***************************************************************************)
(* Judges recorded conversions of the real enums.                           *)
(***************************************************************************)
EXTENDS PSEnums, Json, IOUtils

VARIABLES l,
          memo     \* C21: what was recorded of the current enum under other configurations
vars == <<l, memo>>

World == JsonDeserialize(IOEnv.PS_WORLD)
WStructs == <<>>
WEnums == World.enums
Trace == ndJsonDeserialize(IOEnv.PS_TRACE)
Focus == IOEnv.PS_FOCUS

E == Trace[l]
Ok(x) == [k |-> "ok", x |-> x]
AllAre(s, x) == \A i \in 1..Len(s) : s[i] = x

JudgedOps ==
  CASE Focus = "C10" -> {"info", "variant", "from", "str"}
    [] Focus = "C11" -> {"info"}
    [] Focus = "C12" -> {"from", "pair", "variant"}
    [] OTHER -> {"info", "variant", "from", "str", "pair"}

TypeOk == E.type = PrimName(E.e) /\ E.size = EnumTab[E.e].n

\* Unknown values are kept, and shown as unknown.
CatchOk ==
  LET i == VariantFor(E.e, TypeNames[E.type][1], E.b) IN
  /\ E.cp = Ok(E.b)
  /\ E.c = Ok(IF i > 0 THEN <<i>> ELSE <<0>> \o E.b)
  /\ i = 0 => E.ct = Ok("Unknown value: " \o Str(TypeNames[E.type][1], E.b))

VariantOk ==
  LET n == Len(E.prim[1].x) IN
  /\ \A i \in 1..Len(E.prim) : E.prim[i].k = "ok"
  /\ \A i \in 1..Len(E.prim) : E.prim[i] = Ok(PrimBytes(E.e, E.i, n))
  /\ AllAre(E.names, Ok(NameOf(E.e, E.i)))
  /\ E.back = Ok(E.i)

StrOk ==
  /\ \A i \in 1..Len(E.exact) : E.exact[i].k = "ok" /\ Picks(ByName(E.e, E.s), E.exact[i].x)
  /\ \A i \in 1..Len(E.lower) : E.lower[i].k = "ok" /\ Picks(ByLower(E.e, E.s), E.lower[i].x)

PairOk == LET q == IF E.a = E.b THEN 1 ELSE 0 IN E.q = Ok(<<q, 1 - q, q>>)

Allowed ==
  (E.op \in JudgedOps /\ EnumSane(E.e)) =>
  CASE E.op = "info" -> IF Focus = "C10" THEN AllAre(E.all, Ok(AllVariants(E.e)))
                        ELSE IF Focus = "C11" THEN TypeOk
                        ELSE TypeOk /\ AllAre(E.all, Ok(AllVariants(E.e)))
    [] E.op = "variant" -> IF Focus = "C12" THEN E.eq = Ok(<<1, 1, 0>>) ELSE VariantOk /\ E.eq = Ok(<<1, 1, 0>>)
    [] E.op = "from" -> IF Focus = "C12" THEN CatchOk
                        ELSE E.r = Ok(VariantFor(E.e, TypeNames[E.type][1], E.b)) /\ (Focus # "C10" => CatchOk)
    [] E.op = "str" -> StrOk
    [] E.op = "pair" -> PairOk
    [] OTHER -> FALSE

\* C19: any result but a panic.
Fine(x) == x.k # "panic"
FineAll(s) == \A i \in 1..Len(s) : Fine(s[i])
Total ==
  CASE E.op = "info" -> FineAll(E.all)
    [] E.op = "variant" -> FineAll(E.prim) /\ FineAll(E.names) /\ Fine(E.back) /\ Fine(E.eq)
    [] E.op = "from" -> Fine(E.r) /\ Fine(E.c) /\ Fine(E.cp) /\ Fine(E.ct)
    [] E.op = "str" -> FineAll(E.exact) /\ FineAll(E.lower)
    [] E.op = "pair" -> Fine(E.q)

(***************************************************************************)
(* C21: the same conversions under every feature configuration.  What needs *)
(* an allocator is missing from the record where there is none.             *)
(***************************************************************************)
Range(s) == {s[i] : i \in 1..Len(s)}
Input == CASE E.op = "info" -> 0 [] E.op = "variant" -> E.i [] E.op = "from" -> E.b [] E.op = "str" -> E.s [] E.op = "pair" -> <<E.a, E.b>>
\* The first of these is what the prelude of the configuration offers.
Outcome == CASE E.op = "info" -> <<E.type, E.size, E.all[Len(E.all)].k, E.all[1], E.all[IF Len(E.all) = 1 THEN 1 ELSE 2]>>
             [] E.op = "variant" -> <<E.prim, E.names[1], E.names[IF Len(E.names) = 1 THEN 1 ELSE 2], E.back, E.eq>>
             [] E.op = "from" -> <<E.type, E.r, E.c, E.cp>>
             [] E.op = "str" -> <<E.exact, E.lower>>
             [] E.op = "pair" -> E.q
\* What only an allocator provides.
More == CASE E.op = "info" -> E.all [] E.op = "variant" -> E.names
          [] E.op = "from" -> IF E.ct.k = "none" THEN <<>> ELSE <<E.ct, E.ct>> [] OTHER -> <<>>
Before == {m \in memo : m[1] = <<E.e, E.op>> /\ m[2] = Input}
SameUnderConfigs ==
  LET o == Outcome
      x == More
  IN  \A m \in Before : m[3] = o /\ (Len(x) > 1 /\ Len(m[4]) > 1 => m[4] = x)
Remember == IF Focus # "C21" THEN {}
            ELSE {m \in memo : m[1][1] = E.e} \cup {<<<<E.e, E.op>>, Input, Outcome, More>>}

Expected ==
  CASE Focus = "C21" -> {<<m[3], m[4]>> : m \in Before}
    [] E.op = "info" -> <<PrimName(E.e), AllVariants(E.e)>>
    [] E.op = "variant" -> <<NameOf(E.e, E.i), PrimBytes(E.e, E.i, EnumTab[E.e].n)>>
    [] E.op = "from" -> VariantFor(E.e, TypeNames[E.type][1], E.b)
    [] E.op = "str" -> <<ByName(E.e, E.s), ByLower(E.e, E.s)>>
    [] E.op = "pair" -> E.a = E.b

Report == PrintT("DEVIATION " \o ToString(l) \o " " \o ToJson([e |-> E, cur |-> <<E.e>>, exp |-> Expected]))

TraceInit == l = 1 /\ memo = {}
Step == /\ l <= Len(Trace)
        /\ IF (CASE Focus = "C19" -> EnumSane(E.e) => Total [] Focus = "C21" -> SameUnderConfigs [] OTHER -> Allowed) THEN TRUE ELSE Report
        /\ l' = l + 1
        /\ memo' = Remember
TraceSpec == TraceInit /\ [][Step]_vars

TraceConsumed ==
  /\ PrintT("VERDICTS " \o ToJson([s |-> <<>>, e |-> [i \in 1..Len(Enums) |->
        [fits |-> EnumTab[i].fits, nodup |-> EnumTab[i].nodup, soft |-> EnumTab[i].soft, s |-> EnumTab[i].s, n |-> EnumTab[i].n]]]))
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
