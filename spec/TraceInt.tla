------------------------------ MODULE TraceInt ------------------------------
(***************************************************************************)
(* Judges recorded executions of the real integers: each line must be an    *)
(* action of PSInts with the result it gives, or a reading of the register. *)
(* A line that is not is reported, and the register takes the value that    *)
(* was observed, so that the rest is still judged.                          *)
(***************************************************************************)
EXTENDS PSInts, Json, IOUtils

VARIABLE l
vars == <<ity, num, l>>

WStructs == <<>>
WEnums == <<>>
Trace == ndJsonDeserialize(IOEnv.PS_TRACE)
Focus == IOEnv.PS_FOCUS

E == Trace[l]
Ok(x) == [k |-> "ok", x |-> x]

JudgedOps ==
  CASE Focus = "C08" -> {"load", "default", "read", "pair", "bytes"}
    [] Focus = "C09" -> {"of_msb", "of_lsb", "unpack_msb", "unpack_lsb", "bytes", "native"}
    [] Focus = "C20" -> {"ser", "de", "detext"}
    [] OTHER -> {"load", "default", "read", "pair", "of_msb", "of_lsb", "unpack_msb", "unpack_lsb", "bytes", "native",
                 "ser", "de", "detext"}

\* What a load must give.
Loaded ==
  CASE E.op \in {"load", "de"} -> NormT(E.t, E.x)
    [] E.op = "default" -> TLCEval([i \in 1..Nb(E.t) |-> 0])
    [] E.op = "of_msb" -> OfMsb(E.t, E.b)
    [] E.op = "of_lsb" -> OfLsb(E.t, E.b)
    [] E.op = "unpack_msb" -> OfPacked(E.t, FALSE, E.b)
    [] E.op = "unpack_lsb" -> OfPacked(E.t, TRUE, E.b)
    [] E.op = "detext" -> NormT(E.t, E.n.x)

Text == NumText(Sg(ity), num)
NativeName(t) == (IF Sg(t) = 1 THEN "i" ELSE "u") \o ToString(Nb(t) * 8)
AllAre(s, x) == \A i \in 1..Len(s) : s[i] = x

\* A value shown: debug and display text, possibly through a wrapper.
ReadOk ==
  /\ AllAre(E.nums, Ok(num))
  /\ E.mask = Ok(Mask(ity))
  /\ AllAre(E.texts, Ok(Text))

BytesOk ==
  /\ E.msb = Ok(MsbBytes(ity, num))
  /\ E.lsb = Ok(LsbBytes(ity, num))
  /\ \A i \in 1..Len(E.pm) : E.pm[i].k = "ok" /\ PackedAs(ity, FALSE, num, E.pm[i].x)
  /\ \A i \in 1..Len(E.pl) : E.pl[i].k = "ok" /\ PackedAs(ity, TRUE, num, E.pl[i].x)
  /\ AllAre(E.nums, Ok(num))
  /\ AllAre(E.bits, Wd(ity))

\* Equality, inequality and hashing agree with the normalised values.
PairOk ==
  LET same == IF num = NormT(ity, E.x) THEN 1 ELSE 0 IN
  /\ E.q = Ok(<<same, same, 1 - same, same>>)
  /\ E.hn = Ok(1)

\* Serialised as the native value, and back.
SerOk ==
  /\ E.call = Ok(NativeName(ity) \o " " \o Text)
  /\ E.compact = E.call
  /\ E.text = Ok(Text)
  /\ E.holder.k = "ok" /\ E.holder = E.native
  /\ E.again = Ok(num)
  /\ E.through = Ok(num)

Allowed ==
  E.op \in JudgedOps =>
  CASE E.op = "load" -> E.r = Ok(Loaded) /\ E.p = Ok(Loaded)
    [] E.op \in {"default", "of_msb", "of_lsb", "unpack_msb", "unpack_lsb"} -> E.r = Ok(Loaded)
    [] E.op = "read" -> ReadOk
    [] E.op = "bytes" -> IF Focus = "C08" THEN AllAre(E.texts, Ok(Text)) /\ AllAre(E.nums, Ok(num)) ELSE BytesOk
    [] E.op = "pair" -> PairOk
    [] E.op = "native" -> /\ E.tm = Ok(E.x) /\ E.tl = Ok(Rev(E.x))
                          /\ E.fm = Ok(E.x) /\ E.fl = Ok(Rev(E.x))
    [] E.op = "ser" -> SerOk
    [] E.op = "de" -> /\ E.r = Ok(Loaded) /\ AllAre(E.more, Ok(Loaded))
                      /\ E.asked[1] = E.asked[2]
    [] E.op = "detext" -> IF E.n.k = "ok" THEN E.r = Ok(Loaded) ELSE E.r.k = "err"
    [] OTHER -> FALSE

\* C19: any result but a panic.
Fine(x) == x.k # "panic"
FineAll(s) == \A i \in 1..Len(s) : Fine(s[i])
Total ==
  CASE E.op = "load" -> Fine(E.r) /\ Fine(E.p)
    [] E.op \in {"default", "of_msb", "of_lsb", "unpack_msb", "unpack_lsb"} -> Fine(E.r)
    [] E.op = "read" -> FineAll(E.nums) /\ Fine(E.mask) /\ FineAll(E.texts)
    [] E.op = "bytes" -> Fine(E.msb) /\ Fine(E.lsb) /\ FineAll(E.pm) /\ FineAll(E.pl) /\ FineAll(E.nums) /\ FineAll(E.texts)
    [] E.op = "pair" -> Fine(E.q) /\ Fine(E.hn)
    [] E.op = "native" -> Fine(E.tm) /\ Fine(E.tl) /\ Fine(E.fm) /\ Fine(E.fl)
    [] OTHER -> TRUE

Expected ==
  CASE E.op \in {"load", "default", "of_msb", "of_lsb", "unpack_msb", "unpack_lsb", "de"} -> Loaded
    [] E.op \in {"read", "ser"} -> <<num, Mask(ity), Text>>
    [] E.op = "bytes" -> <<num, MsbBytes(ity, num), LsbBytes(ity, num), PackBits(ity, FALSE, num), PackBits(ity, TRUE, num)>>
    [] E.op = "pair" -> num = NormT(ity, E.x)
    [] OTHER -> "see the specification"

Effect ==
  CASE E.op \in {"load", "default", "of_msb", "of_lsb", "unpack_msb", "unpack_lsb", "de", "detext"} ->
         IF E.r.k = "ok" THEN SetTo(E.t, E.r.x) ELSE UNCHANGED ivars
    [] OTHER -> UNCHANGED ivars

Report == PrintT("DEVIATION " \o ToString(l) \o " " \o ToJson([e |-> E, cur |-> <<ity, num>>, exp |-> Expected]))

Step == /\ l <= Len(Trace)
        /\ IF (IF Focus = "C19" THEN Total ELSE Allowed) THEN TRUE ELSE Report
        /\ l' = l + 1
        /\ Effect

TraceSpec == Init /\ l = 1 /\ [][Step]_vars

TraceConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
