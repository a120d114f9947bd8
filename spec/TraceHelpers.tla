----------------------------- MODULE TraceHelpers -----------------------------
\* Judges recorded uses of the helpers; every line is an action of PSHelpers.
EXTENDS PSHelpers, Json, IOUtils
VARIABLE l
vars == <<arr, l>>
Trace == ndJsonDeserialize(IOEnv.PS_TRACE)
E == Trace[l]
Ok(x) == [k |-> "ok", x |-> x]
AllAre(s, x) == \A i \in 1..Len(s) : s[i] = x
B(n) == MarkerBytes(n)
Expected ==
  CASE E.op = "width" -> <<E.n, B(E.n), B(E.n), B(E.n), E.n, E.n, B(E.n)>>
    [] E.op = "make" -> Rep(E.n, E.x)
    [] E.op = "put" -> [arr EXCEPT ![E.i + 1] = E.b]
    [] E.op = "shift" -> Shifted(arr, E.n)
    [] E.op = "get" -> arr
    [] E.op = "error" -> ErrorText(E.v, E.a, E.b)
    [] E.op = "reserved" -> <<ReservedText(0), ReservedText(1), B(E.n)>>
Allowed ==
  CASE E.op = "width" -> E.r = Ok(Expected) /\ (E.full = 1 <=> FillsBytes(E.n)) /\ (E.part = 1 <=> ~FillsBytes(E.n))
    [] E.op \in {"put", "shift"} -> E.r = Ok(Expected)
    [] E.op = "make" -> E.r = Ok(Expected) /\ E.len = E.n
    [] E.op = "get" -> E.r = Ok(Expected) /\ E.len = Len(arr)
    [] E.op = "error" -> AllAre(<<E.show, E.debug, E.boxed>>, Ok(Expected)) /\ E.same = Ok(1) /\ E.fmt = Ok("Error")
                         /\ E.carried \in {Ok(<<>>), Ok(<<ErrorData(E.v, E.a, E.b), 1, 1, 1>>)}
    [] E.op = "reserved" -> /\ AllAre(E.z, Ok(ReservedText(0))) /\ AllAre(E.o, Ok(ReservedText(1)))
                            /\ AllAre(E.zs, Ok(B(E.n))) /\ AllAre(E.os, Ok(B(E.n)))
    [] OTHER -> FALSE
Report == PrintT("DEVIATION " \o ToString(l) \o " " \o ToJson([e |-> E, cur |-> arr, exp |-> Expected]))
Step == /\ l <= Len(Trace)
        /\ IF Allowed THEN TRUE ELSE Report
        /\ l' = l + 1
        /\ arr' = IF E.op \in {"make", "put", "shift", "get"} /\ E.r.k = "ok" THEN E.r.x ELSE arr
TraceSpec == arr = <<>> /\ l = 1 /\ [][Step]_vars
TraceConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
