------------------------------ MODULE TraceDoc ------------------------------
(***************************************************************************)
(* Judges the documentation that the compiler's documentation tool shows.   *)
(* A line: [d |-> structure, size |-> numbers its sentence states,          *)
(* rows |-> the table's rows, ts |-> the declared types].                   *)
(***************************************************************************)
EXTENDS PSDoc, Json, IOUtils

VARIABLE l

World == JsonDeserialize(IOEnv.PS_WORLD)
WStructs == World.structs
WEnums == World.enums
Trace == ndJsonDeserialize(IOEnv.PS_TRACE)

E == Trace[l]
Judged == Lay[E.d].v = "ok" /\ ~Lay[E.d].soft
Allowed == Judged => (E.size = <<DocSize(E.d)>> /\ E.rows = DocRows(E.d, E.ts))

Report == PrintT("DEVIATION " \o ToString(l) \o " " \o
            ToJson([e |-> E, cur |-> <<E.d>>, exp |-> [size |-> DocSize(E.d), rows |-> DocRows(E.d, E.ts)]]))

TraceInit == l = 1
Step == /\ l <= Len(Trace)
        /\ IF Allowed THEN TRUE ELSE Report
        /\ l' = l + 1
TraceSpec == TraceInit /\ [][Step]_l

TraceConsumed ==
  /\ PrintT("VERDICTS " \o ToJson([s |-> [i \in 1..Len(Structs) |-> [v |-> Lay[i].v, soft |-> Lay[i].soft]],
                                   e |-> [i \in 1..Len(Enums) |-> [fits |-> EnumTab[i].fits, nodup |-> EnumTab[i].nodup, soft |-> EnumTab[i].soft]]]))
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
