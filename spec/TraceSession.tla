---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Judges a recorded execution of the real code: every line of the trace    *)
(* must be an action of PSSession.  A line that is not is reported and the  *)
(* session is resynchronised with what was observed, so that the rest of    *)
(* the trace is still judged.                                               *)
(*                                                                         *)
(* PS_FOCUS names the property that is judged: it selects the actions whose *)
(* guard is compared with the observation, and how (Allowed).  The others   *)
(* are taken as observed.                                                   *)
(***************************************************************************)
EXTENDS PSSession, PSDisplay, Json, IOUtils

VARIABLE l,       \* next line of the trace
         ctx,     \* "packed": buf is what cur packed into; "unpacked": cur was unpacked from buf
         memo     \* <<value, bytes>> for everything packed from the current type
vars == <<obj, cur, buf, l, ctx, memo>>

World == JsonDeserialize(IOEnv.PS_WORLD)
WStructs == World.structs
WEnums == World.enums
WObjs == World.objs
Trace == ndJsonDeserialize(IOEnv.PS_TRACE)
Focus == IOEnv.PS_FOCUS

TraceInit == SessionInit /\ l = 1 /\ ctx = "none" /\ memo = {}

E == Trace[l]

\* Declarations whose meaning is not specified are not judged.
RECURSIVE Sane(_)
Sane(t) == CASE t.k = "ref" -> SaneS(t.d)
             [] t.k = "tup" -> \A i \in 1..Len(t.ts) : Sane(t.ts[i])
             [] t.k = "vec" -> Sane(t.t)
             [] OTHER -> TRUE
SaneObj == TLCEval([o \in 1..Len(WObjs) |-> Sane(WObjs[o])])

JudgedOps ==
  CASE Focus = "ALL" -> {"new", "pack", "vec", "into", "unpack", "from", "sizes", "eq", "show", "debug", "spack", "sunpack"}
    [] Focus \in {"C02"} -> {"pack", "spack"}
    [] Focus \in {"C03"} -> {"unpack", "sunpack"}
    [] Focus \in {"C01", "C04", "C06", "C07", "C14"} -> {"pack", "unpack"}
    [] Focus = "C13" -> {"pack", "unpack", "eq"}
    [] Focus = "C05" -> {"pack", "unpack", "sizes", "spack", "sunpack"}
    [] Focus = "C08" -> {"new", "eq", "debug"}
    [] Focus = "C09" -> {"pack", "unpack"}
    [] Focus = "C12" -> {"pack", "unpack", "eq", "debug"}
    [] Focus = "C15" -> {"into", "from", "vec"}
    [] Focus \in {"C16", "C17"} -> {"into", "from", "vec", "sizes"}
    [] Focus = "C18" -> {"show", "debug"}
    [] Focus \in {"C19", "C21"} -> {"new", "pack", "vec", "into", "unpack", "from", "sizes", "eq", "show", "debug", "spack", "sunpack"}
    [] Focus = "C22" -> {"sizes", "pack", "vec", "into", "from"}

\* The bytes on display are those that packing gave (whether they are right is
\* the business of other properties).
Shown == IF ctx = "packed" THEN buf ELSE PackedNow

Functional ==
  CASE E.op = "new"  -> NewAllowed(E.o, E.v, E.r)
    [] E.op \in {"pack", "vec"} -> PackAllowed(E.r)
    [] E.op = "into" -> PackIntoAllowed(E.pre, E.post, E.r)
    [] E.op \in {"unpack", "from"} -> UnpackAllowed(E.b, E.r)
    [] E.op = "spack" -> SparsePackAllowed(E.r)
    [] E.op = "sunpack" -> SparseUnpackAllowed(E.ones, E.r)
    [] E.op = "sizes" -> SizesAllowed(E.bits, E.alen, E.none, E.some)
    [] E.op = "eq"   -> EqAllowed(E.v, E.r)
    [] E.op = "show" -> ShowAllowed(E.fl, Shown, E.r)
    [] E.op = "debug" -> ShowDebugAllowed(E.r)
    [] OTHER -> FALSE

(***************************************************************************)
(* C01, as a relation between successive operations: whatever the layout,   *)
(* unpacking what was packed gives the value back, packing what was         *)
(* unpacked gives the bytes back up to fixed bits, and packing the same     *)
(* value again gives the same bytes whatever happened in between.           *)
(***************************************************************************)
RoundTrip ==
  CASE E.op = "pack" /\ Refuses(T, cur) -> E.r.k = "err"
    [] E.op = "pack" ->
         /\ E.r.k = "ok"
         /\ \A m \in memo : m[1] = cur => m[2] = E.r.x
         /\ (ctx = "unpacked" /\ T.k = "ref") => Matches(E.r.x, LET kinds == KindS(T.d)
                                                   bits == BytesToBits(buf)
                                               IN  [i \in 1..Len(kinds) |-> IF kinds[i] = 2 /\ i <= Len(bits) THEN bits[i] ELSE kinds[i]])
    [] E.op = "unpack" ->
         (ctx = "packed" /\ E.b = buf /\ (T.k = "ref" => LosslessS(T.d))) => (E.r.k = "ok" /\ EqT(T, IF T.k = "ref" THEN NormS(T.d, cur) ELSE cur, E.r.x))

\* C13: packing, as far as reserved bits are concerned.
ReservedOnly ==
  CASE E.op = "pack" /\ Refuses(T, cur) -> E.r.k = "err"
    [] E.op = "pack" -> E.r.k = "ok" /\ Matches(E.r.x, ReservedS(T.d))
    [] E.op = "unpack" -> UnpackAllowed(E.b, E.r)
    [] E.op = "eq" -> EqAllowed(E.v, E.r)

(***************************************************************************)
(* C15, as a relation between the slice operations and the fixed-array ones *)
(* (between packing to a slice and to a vector, for types without the       *)
(* latter): same results, exact lengths, and outputs untouched on error.    *)
(***************************************************************************)
SameR(a, b) == a.k = b.k /\ a.x = b.x
Fixed == T.k \notin {"tup", "vec"}
SliceRel ==
  CASE E.op = "vec" -> \A m \in memo : (m[1] = "out" /\ m[2] = cur) => SameR(m[3], E.r)
    [] E.op = "into" ->
         LET n == SizeOf(T, cur) IN
         IF Len(E.pre) # n THEN E.r.k = "err" /\ E.r.x = SizeMismatch(n, Len(E.pre)) /\ E.post = E.pre
         ELSE /\ E.r.k # "panic"
              /\ (E.r.k = "err" /\ Fixed) => E.post = E.pre
              /\ \A m \in memo : (m[1] = "out" /\ m[2] = cur) =>
                    IF m[3].k = "ok" THEN E.r.k = "ok" /\ E.post = m[3].x ELSE SameR(E.r, m[3])
    [] E.op = "from" ->
         IF ~IsDynamic(T) /\ Len(E.b) # StaticSize(T)
         THEN E.r = [k |-> "err", x |-> SizeMismatch(StaticSize(T), Len(E.b))]
         ELSE \A m \in memo : (m[1] = "in" /\ m[2] = E.b) => SameR(m[3], E.r)

\* C04: a declaration in LSB0 numbering, or with reversed ranges, against its
\* mirrored ordered MSB0 declaration (Mirror[o], 0 for none), which has been
\* put through the same operations before.
Mirror == IF "mirror" \in DOMAIN World THEN World.mirror ELSE <<>>
Mirrored(o) == o <= Len(Mirror) /\ Mirror[o] # 0
MirrorRel ==
  CASE ~Mirrored(obj) -> TRUE
    [] E.op = "pack" -> \A m \in memo : (m[1] = "out" /\ m[2] = cur) => SameR(m[3], E.r)
    [] E.op = "unpack" -> \A m \in memo : (m[1] = "in" /\ m[2] = E.b) => SameR(m[3], E.r)

(***************************************************************************)
(* C21: the trace has the same history of every object under one feature    *)
(* configuration after the other (a line "cfg" in between); the same        *)
(* operation on the same value has the same outcome.                        *)
(***************************************************************************)
Input == CASE E.op = "new" -> E.v
           [] E.op \in {"pack", "spack", "vec", "sizes", "debug"} -> cur
           [] E.op = "sunpack" -> E.ones
           [] E.op = "into" -> <<cur, E.pre>>
           [] E.op \in {"unpack", "from"} -> E.b
           [] E.op = "eq" -> <<cur, E.v>>
           [] E.op = "show" -> <<cur, E.fl>>
Outcome == CASE E.op = "into" -> <<E.post, E.r>>
             [] E.op = "sizes" -> <<E.bits, E.alen, E.none, E.some>>
             [] OTHER -> E.r
Before == LET i == Input IN {m \in memo : m[1] = E.op /\ m[2] = i}
ConfigRel == LET o == Outcome IN \A m \in (IF E.op = "new" /\ E.o # obj THEN {} ELSE Before) : m[3] = o

\* C19: any result but a panic.
Total == CASE E.op = "sizes" -> E.none.k # "panic" /\ E.some.k # "panic"
           [] E.op = "eq" -> E.r # 2
           [] OTHER -> E.r.k # "panic"

\* C22: reported and actual sizes.
SizeOnly ==
  CASE E.op = "sizes" -> SizesAllowed(E.bits, E.alen, E.none, E.some)
    [] E.op \in {"pack", "vec"} -> E.r.k = "ok" => Len(E.r.x) = SizeOf(T, cur)
    [] E.op = "into" -> (E.r.k = "ok") <=> (Len(E.pre) = SizeOf(T, cur))
    [] E.op = "from" -> IsDynamic(T) \/ ((E.r.k = "err" /\ E.r.x[1] = "BufferSizeMismatch") <=> (Len(E.b) # StaticSize(T)))

Judged == E.op \in JudgedOps /\ (IF E.op = "new" THEN SaneObj[E.o] ELSE SaneObj[obj])
Allowed ==
  IF Focus = "C21" THEN E.op \in JudgedOps => ConfigRel ELSE
  ~Judged \/ (CASE Focus = "C01" -> RoundTrip
                [] Focus = "C04" -> MirrorRel
                [] Focus = "C15" -> SliceRel
                [] Focus = "C13" -> ReservedOnly
                [] Focus = "C19" -> Total
                [] Focus = "C22" -> SizeOnly
                [] OTHER -> Functional)

Expected ==
  CASE Focus = "C21" -> {m[3] : m \in Before}
    [] E.op = "new"  -> Store(Objs[E.o], E.v)
    [] E.op \in {"pack", "vec"} -> Image(T, cur)
    [] E.op = "spack" -> <<Bytes(Lay[T.d].bits), SparseS(T.d, cur)>>
    [] E.op = "sunpack" -> SparseDecS(T.d, SetOf(E.ones))
    [] E.op = "into" -> <<SizeOf(T, cur), Image(T, cur)>>
    [] E.op \in {"unpack", "from"} -> Decode(T, E.b)
    [] E.op = "sizes" -> <<IF IsDynamic(T) THEN <<>> ELSE <<BitsOf(T), StaticSize(T)>>, SizeOf(T, cur)>>
    [] E.op = "show" -> ShowOf(T.d, cur, Shown, E.fl)
    [] E.op = "debug" -> DebugText(T, cur)
    [] OTHER -> "no such action"

\* What a line does: the effect of the corresponding action of the specification.
Effect ==
  CASE E.op = "new" -> NewEffect(E.o, E.r)
    [] E.op \in {"pack", "vec"} -> IF E.r.k = "ok" THEN PackEffect(E.r) ELSE UNCHANGED svars
    [] E.op = "into" -> PackIntoEffect(E.post)
    [] E.op = "sunpack" -> UnpackEffect(<<>>, E.r)
    [] E.op \in {"unpack", "from"} -> UnpackEffect(E.b, E.r)
    [] OTHER -> UNCHANGED svars

History ==
  /\ ctx' = CASE E.op \in {"pack", "vec"} -> IF E.r.k = "ok" THEN "packed" ELSE "none"
              [] E.op \in {"unpack", "from"} -> IF E.r.k = "ok" THEN "unpacked" ELSE "none"
              [] E.op \in {"new", "into", "sunpack"} -> "none"
              [] OTHER -> ctx
  /\ memo' = CASE Focus \notin {"C01", "C04", "C15", "C21"} -> {}
               [] Focus = "C21" -> IF E.op \notin JudgedOps THEN memo
                                   ELSE (IF E.op = "new" /\ E.o # obj THEN {} ELSE memo) \cup {<<E.op, Input, Outcome>>}
               [] E.op = "new" -> IF E.o = obj \/ (Mirrored(E.o) /\ (Mirror[E.o] = obj \/ (Mirrored(obj) /\ Mirror[E.o] = Mirror[obj])))
                                     THEN memo ELSE {}
               [] Focus = "C01" -> IF E.op = "pack" /\ E.r.k = "ok" THEN memo \cup {<<cur, E.r.x>>} ELSE memo
               [] Mirrored(obj) -> memo
               [] E.op = "pack" \/ (E.op = "vec" /\ ~Fixed) -> memo \cup {<<"out", cur, E.r>>}
               [] E.op = "unpack" \/ (E.op = "from" /\ ~Fixed) -> memo \cup {<<"in", E.b, E.r>>}
               [] OTHER -> memo

\* (Very long values are left out of the report.)
Report == PrintT("DEVIATION " \o ToString(l) \o " " \o ToJson(
            IF Len(cur) > 3000 \/ Len(buf) > 3000 THEN [e |-> [op |-> E.op], cur |-> <<>>, exp |-> <<>>]
            ELSE [e |-> E, cur |-> cur, exp |-> Expected]))

Step == /\ l <= Len(Trace)
        /\ IF Allowed THEN TRUE ELSE Report
        /\ l' = l + 1
        /\ Effect
        /\ History

TraceSpec == TraceInit /\ [][Step]_vars

\* The whole trace was consumed (one state per line plus the initial one).
TraceConsumed ==
  /\ PrintT("VERDICTS " \o ToJson([s |-> [i \in 1..Len(Structs) |-> [v |-> Lay[i].v, soft |-> Lay[i].soft]],
                                   e |-> [i \in 1..Len(Enums) |-> [fits |-> EnumTab[i].fits, nodup |-> EnumTab[i].nodup, soft |-> EnumTab[i].soft]],
                                   o |-> SaneObj]))
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
