------------------------------ MODULE PSSession -----------------------------
(***************************************************************************)
(* The system as its user sees it: an object of some type holding a value,  *)
(* the caller's byte buffer, and the public operations.  An operation is    *)
(* allowed exactly with the results the specification gives it; there is    *)
(* no hidden state, so the result of an operation may depend only on obj,   *)
(* cur, and the operation's arguments.                                      *)
(***************************************************************************)
EXTENDS PSCompose

CONSTANT Objs            \* the types under test: a sequence of root terms

VARIABLES obj,           \* index of the type of the object in use (0: none)
          cur,           \* its value
          buf            \* the caller's buffer: bytes last produced or consumed
svars == <<obj, cur, buf>>

T == Objs[obj]
Ok(x) == [k |-> "ok", x |-> x]

SessionInit == obj = 0 /\ cur = <<>> /\ buf = <<>>

\* Building a value from native parts; r is what reading it back gives.
NewAllowed(o, v, r) == r = Ok(Store(Objs[o], v))
NewEffect(o, r) == obj' = o /\ cur' = (IF r.k = "ok" THEN r.x ELSE <<>>) /\ buf' = <<>>
New(o, v, r) == NewAllowed(o, v, r) /\ NewEffect(o, r)

\* Packing into the type's own byte array, or into a new vector.
PackAllowed(r) == IF Refuses(T, cur) THEN r.k = "err" /\ r.x = NoPack
                  ELSE r.k = "ok" /\ Matches(r.x, Image(T, cur))
PackEffect(r) == buf' = r.x /\ UNCHANGED <<obj, cur>>
Pack(r) == PackAllowed(r) /\ PackEffect(r)

\* Packing into a caller's slice with previous content pre: exact length or
\* an error that leaves the slice alone.  (A tuple or vector of which a later
\* member refuses has written the earlier ones.)
PackIntoAllowed(pre, post, r) ==
  LET n == SizeOf(T, cur) IN
  IF Len(pre) = n
  THEN IF Refuses(T, cur)
       THEN r.k = "err" /\ r.x = NoPack /\ (T.k \in {"tup", "vec"} \/ post = pre)
       ELSE r.k = "ok" /\ Matches(post, Image(T, cur))
  ELSE r.k = "err" /\ r.x = SizeMismatch(n, Len(pre)) /\ post = pre
PackIntoEffect(post) == buf' = post /\ UNCHANGED <<obj, cur>>
PackInto(pre, post, r) == PackIntoAllowed(pre, post, r) /\ PackIntoEffect(post)

\* Unpacking bytes of any length.  On error the object keeps its value.
UnpackAllowed(bytes, r) ==
  LET d == Decode(T, bytes) IN
  IF r.k = "ok" THEN r.x \in d.v ELSE r.k = "err" /\ r.x \in d.e
UnpackEffect(bytes, r) ==
  /\ buf' = bytes
  /\ cur' = IF r.k = "ok" THEN r.x ELSE cur
  /\ UNCHANGED obj
Unpack(bytes, r) == UnpackAllowed(bytes, r) /\ UnpackEffect(bytes, r)

\* The same operations on structures too long to be written out byte by byte:
\* bytes are given as their number and the positions of their one bits.
SetOf(x) == {x[i] : i \in 1..Len(x)}
SparsePackAllowed(r) ==
  r.k = "ok" /\ r.x[1] = Bytes(Lay[T.d].bits) /\ SetOf(r.x[2]) = SparseS(T.d, cur)
SparseUnpackAllowed(ones, r) ==
  LET d == SparseDecS(T.d, SetOf(ones)) IN
  IF r.k = "ok" THEN d.ok /\ r.x = d.v ELSE r.k = "err" /\ ~d.ok /\ r.x \in d.e

\* Sizes: bits (-1: not reported for this type), fixed array length (-1),
\* size without and with an instance.
SizesAllowed(bits, alen, none, some) ==
  /\ bits # -1 => bits = BitsOf(T)
  /\ alen # -1 => alen = StaticSize(T)
  /\ IF IsDynamic(T) THEN none.k = "err" /\ none.x = Err("InstanceRequiredForSize")
     ELSE none = Ok(StaticSize(T))
  /\ some = Ok(SizeOf(T, cur))
Sizes(bits, alen, none, some) ==
  SizesAllowed(bits, alen, none, some) /\ UNCHANGED svars

\* Equality against another value built from native parts.
RECURSIVE EqT(_, _, _)
EqT(t, a, b) ==
  CASE t.k = "ref" -> EqS(t.d, a, b)
    [] t.k = "tup" -> \A i \in 1..Len(t.ts) : EqT(t.ts[i], a[i], b[i])
    [] t.k = "vec" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqT(t.t, a[i], b[i])
    [] OTHER -> a = b
EqAllowed(v, r) == r = IF EqT(T, cur, Store(T, v)) THEN 1 ELSE 0
Eq(v, r) == EqAllowed(v, r) /\ UNCHANGED svars
=============================================================================
