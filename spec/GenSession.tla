------------------------------ MODULE GenSession ------------------------------
(***************************************************************************)
(* Histories of the session, drawn from the specification: TLC's simulator  *)
(* walks PSSession over the declarations of a world, with values and        *)
(* buffers chosen at random but so that operations bear on each other (the  *)
(* buffer is what was packed, or that with one bit changed; the value       *)
(* compared with is the current one, or that with one part replaced).  A    *)
(* finished history is printed and replayed against the real code.          *)
(***************************************************************************)
EXTENDS PSSession, Json, IOUtils

VARIABLE hist
gvars == <<obj, cur, buf, hist>>

World == JsonDeserialize(IOEnv.PS_WORLD)
WStructs == World.structs
WEnums == World.enums
WObjs == World.objs
LEN == World.len             \* operations of a history

RECURSIVE SaneT(_)
SaneT(t) == CASE t.k = "ref" -> SaneS(t.d)
             [] t.k = "tup" -> \A i \in 1..Len(t.ts) : SaneT(t.ts[i])
             [] t.k = "vec" -> SaneT(t.t)
             [] OTHER -> TRUE
Use == World.use              \* the objects histories are wanted of
Usable == TLCEval({Use[i] : i \in {j \in 1..Len(Use) : SaneT(WObjs[Use[j]])}})

Pick(S) == RandomElement(S)
Coin(n) == Pick(1..n) = 1

\* Random contents, with a liking for the edges.
RByte == LET c == Pick(1..6) IN
         CASE c = 1 -> 0 [] c = 2 -> Pow2(BYTE) - 1 [] c = 3 -> Pow2(Pick(0..(BYTE - 1)))
           [] OTHER -> Pick(Byte)
RBytes(n) ==
  LET c == Pick(1..5)
      k == IF n = 0 THEN 0 ELSE Pick(1..n)
      b == RByte
      e == IF Coin(2) THEN 0 ELSE Pow2(BYTE) - 1
  IN  TLCEval([i \in 1..n |-> CASE c = 1 -> e
                                [] c = 2 -> (IF i = k THEN b ELSE e)
                                [] c = 3 -> b
                                [] OTHER -> RByte])
FlipBit(bytes) ==
  IF bytes = <<>> THEN bytes
  ELSE LET i == Pick(1..Len(bytes)) p == Pow2(Pick(0..(BYTE - 1)))
       IN  [bytes EXCEPT ![i] = IF (@ \div p) % 2 = 1 THEN @ - p ELSE @ + p]

RECURSIVE RValue(_)
RValue(t) ==
  CASE t.k = "bool" -> <<Pick(0..1)>>
    [] t.k \in {"int", "sint", "msb", "lsb"} -> RBytes(t.n)
    [] t.k = "cust" -> LET b == RBytes(t.n) IN IF Coin(6) THEN [b EXCEPT ![1] = Pick({221, 222, 237, 238})] ELSE b
    [] t.k = "enum" -> IF t.c = 1 /\ Coin(2) THEN <<0>> \o RBytes(EnumTab[t.e].n)
                       ELSE <<Pick(1..Len(EnumTab[t.e].ds))>>
    [] t.k \in {"res", "unit"} -> <<>>
    [] t.k = "bytes" -> LET b == RBytes(t.n) IN TLCEval([i \in 1..t.n |-> <<b[i]>>])
    [] t.k = "ref" -> LET F == Structs[t.d].fields IN
                      TLCEval([i \in 1..Len(F) |->
                        IF F[i].arr = 0 THEN RValue(F[i].ty) ELSE TLCEval([j \in 1..F[i].arr |-> RValue(F[i].ty)])])
    [] t.k = "tup" -> TLCEval([i \in 1..Len(t.ts) |-> RValue(t.ts[i])])
    [] t.k = "vec" -> LET n == Pick({0, 1, 2, 3, 5}) IN TLCEval([i \in 1..n |-> RValue(t.t)])

\* A value that differs from v in one part.
RECURSIVE Vary(_, _)
Vary(t, v) ==
  CASE t.k = "ref" -> LET F == Structs[t.d].fields
                          i == Pick(1..Len(F))
                      IN  IF F[i].arr = 0 THEN [v EXCEPT ![i] = Vary(F[i].ty, @)]
                          ELSE LET j == Pick(1..F[i].arr) IN [v EXCEPT ![i] = [@ EXCEPT ![j] = Vary(F[i].ty, @)]]
    [] t.k = "tup" -> LET i == Pick(1..Len(t.ts)) IN [v EXCEPT ![i] = Vary(t.ts[i], @)]
    [] t.k = "vec" -> IF v = <<>> \/ Coin(3) THEN RValue(t)
                      ELSE LET i == Pick(1..Len(v)) IN [v EXCEPT ![i] = Vary(t.t, @)]
    [] t.k \in {"int", "sint", "msb", "lsb"} -> IF Coin(2) THEN FlipBit(v) ELSE RBytes(t.n)
    [] OTHER -> RValue(t)

\* A buffer to read from.
RBuffer ==
  LET c == Pick(1..8)
      n == IF IsDynamic(T) THEN (IF Coin(2) THEN Pick(0..40) ELSE Len(buf)) ELSE StaticSize(T)
  IN  CASE c \in {1, 2} -> buf
        [] c \in {3, 4} -> FlipBit(buf)
        [] c = 5 -> RBytes(Pick({0, 1, n, n + 1, IF n = 0 THEN 0 ELSE n - 1, 2 * n}))
        [] OTHER -> RBytes(n)
Room == LET n == SizeOf(T, cur) IN
        IF Coin(4) THEN RBytes(Pick({0, 1, n + 1, IF n = 0 THEN 0 ELSE n - 1, 2 * n})) ELSE RBytes(n)

\* Results of the operations.
Low(m) == TLCEval([i \in 1..Len(m) |-> m[i] % 2])
Packed == IF Refuses(T, cur) THEN [k |-> "err", x |-> NoPack]
          ELSE Ok(BitsToBytes(Low(TLCEval(Image(T, cur)))))
Unpacked(b) == LET d == Decode(T, b) IN
               IF d.v # {} THEN Ok(CHOOSE x \in d.v : TRUE) ELSE [k |-> "err", x |-> CHOOSE x \in d.e : TRUE]

Log(e) == hist' = Append(hist, e)
Init == SessionInit /\ hist = <<>>
More == obj # 0 /\ Len(hist) < LEN
Fixed == T.k \notin {"tup", "vec"}

\* (The guards are compared with TRUE so that TLC evaluates them as expressions, which
\* is much faster than as parts of an action.)
Choose == obj = 0 /\ \E o \in Usable : obj' = o /\ UNCHANGED <<cur, buf, hist>>
DoNew == \E v \in {TLCEval(IF hist # <<>> /\ Coin(2) THEN Vary(T, cur) ELSE RValue(T))} :
           \E r \in {TLCEval(Ok(Store(T, v)))} : NewAllowed(obj, v, r) = TRUE /\ NewEffect(obj, r) /\ Log([op |-> "N", v |-> v])
\* packing to the type's own array, or to a vector
DoPack(op) == \E r \in {TLCEval(Packed)} :
            /\ PackAllowed(r) = TRUE
            /\ IF r.k = "ok" THEN PackEffect(r) ELSE UNCHANGED svars
            /\ Log([op |-> op, r |-> r])
DoInto == \E pre \in {TLCEval(Room)} : \E r \in {TLCEval(Packed)} :
            IF Len(pre) = SizeOf(T, cur)
            THEN \E post \in {TLCEval(IF r.k = "ok" THEN r.x ELSE pre)} :
                 /\ PackIntoAllowed(pre, post, IF r.k = "ok" THEN Ok(<<>>) ELSE r) = TRUE
                 /\ PackIntoEffect(post)
                 /\ Log([op |-> "S", b |-> pre, r |-> r])
            ELSE LET e == [k |-> "err", x |-> SizeMismatch(SizeOf(T, cur), Len(pre))] IN
                 PackIntoAllowed(pre, pre, e) = TRUE /\ PackIntoEffect(pre) /\ Log([op |-> "S", b |-> pre, r |-> e])
DoUnpack(op) == \E b \in {TLCEval(RBuffer)} : \E r \in {TLCEval(Unpacked(b))} :
              /\ UnpackAllowed(b, r) = TRUE /\ UnpackEffect(b, r)
              /\ Log([op |-> IF op = "U" /\ Len(b) # StaticSize(T) THEN "F" ELSE op, b |-> b, r |-> r])
DoSizes == UNCHANGED svars /\ Log([op |-> "Z", r |-> IF IsDynamic(T) THEN -1 ELSE StaticSize(T), n |-> SizeOf(T, cur)])
DoEq == \E v \in {TLCEval(LET c == Pick(1..3) IN IF c = 1 THEN cur ELSE IF c = 2 THEN Vary(T, cur) ELSE RValue(T))} :
          \E r \in {0, 1} : EqAllowed(v, r) = TRUE /\ UNCHANGED svars /\ Log([op |-> "E", v |-> v, r |-> r])
Ops == <<"N", "N", "P", "V", "S", "U", "U", "F", "Z", "E">>
\* One operation, drawn first so that only its effect is worked out.
Act(op) ==
  CASE op = "N" -> DoNew
    [] op \in {"P", "V"} -> DoPack(IF Fixed THEN op ELSE "V")
    [] op = "S" -> DoInto
    [] op \in {"U", "F"} -> DoUnpack(IF Fixed THEN op ELSE "F")
    [] op = "Z" -> DoSizes
    [] op = "E" -> DoEq
Next == \/ Choose
        \/ obj # 0 /\ hist = <<>> /\ DoNew
        \/ More /\ hist # <<>> /\ \E i \in {Pick(1..Len(Ops))} : Act(Ops[i])
        \/ /\ Len(hist) = LEN
           /\ PrintT("DECL " \o ToJson([o |-> obj, h |-> hist]))
           /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED svars
Spec == Init /\ [][Next]_gvars
=============================================================================
