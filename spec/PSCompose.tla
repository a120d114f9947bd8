------------------------------ MODULE PSCompose -----------------------------
(***************************************************************************)
(* Objects that can be packed on their own: structs, and the types the      *)
(* slice interface composes them from.  Root type terms, besides the leaf   *)
(* terms of PSTypes that are packable alone (bool, one-byte int, res, ref,   *)
(* cust):                                                                   *)
(*   [k |-> "bytes", n]            a fixed byte array (value: <<<<b1>>, ..>>)*)
(*   [k |-> "unit"]                the unit type                            *)
(*   [k |-> "msb" | "lsb", s, n, w]   a width-limited integer in a wrapper  *)
(*   [k |-> "tup", ts]             a tuple                                  *)
(*   [k |-> "vec", t]              a vector                                 *)
(* A packed image is a bit vector that may contain 2: a leading bit of a    *)
(* type whose width is not a whole number of bytes, which is ignored.       *)
(***************************************************************************)
EXTENDS PSCodec

Err(e) == <<e>>
SizeMismatch(exp, act) == <<"BufferSizeMismatch", exp, act>>
ModMismatch(act, mod)  == <<"BufferModMismatch", act, mod>>

RECURSIVE IsDynamic(_)
IsDynamic(t) ==
  CASE t.k = "vec" -> TRUE
    [] t.k = "tup" -> \E i \in 1..Len(t.ts) : IsDynamic(t.ts[i])
    [] OTHER -> FALSE

\* Bits reported for a type that has a fixed size.
BitsOf(t) ==
  CASE t.k = "bool" -> 1
    [] t.k = "int"  -> t.n * BYTE
    [] t.k \in {"bytes", "cust"} -> t.n * BYTE
    [] t.k = "unit" -> 0
    [] t.k \in {"msb", "lsb", "res", "sint"} -> t.w
    [] t.k = "ref"  -> Lay[t.d].bits

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

RECURSIVE StaticSize(_)
\* Bytes, of a type that is not dynamic.
StaticSize(t) ==
  IF t.k = "tup" THEN SumSeq(TLCEval([i \in 1..Len(t.ts) |-> StaticSize(t.ts[i])]), 1)
  ELSE Bytes(BitsOf(t))

RECURSIVE SizeOf(_, _)
\* Bytes the value v of type t packs into.
SizeOf(t, v) ==
  CASE t.k = "vec" -> Len(v) * StaticSize(t.t)
    [] t.k = "tup" -> SumSeq(TLCEval([i \in 1..Len(t.ts) |-> SizeOf(t.ts[i], v[i])]), 1)
    [] OTHER -> StaticSize(t)

\* Fill up to whole bytes with ignored leading bits.
Pad(bits, x) == Rep(Bytes(Len(bits)) * BYTE - Len(bits), x) \o bits

RECURSIVE Concat(_, _)
Concat(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Concat(s, i + 1)

RECURSIVE Image(_, _)
\* The packed image of value v of type t.
Image(t, v) ==
  CASE t.k = "bool" -> Pad(v, 0)
    [] t.k = "int"  -> BytesToBits(v)
    [] t.k = "cust" -> BytesToBits(v)
    [] t.k = "bytes" -> BytesToBits(TLCEval([i \in 1..Len(v) |-> v[i][1]]))
    [] t.k = "unit" -> <<>>
    [] t.k = "msb"  -> Pad(IntEnc(t.w, FALSE, v), 2)
    [] t.k = "lsb"  -> Pad(IntEnc(t.w, TRUE, v), 2)
    [] t.k = "res"  -> Pad(Rep(t.w, t.v), 2)
    [] t.k = "ref"  -> EncS(t.d, v)
    [] t.k = "tup"  -> Concat(TLCEval([i \in 1..Len(t.ts) |-> Image(t.ts[i], v[i])]), 1)
    [] t.k = "vec"  -> LET ims == TLCEval([i \in 1..Len(v) |-> Image(t.t, v[i])])
                           n == StaticSize(t.t) * BYTE
                       IN  TLCEval([b \in 1..(Len(v) * n) |-> ims[((b - 1) \div n) + 1][((b - 1) % n) + 1]])

\* Does a byte string match an image?
Matches(bytes, img) ==
  /\ Len(bytes) * BYTE = Len(img)
  /\ LET b == BytesToBits(bytes) IN \A i \in 1..Len(img) : img[i] = 2 \/ b[i] = img[i]

RECURSIVE Refuses(_, _)
\* Does packing this value fail?
Refuses(t, v) ==
  CASE t.k = "cust" -> CustRefuses(v)
    [] t.k = "ref"  -> RefusesS(t.d, v)
    [] t.k = "tup"  -> \E i \in 1..Len(v) : Refuses(t.ts[i], v[i])
    [] t.k = "vec"  -> \E i \in 1..Len(v) : Refuses(t.t, v[i])
    [] OTHER -> FALSE

RECURSIVE Store(_, _)
Store(t, v) ==
  CASE t.k = "ref" -> StoreS(t.d, v)
    [] t.k \in {"msb", "lsb"} -> Normal(t.s, t.n, t.w, v)
    [] t.k = "tup" -> TLCEval([i \in 1..Len(v) |-> Store(t.ts[i], v[i])])
    [] t.k = "vec" -> TLCEval([i \in 1..Len(v) |-> Store(t.t, v[i])])
    [] OTHER -> v

(***************************************************************************)
(* Unpacking of a byte string: [v |-> set of acceptable values,             *)
(*  e |-> set of acceptable errors]; exactly one of the sets is non-empty.  *)
(***************************************************************************)
OkV(v) == [v |-> {v}, e |-> {}]
ErrV(es) == [v |-> {}, e |-> es]

DynIx(t) == {i \in 1..Len(t.ts) : IsDynamic(t.ts[i])}

RECURSIVE Decode(_, _)
Decode(t, bytes) ==
  CASE t.k = "vec" ->
         LET n == StaticSize(t.t) IN
         IF n = 0 \/ Len(bytes) = 0 THEN OkV(<<>>)    \* items without bytes cannot be counted
         ELSE IF Len(bytes) % n # 0 THEN ErrV({ModMismatch(Len(bytes), n)})
         ELSE LET rs == TLCEval([i \in 1..(Len(bytes) \div n) |->
                            Decode(t.t, SubSeq(bytes, (i - 1) * n + 1, i * n))])
                  es == UNION {rs[i].e : i \in 1..Len(rs)}
              IN  IF es # {} THEN ErrV(es)
                  ELSE OkV(TLCEval([i \in 1..Len(rs) |-> CHOOSE x \in rs[i].v : TRUE]))
    [] t.k = "tup" ->
         LET dy  == DynIx(t)
             st  == TLCEval([i \in 1..Len(t.ts) |-> IF i \in dy THEN 0 ELSE StaticSize(t.ts[i])])
             sum == SumSeq(st, 1)
             rest == Len(bytes) - sum
             ln(i) == IF i \in dy THEN rest ELSE st[i]
             start(i) == SumSeq(TLCEval([j \in 1..(i - 1) |-> ln(j)]), 1)
         IN  IF \E i, j \in dy : i # j THEN ErrV({Err("MoreThanOneDynamicType")})
             ELSE IF rest < 0 \/ (dy = {} /\ rest # 0) THEN ErrV({SizeMismatch(sum, Len(bytes))})
             ELSE LET rs == TLCEval([i \in 1..Len(t.ts) |->
                              Decode(t.ts[i], SubSeq(bytes, start(i) + 1, start(i) + ln(i)))])
                      es == UNION {rs[i].e : i \in 1..Len(rs)}
                  IN  IF es # {} THEN ErrV(es)
                      ELSE OkV(TLCEval([i \in 1..Len(rs) |-> CHOOSE x \in rs[i].v : TRUE]))
    [] OTHER ->
         LET n == StaticSize(t) IN
         IF Len(bytes) # n THEN ErrV({SizeMismatch(n, Len(bytes))})
         ELSE LET bits == BytesToBits(bytes) IN
         CASE t.k = "bool" -> LET r == LeafDec(t, BYTE, FALSE, bits) IN
                              IF r.ok THEN OkV(r.v) ELSE ErrV({Err("InvalidValue")})
           [] t.k = "cust" -> LET r == CustDec(bytes) IN IF r.ok THEN OkV(r.v) ELSE ErrV(r.e)
           [] t.k = "int" -> OkV(bytes)
           [] t.k = "bytes" -> OkV(TLCEval([i \in 1..n |-> <<bytes[i]>>]))
           [] t.k \in {"unit", "res"} -> OkV(<<>>)
           [] t.k \in {"msb", "lsb"} -> OkV(IntDec(t.s, t.n, t.k = "lsb", LowBits(bits, t.w)))
           [] t.k = "ref" -> LET r == DecS(t.d, bits) IN
                             IF r.ok THEN OkV(r.v) ELSE ErrV(r.e)
=============================================================================
