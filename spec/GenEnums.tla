------------------------------- MODULE GenEnums -----------------------------
\* Real bytes: the declarations put to the real derive.
EXTENDS EnumMachine
GivensV == {Zeros(WideBits), Dec(P2(64))} \cup UNION {Around(k) : k \in {0, 1, 7, 8, 15, 16, 31, 32, 63}}
TypesV == {"", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"}
=============================================================================
