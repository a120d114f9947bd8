"""Small worlds for MCSession: structures of three bytes of two bits each, with every
layout of one field of every kind, and some of the layouts of two fields."""

BYTE = 2


def pos(a, b):
    return {"f": "incl", "u": 1, "a": a, "b": b}


def fld(i, t, arr, a, b, end):
    return {"name": "ab"[i], "ty": t, "arr": arr, "pos": pos(a, b), "szn": 0, "szu": 1, "esn": 0, "esu": 1, "end": end}


def decl(sz, num, fs):
    return {"name": "S", "sz": sz, "num": num, "end": "none", "fields": fs}


def nint(s, n):
    return {"k": "int", "s": s, "n": n}


def sint(s, w):
    return {"k": "sint", "s": s, "n": 1 if w <= 2 else 2, "w": w}


def ref(d):
    return {"k": "ref", "d": d}


def en(e, c):
    return {"k": "enum", "e": e, "c": c}


def res(v, w):
    return {"k": "res", "v": v, "w": w}


def var(n, d):
    return {"name": n, "d": d, "sfx": ""}


BOOL = {"k": "bool"}
# discriminants 2, 3, 0 and, signed, -3 (written in wide two-bit bytes) and 2
ENUMS = [{"name": "E", "ty": "", "vars": [var("A", [0] * 8 + [2]), var("B", []), var("C", [0] * 9)]},
         {"name": "G", "ty": "", "vars": [var("A", [3] * 8 + [1]), var("B", [0] * 8 + [2])]}]
# to be nested: leading bits without an owner, an enum, and a nested one
INNER = [decl(2, "msb0", [fld(0, sint(1, 2), 0, 1, 2, "none"), fld(1, BOOL, 0, 3, 3, "none")]),
         decl(1, "msb0", [fld(0, en(1, 0), 0, 0, 1, "none")]),
         decl(2, "lsb0", [fld(0, ref(2), 0, 0, 1, "none"), fld(1, res(1, 1), 0, 3, 3, "none")])]
# type, width of an element, number of elements, endianness
LEAFS = [(BOOL, 1, 0, "none"), (BOOL, 2, 0, "none"), (BOOL, 1, 3, "none"),
         (sint(0, 1), 1, 0, "none"), (sint(1, 2), 2, 0, "none"), (sint(1, 1), 1, 2, "none"), (sint(0, 2), 2, 2, "none"),
         (sint(0, 3), 3, 0, "msb"), (sint(0, 3), 3, 0, "lsb"), (sint(1, 3), 3, 0, "msb"), (sint(1, 3), 3, 0, "lsb"),
         (sint(1, 3), 3, 2, "lsb"),
         (nint(0, 1), 2, 0, "none"), (nint(1, 1), 1, 0, "none"), (nint(0, 2), 4, 0, "msb"), (nint(0, 2), 4, 0, "lsb"),
         (nint(1, 2), 3, 0, "lsb"), (nint(1, 2), 4, 0, "lsb"),
         (en(1, 0), 2, 0, "none"), (en(1, 1), 2, 0, "none"), (en(2, 0), 3, 0, "lsb"), (en(2, 1), 4, 0, "lsb"),
         (en(2, 1), 3, 0, "msb"), (en(1, 0), 2, 2, "none"),
         (res(0, 2), 2, 0, "none"), (res(1, 3), 3, 0, "none"), (res(1, 1), 1, 2, "none"),
         (ref(1), 4, 0, "none"), (ref(1), 3, 0, "none"), (ref(2), 2, 0, "none"), (ref(2), 2, 2, "none"), (ref(3), 4, 0, "none")]


def span(f):
    return f[1] * (f[2] or 1)


def place(i, f, lo, num, bits):
    hi = lo + span(f) - 1
    a, b = (lo, hi) if num == "msb0" else (bits - 1 - lo, bits - 1 - hi)
    return fld(i, f[0], f[2], a, b, f[3])


def world(rng, n, nbytes=3):
    """All layouts of one field, and n of those of two."""
    bits = nbytes * BYTE
    nums = ("msb0", "lsb0")
    one = [decl(nbytes, num, [place(0, f, lo, num, bits)]) for num in nums for f in LEAFS for lo in range(bits - span(f) + 1)]
    two = [(num, f, lo, g, mo) for num in nums for f in LEAFS for lo in range(bits - span(f) + 1)
           for g in LEAFS for mo in range(bits - span(g) + 1) if lo + span(f) <= mo or mo + span(g) <= lo]
    two = two if n >= len(two) else rng.sample(two, n)
    two = [decl(nbytes, num, [place(0, f, lo, num, bits), place(1, g, mo, num, bits)]) for num, f, lo, g, mo in two]
    ss = INNER + one + two
    return {"structs": ss, "enums": ENUMS, "objs": [ref(i + 1) for i in range(len(ss))]}
