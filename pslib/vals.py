"""Values and operation scripts.  A value is its JSON form; tokens() is the
same as a flat list of numbers for the driver."""
from .decl import *


def tokens(t, v, w):
    k = t["k"]
    if k == "res" or k == "unit":
        return []
    if k == "bytes":
        return [x[0] for x in v]
    if k in ("bool", "int", "sint", "enum", "cust", "msb", "lsb"):
        return list(v)
    if k == "ref":
        out = []
        for f, x in zip(w["structs"][t["d"] - 1]["fields"], v):
            if f["arr"]:
                for y in x:
                    out += tokens(f["ty"], y, w)
            else:
                out += tokens(f["ty"], x, w)
        return out
    if k == "tup":
        return [n for x, tt in zip(v, t["ts"]) for n in tokens(tt, x, w)]
    if k == "vec":
        return [len(v)] + [n for x in v for n in tokens(t["t"], x, w)]
    raise ValueError(k)


def be(v, n):
    return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))


def int_value(rng, s, n, w):
    """An interesting native value for an n-byte integer limited to w bits."""
    bits = 8 * n
    c = rng.randrange(10)
    if c == 0:
        v = 0
    elif c == 1:
        v = -1
    elif c == 2:
        v = (1 << w) - 1
    elif c == 3:
        v = 1 << (w - 1)
    elif c == 4:
        v = (1 << (w - 1)) - 1
    elif c == 5:
        v = 1 << rng.randrange(w)
    elif c == 6 and w < bits:
        v = rng.getrandbits(bits)          # may exceed the width
    elif c == 7:
        v = int.from_bytes(bytes(range(0x11, 0x11 * (n + 1), 0x11)[:n]), "big") & ((1 << w) - 1)
    else:
        v = rng.getrandbits(w)
    return be(v, n)


def value(rng, t, w, zero=False):
    k = t["k"]
    if k == "bool":
        return [rng.randrange(2)]
    if k in ("int", "sint", "msb", "lsb"):
        n = t["n"]
        if k == "int":
            wd = t.get("_fw", 8 * n)
            v = int_value(rng, t["s"], n, wd)
            return v
        return int_value(rng, t["s"], n, t["w"])
    if k in ("res", "unit"):
        return []
    if k == "bytes":
        return [[rng.randrange(256)] for _ in range(t["n"])]
    if k == "cust" and t.get("_plain"):
        return rng.choice([[rng.randrange(220) for _ in range(t["n"])], [0] * (t["n"] - 1) + [255], [255] * t["n"]])
    if k == "cust":
        return [rng.choice([rng.randrange(256), 238 if t.get("_fail", 1) else 0, 221, 237, 222])] + [
            rng.randrange(256) for _ in range(t["n"] - 1)]
    if k == "enum":
        e = w["enums"][t["e"] - 1]
        if t["c"] and rng.random() < 0.4:
            n = e["_n"]
            ds = set(discs(e))
            bits = t.get("_fw", 8 * n)
            for _ in range(20):
                v = rng.getrandbits(bits)
                if e["_s"] and v >> (bits - 1):
                    v -= 1 << bits
                if v not in ds or rng.random() < 0.1:
                    return [0] + be(v, n)
        return [rng.randrange(len(e["vars"])) + 1]
    if k == "ref":
        out = []
        for f in w["structs"][t["d"] - 1]["fields"]:
            if f["arr"]:
                out.append([value(rng, f["ty"], w) for _ in range(f["arr"])])
            else:
                out.append(value(rng, f["ty"], w))
        return out
    if k == "tup":
        return [value(rng, x, w) for x in t["ts"]]
    if k == "vec":
        m = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.95 else rng.randrange(8, 40)
        return [value(rng, t["t"], w) for _ in range(m)]
    raise ValueError(k)


def fill(t, w, one, rng):
    """The value whose bits are as far as possible all zero or all one."""
    k = t["k"]
    if k == "bool":
        return [one]
    if k in ("int", "sint", "msb", "lsb"):
        wd = t.get("_fw", t.get("w", 8 * t["n"]))
        return be(((1 << wd) - 1) if one else 0, t["n"])
    if k in ("res", "unit"):
        return []
    if k == "bytes":
        return [[255 * one]] * t["n"]
    if k == "cust":
        return [255 * one] * t["n"]
    if k == "enum":
        e = w["enums"][t["e"] - 1]
        bits = t.get("_fw", 8 * e["_n"])
        ds = discs(e)
        want = (-1 if e["_s"] else (1 << bits) - 1) if one else 0
        if want in ds:
            return [ds.index(want) + 1]
        if t["c"]:
            return [0] + be(want, e["_n"])
        m = (1 << bits) - 1
        best = sorted(range(len(ds)), key=lambda i: bin(ds[i] & m).count("1"))
        return [best[-1 if one else 0] + 1]
    if k == "ref":
        return [[fill(f["ty"], w, one, rng) for _ in range(f["arr"])] if f["arr"] else fill(f["ty"], w, one, rng)
                for f in w["structs"][t["d"] - 1]["fields"]]
    if k == "tup":
        return [fill(x, w, one, rng) for x in t["ts"]]
    if k == "vec":
        return [fill(t["t"], w, one, rng)] * 2
    raise ValueError(k)


def walking(rng, t, w, limit=14):
    """All zero but one part, all one but one part, for the parts of a struct."""
    d = w["structs"][t["d"] - 1]
    spots = []
    for i, f in enumerate(d["fields"]):
        if f["ty"]["k"] == "res":
            continue
        if f["arr"]:
            es = list(range(f["arr"]))
            if len(es) > 3:
                es = [0, rng.randrange(1, len(es) - 1), len(es) - 1]
            spots += [(i, e) for e in es]
        else:
            spots.append((i, None))
    rng.shuffle(spots)
    out = []
    for n, (i, e) in enumerate(spots[:limit]):
        bg = n % 2 if len(spots) > 4 else None
        for b in ([0, 1] if bg is None else [bg]):
            v = fill(t, w, b, rng)
            x = fill(d["fields"][i]["ty"], w, 1 - b, rng)
            if e is None:
                v[i] = x
            else:
                v[i] = list(v[i])
                v[i][e] = x
            out.append(v)
    return out


def dynamic(t):
    return t["k"] == "vec" or (t["k"] == "tup" and any(dynamic(x) for x in t["ts"]))


def static_size(t, w):
    """Bytes of a type that is not dynamic."""
    k = t["k"]
    if k == "tup":
        return sum(static_size(x, w) for x in t["ts"])
    if k == "ref":
        return w["structs"][t["d"] - 1]["_bytes"]
    if k in ("int", "bytes", "cust"):
        return t["n"]
    return {"bool": 1, "unit": 0}.get(k) if k in ("bool", "unit") else (t["w"] + 7) // 8


def size_of(t, v, w):
    k = t["k"]
    if k == "vec":
        return len(v) * static_size(t["t"], w)
    if k == "tup":
        return sum(size_of(x, y, w) for x, y in zip(t["ts"], v))
    return static_size(t, w)


def min_size(t, w):
    """Bytes of the static members of a type."""
    if t["k"] == "vec":
        return 0
    if t["k"] == "tup":
        return sum(min_size(x, w) for x in t["ts"])
    return static_size(t, w)
