"""Generators of declarations.  They only aim at well-formed declarations; whether
one is, and what it means, is decided by the specification (Elab), not here."""
from .decl import *
from . import vals

TRICKY = ["src", "target", "packed", "bytes", "b", "res", "unpacked", "wrapper", "sized_integer",
          "primitive_integer", "a_0", "a_1", "f_0", "r", "l", "i", "n", "val", "value", "out", "output",
          "_a", "_b", "_c", "__a", "integer", "s", "x_1_2", "fields", "self_", "data", "bits", "field0"]


def enum_info(e):
    ds = discs(e)
    if e["ty"]:
        s, n = TYN[e["ty"]]
    else:
        sfx = [v["sfx"] for v in e["vars"] if v["sfx"]]
        if sfx:
            s, n = TYN[sfx[0]]
        else:
            s = 1 if min(ds) < 0 else 0
            for n in (1, 2, 4, 8):
                lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)
                if min(ds) >= lo and max(ds) <= hi:
                    break
    # fewest bits that hold every discriminant
    w = 1
    while not all((-(1 << (w - 1)) <= d < (1 << (w - 1))) if s else d < (1 << w) for d in ds):
        w += 1
    e["_s"], e["_n"], e["_w"] = s, n, w
    return e


class Gen:
    def __init__(self, rng, prefix=""):
        self.rng = rng
        self.prefix = prefix
        self.w = {"structs": [], "enums": [], "objs": []}

    # ---- enums
    def lit(self, v):
        r = self.rng.random()
        a = abs(v)
        if r < 0.25:
            t = "0x%x" % a
        elif r < 0.3:
            t = "0b%s" % bin(a)[2:]
        elif r < 0.33 and a > 999:
            t = "{:_}".format(a)
        else:
            t = str(a)
        return ("-" + t) if v < 0 else t

    def add_enum(self, e):
        enum_info(e)
        s, n = e["_s"], e["_n"]
        ds = discs(e)
        if "_repr" not in e and (max(ds) > (1 << 63) - 1 or self.rng.random() < 0.15):
            e["_repr"] = INTN[s, n]
        self.w["enums"].append(e)
        return len(self.w["enums"])

    def rand_enum(self, maxw=None, signed=None, nvars=None):
        rng = self.rng
        w = maxw or rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 63, 64])
        s = rng.random() < 0.3 if signed is None else signed
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        n = min(nvars or rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12]), hi - lo + 1)
        ds = set()
        for c in (lo, hi):
            if rng.random() < 0.5 and len(ds) < n:
                ds.add(c)
        while len(ds) < n:
            r = rng.random()
            if r < 0.4:
                c = rng.randint(lo, hi)
            elif r < 0.8:
                c = rng.randint(max(lo, -3), min(hi, 9))
            else:
                c = (rng.choice(list(ds)) + 1) if ds else 0
            if lo <= c <= hi:
                ds.add(c)
        ds = list(ds)
        rng.shuffle(ds)
        if rng.random() < 0.5:
            ds.sort()
        if len(ds) > 3 and hi - lo >= len(ds) and rng.random() < 0.3:
            # without gaps, or with one; in order, or nearly
            a = rng.choice([lo, max(lo, 0), hi + 1 - len(ds), rng.randint(lo, hi + 1 - len(ds))])
            a = min(a, hi + 1 - len(ds))
            ds = list(range(a, a + len(ds)))
            if rng.random() < 0.3 and ds[-1] < hi:
                ds[-1] += 1
            if rng.random() < 0.7:
                mid = ds[1:-1]
                rng.shuffle(mid)
                ds[1:-1] = mid
        names = self.variant_names(len(ds))
        vs, prev = [], None
        for nm, d in zip(names, ds):
            implied = 0 if prev is None else prev + 1
            if d == implied and rng.random() < 0.6:
                vs.append(variant(nm))
            else:
                vs.append(variant(nm, d, lit=self.lit(d)))
            prev = d
        ty = ""
        if rng.random() < 0.4:
            fits = [t for (ss, nn), t in INTN.items()
                    if all((-(1 << (8 * nn - 1)) <= d < (1 << (8 * nn - 1))) if ss else 0 <= d < (1 << (8 * nn)) for d in ds)]
            # a u64 discriminant above i64::MAX is always of an unsigned type
            ty = rng.choice(fits)
        e = enum("%sE%d" % (self.prefix, len(self.w["enums"]) + 1), vs, ty)
        self.homonym(e)
        return self.add_enum(e)

    def variant_names(self, n):
        pool = ["A", "B", "C", "Alpha", "Beta", "Gamma", "Delta", "NormalMode", "DebugMode", "On", "Off", "Ab",
                "AbC", "ABC", "X1", "X_1", "Idle", "Run", "Stop", "Ready", "Busy", "SelfTest", "Z", "Zz", "ZzTop",
                "V0", "V1", "V2", "lower", "mixedCase", "UPPER", "Snake_Case", "None", "Some", "Ok", "Err"]
        p = [x for x in pool if x not in ("None", "Some", "Ok", "Err")] if self.rng.random() < 0.7 else pool[:]
        self.rng.shuffle(p)
        # names whose lowercase forms collide are ambiguous: not generated
        out, seen = [], set()
        for x in p + ["N%d" % i for i in range(n)]:
            if x.lower() not in seen:
                seen.add(x.lower())
                out.append(x)
        return out[:n]

    # ---- struct items: (type, arr, element width)
    def rand_item(self, depth=2, small=False, noref=False):
        rng = self.rng
        r = rng.random()
        arr = 0
        if rng.random() < 0.2:
            arr = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 8]) if not small else rng.choice([1, 2, 3])
            if rng.random() < 0.04 and not small:
                arr = rng.choice([9, 12, 16, 17, 20, 33])
        if r < 0.14:
            t, ew = BOOL, 1
            if rng.random() < 0.15:
                ew = rng.randint(1, 8)
        elif r < 0.36:
            n = rng.choice([1, 1, 2, 4, 8])
            s = rng.randrange(2)
            ew = 8 * n
            if rng.random() < 0.45:
                ew = rng.randint({1: 1, 2: 9, 4: 17, 8: 33}[n], 8 * n)
            t = dict(INT(s, n), _fw=ew)
        elif r < 0.66:
            ew = rng.randint(1, 64) if rng.random() < 0.6 else rng.randint(1, 16)
            t = SINT(rng.randrange(2), ew)
        elif r < 0.76:
            ew = rng.randint(1, 20) if rng.random() < 0.85 else rng.randint(21, 32)
            t = dict(RES(rng.randrange(2), ew), _long=rng.random() < 0.3)
        elif r < 0.9 or noref or not self.w["structs"] or depth <= 0:
            if self.w["enums"] and rng.random() < 0.7:
                e = rng.randrange(len(self.w["enums"])) + 1
            else:
                e = self.rand_enum()
            en = self.w["enums"][e - 1]
            n = en["_n"]
            lo = max(en["_w"], {1: 1, 2: 9, 4: 17, 8: 33}[n])
            ew = rng.choice([lo, 8 * n, rng.randint(lo, 8 * n)])
            t = dict(ENUM(e, rng.randrange(2)), _fw=ew)
        else:
            cand = [i for i, d in enumerate(self.w["structs"]) if d["_depth"] < depth and d["_bytes"] <= 64]
            if not cand:
                return self.rand_item(depth, small, True)
            d = rng.choice(cand)
            nb = self.w["structs"][d]["_bytes"]
            ew = 8 * nb
            if rng.random() < 0.35:
                ew = rng.randint(8 * nb - 7, 8 * nb)
            t = REF(d + 1)
        if arr and t["k"] == "ref" and self.w["structs"][t["d"] - 1]["_bytes"] > 8:
            arr = min(arr, 3)
        return (t, arr, ew)

    def builtin(self, t):
        return {"bool": lambda: 1, "int": lambda: 8 * t["n"], "sint": lambda: t["w"], "res": lambda: t["w"]}.get(
            t["k"], lambda: 0)()

    def need_end(self, t):
        return t["k"] in ("int", "sint", "enum")

    # ---- layout: place items at chosen physical positions and write them down
    def names(self, n, tricky=0.15):
        rng = self.rng
        out = []
        for i in range(n):
            c = rng.choice(TRICKY) if rng.random() < tricky else rng.choice(["f%d", "field_%d", "v%d", "reg%d_lo"]) % i
            if c in out:
                c = "g%d" % i
            out.append(c)
        return out

    def write_struct(self, placed, total_bits, num=None, order=None, name=None, tricky=0.15, end=None, forms=None,
                     size=None):
        """placed: [(ty, arr, ew, lo)]; total_bits: end of the layout (incl. trailing gap)."""
        rng = self.rng
        order = order if order is not None else list(range(len(placed)))
        seq = [placed[i] for i in order]
        contiguous_from_zero = True
        p = -1
        for (t, arr, ew, lo) in seq:
            if lo != p + 1:
                contiguous_from_zero = False
            p = lo + ew * max(arr, 1) - 1
        maxend = max([lo + ew * max(arr, 1) for (t, arr, ew, lo) in placed] + [0])
        nbytes = (total_bits + 7) // 8
        if num is None:
            c = ["msb0", "msb0", "lsb0"] + (["none", "none"] if contiguous_from_zero else [])
            num = rng.choice(c)
        default = end if end is not None else rng.choice(["none", "msb", "lsb"])
        sz = 0
        if size is None:
            if num == "lsb0" or total_bits != maxend or rng.random() < 0.4:
                sz = nbytes
        else:
            sz = nbytes if size else 0
        fields, prev = [], -1
        for i, (nm, (t, arr, ew, lo)) in enumerate(zip(self.names(len(seq), tricky), seq)):
            c = max(arr, 1)
            width = ew * c
            hi = lo + width - 1
            kw = {}
            bw = self.builtin(t) * c
            cand = []
            if num == "none":
                cand = ["none"]
            else:
                if num == "lsb0":
                    a, b = 8 * nbytes - 1 - hi, 8 * nbytes - 1 - lo
                else:
                    a, b = lo, hi
                    if lo == prev + 1 and (i > 0 or sz or maxend % 8 == 0):
                        cand += ["none", "none"]
                    cand += ["from"]
                cand += ["incl", "incl", "rincl", "excl"]
                if width == 1 and arr == 0:
                    cand += ["one"] * 3
                if a % 8 == 0 and (b + 1) % 8 == 0:
                    cand += ["bincl", "rbincl"]
                    if width == 8:
                        cand += ["bone"]
                if num == "msb0" and lo % 8 == 0:
                    cand += ["bfrom"]
            if forms:
                c2 = [x for x in cand if x in forms]
                cand = c2 or cand
            form = rng.choice(cand)
            hx = rng.choice([0, 0, 0, 1, 2, 3])
            alt = rng.randrange(2)
            P = dict(_hex=hx, _alt=alt, _sp=rng.randrange(8) if rng.random() < 0.1 else 0)
            if form == "none":
                pos = NOPOS()
            elif form == "from":
                pos = dict(f="from", u=1, a=lo, b=0, **P)
            elif form == "bfrom":
                pos = dict(f="from", u=8, a=lo // 8, b=0, **P)
            elif form == "incl":
                pos = dict(f="incl", u=1, a=a, b=b, **P)
            elif form == "rincl":
                pos = dict(f="incl", u=1, a=b, b=a, **P)
            elif form == "excl":
                pos = dict(f="excl", u=1, a=a, b=b + 1, **P)
            elif form == "one":
                pos = dict(f="one", u=1, a=a, b=0, **P)
            elif form == "bone":
                pos = dict(f="one", u=8, a=a // 8, b=0, **P)
            elif form == "bincl":
                pos = dict(f="incl", u=8, a=a // 8, b=b // 8, **P)
            elif form == "rbincl":
                pos = dict(f="incl", u=8, a=b // 8, b=a // 8, **P)
            ranged = form in ("incl", "rincl", "excl", "one", "bone", "bincl", "rbincl")
            need = not ranged and bw != width
            if need or rng.random() < 0.08:
                if arr > 1 or (arr == 1 and rng.random() < 0.5) or (arr == 0 and rng.random() < 0.1):
                    kw["esn"], kw["esu"] = (ew // 8, 8) if ew % 8 == 0 and rng.random() < 0.6 else (ew, 1)
                else:
                    kw["szn"], kw["szu"] = (width // 8, 8) if width % 8 == 0 and rng.random() < 0.6 else (width, 1)
            e = "none"
            if self.need_end(t):
                if ew > 8 and (default == "none" or rng.random() < 0.35):
                    e = rng.choice(["msb", "lsb"])
                elif rng.random() < 0.1:
                    e = rng.choice(["msb", "lsb"])
            fields.append(field(nm, t, arr, pos, end=e, _alt_end=rng.randrange(3), _rev=rng.random() < 0.3, _alen=rng.choice([0] * 8 + [2, 3, 4, 5]), _hexsz=rng.choice([0] * 12 + [1, 2, 3]),
                                _split=rng.random() < 0.06, **kw))
            if t["k"] in ("sint", "res") and rng.random() < 0.15:
                fields[-1]["ty"] = dict(t, _bits=rng.randrange(1, 4))
            prev = hi
        d = struct(name or "%sS%d" % (self.prefix, len(self.w["structs"]) + 1), fields, sz, num, default,
                   _alt_end=rng.randrange(3), _hexsz=rng.choice([0] * 12 + [1, 2, 3]), _split=rng.random() < 0.06)
        d["_bytes"] = nbytes if sz else (maxend + 7) // 8
        d["_depth"] = 1 + max([self.w["structs"][f["ty"]["d"] - 1]["_depth"] for f in fields if f["ty"]["k"] == "ref"] + [-1])
        self.homonym(d, name)
        self.w["structs"].append(d)
        return len(self.w["structs"])

    def homonym(self, x, named=None):
        """Now and then the same name again, in another module of the crate."""
        if not named and self.rng.random() < 0.15:
            x["_as"], x["name"] = x["name"], self.rng.choice(["Regs", "Packet"])

    def rand_struct(self, nfields=None, gaps=0.3, maxbits=4096, depth=2, items=None, **kw):
        rng = self.rng
        n = nfields or rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 11])
        cur, placed = 0, []
        items = items or [self.rand_item(depth) for _ in range(n)]
        if rng.random() < gaps:
            cur += rng.randint(1, 9)
        for (t, arr, ew) in items:
            if placed and cur + ew * max(arr, 1) > maxbits:
                break
            placed.append((t, arr, ew, cur))
            cur += ew * max(arr, 1)
            if rng.random() < gaps:
                cur += rng.choice([1, 2, 3, 5, 7, 8, 11, (-cur) % 8])
        return self.finish_struct(placed, **kw)

    def finish_struct(self, placed, **kw):
        rng = self.rng
        maxend = max([lo + ew * max(arr, 1) for (t, arr, ew, lo) in placed])
        total = maxend
        if total % 8 and (placed[0][3] == 0 or rng.random() < 0.5):
            # an automatically placed first field needs a size or whole bytes
            total = total + (-total) % 8
            if rng.random() < 0.1:
                total += 8
            kw.setdefault("size", True)
        elif rng.random() < 0.08:
            total = total + (-total) % 8 + 8
            kw.setdefault("size", True)
        order = list(range(len(placed)))
        if rng.random() < 0.25 and kw.get("num") != "none":
            rng.shuffle(order)
            if kw.get("num") is None:
                kw["num"] = rng.choice(["msb0", "lsb0"])
        if kw.get("num") == "lsb0":
            kw["size"] = True
        if kw.get("size") is True:
            total += (-total) % 8
        kw.setdefault("order", order)
        return self.write_struct(placed, total, **kw)

    def obj(self, t):
        self.w["objs"].append(t)
        return len(self.w["objs"])
