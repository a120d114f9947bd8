"""Enums on their own: declarations, drivers and scripts."""
from . import gen
from .decl import *


def value_of(d):
    return None if d == [] else int.from_bytes(bytes(d), "big", signed=True)


NAMES = ["A", "B", "C", "Alpha", "Beta", "NormalMode", "DebugMode", "On", "Off", "Ab", "AbC", "X1", "X_1", "Idle", "lower", "mixedCase",
         "UPPER", "Snake_Case", "None", "Some", "Ok", "Err", "Self_", "ABCdEF", "z9", "_Under", "__Two", "_x", "Tail_", "A__B", "_9", "_Unused1", "___", "Q_", "Éa", "Über", "ñandÚ", "Z", "Primitive",
         "HTTPServer", "T", "U8", "u8", "i64", "Option", "String", "Vec", "Default", "Debug", "CatchAll", "Enum", "val", "name", "s"]


def names(rng, n):
    pool = list(NAMES) + ["V%d" % i for i in range(n)]
    rng.shuffle(pool)
    out, seen = [], set()
    for x in pool:
        if x.lower() not in seen:
            seen.add(x.lower())
            out.append(x)
    return out[:n]


class World(gen.Gen):
    """Enums, and per enum the lines of its script."""

    def __init__(self, rng, prefix=""):
        super().__init__(rng, prefix)
        self.scripts = []

    def add(self, vs, ty="", suffix=None, plain=False):
        """vs: discriminants, None for implied ones; suffix: (variant, type)."""
        rng = self.rng
        nm = names(rng, len(vs))
        vars_ = []
        for k, (n, d) in enumerate(zip(nm, vs)):
            sfx = suffix[1] if suffix and suffix[0] == k else ""
            lit = None
            if d is not None:
                lit = str(d) if plain else self.lit(d)
                if sfx and lit.lstrip("-").startswith("0x"):
                    lit += "_"
            vars_.append(variant(n, d, sfx, lit))
        e = enum("%sE%d" % (self.prefix, len(self.w["enums"]) + 1), vars_, ty)
        if suffix:
            e["_repr"] = suffix[1]
        self.homonym(e)
        self.add_enum(e)
        self.scripts.append(self.script(e))
        return e

    def script(self, e, full=False):
        rng = self.rng
        k = len(self.w["enums"])
        ds = discs(e)
        out = ["G %d" % k]
        out += ["V %d" % (i + 1) for i in (range(len(ds)) if len(ds) <= 40 else [0, 1, len(ds) - 1, len(ds) - 2, *rng.sample(range(len(ds)), 12)])]
        w8 = lambda v: " ".join(str(b) for b in wide(v))
        vs = set()
        bits = 8 * e["_n"]
        if bits == 8:
            vs.update(range(256) if len(self.w["enums"]) % 3 == 0 or full else rng.sample(range(256), 12))
        pick = ds if len(ds) <= 6 else rng.sample(ds, 6)
        for d in pick:
            vs.update((d, d - 1, d + 1, -d, d + (1 << (bits - 1)), d ^ (1 << rng.randrange(bits)), d + 256, d + 65536))
        vs.update((0, 1, -1, (1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << bits) - 1, rng.getrandbits(bits)))
        lo, hi = -(1 << 71), (1 << 71) - 1
        vs = sorted(v for v in vs if lo <= v <= hi)
        out += ["F " + w8(v) for v in vs]
        for v in rng.sample(vs, min(4, len(vs))):
            for u in (v, v + 1, v ^ (1 << (bits - 1)), rng.choice(vs)):
                if lo <= u <= hi:
                    out.append("Q %s %s" % (w8(v), w8(u)))
        cps = lambda s: "S " + " ".join(str(ord(c)) for c in s)
        ss = {"", " ", "Unknown", "0", str(ds[0])}
        for v in (e["vars"] if len(ds) <= 12 else [*e["vars"][:6], e["vars"][-1], *rng.sample(e["vars"], 5)]):
            n = v["name"]
            ss.update((n, n.lower(), n.upper(), n.swapcase(), n[:-1], n + "_", n + " ", " " + n, n[0].lower() + n[1:], n.replace("_", ""),
                       n.title(), n[::-1]))
        out += [cps(s) for s in sorted(ss) if all(ord(c) < 256 and ord(c) != 223 for c in s)]
        return out


HEAD = "#![allow(dead_code, unused_imports, unreachable_patterns, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints)]"


def source(w, bad, head=""):
    lines, spans = [HEAD, head, "use packed_struct::prelude::*; use rt::enums::{EnumOps, EOps};"], []
    live = [k for k in range(1, len(w["enums"]) + 1) if ("enum", k) not in bad]
    for k in live:
        e = w["enums"][k - 1]
        text = placed(e, enum_rs(e) + enum_val_rs(e)) + "fn mk_%d() -> Box<dyn EnumOps> { EOps::<%s>::boxed() }" % (
            k, called(e))
        a = len(lines) + 1
        lines.extend(text.split("\n"))
        spans.append((a, len(lines), ("enum", k)))
    lines.append("fn make(i: usize) -> Box<dyn EnumOps> { match i {")
    lines += ["  %d => mk_%d()," % (k, k) for k in live]
    lines.append("  _ => panic!() } }\nfn main() { rt::enums::main_with(&make) }")
    return "\n".join(lines) + "\n", spans


# ---------------------------------------------------------------- families

LIMITS = sorted({s * (1 << k) + d for k in (0, 7, 8, 15, 16, 31, 32, 63) for s in (1, -1) for d in (-1, 0, 1)
                 if -(1 << 63) <= s * (1 << k) + d < (1 << 64)} | {0, (1 << 64) - 1})


def rolled(vs):
    """Discriminants, the implied ones counted on."""
    out = []
    for v in vs:
        out.append(v if v is not None else out[-1] + 1 if out else 0)
    return out


def fits(d, t):
    s, n = TYN[t]
    return -(1 << (8 * n - 1)) <= d < (1 << (8 * n - 1)) if s else 0 <= d < (1 << (8 * n))


def shaped(rng, n):
    """Discriminants with a pattern that an implementation might take a short cut for, and its near misses."""
    out = []
    for k in range(n):
        m = rng.choice([3, 4, 5, 6, 7, 8, 9, 16, 32])
        first = rng.choice([0, 0, 1, 2, 10, 127 - m, 255 - m, 256 - m, 65536 - m, (1 << 32) - m, -1, -m, 1 - m, -m // 2, -128])
        ds = [first + j for j in range(m)] if k % 4 else [abs(first) + (1 << j) for j in range(m)] if k % 8 else [first + 3 * j for j in range(m)]
        how = k // 2 % 6
        if how == 1:
            # in order but for two in the middle
            a = rng.randrange(1, m - 1) if m > 3 else 0
            b = rng.choice([j for j in range(1, m - 1) if j != a] or [m - 1])
            ds[a], ds[b] = ds[b], ds[a]
        elif how == 2:
            ds.reverse()
        elif how == 3:
            mid = ds[1:-1]
            rng.shuffle(mid)
            ds = ds[:1] + mid + ds[-1:]
        elif how == 4:
            # a hole
            ds = ds[:m // 2] + [d + 1 for d in ds[m // 2:]] if k % 4 else ds[:m // 2] + ds[m // 2 + 1:]
        elif how == 5:
            # the greatest first, or the least last
            ds = ds[-1:] + ds[:-1] if rng.random() < 0.5 else ds[1:] + ds[:1]
        if len(set(ds)) < len(ds) or min(ds) < 0 and max(ds) >= 1 << 63:
            continue
        out.append([d if rng.random() < 0.5 or d != r else None for d, r in zip(ds, [0] + [d + 1 for d in ds])])
    return out


def late(rng):
    """Many variants of which a late one decides about the primitive type."""
    out = []
    for n, how in [(n, h) for n in (rng.choice([17, 33]), rng.choice([65, 129]), rng.choice([259, 300])) for h in range(3)]:
        k = rng.choice([n - 1, n - 1, rng.randrange(n - 3, n)])
        vs = [None] * n
        if how == 0:
            vs[k] = -rng.choice([1, 2, 128, 129, 40000])
        elif how == 1:
            vs[k] = rng.choice([256, 65535, 65536, 1 << 31, 1 << 32]) + n
        elif how == 2:
            vs[k] = k + rng.choice([0, 1, 300])
        if how < 2 and k + 1 < n:
            vs[k + 1] = k + 1
        out.append((vs, (k, rng.choice(["u32", "i16", "u64", "i64"])) if how == 2 else None))
    return out


def worlds(rng, generated, extra, nw=8):
    """Worlds with the declarations TLC enumerated and random larger ones."""
    ws = [World(rng) for _ in range(nw)]
    for i, d in enumerate(generated):
        ws[i % nw].add([value_of(v["d"]) for v in d["vars"]], d["ty"])
    for i, vs in enumerate(shaped(rng, extra)):
        ws[i % nw].add(vs)
    for i, (vs, sfx) in enumerate(late(rng)):
        ws[i % nw].add(vs, "", sfx, plain=bool(sfx))
    for i in range(extra):
        g = ws[i % nw]
        n = rng.choice([1, 2, 3, 4, 5, 8, 16, 30])
        neg = rng.random() < 0.5
        ds, vs, prev = set(), [], None
        for _ in range(n):
            r = rng.random()
            nxt = 0 if prev is None else prev + 1
            if r < 0.5 and nxt not in ds and nxt < (1 << 63):
                vs.append(None)
                prev = nxt
            else:
                for _ in range(20):
                    d = rng.choice(LIMITS) if r < 0.7 else rng.randint(-300 if neg else 0, 300) if r < 0.9 else rng.getrandbits(
                        rng.randint(1, 63)) * rng.choice((1, -1))
                    if d not in ds and (neg and -(1 << 63) <= d < (1 << 63) or not neg and 0 <= d):
                        break
                else:
                    break
                vs.append(d)
                prev = d
            ds.add(prev)
        if i % 40 == 0:
            # many variants
            n = rng.choice([65, 100, 129, 256, 257, 300])
            first = rng.choice([0, 0, 1, -5, -128, 250, 65400])
            vs = [first] + [None] * (n - 1)
            for k in rng.sample(range(1, n), 3):
                vs[k] = first + k + (1000 if rng.random() < 0.3 else 0)
            ds = set(rolled(vs))
            if len(ds) < n:
                vs, ds = [first] + [None] * (n - 1), set(range(first, first + n))
        if not vs:
            continue
        real = [x for x in ds]
        r = rng.random()
        if r < 0.25:
            ok = [t for t in TYN if all(fits(d, t) for d in real)]
            g.add(vs, rng.choice(ok) if ok else "")
        elif r < 0.45 and any(v is not None for v in vs):
            # one literal suffix, of a type that holds every discriminant
            k = rng.choice([k for k, v in enumerate(vs) if v is not None])
            ok = [t for t in TYN if all(fits(d, t) for d in real)]
            ok = [t for t in ok if not (vs[k] < 0 and not TYN[t][0])]
            if ok:
                g.add(vs, "", (k, rng.choice(ok)), plain=True)
            else:
                g.add(vs)
        else:
            g.add(vs)
    return ws
