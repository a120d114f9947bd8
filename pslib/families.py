"""What is explored for each property: families of declarations, and the operations
run on them.  A batch is spread over several worlds (one driver crate each)."""
import json
from .decl import *
from . import gen, vals

NW = 8


class Batch:
    def __init__(self, rng, n=NW):
        self.rng = rng
        self.gens = [gen.Gen(rng) for _ in range(n)]
        self.scripts = [dict() for _ in range(n)]      # per world: obj -> lines
        self.load = [0] * n

    def pick(self):
        """The world with the least to do."""
        i = min(range(len(self.gens)), key=lambda j: self.load[j])
        return i, self.gens[i]

    def worlds(self):
        return [g.w for g in self.gens]

    def obj(self, i, t):
        o = self.gens[i].obj(t)
        self.scripts[i][o] = []
        return Script(self, i, o, t)


class Script:
    """Operations on one object."""

    def __init__(self, batch, i, o, t):
        self.b, self.i, self.o, self.t = batch, i, o, t
        self.w = batch.gens[i].w
        self.lines = batch.scripts[i][o]
        self.cost = 1 + self.bits() // 64

    def bits(self):
        return 8 * self.w["structs"][self.t["d"] - 1]["_bytes"] if self.t["k"] == "ref" else 64

    def add(self, line):
        self.lines.append(line)
        self.b.load[self.i] += self.cost

    def arg(self, v):
        return "%s|%s" % (" ".join(map(str, vals.tokens(self.t, v, self.w))), json.dumps(v))

    def new(self, v):
        self.add("N %d %s" % (self.o, self.arg(v)))
        return self

    def op(self, *xs):
        self.add(" ".join(str(x) for x in xs))
        return self

    def rand(self):
        return vals.value(self.b.rng, self.t, self.w)

    def values(self, n=3, walk=10):
        """Covering values: all zero, all one, one part set, one part clear, random."""
        r = self.b.rng
        out = [vals.fill(self.t, self.w, 0, r), vals.fill(self.t, self.w, 1, r)]
        if self.t["k"] == "ref" and walk:
            out += vals.walking(r, self.t, self.w, walk)
        return out + [self.rand() for _ in range(n)]

    def bytes(self, n=None):
        r = self.b.rng
        n = self.bits() // 8 if n is None else n
        return [r.randrange(256) for _ in range(n)]


def edge_bits(rng, s, n):
    """Bit positions to flip: around the fields' ends, and some others."""
    w = s.bits()
    spots = {0, w - 1}
    d = s.w["structs"][s.t["d"] - 1]
    for p in d.get("_spots", []):
        spots |= {p - 1, p, p + 1}
    spots = [x for x in spots if 0 <= x < w]
    rng.shuffle(spots)
    out = spots[:n * 2 // 3]
    while len(out) < n:
        out.append(rng.randrange(w))
    rng.shuffle(out)
    return out


# ------------------------------------------------------------------ scripts

def unscripted(s):
    """Operations are drawn elsewhere."""
    s.b.load[s.i] += s.cost


def pack_script(s, n=3, walk=10):
    for v in s.values(n, walk):
        s.new(v).op("P")


def unpack_script(s, n=3, flips=14, walk=4):
    nb = s.bits() // 8
    s.new(vals.fill(s.t, s.w, 0, s.b.rng))
    s.op("U", *[0] * nb).op("U", *[255] * nb)
    for _ in range(n):
        s.op("U", *s.bytes())
    vs = s.values(1, walk)[2:]
    for v in vs:
        s.new(v).op("P").op("X")
    for b in edge_bits(s.b.rng, s, flips):
        s.op("X", b)


def both_script(s, n=2, walk=6, flips=6):
    for v in s.values(n, walk):
        s.new(v).op("P").op("X")
    nb = s.bits() // 8
    s.op("U", *[0] * nb).op("U", *[255] * nb)
    for b in edge_bits(s.b.rng, s, flips):
        s.op("X", b)
    for _ in range(n):
        s.op("U", *s.bytes())


def roundtrip_script(s, n=3, walk=6, flips=8):
    """Packing and unpacking in changing order; the same value packed again later."""
    r = s.b.rng
    vs = s.values(n, walk)
    for v in vs:
        s.new(v).op("P").op("X")
        if r.random() < 0.5:
            s.op("P").op("X")
    for _ in range(n):
        s.op("U", *s.bytes()).op("P").op("X").op("P")
    nb = s.bits() // 8
    s.op("U", *[255] * nb).op("P").op("U", *[0] * nb).op("P")
    s.new(r.choice(vs)).op("P")
    for b in edge_bits(r, s, flips):
        s.op("X", b).op("P")
    for v in vs[:4]:
        s.new(v).op("P")


# ------------------------------------------------------------------ families

def item(g, rng, kind, s, w):
    """A field type of this kind, sign and width."""
    if kind == "sint":
        return SINT(s, w)
    if kind == "int":
        return dict(INT(s, native(w)), _fw=w)
    if kind == "enum":
        e = g.rand_enum(maxw=w, signed=bool(s), nvars=rng.choice([2, 3, 4]))
        en = g.w["enums"][e - 1]
        # the primitive has to be of the size that serves this width
        if native(w) != en["_n"] or bool(s) != bool(en["_s"]):
            en["ty"] = INTN[s, native(w)]
            gen.enum_info(en)
            en.pop("_repr", None)
            if any(d > (1 << 63) - 1 for d in discs(en)):
                en["_repr"] = en["ty"]
        return dict(ENUM(e, rng.randrange(2)), _fw=w)
    if kind == "res":
        return RES(s, w)
    if kind == "cust":
        return dict(CUST((w + 7) // 8), _plain=1)
    raise ValueError(kind)


def packed_rows(batch, rng, demands, per=7, fillers=0.6, num=None, end_of=None, script=both_script, maxbits=1400,
                forms=None):
    """Structs whose fields meet the demands [(kind, sign, width, offset mod 8, endian)]."""
    todo = list(demands)
    rng.shuffle(todo)
    while todo:
        i, g = batch.pick()
        placed, ends, cur = [], [], 0
        for _ in range(per):
            if not todo:
                break
            # the demand that needs the smallest gap next
            best = min(range(min(len(todo), 60)), key=lambda j: ((todo[j][3] - cur) % 8, j))
            kind, s, w, off, end = todo.pop(best)
            gap = (off - cur) % 8
            if gap and rng.random() < fillers:
                t = BOOL if gap == 1 else SINT(rng.randrange(2), gap)
                placed.append((t, 0, gap, cur))
                ends.append("none")
            cur += gap
            if kind == "bool":
                placed.append((BOOL, 0, 1, cur))
                cur += 1
                ends.append("none")
                continue
            placed.append((item(g, rng, kind, s, w), 0, w, cur))
            ends.append(end)
            cur += w
            if cur > maxbits:
                break
        if not placed:
            continue
        # a third of them declared in another order than laid out
        order = list(range(len(placed)))
        if not forms and rng.random() < 0.35:
            rng.shuffle(order)
        d = g.finish_struct(placed, num=num or rng.choice(["msb0", "msb0", "lsb0"]), order=order, tricky=0.03, end=rng.choice(["none", "msb", "lsb"]), forms=forms)
        st = g.w["structs"][d - 1]
        for f, e, (t, arr, w, lo) in zip(st["fields"], [ends[k] for k in order], [placed[k] for k in order]):
            if e != "none":
                f["end"] = "none" if st["end"] == e and rng.random() < 0.5 else e
            st.setdefault("_spots", []).extend([lo, lo + w])
        script(batch.obj(i, REF(d)))


def grid_widths(rng, kinds=("sint", "int"), widths=range(1, 65), offsets=range(8), both_ends=False, both_signs=False):
    """Every width at every bit offset; sign, kind and endianness vary along."""
    out = []
    for w in widths:
        for off in offsets:
            ends = ["msb", "lsb"] if both_ends and w > 8 else [rng.choice(["msb", "lsb"])]
            for e in ends:
                for s in ((0, 1) if both_signs else (rng.randrange(2),)):
                    k = rng.choice(kinds)
                    out.append((k, s, w, off, e))
    return out


def user_types(rng, every):
    """Fields of user-written types, which keep all the bytes they are given, of every width."""
    return [("cust", 0, w, off, "none") for w in range(1, 137) for off in (range(8) if every else rng.sample(range(8), 1 if w % 8 else 3))]


def long_fields(batch, rng, script, sizes=(31, 32, 33, 34, 40, 65), num=None):
    """Nested structs longer than 32 bytes at every bit offset, whole and cut to fewer bits."""
    jobs = [(rng.choice(sizes) if off else rng.choice(sizes), off, rng.choice([0, 1, 3, 7])) for off in range(8)]
    jobs += [(33, 5, 0), (33, 2, 3), (32, 1, 0), (40, 0, 0), (34, 0, 4), (48, 3, 6)]
    # more bytes than 7, 8 and 10 bits can count
    jobs += [(rng.randint(129, 140), 1, 0), (257 + rng.randrange(9), rng.choice([1, 3]), rng.choice([2, 3])), (rng.randint(257, 300), rng.randint(4, 7), 0),
             (rng.randint(257, 300), 0, 5), (1030, rng.randrange(8), rng.choice([0, 3]))]
    for n, off, cut in jobs:
        i, g = batch.pick()
        inner = []
        cur = 0
        if cut:
            inner.append((SINT(0, 8 - cut), 0, 8 - cut, cut))
            cur = 8
        rest = n - cur // 8
        k = rng.randrange(3)
        if k == 0:
            inner.append((INT(0, 1), rest, 8, cur))
        elif k == 1 and rest >= 8:
            inner.append((INT(0, 8), rest // 8, 64, cur))
            if rest % 8:
                inner.append((INT(1, 1), rest % 8, 8, cur + 64 * (rest // 8)))
        else:
            a = rng.randrange(1, rest)
            inner.append((INT(1, 1), a, 8, cur))
            inner.append((SINT(0, 5), 0, 5, cur + 8 * a))
            if rest - a > 1:
                inner.append((INT(0, 1), rest - a - 1, 8, cur + 8 * a + 8))
        d = g.finish_struct(inner, num="msb0", order=list(range(len(inner))), size=True, tricky=0)
        placed = []
        if off:
            placed.append((SINT(0, off), 0, off, 0))
        w = 8 * n - cut
        placed.append((REF(d), 0, w, off))
        placed.append((SINT(1, 11), 0, 11, off + w))
        o = g.finish_struct(placed, num=num or rng.choice(["msb0", "lsb0"]), order=list(range(len(placed))), tricky=0,
                            end=rng.choice(["msb", "lsb"]))
        g.w["structs"][o - 1]["_spots"] = [off, off + w, off + 8, off + w - 8, off + 256, off + w - 256]
        s = batch.obj(i, REF(o))
        script(s)


def random_structs(batch, rng, n, script, **kw):
    for _ in range(n):
        i, g = batch.pick()
        d = g.rand_struct(**kw)
        spots(g.w["structs"][d - 1])
        script(batch.obj(i, REF(d)))


def spots(d):
    """Where fields begin and end, as far as easily told."""
    return d


def big_struct(batch, rng, script, n=270):
    """Positions beyond 256 bytes."""
    i, g = batch.pick()
    placed = [(SINT(0, 3), 0, 3, 0), (INT(0, 1), n, 8, 3), (SINT(1, 13), 0, 13, 3 + 8 * n), (BOOL, 5, 1, 24 + 8 * n),
              (SINT(0, 33), 3, 33, 30 + 8 * n)]
    d = g.finish_struct(placed, num=rng.choice(["msb0", "lsb0"]), order=list(range(len(placed))), tricky=0, end="msb")
    g.w["structs"][d - 1]["_spots"] = [3, 11, 3 + 8 * n, 16 + 8 * n, 24 + 8 * n, 30 + 8 * n]
    script(batch.obj(i, REF(d)))


def far_structs(batch, rng, script, sizes=(70, 300, 530, 1100)):
    """Mostly empty structures with fields at far positions, written in every way."""
    for n in sizes:
        for num in ("msb0", "lsb0"):
            i, g = batch.pick()
            marks = sorted({rng.randrange(8 * n - 80) for _ in range(3)} | {8 * n - 70} |
                           {m - rng.randrange(6) for m in (256, 512, 1024, 4096, 8192, 65536) if m < 8 * n - 80})
            placed, cur = [], 0
            for m in marks:
                m = max(m, cur)
                for t, arr, w in ((BOOL, 0, 1), (SINT(rng.randrange(2), 11), 0, 11), (SINT(0, 3), 2, 3), (INT(0, 2), 0, 16),
                                  (BOOL, 0, 1))[rng.randrange(2):rng.choice([3, 4, 5])]:
                    if t["k"] == "int":
                        m += -m % 8
                    if m + w * max(arr, 1) > 8 * n:
                        break
                    placed.append((t, arr, w, m))
                    m += w * max(arr, 1) + rng.choice([0, 0, 1])
                cur = m
            order = list(range(len(placed)))
            if rng.random() < 0.5:
                rng.shuffle(order)
            d = g.write_struct(placed, 8 * n, num=num, order=order, size=True, tricky=0, end=rng.choice(["msb", "lsb"]))
            g.w["structs"][d - 1]["_spots"] = [lo for _, _, _, lo in placed] + [lo + w * max(a, 1) for _, a, w, lo in placed]
            script(batch.obj(i, REF(d)))


def huge_structs(batch, rng, n=3):
    """Structures of more than 2^24 bits, judged by their one bits."""
    for j in range(n):
        i, g = batch.pick()
        e = 1 << 24
        if j == 0:
            # no declared size: one or some bits more than whole bytes
            k = rng.randrange(7)
            placed = [(SINT(0, 9), 0, 9, rng.randrange(100)), (SINT(rng.randrange(2), 5), 0, 5, e + k - 20), (BOOL, 0, 1, e + k)]
            d = g.write_struct(placed, e + k + 1, num="msb0", size=False, tricky=0, end="msb", forms=("incl", "one"))
        else:
            at = e + rng.randrange(1, 16) * (1 if j == 1 else 8)
            placed, cur = [(INT(0, 2), 0, 16, 16)], at - rng.randrange(40)
            for t, a, w in ((SINT(1, 11), 0, 11), (BOOL, 0, 1), (INT(0, 4), 0, 32), (SINT(0, 13), 3, 13), (BOOL, 3, 1), (INT(1, 8), 0, 64), (BOOL, 0, 1)):
                cur += rng.choice([0, 0, 1, 3])
                placed.append((t, a, w, cur))
                cur += w * max(a, 1)
            d = g.write_struct(placed, cur + (-cur) % 8, num="lsb0" if j % 2 else "msb0", size=True, tricky=0, end=rng.choice(["msb", "lsb"]))
        s = batch.obj(i, REF(d))
        nb = g.w["structs"][d - 1]["_bytes"]
        spots = sorted({p for _, a, w, lo in placed for p in (lo - 1, lo, lo + 1, lo + w - 1, lo + w * max(a, 1) - 1, lo + w * max(a, 1)) if 0 <= p < 8 * nb})
        for v in s.values(2, 4):
            s.new(v).op("p").op("u", nb)
        s.op("Z")
        for p in rng.sample(spots, min(10, len(spots))):
            s.op("u", nb, p)


def many_fields(batch, rng, script, n=45):
    i, g = batch.pick()
    items = [g.rand_item(1, small=True) for _ in range(n)]
    d = g.rand_struct(items=items, gaps=0.1)
    script(batch.obj(i, REF(d)))
    # and more of them than 8 bits can count
    i, g = batch.pick()
    items = [rng.choice([(BOOL, 0, 1), (BOOL, 0, 1), (SINT(rng.randrange(2), 2), 0, 2), (SINT(0, 3), 0, 3), (INT(0, 1), 0, 8)]) for _ in range(270 + rng.randrange(9))]
    d = g.rand_struct(items=items, gaps=0.1)
    script(batch.obj(i, REF(d)))


# ------------------------------------------------------------------ slices

def slice_script(s, n=4):
    """Slice operations with right and wrong lengths and all sorts of previous content."""
    r, t, w = s.b.rng, s.t, s.w
    vs = [vals.fill(t, w, 0, r), vals.fill(t, w, 1, r)] + [s.rand() for _ in range(n)]
    for k, v in enumerate(vs):
        s.new(v)
        size = vals.size_of(t, v, w)
        s.op("Z").op("P").op("V")
        for fillb in (0, 255, None):
            s.op("S", *([fillb] * size if fillb is not None else s.bytes(size)))
        lens = {0, 1, size - 1, size + 1, size + 8, 2 * size, size // 2, vals.min_size(t, w), vals.min_size(t, w) - 1}
        lens = sorted(x for x in lens if x >= 0 and x != size and x < 700)
        for ln in (lens if k < 2 else r.sample(lens, min(3, len(lens)))):
            s.op("S", *s.bytes(ln))
        # the value's own bytes, as a fixed array and as a slice
        s.new(v).op("P").op("X").new(v).op("V").op("X").op("V")
        # and with a byte of them changed
        for _ in range(min(size, 3)):
            s.new(v).op("V").op("K", 0, r.choice([0, size - 1, r.randrange(size)]), r.choice([255, 128, 1, 2, r.randrange(1, 256)]))
    # arbitrary input of every interesting length
    m = vals.min_size(t, w)
    item = item_size(t, w)
    lens = {0, 1, m - 1, m, m + 1, m + 2, m + item, m + item + 1, m + 2 * item, m + 3 * item, m + 3 * item - 1, 2 * m + 1}
    for ln in sorted(x for x in lens if 0 <= x < 700):
        b = s.bytes(ln)
        s.op("U", *b).op("F", *b)
        s.op("F", *[r.choice([0, 0, 1]) for _ in range(ln)]).op("V")


def item_size(t, w):
    """A dynamic type's step."""
    if t["k"] == "vec":
        return vals.static_size(t["t"], w)
    if t["k"] == "tup":
        for x in t["ts"]:
            if vals.dynamic(x):
                return item_size(x, w)
    return 1


def leaf_root(g, rng, cust=True, zero=True):
    r = rng.randrange(12 if cust else 11)
    if r == 0:
        return BOOL
    if r == 1:
        return INT(0, 1)
    if r == 2:
        return INT(1, 1)
    if r == 3:
        return BYTES(rng.choice([1, 2, 3, 5, 16, 33]))
    if r == 4 and zero:
        return UNIT
    if r in (5, 6):
        return WRAP(rng.choice(["msb", "lsb"]), rng.randrange(2), rng.randint(1, 64))
    if r == 7:
        return RES(rng.randrange(2), rng.choice([1, 3, 8, 9, 12, 16, 24]))
    if r == 11:
        return CUST(rng.choice([1, 2, 4]))
    if len(g.w["structs"]) < 6:
        return REF(g.rand_struct(nfields=rng.choice([1, 2, 3]), maxbits=200, tricky=0.02))
    return REF(rng.randrange(len(g.w["structs"])) + 1)


def rand_root(g, rng, depth=2, dyn=None, cust=True):
    """A type for the slice interface."""
    r = rng.random()
    if depth == 0 or r < 0.35:
        return leaf_root(g, rng, cust)
    if r < 0.55 and dyn is not False:
        return VEC(vec_item(g, rng, cust))
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    d = rng.randrange(n) if dyn is not False and rng.random() < 0.5 else -1
    return TUP(*[rand_root(g, rng, depth - 1, None if i == d else False, cust) for i in range(n)])


def vec_item(g, rng, cust=True):
    if rng.random() < 0.25:
        t = TUP(*[leaf_root(g, rng, cust, False) for _ in range(rng.choice([1, 2, 3]))])
        return t
    return leaf_root(g, rng, cust, False)


def cust_struct(g, rng):
    """A structure with a field of a user-written type."""
    placed, cur = [], rng.choice([0, 0, 3, 8])
    if cur == 3:
        placed.append((SINT(0, 3), 0, 3, 0))
    for k in range(rng.choice([1, 1, 2])):
        n = rng.choice([1, 2, 4])
        arr = rng.choice([0, 0, 2])
        placed.append((CUST(n), arr, 8 * n, cur))
        cur += 8 * n * max(arr, 1)
        if rng.random() < 0.5:
            placed.append((BOOL, 0, 1, cur))
            cur += 1
        else:
            placed.append((INT(0, 2), 0, 16, cur))
            cur += 16
    return g.finish_struct(placed, end="msb", tricky=0, order=list(range(len(placed))))


def slice_types(batch, rng, n, script=slice_script, make=rand_root):
    for _ in range(n):
        i, g = batch.pick()
        script(batch.obj(i, make(g, rng)))


def wrong_lengths(batch, rng):
    """Buffers far too long, by multiples of what fewer bits can count."""
    for k in range(3):
        i, g = batch.pick()
        t = [REF(g.rand_struct(depth=0, maxbits=64)), TUP(BYTES(2), INT(0, 1)), rand_root(g, rng, 1, cust=False)][k]
        s = batch.obj(i, t)
        s.new(s.rand())
        size = vals.min_size(t, s.w)
        for n in (size + 256, 65536 + rng.choice([0, size]), 256):
            s.op("F", *s.bytes(n)).op("S", *[rng.randrange(256)] * n)
        s.op("V")


# ------------------------------------------------------------------ numbering

PLAIN = ["incl", "one"]
ANY = ["incl", "rincl", "excl", "one", "bone", "bincl", "rbincl"]
REV = ["rincl", "rbincl", "one"]


def mirrors(batch, rng, n, items=None):
    """The same layout declared in ordered MSB0 ranges, in LSB0 and in reversed ranges."""
    for _ in range(n):
        i, g = batch.pick()
        its = items(g) if items else [g.rand_item(1) for _ in range(rng.choice([1, 2, 3, 4, 6, 9]))]
        cur, placed = rng.choice([0, 0, rng.randint(1, 20)]), []
        for (t, arr, ew) in its:
            placed.append((t, arr, ew, cur))
            cur += ew * max(arr, 1) + rng.choice([0, 0, 0, 1, 3, 8, 11])
        cur += -cur % 8 + rng.choice([0, 0, 8])
        order = list(range(len(placed)))
        if rng.random() < 0.4:
            rng.shuffle(order)
        end = rng.choice(["none", "msb", "lsb"])
        ix = []
        for num, forms in (("msb0", PLAIN), ("lsb0", ANY), ("lsb0", PLAIN), ("msb0", REV)):
            ix.append(g.write_struct(placed, cur, num=num, order=order, forms=forms, size=True, end=end, tricky=0))
        base = g.w["structs"][ix[0] - 1]
        objs = []
        for k in ix:
            d = g.w["structs"][k - 1]
            d["sz"], d["_bytes"] = base["sz"], base["_bytes"]
            for f, b in zip(d["fields"], base["fields"]):
                f["name"], f["end"] = b["name"], b["end"]
            objs.append(batch.obj(i, REF(k)))
        m = g.w.setdefault("mirror", [])
        m += [0, objs[0].o, objs[0].o, objs[0].o]
        s = objs[0]
        vs = s.values(2, 5)
        bs = [s.bytes() for _ in range(4)] + [[0] * (s.bits() // 8), [255] * (s.bits() // 8)]
        for b in edge_bits(rng, s, 4):
            x = [0] * (s.bits() // 8)
            x[b // 8] = 0x80 >> (b % 8)
            bs.append(x)
        for o in objs:
            for v in vs:
                o.new(v).op("P")
            for b in bs:
                o.op("U", *b)


# ------------------------------------------------------------------ reserved

def reserved_script(s, n=3, flips=16):
    """Packing built and unpacked values; reserved bits of every kind in the input."""
    r = s.b.rng
    nb = s.bits() // 8
    for v in s.values(1, 2):
        s.new(v).op("P").op("X").op("P")
    for b in ([0] * nb, [255] * nb, *[s.bytes() for _ in range(n)]):
        s.op("U", *b).op("P").op("X").op("P")
    for b in edge_bits(r, s, flips):
        s.op("X", b).op("P")
    d = s.w["structs"][s.t["d"] - 1]
    if all(f["ty"]["k"] == "res" for f in d["fields"]):
        s.op("E", s.arg(s.rand()))


def reserved_arrays(batch, rng, n):
    """Arrays of reserved fields, alone and in nested structures."""
    for _ in range(n):
        i, g = batch.pick()
        w = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16])
        arr = rng.choice([1, 2, 3, 4, 6])
        off = rng.randrange(8)
        placed = [(SINT(1, off), 0, off, 0)] if off else []
        placed.append((RES(rng.randrange(2), w), arr, w, off))
        cur = off + w * arr
        placed.append((BOOL, 0, 1, cur))
        d = g.finish_struct(placed, order=list(range(len(placed))), tricky=0, size=True)
        if rng.random() < 0.5:
            nb = g.w["structs"][d - 1]["_bytes"]
            o2 = rng.randrange(8)
            placed = [(BOOL, 0, 1, 0), (REF(d), rng.choice([0, 2]), 8 * nb, 1 + o2)]
            cur = 1 + o2 + 8 * nb * max(placed[1][1], 1)
            placed.append((RES(rng.randrange(2), 5), 0, 5, cur))
            d = g.finish_struct(placed, order=[0, 1, 2], tricky=0, size=True)
        reserved_script(batch.obj(i, REF(d)))


# ------------------------------------------------------------------ positions and sizes

def notations(batch, rng, script):
    """One small structure per notation, base, separator, unit and numbering, and per way of
    giving a size."""
    for num in ("msb0", "lsb0"):
        for form in ("one", "incl", "rincl", "excl", "from", "none", "bone", "bincl", "rbincl", "bfrom"):
            if num == "lsb0" and form in ("from", "none", "bfrom"):
                continue
            for hx in range(4):
                for alt in ((0, 1) if form in ("incl", "rincl", "bincl", "rbincl", "from", "bfrom") else (0,)):
                    if hx > 1 and form in ("one", "from", "bone", "bfrom", "none"):
                        continue
                    i, g = batch.pick()
                    byte = form[0] == "b" or form == "rbincl"
                    # large enough positions for hexadecimal to differ from decimal
                    cur = rng.choice([0, 3, 8, 10, 17, 26, 40]) if not byte else 8 * rng.choice([0, 1, 3, 10, 12])
                    placed = []
                    if cur and (form == "none" or rng.random() < 0.5):
                        placed.append((SINT(0, min(cur, 64)), 0, min(cur, 64), 0 if form != "none" else cur - min(cur, 64)))
                    if form == "one":
                        t, arr, w = rng.choice([(BOOL, 0, 1), (SINT(0, 1), 0, 1), (RES(1, 1), 0, 1)])
                    elif byte:
                        t, arr, w = (INT(0, 1), 0, 8) if form == "bone" else rng.choice(
                            [(INT(0, 2), 0, 16), (INT(1, 4), 0, 32), (INT(0, 1), 3, 8), (SINT(0, 24), 0, 24), (INT(0, 1), 17, 8)])
                    else:
                        w = rng.randint(2, 40)
                        t, arr, w = rng.choice([(SINT(0, w), 0, w), (INT(1, native(w)), 0, w) if form not in ("from", "none") else
                                                (SINT(1, w), 0, w), (SINT(1, w), 2, w)])
                        if t["k"] == "int":
                            t = dict(t, _fw=w)
                    placed.append((t, arr, w, cur))
                    cur += w * max(arr, 1)
                    placed.append((BOOL, 0, 1, cur + rng.choice([0, 2, 7])))
                    total = placed[-1][3] + 1
                    d = g.write_struct(placed, total + -total % 8, num=num, forms=[form], size=True, tricky=0, end="msb")
                    for f in g.w["structs"][d - 1]["fields"]:
                        f["pos"]["_hex"], f["pos"]["_alt"] = hx, alt
                    script(batch.obj(i, REF(d)))
    # sizes given by attribute on automatically placed fields, and the structure's own size
    for k in range(60):
        i, g = batch.pick()
        placed, cur, sizes = [], 0, []
        for _ in range(rng.choice([1, 2, 3, 4])):
            arr = rng.choice([0, 0, 1, 2, 3])
            w = rng.choice([8, 8, 16, 24, 32, 40, 64, 7, 12, 19, 33, rng.randint(1, 64)])
            r = rng.randrange(4)
            t = dict(INT(rng.randrange(2), native(w)), _fw=w) if r < 2 else SINT(rng.randrange(2), w)
            if r == 3:
                g2 = item(g, rng, "enum", 0, min(w, 64))
                t = g2
            if arr and r == 0 and cur % 8 == 0:
                t, w = INT(0, 1), 8
            placed.append((t, arr, w, cur))
            cur += w * max(arr, 1)
        if rng.random() < 0.3:
            cur += rng.choice([8, 16, 3])
        num = rng.choice(["none", "msb0"])
        size = True if cur % 8 or rng.random() < 0.5 else False
        if not size:
            cur = placed[-1][3] + placed[-1][2] * max(placed[-1][1], 1)
            size = cur % 8 != 0
        d = g.write_struct(placed, cur + (-cur % 8 if size else 0), num=num, forms=["none"], size=size, tricky=0,
                           end=rng.choice(["msb", "lsb"]))
        script(batch.obj(i, REF(d)))
    # a layout that is not a whole number of bytes
    for k in range(16):
        i, g = batch.pick()
        lo, w = rng.randrange(0, 20), rng.randint(1, 40)
        placed = [(SINT(0, w), 0, w, lo)]
        if rng.random() < 0.5:
            placed.append((SINT(1, 5), 0, 5, lo + w + rng.randrange(4)))
        d = g.write_struct(placed, placed[-1][3] + placed[-1][2], num="msb0", forms=["incl", "from", "excl"], size=False, tricky=0,
                           end="lsb")
        script(batch.obj(i, REF(d)))


def rewinds(batch, rng, script, n=14):
    """Runs of automatically placed fields that follow a field placed before or after fields that
    were declared earlier."""
    for k in range(n):
        i, g = batch.pick()
        runs, cur = [], rng.choice([0, 0, 3, 8])
        placed = []
        for r in range(rng.choice([2, 2, 3, 3, 4, 5])):
            run = []
            for f in range(rng.choice([1, 2, 2, 3])):
                t, arr, ew = g.rand_item(1, small=True)
                run.append(len(placed))
                placed.append((t, arr, ew, cur))
                cur += ew * max(arr, 1)
            runs.append(run)
            cur += rng.choice([0, 0, 1, 5, -cur % 8, 11])
        first = runs[:]
        if k % 3 == 0:
            runs.reverse()
        else:
            while runs == first:
                rng.shuffle(runs)
        g2 = max(lo + ew * max(arr, 1) for (t, arr, ew, lo) in placed)
        size = rng.random() < 0.6 or g2 % 8 != 0
        total = g2 + (-g2 % 8 if size else 0)
        d = g.write_struct(placed, total, num="msb0", order=[x for r in runs for x in r], forms=["none"], size=size)
        script(batch.obj(i, REF(d)))


def sizes_script(s):
    s.new(s.rand()).op("Z")
    both_script(s, 1, 3, 4)
    s.op("Z")


# ------------------------------------------------------------------ invalid patterns

def gray(w):
    """The bit to flip at each step through all patterns of w bits."""
    return [((i & -i).bit_length() - 1) for i in range(1, 1 << w)]


def patterns(batch, rng, widths, small=7, many=40):
    """Enum and boolean fields through all their bit patterns (or many, when wide)."""
    for kind, w, off, s, c in widths:
        i, g = batch.pick()
        placed = [(SINT(0, off), 0, off, 0)] if off else []
        arr = rng.choice([0, 0, 0, 1, 2])
        if kind == "bool":
            t = BOOL
        else:
            t = item(g, rng, "enum", s, w)
            t["c"] = c
            if w <= 4 and rng.random() < 0.4:
                # every pattern is defined
                e = g.w["enums"][t["e"] - 1]
                lo = -(1 << (w - 1)) if s else 0
                e["vars"] = [variant("V%d" % k, lo + k, lit=g.lit(lo + k)) for k in range(1 << w)]
                rng.shuffle(e["vars"])
        placed.append((t, arr, w, off))
        cur = off + w * max(arr, 1)
        placed.append((SINT(1, 3), 0, 3, cur))
        forms = ["incl", "excl", "rincl"] if kind == "bool" and w > 1 else None
        d = g.finish_struct(placed, order=list(range(len(placed))), tricky=0, end=rng.choice(["msb", "lsb"]), num="msb0", forms=forms)
        sc = batch.obj(i, REF(d))
        sc.new(sc.rand()).op("P").op("X")
        at = off + w * rng.randrange(max(arr, 1))
        after = ["P", "B"] if c else []
        if w <= small:
            steps = [[at + b] for b in gray(w)]
        else:
            steps = [[at + b for b in rng.sample(range(w), rng.choice([1, 1, 2, 3]))] for _ in range(many)]
        for n, fl in enumerate(steps):
            sc.op("X", *fl)
            if after and (w <= 4 or n % 5 == 0):
                for o in after:
                    sc.op(o)
        # every variant, packed and changed by single bits
        if kind == "enum":
            e = g.w["enums"][t["e"] - 1]
            for k in range(min(len(e["vars"]), 9)):
                v = sc.rand()
                f = 1 if off else 0
                x = [k + 1]
                v[f] = [x for _ in v[f]] if arr else x
                sc.new(v).op("P").op("X")
                for b in rng.sample(range(w), min(w, 4)):
                    sc.op("X", at + b).op("X", at + b)
                if c:
                    # the same primitive, kept as an unknown one
                    y = list(v)
                    u = [0] + vals.be(discs(e)[k], e["_n"])
                    y[f] = [u for _ in v[f]] if arr else u
                    sc.op("E", sc.arg(y)).op("E", sc.arg(v)).new(y).op("B").op("P").op("E", sc.arg(v))
                    z = list(v)
                    u = [0] + vals.be(discs(e)[k] ^ 1, e["_n"])
                    z[f] = [u for _ in v[f]] if arr else u
                    sc.op("E", sc.arg(z)).new(z).op("B").op("P").op("X").op("E", sc.arg(y))


# ------------------------------------------------------------------ arrays and nesting

def array_grid(batch, rng, script, share=1.0):
    """Elements of every small width and of whole bytes, so many of them, from every bit of a byte."""
    cells = [(w, n, off) for w in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 32) for n in (1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17) for off in range(8)]
    cells = rng.sample(cells, int(len(cells) * share))
    while cells:
        i, g = batch.pick()
        placed, cur = [], 0
        # several arrays in one structure, each at the offset it is to have
        for w, n, off in cells[:3]:
            cur += (off - cur) % 8
            if w == 8 and rng.random() < 0.6 or w in (16, 32) and rng.random() < 0.3:
                t = INT(rng.randrange(2), w // 8)
            else:
                t = item(g, rng, rng.choice(["sint", "sint", "int"]), rng.randrange(2), w)
            placed.append((t, n, w, cur))
            cur += n * w
        cells = cells[3:]
        d = g.finish_struct(placed, tricky=0, end=rng.choice(["msb", "lsb"]))
        script(batch.obj(i, REF(d)))


def arrays(batch, rng, n, script):
    for k in range(n):
        i, g = batch.pick()
        kind = ["bool", "int", "sint", "res", "enum", "ref", "cust"][k % 7]
        off = rng.randrange(8) if kind != "cust" else 8 * rng.randrange(2)
        arr = rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 31, 33]) if kind in ("bool", "int", "sint") else rng.choice([1, 2, 3, 5])
        w = rng.randint(1, 64) if kind in ("int", "sint", "enum") else rng.randint(1, 20)
        if arr > 9:
            w = min(w, 17)
        if k in (0, 9):      # more elements than a byte can count
            arr, w = rng.randint(257, 300), min(w, 5)
        if kind == "bool":
            t, w = BOOL, 1 if rng.random() < 0.8 else rng.randint(1, 8)
        elif kind == "ref":
            d = g.rand_struct(nfields=rng.choice([1, 2, 3]), maxbits=100, tricky=0, depth=0)
            if rng.random() < 0.5:
                nb = g.w["structs"][d - 1]["_bytes"]
                d = g.finish_struct([(SINT(0, 4), 0, 4, 0), (REF(d), rng.choice([0, 2]), 8 * nb, 4)], order=[0, 1], tricky=0, end="lsb")
            nb = g.w["structs"][d - 1]["_bytes"]
            t, w = REF(d), 8 * nb - rng.choice([0, 0, 0, rng.randrange(8)])
        elif kind == "cust":
            t = dict(CUST(rng.choice([1, 2, 3])), _fail=0)
            w = 8 * t["n"]
        else:
            t = item(g, rng, kind, rng.randrange(2), w)
        placed = [(SINT(1, off), 0, off, 0)] if off else []
        placed.append((t, arr, w, off))
        cur = off + arr * w
        if rng.random() < 0.7:
            placed.append((SINT(0, 3), 0, 3, cur))
        d = g.finish_struct(placed, tricky=0, end=rng.choice(["msb", "lsb"]))
        script(batch.obj(i, REF(d)))


def nests(batch, rng, n, script):
    """Structures in structures, three deep, with gaps and cut-off leading bits."""
    for _ in range(n):
        i, g = batch.pick()
        d = g.rand_struct(nfields=rng.choice([1, 2, 3]), maxbits=90, tricky=0, depth=0)
        for depth in range(rng.choice([1, 2, 3])):
            nb = g.w["structs"][d - 1]["_bytes"]
            if nb > 40:
                break
            off = rng.choice([0, 0, 1, 4, 7, 8, 13])
            arr = rng.choice([0, 0, 0, 2])
            w = 8 * nb - rng.choice([0, 0, rng.randrange(8)])
            placed = [(REF(d), arr, w, off)]
            if off:
                placed.append((SINT(rng.randrange(2), off), 0, off, 0))
            if rng.random() < 0.6:
                placed.append(((INT(0, 2)), 0, 16, off + w * max(arr, 1) + rng.choice([0, 1])))
            d = g.finish_struct(placed, tricky=0, end=rng.choice(["msb", "lsb"]))
        script(batch.obj(i, REF(d)))


# ------------------------------------------------------------------ display

def show_script(s, n=2):
    r = s.b.rng
    flags = [[(m >> k) & 1 for k in range(5)] for m in range(32)]
    vs = [vals.fill(s.t, s.w, 0, r), vals.fill(s.t, s.w, 1, r)] + [s.rand() for _ in range(n)]
    for k, v in enumerate(vs):
        s.new(v)
        if k % 2:
            s.op("P")
        s.op("T").op("B")
        for fl in r.sample(flags, 3):
            s.op("D", *fl)
    s.op("U", *s.bytes()).op("T")
    for k in range(5):
        s.op("D", *[int(x == k) for x in range(5)])
        s.op("D", *[int(x != k) for x in range(5)])


def shows(batch, rng, n):
    for k in range(n):
        i, g = batch.pick()
        wide = k % 4 == 0
        items = []
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
            for _ in range(50):
                it = g.rand_item(1, small=True)
                if wide or it[2] <= 33:
                    break
            items.append(it)
        if k % 4 == 1:
            w = rng.choice([32, 33, 33, 34])
            items.append((SINT(rng.randrange(2), w), 0, w))
        show_script(batch.obj(i, REF(g.rand_struct(items=items, maxbits=700, gaps=0.4))))
    for n in (1, 13, 126):
        i, g = batch.pick()
        d = g.finish_struct([(INT(0, 1), n, 8, 0)], num="msb0", order=[0], tricky=0)
        show_script(batch.obj(i, REF(d)), 0)
    # many fields, of which one (the last, one of the last, any) decides how the others are shown
    for k, n in enumerate((17, 34, 66, 70, 131)):
        i, g = batch.pick()
        ws = [rng.choice([1, 1, 2, 3, 4]) for _ in range(n)]
        at = [n - 1, rng.randrange(n - 4, n), rng.randrange(n)][rng.randrange(3)]
        ws[at] = [rng.randint(5, 32), 33, 32, rng.randint(33, 64)][(k + rng.randrange(2)) % 4]
        placed, cur = [], 0
        for w in ws:
            placed.append((BOOL if w == 1 and rng.random() < 0.7 else SINT(rng.randrange(2), w), 0, w, cur))
            cur += w
        d = g.finish_struct(placed, num="msb0", order=list(range(n)), size=True, tricky=0.1, end="msb")
        show_script(batch.obj(i, REF(d)), 0)


# ------------------------------------------------------------------ composition

def tuple_shapes(batch, rng, script=slice_script):
    for n in range(1, 11):
        for dyn in range(-1, n):
            i, g = batch.pick()
            ts = [leaf_root(g, rng) for _ in range(n)]
            if dyn >= 0:
                ts[dyn] = VEC(vec_item(g, rng))
            if rng.random() < 0.15 and n < 10:
                j = rng.randrange(n)
                if j != dyn:
                    ts[j] = TUP(*[leaf_root(g, rng) for _ in range(rng.choice([1, 2, 3]))])
                else:
                    ts[j] = TUP(leaf_root(g, rng), VEC(vec_item(g, rng)))
            script(batch.obj(i, TUP(*ts)), 1)
    for n in range(2, 11):
        i, g = batch.pick()
        ts = [leaf_root(g, rng) for _ in range(n)]
        for j in rng.sample(range(n), 2 if n < 4 else rng.choice([2, 3])):
            ts[j] = VEC(vec_item(g, rng)) if rng.random() < 0.8 else TUP(VEC(INT(0, 1)), BOOL)
        script(batch.obj(i, TUP(*ts)), 1)


def long_tuples(batch, rng):
    """Tuples of more bytes than 8 and 16 bits can count, with the long member at every place."""
    def run(ts, m=None):
        i, g = batch.pick()
        t = TUP(*ts)
        s = batch.obj(i, t)
        def val(x):
            if x["k"] == "tup":
                return [val(y) for y in x["ts"]]
            if x["k"] == "vec":
                return [vals.value(rng, x["t"], s.w) for _ in range(m)]
            return vals.value(rng, x, s.w)
        v = val(t)
        size = vals.size_of(t, v, s.w)
        s.new(v).op("Z").op("V").op("X").op("V").op("S", *s.bytes(size)).op("S", *[0] * (size - 1))
        s.op("F", *s.bytes(size)).op("V").op("F", *s.bytes(size + 1))
        if m is None:
            s.op("F", *s.bytes(size - 1))
        if size > 60000:
            s.b.load[i] += 3000
    for n in (255, 256, 300):
        for k in range(3):
            ts = [rng.choice([INT(0, 1), INT(1, 1), BYTES(3), BOOL]) for _ in range(2)]
            run(ts[:k] + [rng.choice([VEC(INT(0, 1)), BYTES(n)])] + ts[k:], n)
    run([BYTES(250), BYTES(5), BOOL, VEC(BYTES(2)), INT(0, 1)], 20)
    run([BYTES(200)] * 10)
    long = 65536 + rng.randint(3, 9)
    k = rng.randrange(3)
    ts = [INT(0, 1), BYTES(2)]
    run(ts[:k] + [VEC(INT(0, 1))] + ts[k:], long)
    run([BOOL, TUP(BYTES(5), VEC(BYTES(7)), INT(1, 1)), INT(0, 1)], 65536 // 7 + rng.randrange(9))
    run([BYTES(2), BYTES(32768), BYTES(32769), BYTES(3)])


def vec_script(s, n=3):
    """Vectors: item counts, and input of every length up to some items."""
    r, t, w = s.b.rng, s.t, s.w
    sz = vals.static_size(t["t"], w)
    for m in (0, 1, 2, 3, r.randrange(4, 12)):
        v = [vals.value(r, t["t"], w) for _ in range(m)]
        s.new(v).op("Z").op("V").op("X").op("V").new(v)
        # one item, or the length, spoilt
        for k in range(min(m * sz, 7)):
            s.new(v).op("V").op("K", 0, r.choice([m * sz - 1, r.randrange(m * sz)]), r.choice([255, 128, 1, 2, r.randrange(1, 256)]))
            if k == 1:
                s.op("V").op("K", r.choice([-1, 1, -sz, sz, sz // 2]), 0, 0)
        for ln in {m * sz, m * sz + 1, max(0, m * sz - 1), max(0, (m - 1) * sz), (m + 1) * sz}:
            s.op("S", *s.bytes(ln))
    for ln in sorted({0, 1, 2, sz - 1, sz, sz + 1, 2 * sz - 1, 2 * sz, 3 * sz, 3 * sz + 1, 4 * sz + sz // 2, 7 * sz, 2 * sz + 1}):
        b = s.bytes(ln)
        s.op("F", *b).op("Z").op("V")
        s.op("F", *[r.choice([0, 0, 0, 1]) for _ in range(ln)]).op("V")


def vec_shapes(batch, rng, n):
    for k in range(n):
        i, g = batch.pick()
        vec_script(batch.obj(i, VEC(vec_item(g, rng))))
    for t in (INT(0, 1), INT(1, 1), BOOL, BYTES(3), WRAP("msb", 0, 17), WRAP("lsb", 1, 33), CUST(2), RES(1, 9)):
        i, g = batch.pick()
        vec_script(batch.obj(i, VEC(t)))
    i, g = batch.pick()
    s = batch.obj(i, VEC(INT(0, 1)))
    for m in (255, 256, 257, 300):
        v = [[r] for r in s.bytes(m)]
        s.new(v).op("Z").op("V").op("X").op("V")
    # more items than 16 bits can count
    for t, m in ((INT(0, 1), 65536 + rng.randint(2, 9)), (BYTES(3), 65536 // 3 + 3)):
        i, g = batch.pick()
        s = batch.obj(i, VEC(t))
        v = [[r] if t["k"] == "int" else [[r], [r ^ 1], [m & 255]] for r in s.bytes(m)]
        s.new(v).op("Z").op("V").op("X").op("F", *s.bytes(m * t["n"] + 1 - t["n"] % 2))
        batch.load[i] += 2000


def empty_items(batch, rng, script):
    """Types that take no bytes, alone and as the items of vectors."""
    for t in (UNIT, BYTES(0), TUP(UNIT, UNIT), VEC(UNIT), VEC(BYTES(0)), VEC(TUP(UNIT, BYTES(0))), TUP(INT(0, 1), VEC(UNIT)),
              TUP(VEC(BYTES(0)), BYTES(0), BOOL)):
        i, g = batch.pick()
        s = batch.obj(i, t)
        for k in range(3):
            s.new(s.rand()).op("Z").op("V")
            for ln in (0, 1, 2, 3, 8):
                s.op("S", *s.bytes(ln)).op("F", *s.bytes(ln)).op("Z")


def sized(batch, rng, script):
    """Every kind of type, through all widths."""
    for w in range(1, 65):
        for k in ("msb", "lsb"):
            i, g = batch.pick()
            script(batch.obj(i, WRAP(k, rng.randrange(2), w)))
        i, g = batch.pick()
        script(batch.obj(i, RES(rng.randrange(2), w)))
    for w in (65, 71, 72, 73, 127, 128, 129, 200, 247, 248, 249, 255):
        i, g = batch.pick()
        script(batch.obj(i, RES(rng.randrange(2), w)))
    for t in [BOOL, INT(0, 1), INT(1, 1), UNIT] + [BYTES(n) for n in (1, 2, 31, 32, 33, 64, 255, 256, 257)]:
        i, g = batch.pick()
        script(batch.obj(i, t))
    # more bits than 16 bits can count
    for n in (8191, 8192, 8192 + rng.randint(1, 99), 65536 + rng.randrange(9)):
        i, g = batch.pick()
        s = batch.obj(i, BYTES(n))
        s.new(s.rand()).op("Z").op("V")


def size_script(s):
    s.new(s.rand())
    n = vals.size_of(s.t, vals.fill(s.t, s.w, 0, s.b.rng), s.w)
    s.op("Z").op("P").op("V")
    for ln in sorted({n, n + 1, max(0, n - 1), n + 8}):
        s.op("S", *s.bytes(ln)).op("F", *s.bytes(ln))
    s.op("F", *[0] * n).op("Z").new(s.rand()).op("V").op("Z")


def total_script(s):
    """Everything at once."""
    r = s.b.rng
    n = vals.size_of(s.t, vals.fill(s.t, s.w, 1, r), s.w)
    for v in s.values(2, 4) if s.t["k"] == "ref" else [s.rand() for _ in range(4)]:
        s.new(v).op("Z").op("P").op("V")
        if "cust" not in str(s.t) and not has_cust(s.t, s.w):
            s.op("T").op("D", *[r.randrange(2) for _ in range(5)])
        s.op("B").op("S", *s.bytes(r.choice([n, n, 0, n + 1, max(0, n - 1)]))).op("E", s.arg(s.rand()))
        s.op("P").op("X")
    for _ in range(4):
        s.op("U", *s.bytes(n)).op("P").op("V").op("B")
        s.op("F", *s.bytes(r.choice([n, 0, 1, n + 1, max(0, n - 1), 2 * n, 3 * n + 1])))
    s.op("U", *[255] * n).op("P").op("V").op("U", *[0] * n).op("P").op("V")


def has_cust(t, w):
    k = t["k"]
    if k == "cust":
        return True
    if k == "ref":
        return any(has_cust(f["ty"], w) for f in w["structs"][t["d"] - 1]["fields"])
    if k == "tup":
        return any(has_cust(x, w) for x in t["ts"])
    return k == "vec" and has_cust(t["t"], w)


# ------------------------------------------------------------------ known finding of C05

def exclusive_bytes(c, rng):
    """bytes="a..b" is a known finding: it denotes the bytes a..b-1 without the last one.
    Each probe is judged under the documented meaning and under that of the finding; a trace
    that fits neither is a violation."""
    import copy
    b = Batch(rng, 1)
    g = b.gens[0]
    for n, (a, e) in enumerate(((0, 2), (1, 3), (0, 4), (2, 6), (10, 12))):
        # elements narrow enough for either meaning
        d = struct("S%d" % (n + 1), [field("x", INT(0, 1), arr=8, pos={"f": "excl", "u": 8, "a": a, "b": e})],
                   sz=e + 1, num="msb0", end="msb", _bytes=e + 1, _depth=0)
        g.w["structs"].append(d)
        both_script(b.obj(0, REF(n + 1)), 1, 3, 4)
    doc, found = g.w, copy.deepcopy(g.w)
    for d in found["structs"]:
        d["fields"][0]["pos"]["b"] -= 1
    bad = c.probe("bytes-excl", b, [doc, found])
    for o in sorted({o for o, _ in bad[0]}):
        if any(p == o for p, _ in bad[1]):
            c.violation("bytes=\"a..b\" means neither the documented nor the known range",
                        {"declaration": c.rust_of(doc, doc["objs"][o - 1]), "observed": [x for p, x in bad[1] if p == o][:1]})
        else:
            c.known_violation("bytes-exclusive-range", decl_line(doc["structs"][o - 1]),
                              {"declaration": c.rust_of(doc, doc["objs"][o - 1]), "observed": [x for p, x in bad[0] if p == o][:1]})


def decl_line(d):
    return field_attr(d["fields"][0]).strip()


# ------------------------------------------------------------------ acceptance

NAMES = gen.TRICKY + ["core", "std", "packed_struct", "alloc", "Result", "Ok", "Err", "T", "u8", "bool", "String", "vec", "format",
                      "Vec", "Default", "pack", "unpack", "new", "len", "as_ref", "fmt", "range", "name", "index", "mask", "shift",
                      "tmp", "x", "y", "e", "t", "v", "bit", "byte", "dst", "dest", "buf", "buffer", "slice", "arr", "array", "it",
                      "iter", "pos", "start", "end", "width", "size", "ret", "result", "error", "err", "ok", "this", "that", "other",
                      "input", "msb", "lsb", "int", "integer_value", "p", "q", "o", "u", "w", "z", "d", "f", "g", "h", "j", "k",
                      "bytes_len", "packed_bytes", "unpacked_value", "bits_value", "raw", "primitive", "reserved", "_reserved", "_",
                      "enum_value", "variant", "default", "fields_", "write", "read", "copy", "min", "max", "panic", "dbg", "stdin",
                      "größe", "日本", "é", "Ω", "ñ_1", "ſ", "r#type", "r#fn", "r#match", "r#async", "r#struct", "r#use", "r#in", "r#dyn",
                      "_unpacked_0", "_unpacked_1", "_unpacked_2", "_unpacked_3"]
NAMES = [n for n in dict.fromkeys(NAMES) if n != "_"]


def named(batch, rng, script, per=6):
    """Every awkward field name, on fields of all kinds and alignments."""
    names = NAMES[:]
    rng.shuffle(names)
    while names:
        i, g = batch.pick()
        mine = [names.pop() for _ in range(min(per, len(names)))]
        items = [g.rand_item(1, small=True) for _ in mine]
        d = g.rand_struct(items=items, maxbits=3000, gaps=0.2)
        fs = g.w["structs"][d - 1]["fields"]
        for f, n in zip(fs, mine):
            f["name"] = n
        script(batch.obj(i, REF(d)))
    # names that look like those of an array's elements, and like each other
    for base in ("a", "x", "src", "field", "value"):
        i, g = batch.pick()
        items = [(SINT(0, 5), 3, 5), (SINT(0, 5), 0, 5), (BOOL, 2, 1), (INT(0, 1), 0, 8), (SINT(1, 12), 2, 12), (BOOL, 0, 1)]
        d = g.rand_struct(items=items, gaps=0.3)
        fs = g.w["structs"][d - 1]["fields"]
        ns = [base, base + "_0", base + "_1", base + "_2", "_" + base, "__" + base]
        rng.shuffle(ns)
        for f, n in zip(fs, ns):
            f["name"] = n
        script(batch.obj(i, REF(d)))
    # structures in one module whose names differ only in letter case and underscores
    for ns in (("LED", "Led"), ("HttpHeader", "HTTPHeader", "Http_Header"), ("Frame", "frame", "_Frame"), ("AbC", "Ab_C", "ab_c"), ("Ä", "ä")):
        i, g = batch.pick()
        for n in ns:
            d = g.rand_struct(items=[(SINT(0, 5), 0, 5), (BOOL, 3, 1), (INT(0, 1), 0, 8)], gaps=0.3)
            if any(x["name"] == n for x in g.w["structs"]):
                continue
            g.w["structs"][d - 1].update(name=n, _as=None)
            script(batch.obj(i, REF(d)))
    # the same for enums
    for ns in (("Mode", "MODE"), ("SpiBus", "SPIBus", "Spi_Bus"), ("Kind", "_Kind")):
        i, g = batch.pick()
        for n in ns:
            if not any(x["name"] == n for x in g.w["enums"]):
                t, arr, ew = enum_item(g, rng)
                g.w["enums"][t["e"] - 1].update(name=n, _as=None)
                d = g.rand_struct(items=[(t, 0, ew), (BOOL, 0, 1)], gaps=0.3)
                script(batch.obj(i, REF(d)))
    lookalikes(batch, rng, script)


def lookalikes(batch, rng, script, n=6):
    """User types whose names begin like the library's."""
    for k in range(n):
        i, g = batch.pick()
        inner = []
        for n in rng.sample(LOOKALIKES, 6):
            if any(x["name"] == n for x in g.w["structs"] + g.w["enums"]):
                continue
            if rng.random() < 0.6:
                d = g.rand_struct(items=[g.rand_item(0, small=True) for _ in range(rng.choice([1, 2, 3]))], gaps=0.2, maxbits=100)
                g.w["structs"][d - 1].update(name=n, _as=None)
                inner.append((REF(d), 0, 8 * g.w["structs"][d - 1]["_bytes"]))
            else:
                t, arr, ew = enum_item(g, rng)
                g.w["enums"][t["e"] - 1].update(name=n, _as=None)
                inner.append((t, 0, ew))
        if inner:
            inner = [(t, rng.choice([0, 0, 2]), ew) for (t, _, ew) in inner]
            d = g.rand_struct(items=inner, gaps=0.3)
            script(batch.obj(i, REF(d)))


LOOKALIKES = ["ReservedZeroCrossing", "ReservedOneShot", "ReservedBitsMask", "ReservedZeroes2", "ReservedSpan", "Reserved", "IntegerPair",
              "IntegerValue", "Integers", "MsbFlags", "LsbWord", "MsbIntegers", "LsbInteger2", "Boolean", "Bool", "U8", "I16", "U32x", "BitsOf",
              "BytesIn", "VecRef", "TupleOf", "OptionU8", "EnumCatchAll2", "PackedBits", "Bit", "Byte", "Word", "Usize", "Array", "Str",
              "_ReservedZero", "SizedInteger2", "PackedStructured", "ZeroReserved", "MyInteger", "TheReservedZero"]


def enum_item(g, rng):
    """A field of a new enum's type."""
    e = g.rand_enum()
    en = g.w["enums"][e - 1]
    lo = max(en["_w"], {1: 1, 2: 9, 4: 17, 8: 33}[en["_n"]])
    ew = rng.choice([lo, 8 * en["_n"]])
    return dict(ENUM(e, rng.randrange(2)), _fw=ew), 0, ew


def mutate(rng, d):
    """A change to a declaration that often breaks it."""
    import copy
    d = copy.deepcopy(d)
    f = rng.choice(d["fields"])
    k = rng.randrange(14)
    if k == 0 and f["pos"]["f"] != "none":
        f["pos"]["a"] = max(0, f["pos"]["a"] + rng.choice([-9, -8, -3, -1, 1, 2, 8]))
    elif k == 1 and f["pos"]["f"] in ("incl", "excl"):
        f["pos"]["b"] = max(1, f["pos"]["b"] + rng.choice([-8, -2, -1, 1, 3, 8, 16]))
    elif k == 2:
        d["sz"] = max(0, d["sz"] + rng.choice([-2, -1, -1, 1, 2])) if d["sz"] else rng.randint(1, max(1, d["_bytes"] - 1))
    elif k == 3:
        d["num"] = rng.choice([x for x in ("none", "msb0", "lsb0") if x != d["num"]])
    elif k == 4:
        d["sz"] = 0
    elif k == 5 and f["arr"]:
        f["arr"] += rng.choice([1, 2])
    elif k == 6:
        d["end"] = "none"
    elif k == 7:
        d["end"] = "none"
        f["end"] = "none"
    elif k == 8:
        f["pos"] = NOPOS()
    elif k == 9:
        f["szn"] = f["esn"] = 0
    elif k == 10:
        rng.shuffle(d["fields"])
    elif k == 11:
        f["pos"] = {"f": "from", "u": 1, "a": rng.randrange(8 * d["_bytes"] + 2), "b": 0}
    elif k == 12:
        f["pos"] = dict(rng.choice(d["fields"])["pos"])
    elif k == 13 and f["arr"] == 0:
        f["arr"] = rng.choice([1, 2, 3])
    return d


def acceptance_worlds(rng, n, decls, nw=NW):
    """Worlds of declarations to be accepted or rejected: given ones, random ones, mutated ones."""
    gens = [gen.Gen(rng) for _ in range(nw)]
    for i in range(n):
        g = gens[i % nw]
        g.rand_struct(depth=1, nfields=rng.choice([1, 2, 2, 3, 4, 6]))
    for i in range(3 * n):
        g = gens[i % nw]
        src = [d for d in g.w["structs"] if not d.get("_mut")]
        d = mutate(rng, rng.choice(src))
        if rng.random() < 0.3:
            d = mutate(rng, d)
        d.update(name="%sM%d" % (g.prefix, len(g.w["structs"]) + 1), _mut=True, _as=None)
        if any(abs(f["pos"]["a"]) + abs(f["pos"]["b"]) > 100000 for f in d["fields"]):
            continue
        g.w["structs"].append(d)
    # the specification's declarations use an enum of two variants, E1 there
    for i, dc in enumerate(decls):
        g = gens[i % nw]
        if not g.w.get("_two"):
            e = enum("TwoVariants", [variant("A"), variant("B")])
            g.w["_two"] = g.add_enum(e)
        d = dict(dc, name="G%d" % (len(g.w["structs"]) + 1), _mut=True, _bytes=2, _depth=0)
        fs = []
        for f in dc["fields"]:
            f = dict(f, ty=dict(f["ty"]), pos=dict(f["pos"], _hex=rng.randrange(4), _alt=rng.randrange(2)))
            if f["ty"]["k"] == "enum":
                f["ty"]["e"] = g.w["_two"]
            fs.append(f)
        d["fields"] = fs
        g.w["structs"].append(d)
    # whatever does not matter: names, visibility, the order of the attributes, further attributes
    for g in gens:
        for d in g.w["structs"]:
            if not d.get("_mut"):
                continue
            if rng.random() < 0.4:
                ns = rng.sample([n for n in NAMES if not n.startswith("r#")] + ["_a", "_pad", "_0", "__", "_reserved1", "_reserved2", "_x1"], len(d["fields"]))
                for f, n in zip(d["fields"], ns):
                    f["name"] = n
            d["_der"] = rng.choice([0, 0, 1, 2])
            for f in d["fields"]:
                f["_vis"] = rng.choice(["pub ", "pub ", "", "pub(crate) ", "pub(in crate) "])
                f["_rev"], f["_split"] = rng.random() < 0.3, rng.random() < 0.2
            d["_split"] = rng.random() < 0.2
    # distinct declarations: one rejection says nothing about another
    return [g.w for g in gens]


# ------------------------------------------------------------------ everything about small structures

def tiny_script(bufs):
    def script(s):
        n = s.bits() // 8
        s.new(vals.fill(s.t, s.w, 0, s.b.rng)).op("P")
        for x in bufs(n):
            s.op("U", *x.to_bytes(n, "big")).op("P").op("X")
    return script


def tiny(batch, rng, share=1.0, pairs=0, wide=0):
    """Structures of one byte with a single field of every kind and width at every offset, and with a
    pair of fields, on all 256 buffers; some of two bytes on a fourth of their 65536 buffers."""
    fourth = tiny_script(lambda n: rng.sample(range(1 << (8 * n)), 1 << (8 * n - 2)))
    every = tiny_script(lambda n: range(1 << (8 * n)))

    def add(fields, nbytes, script, **kw):
        i, g = batch.pick()
        placed = [(item(g, rng, k, s, w) if k != "bool" else BOOL, a, w, lo) for k, s, w, a, lo in fields]
        kw.setdefault("num", rng.choice(["msb0", "msb0", "lsb0"]))
        d = g.write_struct(placed, 8 * nbytes, order=rng.sample(range(len(placed)), len(placed)), size=True, tricky=0.03, **kw)
        script(batch.obj(i, REF(d)))

    def kinds(w):
        return ([("bool", 0, 1)] if w == 1 else []) + [(k, s, w) for k in ("sint", "int", "enum", "res") for s in (0, 1)] + [("cust", 0, w)]
    single = [k + (a, lo) for w in range(1, 9) for k in kinds(w) for a in ((0, 2, 3, 8) if w * 2 <= 8 else (0,)) if w * max(a, 1) <= 8
              for lo in range(0, 9 - w * max(a, 1))]
    for f in single:
        if share >= 1 or rng.random() < share:
            add([f], 1, every)
    for _ in range(pairs):
        a = rng.randint(1, 7)
        b = rng.randint(1, 8 - a)
        add([rng.choice(kinds(a)) + (0, 0), rng.choice(kinds(b)) + (0, rng.randint(a, 8 - b))], 1, every)
    for _ in range(wide):
        w = rng.randint(9, 16)
        end = rng.choice(["msb", "lsb"])
        lo = rng.randint(0, 16 - w)
        f = [(rng.choice(["sint", "int", "enum"]), rng.randrange(2), w, 0, lo)]
        if lo:
            f.append((rng.choice(["sint", "int"]), rng.randrange(2), lo if lo < 8 else 7, 0, 0))
        add(f, 2, fourth, end=end)
