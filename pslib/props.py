"""The checks, one function per property."""
import os, random
from . import build, engine, enums, families as F, ints, shapes, vals
from .decl import *

ASSUME = {"*": ["TLC evaluates the specification correctly", "rustc compiles the generated declarations correctly",
                "declarations and values beyond those generated behave like the generated ones"]}


def rounds(c, rng, make, n):
    """Thorough runs repeat with fresh declarations and also judge an optimised build."""
    for k in range(n):
        b = F.Batch(rng)
        make(b)
        c.sessions(str(k), b, release=(k == 1))


def models(c, rng, quick, thorough, *more):
    """Design-level models: small sessions over this many two-field layouts, and others."""
    c.small_sessions(rng, thorough if c.thorough else quick)
    for module, q, t in more:
        c.model(module, t if c.thorough else q, timeout=850)


def drawn(c, rng, make, quick=40, thorough=400):
    """Histories drawn from the specification, of the objects that make adds."""
    b = F.Batch(rng)
    make(b)
    c.histories(b, thorough if c.thorough else quick)
    c.sessions("drawn", b)


def tiny(c, rng, share, pairs):
    """Everything about small structures: single fields (in thorough runs all), pairs."""
    b = F.Batch(rng)
    F.tiny(b, rng, *((1, 40, 4) if c.thorough else (share, pairs, 0)))
    c.sessions("tiny", b)


COPY = ("CopyMachine", "MCCopyQuick.cfg", "MCCopy.cfg")


def compose(c):
    c.model("MCCompose", "MCCompose.cfg" if c.thorough else "MCComposeQuick.cfg", timeout=850)


def C01(c, rng):
    models(c, rng, 60, 2500)

    def make(b):
        F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int", "enum"), range(1, 65), range(8), c.thorough),
                      script=F.roundtrip_script)
        F.random_structs(b, rng, 60, F.roundtrip_script)
        F.long_fields(b, rng, F.roundtrip_script)
        F.far_structs(b, rng, lambda s: F.roundtrip_script(s, 1, 4, 3), (70, 300))
        F.many_fields(b, rng, F.roundtrip_script)
    rounds(c, rng, make, 6 if c.thorough else 1)
    tiny(c, rng, 0.2, 10)
    drawn(c, rng, lambda b: F.random_structs(b, rng, 80 if c.thorough else 32, F.unscripted))


def C02(c, rng):
    models(c, rng, 20, 800, COPY)

    def make(b):
        F.packed_rows(b, rng, F.grid_widths(rng), script=F.pack_script)
        F.packed_rows(b, rng, F.user_types(rng, c.thorough), per=4, script=F.pack_script)
        F.long_fields(b, rng, F.pack_script)
        F.random_structs(b, rng, 24, F.pack_script)
        F.big_struct(b, rng, lambda s: F.pack_script(s, 1, 6))
        F.far_structs(b, rng, lambda s: F.pack_script(s, 1, 6), (70, 300))
        F.many_fields(b, rng, F.pack_script, 140)
        F.huge_structs(b, rng, 3 if c.thorough else 1)
        F.lookalikes(b, rng, F.pack_script)
    rounds(c, rng, make, 6 if c.thorough else 1)
    tiny(c, rng, 0.2, 10)


def C03(c, rng):
    models(c, rng, 20, 800, COPY)

    def make(b):
        F.packed_rows(b, rng, F.grid_widths(rng), script=F.unpack_script)
        F.packed_rows(b, rng, F.user_types(rng, c.thorough), per=4, script=F.unpack_script)
        F.long_fields(b, rng, F.unpack_script)
        F.random_structs(b, rng, 24, F.unpack_script)
        F.big_struct(b, rng, lambda s: F.unpack_script(s, 1, 6, 2))
        F.far_structs(b, rng, lambda s: F.unpack_script(s, 1, 6, 2), (70, 300))
        F.many_fields(b, rng, F.unpack_script, 140)
        F.huge_structs(b, rng, 3 if c.thorough else 1)
        F.lookalikes(b, rng, F.unpack_script)
    rounds(c, rng, make, 6 if c.thorough else 1)
    tiny(c, rng, 0.2, 10)


def C04(c, rng):
    models(c, rng, 20, 400)

    def make(b):
        F.mirrors(b, rng, 40)
        # arrays, whose elements keep their order
        F.mirrors(b, rng, 10, lambda g: [x for x in ((t, a or rng.choice([2, 3, 5]), w) for (t, a, w) in
                                                     (g.rand_item(1, small=True) for _ in range(3)))])
    rounds(c, rng, make, 6 if c.thorough else 1)


def C07(c, rng):
    models(c, rng, 20, 400)

    def make(b):
        F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int"), range(1, 65), range(8) if c.thorough else rng.sample(range(8), 2),
                                            True, True), script=F.both_script)
        F.packed_rows(b, rng, F.grid_widths(rng, ("enum",), range(1, 65), rng.sample(range(8), 1), True, True), script=F.both_script)
        # the structure's default and the field's own setting, in all combinations
        F.random_structs(b, rng, 24, F.both_script)
    rounds(c, rng, make, 4 if c.thorough else 1)
    if c.thorough:
        tiny(c, rng, 1, 0)



def C13(c, rng):
    models(c, rng, 20, 400)

    def make(b):
        dem = [("res", v, w, off, "none") for w in list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 71, 72, 80, 127, 128, 200, 255]
               for off in (range(8) if c.thorough else rng.sample(range(8), 5)) for v in (0, 1)]
        F.packed_rows(b, rng, dem, script=F.reserved_script, fillers=0.8)
        F.reserved_arrays(b, rng, 24)
        F.random_structs(b, rng, 12, F.reserved_script)
    rounds(c, rng, make, 6 if c.thorough else 1)
    if c.thorough:
        tiny(c, rng, 1, 0)



def C15(c, rng):
    compose(c)
    def make(b):
        F.slice_types(b, rng, 60)
        F.slice_types(b, rng, 12, make=lambda g, r: REF(F.cust_struct(g, r)))
        F.slice_types(b, rng, 10, make=lambda g, r: CUST(r.randint(1, 9)))
        F.random_structs(b, rng, 16, F.slice_script)
        F.wrong_lengths(b, rng)
    rounds(c, rng, make, 6 if c.thorough else 1)

    def roots(b):
        F.slice_types(b, rng, 80 if c.thorough else 32, F.unscripted)
        F.slice_types(b, rng, 20 if c.thorough else 8, F.unscripted, make=lambda g, r: REF(F.cust_struct(g, r)))
    drawn(c, rng, roots)


def C12(c, rng):
    models(c, rng, 20, 400)

    def make(b):
        ws = []
        for w in range(1, 9):
            ws += [("bool", w, rng.randrange(8), 0, 0) for _ in range(2)]
        for w in range(1, 65):
            for s in (0, 1):
                for k in (0, 1):
                    if w <= 12 or rng.random() < 0.5:
                        ws.append(("enum", w, rng.randrange(8), s, k))
        rng.shuffle(ws)
        F.patterns(b, rng, ws, small=10 if c.thorough else 8)
    rounds(c, rng, make, 4 if c.thorough else 1)
    c.enums("catch", enums.worlds(rng, [], 400 if c.thorough else 80))


def C14(c, rng):
    models(c, rng, 20, 800)

    def make(b):
        F.arrays(b, rng, 84, F.both_script)
        F.nests(b, rng, 36, F.both_script)
        F.array_grid(b, rng, lambda s: F.both_script(s, 1, 3, 3), 1 if c.thorough else 0.3)
    rounds(c, rng, make, 6 if c.thorough else 1)
    if c.thorough:
        tiny(c, rng, 1, 0)



def C16(c, rng):
    compose(c)
    def make(b):
        F.tuple_shapes(b, rng)
        F.long_tuples(b, rng)
        F.slice_types(b, rng, 24, lambda s: F.slice_script(s, 2), make=lambda g, r: F.rand_root(g, r, 3))
    rounds(c, rng, make, 6 if c.thorough else 1)


def C17(c, rng):
    compose(c)
    rounds(c, rng, lambda b: F.vec_shapes(b, rng, 56), 6 if c.thorough else 1)


def C18(c, rng):
    rounds(c, rng, lambda b: F.shows(b, rng, 72), 6 if c.thorough else 1)


def C22(c, rng):
    compose(c)
    def make(b):
        F.sized(b, rng, F.size_script)
        F.slice_types(b, rng, 40, F.size_script, lambda g, r: F.rand_root(g, r, 2, cust=False))
        F.random_structs(b, rng, 40, F.size_script)
        F.big_struct(b, rng, F.size_script)
        F.notations(b, rng, F.size_script)
    rounds(c, rng, make, 4 if c.thorough else 1)


def C19(c, rng):
    def make(b):
        F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int", "enum", "res"), range(1, 65), rng.sample(range(8), 2)),
                      script=F.total_script)
        F.random_structs(b, rng, 60, F.total_script)
        F.long_fields(b, rng, F.total_script)
        F.slice_types(b, rng, 60, F.total_script, lambda g, r: F.rand_root(g, r, 3))
        F.slice_types(b, rng, 10, F.total_script, make=lambda g, r: REF(F.cust_struct(g, r)))
        F.many_fields(b, rng, F.total_script)
        F.empty_items(b, rng, F.total_script)
        F.big_struct(b, rng, F.total_script)
        F.shows(b, rng, 24)
    rounds(c, rng, make, 6 if c.thorough else 1)

    def anything(b):
        F.slice_types(b, rng, 80 if c.thorough else 32, F.unscripted)
        F.random_structs(b, rng, 80 if c.thorough else 16, F.unscripted)
    drawn(c, rng, anything)
    c.enums("enums", enums.worlds(rng, [], 400 if c.thorough else 80))

    def both(r, i, extra):
        return ints.load_script(r, i, extra) + ints.byte_script(r, i, extra)
    int_rounds(c, rng, both, 8 if c.thorough else 1, 2, more=lambda r: ints.native_script(r, 40))


def C05(c, rng):
    def make(b):
        F.notations(b, rng, F.sizes_script)
        F.rewinds(b, rng, F.sizes_script)
        F.random_structs(b, rng, 24, F.sizes_script)
        F.big_struct(b, rng, F.sizes_script)
        F.far_structs(b, rng, F.sizes_script, (70, 300, 530, 1100, 8300) + ((140, 2100, 4200) if c.thorough else ()))
        F.huge_structs(b, rng, 5 if c.thorough else 3)
    rounds(c, rng, make, 4 if c.thorough else 1)
    F.exclusive_bytes(c, rng)


FAULTS = {"overlap", "out-of-bounds", "no-width", "no-numbering", "lsb0-needs-range", "lsb0-needs-size", "uneven-array",
          "no-endian", "first-field-auto"}


def C06(c, rng):
    c.model("MCLayout", "MCLayout.cfg" if c.thorough else "MCLayoutQuick.cfg")
    if c.thorough:
        decls = c.generated("GenDecls", timeout=600)
    else:
        decls = c.generated("GenDecls", args=["-simulate", "num=700", "-depth", "5", "-seed", str(rng.randrange(1 << 30))])
    by = {}
    for d in decls:
        by.setdefault(d["v"], []).append(d["d"])
    pick = []
    for v in sorted(by):
        if v == "ok" or v in FAULTS:
            ds = by[v]
            rng.shuffle(ds)
            pick += ds[:(1500 if c.thorough else 110) * (3 if v == "ok" else 1)]
    for k in range(3 if c.thorough else 1):
        n = len(pick) // 3 + 1 if c.thorough else len(pick)
        ws = F.acceptance_worlds(rng, 500 if c.thorough else 200, pick[k * n:(k + 1) * n])
        h = F.Batch(rng, 1)
        F.huge_structs(h, rng, 2)
        c.acceptance("accept%d" % k, ws + h.worlds(), FAULTS)

    def make(b):
        F.named(b, rng, F.both_script)
        F.random_structs(b, rng, 24, F.both_script)
    rounds(c, rng, make, 4 if c.thorough else 1)


def int_rounds(c, rng, script, extra, n=4, serde=False, more=None):
    """All 128 instantiations; thorough runs repeat with other values and an optimised build."""
    for k in range(n if c.thorough else 1):
        def make(j, insts):
            r = random.Random(rng.getrandbits(32) + j)
            out = [ln for i in insts for ln in script(r, i, extra * (4 if c.thorough else 1))]
            if more and j == 7:
                out += more(r)
            return out
        c.registers("int%d" % k, make, serde, release=(k == 1))
    c.count("types", len(ints.INST))


def C08(c, rng):
    c.model("MCInts", "MCInts3.cfg" if c.thorough else "MCInts8.cfg")
    int_rounds(c, rng, ints.load_script, 8)
    if c.thorough:
        # every value of every two-byte integer
        c.registers("every", lambda j, insts: [ln for i in insts if ints.INST[i][1] == 2 for v in range(1 << 16)
                                               for ln in ("A %d %s" % (i, ints.be(v, 2)), "R")])


def C09(c, rng):
    c.model("MCInts", "MCInts3.cfg" if c.thorough else "MCInts.cfg")
    int_rounds(c, rng, ints.byte_script, 8, more=lambda r: ints.native_script(r, 40))

    def make(b):
        F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int"), range(1, 65), [0], True, True), script=F.both_script)
    if c.thorough:
        rounds(c, rng, make, 1)
        c.registers("every", lambda j, insts: [ln for i in insts if ints.INST[i][1] == 2 for v in range(1 << 16)
                                               for ln in ("%s %d %s" % ("ML"[v % 2], i, ints.be(v, 2)), "B")])


def C20(c, rng):
    c.model("MCInts", "MCInts3.cfg" if c.thorough else "MCInts.cfg")
    int_rounds(c, rng, ints.serde_script, 4, serde=True)


def enum_rounds(c, rng, extra, n=3, size=(260, 120), short=False):
    c.model("MCEnums")
    g = c.generated("GenEnums", timeout=600)
    rng.shuffle(g)
    if c.thorough:
        parts = [g[k::n] for k in range(n)]
    else:
        plain = [d for d in g if d["ty"] == ""]
        parts = [plain[:size[0]] + [d for d in g if d["ty"] != ""][:size[1]]]
    for k, p in enumerate(parts):
        ws = enums.worlds(rng, p, extra)
        if short:
            for w in ws:
                w.scripts = [s[:1] for s in w.scripts]
        c.enums(str(k), ws, release=(k == 1))


def C10(c, rng):
    enum_rounds(c, rng, 120)


def C11(c, rng):
    enum_rounds(c, rng, 300, size=(1000, 300), short=True)


def C21(c, rng):
    configs = list(build.CONFIGS) if c.thorough else ["std", "none", "alloc", "std_b64_b256", "none_serde_b256", "alloc_b64_b256_serde"]
    for k in range(3 if c.thorough else 1):
        b = F.Batch(rng, 3 if c.thorough else 2)
        F.random_structs(b, rng, 60 if c.thorough else 24, F.both_script)
        F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int", "enum", "res"), range(1, 65), rng.sample(range(8), 1)), script=F.both_script)
        F.slice_types(b, rng, 60 if c.thorough else 24)
        F.long_fields(b, rng, F.both_script, sizes=(31, 32, 33, 65))
        F.big_struct(b, rng, F.total_script)
        F.shows(b, rng, 12)
        F.nests(b, rng, 8, F.both_script)
        c.configurations("cfg%d" % k, b, enums.worlds(rng, [], 120 if c.thorough else 24, nw=2), configs)


def C23(c, rng):
    for k in range(4 if c.thorough else 1):
        b = F.Batch(rng)
        none = lambda s: s.add("")
        F.notations(b, rng, none)
        F.random_structs(b, rng, 120, none)
        F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int", "enum", "res"), range(1, 65), rng.sample(range(8), 1)), script=none)
        F.arrays(b, rng, 60, none)
        F.nests(b, rng, 40, none)
        F.long_fields(b, rng, none)
        F.big_struct(b, rng, none)
        F.far_structs(b, rng, none)
        F.many_fields(b, rng, none)
        F.mirrors(b, rng, 16)
        c.documentation("doc%d" % k, b.worlds())


def C24(c, rng):
    c.model("MCHelpers")
    c.helpers(rng, ["std", "std_serde", "std_b64", "std_b256"] if c.thorough else ["std_serde", "std_b256"], 20 if c.thorough else 3)


def C25(c, rng):
    c.model("MCShape")
    by = {}
    for x in c.generated("GenShapes"):
        for o in [x["d"]["derive"]] if x["ok"] else shapes.oddities(x["d"]):
            by.setdefault(o, []).append(x)
    everything = [x for o in sorted(by) for x in by[o]]
    for k in range(3 if c.thorough else 1):
        pick = []
        for o in sorted(by):
            # every declaration of one member, and a sample of the others
            one = [x for x in by[o] if len(x["d"]["ms"]) == 1]
            n = (600 if c.thorough else 120) if by[o][0]["ok"] else (200 if c.thorough else 12)
            pick += one + rng.sample(by[o], min(len(by[o]), n))
        pick = list({engine.json.dumps(x, sort_keys=True): x for x in pick}.values())
        rng.shuffle(pick)
        c.shapes("shapes%d" % k, shapes.prepare(pick, rng) + shapes.every_value(everything, rng))
