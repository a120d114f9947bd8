"""Drivers and scripts for the width-limited integers."""
import os, random
from . import build

HERE = os.path.join(build.VERIF, "harness", "ints")
NAT = {8: 1, 16: 2, 32: 4, 64: 8}


def instances():
    out = []
    for w in range(1, 65):
        n = next(k for k in (1, 2, 4, 8) if w <= 8 * k)
        for s in (0, 1):
            out.append((s, n, w))
    return out


INST = instances()


def sources(serde):
    lines = []
    for i, (s, n, w) in enumerate(INST):
        lines.append("reg!(R%d %s%d %d %d %d);" % (i, "ui"[s], 8 * n, s, n, w))
    lines.append("fn make(i: i64) -> Box<dyn Reg> { match i {")
    lines += ["  %d => Box::new(R%d::default())," % (i, i) for i in range(len(INST))]
    lines.append("  _ => panic!() } }")
    return {"insts.rs": "\n".join(lines) + "\n",
            "serde_ops.rs": open(os.path.join(HERE, "withserde.rs" if serde else "noserde.rs")).read()}


def build_driver(name, serde=False, release=False):
    """The driver for all 128 instantiations; returns (workspace, member)."""
    ws = build.Workspace(name, release=release)
    deps = ""
    if serde:
        deps = 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\n'
    m = ws.add("0", open(os.path.join(HERE, "main.rs")).read(), deps, features=["use_serde"] if serde else [])
    for f, text in sources(serde).items():
        build.write(os.path.join(ws.dir, m, "src", f), text)
    ws.finish()
    errs = ws.messages("build")
    if errs:
        return ws, m, errs[m]
    return ws, m, []


def be(v, n):
    return " ".join(str(b) for b in (v & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))


def interesting(rng, bits, w, extra):
    """Values of `bits` bits around everything that matters at width w."""
    vs = {0, 1, 2, (1 << bits) - 1, (1 << bits) - 2, 1 << (bits - 1), (1 << (bits - 1)) - 1}
    for k in (w - 1, w, w + 1, bits - w, 8 * (w // 8), 8):
        if 0 <= k < bits:
            for d in (-1, 0, 1):
                vs.add(((1 << k) + d) & ((1 << bits) - 1))
                vs.add((-(1 << k) + d) & ((1 << bits) - 1))
    vs.add(int.from_bytes(bytes([0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88][:(bits + 7) // 8]), "big") & ((1 << bits) - 1))
    vs.add(int.from_bytes(bytes([0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10][:(bits + 7) // 8]), "big") & ((1 << bits) - 1))
    for _ in range(extra):
        vs.add(rng.getrandbits(bits))
        k = rng.randrange(bits)
        vs.add(1 << k)
        vs.add(((1 << bits) - 1) ^ (1 << k))
    return sorted(vs)


def values(rng, i, nbytes, full, extra):
    w = INST[i][2]
    if full and nbytes == 1:
        return range(256)
    return interesting(rng, 8 * nbytes, w, extra)


def load_script(rng, i, extra):
    """C08: every way to load from and read as the native type."""
    s, n, w = INST[i]
    out = ["Z %d" % i, "R", "B"]
    vs = list(values(rng, i, n, True, extra))
    for k, v in enumerate(vs):
        out += ["A %d %s" % (i, be(v, n)), "R"]
        if k % 5 == 0:
            out.append("B")
        # itself, the same low bits, one bit away, another
        for y in rng.sample([v, v ^ (1 << (8 * n - 1)), v ^ (1 << rng.randrange(w)), v ^ (((1 << (8 * n - w)) - 1) << w),
                             rng.choice(vs), -v], 3):
            out.append("Q " + be(y, n))
    return out


def byte_script(rng, i, extra):
    """C09: every way to load from and convert to bytes."""
    s, n, w = INST[i]
    nb = (w + 7) // 8
    out = []
    for v in values(rng, i, n, True, extra):
        out += ["A %d %s" % (i, be(v, n)), "B"]
    for v in (range(256) if nb == 1 else interesting(rng, 8 * nb, w, extra)):
        for op in "MLml":
            out += ["%s %d %s" % (op, i, be(v, nb))]
            if rng.random() < 0.2:
                out.append("B")
    return out


def native_script(rng, extra):
    out = []
    for t, n in enumerate((1, 1, 2, 2, 4, 4, 8, 8)):
        for v in (range(256) if n == 1 else interesting(rng, 8 * n, 8 * n, extra)):
            out.append("I %d %s" % (t, be(v, n)))
    return out


def serde_script(rng, i, extra):
    """C20."""
    s, n, w = INST[i]
    out = []
    vs = interesting(rng, 8 * n, w, extra) if n > 1 else sorted(rng.sample(range(256), 40 + 8 * extra) + [0, 255, 127, 128])
    for v in vs:
        out += ["A %d %s" % (i, be(v, n)), "S"]
        out += ["D %d %s" % (i, be(v, n))]
        if rng.random() < 0.3:
            out.append("S")
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)
    for x in [lo, hi, lo - 1, hi + 1, -1, 1 << w, (1 << w) - 1, -(1 << (w - 1)), -(1 << (w - 1)) - 1, 10 ** 30, rng.randint(lo, hi)]:
        out.append("T %d %s" % (i, " ".join(str(ord(c)) for c in str(x))))
    for x in ("1.5", '"3"', "true", "null", "[1]", "{}", "1e2", "01", "", "-0"):
        out.append("T %d %s" % (i, " ".join(str(ord(c)) for c in x)))
    return out
