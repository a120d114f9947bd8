"""Driver and scripts for size markers, byte arrays and errors."""
import os
from . import build

HERE = os.path.join(build.VERIF, "harness", "helpers")
LENS = (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 255, 256, 300, 1025)
LIMITS = {"std": 255, "std_serde": 64, "std_b64": 511, "std_b256": 2047}


def build_driver(name, config):
    ws = build.Workspace("%s-%s" % (name, config))
    m = ws.add("0", open(os.path.join(HERE, "main.rs")).read(), 
               'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\n' if config == "std_serde" else "",
               features={"std_b64": ["byte_types_64"], "std_b256": ["byte_types_256"], "std_serde": ["use_serde"]}.get(config))
    carry = open(os.path.join(HERE, "carry.rs" if config == "std_serde" else "nocarry.rs")).read()
    build.write(os.path.join(ws.dir, m, "src", "carry.rs"), carry)
    lines, step, n = [], 250, LIMITS[config]
    parts = [range(k, min(k + step, n + 1)) for k in range(1, n + 1, step)]
    for i, p in enumerate(parts):
        lines.append("fn widths%d(out: &mut dyn std::io::Write) {" % i)
        lines += ["width!(%d, out);" % k for k in p]
        lines.append("}")
    lines.append("fn widths(out: &mut dyn std::io::Write) { %s }" % " ".join("widths%d(out);" % i for i in range(len(parts))))
    build.write(os.path.join(ws.dir, m, "src", "widths.rs"), "\n".join(lines) + "\n")
    ws.finish()
    return ws, m, ws.messages("build").get(m, [])


def script(rng, rounds):
    out = ["W", "V"]
    for v in range(10):
        for _ in range(6 if v in (6, 7, 8) else 1):
            out.append("E %d %d %d" % (v, rng.choice([0, 1, 7, 255, 65536, rng.randrange(1 << 30)]), rng.choice([0, 2, 9, 256, rng.randrange(1 << 30)])))
    for n in LENS:
        for _ in range(rounds if n < 300 else 1):
            out.append("N %d %d" % (n, rng.choice([0, 255, rng.randrange(256)])))
            for _ in range(min(2 * n, 24)):
                if rng.random() < 0.75:
                    out.append("P %d %d" % (rng.choice([0, n - 1, rng.randrange(n)]), rng.randrange(1, 256)))
                else:
                    out.append("R %d" % rng.choice([0, 1, n - 1, rng.randrange(n)] if n > 1 else [0]))
            out.append("G")
            for k in range(n) if n < 18 else (1, n // 2, n - 1):
                out += ["N %d %d" % (n, rng.randrange(1, 256)), "P 0 1", "P %d 2" % (n - 1), "R %d" % k, "R 0"]
    return out
