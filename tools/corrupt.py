#!/usr/bin/env python3
"""Shows that the binding has teeth: corrupts the results in traces recorded from the real code (of the
last run of the checks, in out/), one place in each of many lines, and counts how many TLC refuses.
    python3 tools/corrupt.py C02 [C03 ...]"""
import copy, glob, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from pslib import build, tlc

MODULE = {"C10": "TraceEnum", "C11": "TraceEnum", "C08": "TraceInt", "C09": "TraceInt", "C20": "TraceInt",
          "C24": "TraceHelpers", "C23": "TraceDoc"}
INPUTS = {"op", "o", "v", "b", "pre", "fl", "e", "i", "t", "w", "in", "n", "x0"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("#",)
        for i, y in enumerate(x[:40]):
            yield from leaves(y, path + (i,))
    else:
        yield path


def change(x, path, rng):
    """The value with the leaf at path altered, keeping its shape."""
    if path == ("#",):
        return x[:-1] if rng.random() < 0.5 else x + x[-1:]
    if not path:
        if isinstance(x, bool):
            return not x
        if isinstance(x, int):
            return x ^ (1 << rng.randrange(8)) if 0 <= x < 256 else x + 1
        if isinstance(x, str):
            if not x:
                return "x"
            k = rng.randrange(len(x))
            return x[:k] + chr(ord(x[k]) ^ 1) + x[k + 1:]
        return x
    y = copy.copy(x)
    y[path[0]] = change(x[path[0]], path[1:], rng)
    return y


def main(props):
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    for p in props:
        module = MODULE.get(p, "TraceSession")
        jobs, marks, total, missed = [], [], {}, {}
        for f in sorted(glob.glob(os.path.join(build.OUT, p, "*.ndjson")))[:8]:
            world = f[:-len("ndjson")] + "world.json"
            if not os.path.exists(world):
                world = ""
            lines = open(f).read().split("\n")[:-1][:6000]
            done = {}
            k = rng.randrange(8)
            while k < len(lines):
                e = json.loads(lines[k])
                c = [q for q in leaves(e) if q[0] not in INPUTS and q[-1] != "k"]
                if c:
                    # one field of the record, then one place in it
                    top = rng.choice(sorted({q[0] for q in c}))
                    q = rng.choice([q for q in c if q[0] == top])
                    x = change(e, q, rng)
                    if x != e:
                        lines[k] = json.dumps(x)
                        done[k + 1] = (e.get("op", "?"), top, q, e, x)
                k += rng.randint(8, 24)
            g = f + ".corrupt"
            open(g, "w").write("".join(x + "\n" for x in lines))
            jobs.append((world, g))
            marks.append(done)
        for (dev, r), done, (_, g) in zip(tlc.judge(module, jobs, p), marks, jobs):
            at = {n for n, _ in dev}
            stop = max(at) if r.get("verdicts") is None and at else 1 << 60
            for n, (op, top, q, e, x) in done.items():
                if n > stop:
                    continue
                total[op, top] = total.get((op, top), 0) + 1
                # a relation may only notice at a later line
                if not any(n <= m <= n + 7 for m in at):
                    missed.setdefault((op, top), []).append((q, e, x))
            os.remove(g)
        for k in sorted(total):
            m = missed.get(k, [])
            print("%s %s.%s: %d of %d refused" % (p, k[0], k[1], total[k] - len(m), total[k]), flush=True)
            if os.environ.get("SHOW"):
                for q, e, x in m[:3]:
                    print("    missed at", q, json.dumps(x)[:400])


main(sys.argv[1:])
