"""Running a check: building, recording, judging, reporting."""
import json, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from . import build, decl, docs, enums, helpers, ints, shapes, small, tlc, vals
from .build import OUT, ToolError

KNOWN = os.path.join(build.VERIF, "known_findings.json")


def known_findings(prop):
    try:
        data = json.load(open(KNOWN))
    except OSError:
        return []
    return [k for k in data["findings"] if k["property"] == prop and k["status"] == "open"]


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.notes, self.models, self.counts = [], [], [], [], {}
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.known = known_findings(prop)
        self.known_seen = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, detail):
        """Record a violation; detail is written to a replay file."""
        n = len(self.violations) + 1
        path = os.path.join(self.dir, "violation-%d.json" % n)
        if n <= 40:
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, what=what, **detail), f, indent=1)
        self.violations.append((what, path))

    # ------------------------------------------------------------ models
    def model(self, module, cfg=None, workers=8, timeout=600, args=(), expect_ok=True, envs=None, heap="8g"):
        """Check a design-level model with TLC.  It does not depend on the code: a
        failure is an error of the specification, not a violation."""
        r = tlc.tlc(module, cfg=cfg, workers=workers, timeout=timeout, args=args, envs=envs, heap=heap,
                    gc="-XX:+UseParallelGC")
        if r["ok"] != expect_ok:
            raise ToolError("model %s/%s: unexpected outcome\n%s" % (module, cfg, r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "distinct": r["distinct"],
                            "generated": r["generated"], "wall_s": round(r["wall"], 1)})
        self.log("model %s: %d states, %d generated, %.1fs" % (cfg or module, r["distinct"], r["generated"], r["wall"]))
        return r

    def small_sessions(self, rng, two):
        """The session explored exhaustively over small structures (no code involved)."""
        path = os.path.join(self.dir, "small.world.json")
        w = small.world(rng, two)
        write(path, json.dumps(w))
        self.model("MCSession", envs={"PS_WORLD": path}, timeout=850)
        self.count("small_structures", len(w["structs"]))

    # ------------------------------------------------------------ sessions
    def sessions(self, name, batch, focus=None, release=False, reject="violation", deps="", timeout=120):
        """Build the batch's worlds, run its scripts, judge the recorded traces."""
        focus = os.environ.get("PS_FORCE_FOCUS") or focus or self.prop
        worlds = batch.worlds()
        name = "%s-%s" % (self.prop.lower(), name)
        ws, members, rejected = build.build_worlds(name, worlds, release=release, deps=deps)
        self.log("built %s: %d structs, %d enums, %d rejected" % (
            name, sum(len(w["structs"]) for w in worlds), sum(len(w["enums"]) for w in worlds),
            sum(len(r) for r in rejected)))
        jobs, lines = [], []

        def record(i):
            w, bad = worlds[i], build.dependents(worlds[i], rejected[i])
            script = []
            for o in sorted(batch.scripts[i]):
                if ("obj", o) not in bad:
                    script += [(o, ln) for ln in batch.scripts[i][o]]
            base = os.path.join(OUT, self.prop, "%s-%d" % (name, i))
            with open(base + ".script", "w") as f:
                f.write("".join(ln + "\n" for _, ln in script))
            with open(base + ".world.json", "w") as f:
                json.dump(decl.strip(w), f)
            err = build.run_driver(ws, members[i], base + ".script", base + ".ndjson", timeout)
            return base, script, err
        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(record, range(len(worlds))))
        for i, (base, script, err) in enumerate(recs):
            n = 0
            if os.path.exists(base + ".ndjson"):
                data = open(base + ".ndjson").read()
                # a driver that was cut off may leave half a line
                data = data[:data.rfind("\n") + 1]
                open(base + ".ndjson", "w").write(data)
                n = data.count("\n")
            if err:
                self.driver_failure(worlds[i], script, n, err)
            if n:
                jobs.append((i, base, script, n))
        res = tlc.judge("TraceSession", [(b + ".world.json", b + ".ndjson") for _, b, _, _ in jobs], focus)
        verd = {}
        for (i, base, script, n), (dev, r) in zip(jobs, res):
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.traces += 1
            self.events += n
            verd[i] = r["verdicts"]
            if dev:
                self.deviations(worlds[i], script, base, dev)
            self.sample({"declaration": self.rust_of(worlds[i], worlds[i]["objs"][0]) if worlds[i]["objs"] else "",
                         "operations": open(base + ".ndjson").read().split("\n")[:3]})
        self.rejections(worlds, rejected, verd, reject)
        nd = sum(len(w["structs"]) for w in worlds)
        self.count("declarations", nd)
        unsane = sum(1 for i in verd if verd[i] for s in verd[i]["s"] if s["v"] != "ok" or s["soft"])
        self.count("declarations_not_judged", unsane)
        self.log("judged %s: %d events, %d deviations, %d not judged, TLC max %.1fs" % (
            name, sum(j[3] for j in jobs), sum(len(d) for d, _ in res), unsane, max([r["wall"] for _, r in res] + [0])))
        return verd

    def registers(self, name, make, serde=False, release=False, deps=""):
        """The width-limited integers: run scripts against all instantiations and
        judge what they did."""
        focus = os.environ.get("PS_FORCE_FOCUS") or self.prop
        name = "%s-%s" % (self.prop.lower(), name)
        ws, member, errs = ints.build_driver(name, serde, release)
        if errs:
            self.violation("the operations are not available: %s" % errs[0][1].split("\n")[0], {"compiler": errs})
            return
        self.log("built %s" % name)

        scripts = [make(j, [i for i in range(len(ints.INST)) if i % 8 == j]) for j in range(8)]

        def record(j):
            base = os.path.join(self.dir, "%s-%d" % (name, j))
            script = scripts[j]
            write(base + ".script", "".join(ln + "\n" for ln in script))
            err = build.run_driver(ws, member, base + ".script", base + ".ndjson", 120)
            return base, script, err
        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(record, range(8)))
        self.line_traces("TraceInt", recs, focus, {})

    def helpers(self, rng, configs, rounds):
        """Size markers, byte arrays and errors."""
        recs = []
        for cfg in configs:
            name = "%s-%s" % (self.prop.lower(), cfg)
            ws, member, errs = helpers.build_driver(self.prop.lower(), cfg)
            if errs:
                self.violation("the operations are not available: %s" % errs[0][1].split("\n")[0], {"compiler": errs})
                continue
            base = os.path.join(self.dir, name)
            script = helpers.script(rng, rounds)
            write(base + ".script", "".join(ln + "\n" for ln in script))
            recs.append((base, script, build.run_driver(ws, member, base + ".script", base + ".ndjson", 120)))
        self.log("recorded")
        self.line_traces("TraceHelpers", recs, self.prop, {})

    def enums(self, name, worlds, release=False):
        """Enums on their own: build, convert, judge."""
        focus = os.environ.get("PS_FORCE_FOCUS") or self.prop
        name = "%s-%s" % (self.prop.lower(), name)
        ws, members, rejected = build.build_worlds(name, [g.w for g in worlds], release=release, render=enums.source)
        n = sum(len(g.w["enums"]) for g in worlds)
        self.log("built %s: %d enums, %d rejected" % (name, n, sum(len(r) for r in rejected)))

        def record(i):
            base = os.path.join(self.dir, "%s-%d" % (name, i))
            script = [ln for k, s in enumerate(worlds[i].scripts) if ("enum", k + 1) not in rejected[i] for ln in s]
            write(base + ".script", "".join(ln + "\n" for ln in script))
            write(base + ".world.json", json.dumps(decl.strip(worlds[i].w)))
            return base, script, build.run_driver(ws, members[i], base + ".script", base + ".ndjson", 120)
        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(record, range(len(worlds))))
        verd = self.line_traces("TraceEnum", recs, focus, lambda i, d: {"declaration": decl.enum_rs(worlds[i].w["enums"][d["e"]["e"] - 1])},
                                world=True)
        self.count("enums", n)
        for i, rej in enumerate(rejected):
            for (kind, k), msg in sorted(rej.items()):
                v = verd[i]["e"][k - 1]
                if v["fits"] and v["nodup"] and not v["soft"]:
                    self.violation("a well-formed enum is rejected: %s" % msg.split("\n")[0],
                                   {"declaration": decl.enum_rs(worlds[i].w["enums"][k - 1]), "compiler": msg})
                else:
                    self.log("not judged and rejected:", msg.split("\n")[0][:100])
        for i in verd:
            self.count("enums_not_judged", sum(1 for v in verd[i]["e"] if not v["fits"] or not v["nodup"] or v["soft"]))

    def configurations(self, name, batch, worlds, configs, timeout=120):
        """The same declarations and histories under several feature configurations of the
        library; the merged traces are judged against each other."""
        ws = batch.worlds()
        name = "%s-%s" % (self.prop.lower(), name)
        enames = [g.w for g in worlds]

        def alone(cfg):
            heap = "std" in build.CONFIGS[cfg] or "alloc" in build.CONFIGS[cfg]
            alloc = "alloc" in build.CONFIGS[cfg] and "std" not in build.CONFIGS[cfg]
            target = "target-" + cfg
            head = "extern crate alloc;" if alloc else ""
            without = None if heap else lambda w: {("obj", i + 1) for i, t in enumerate(w["objs"]) if vals.dynamic(t)}
            out = {}
            try:
                out["s"] = build.build_worlds("%s-s-%s" % (name, cfg), ws, config=cfg, target=target, without=without,
                                              render=lambda w, bad: build.restrict_src(w, bad, head))
                out["e"] = build.build_worlds("%s-e-%s" % (name, cfg), enames, config=cfg, target=target,
                                              render=lambda w, bad: enums.source(w, bad, head))
                if "std" not in build.CONFIGS[cfg]:
                    # a user without the standard library
                    head2 = "#[macro_use] extern crate alloc;" if alloc else ""
                    out["n"] = build.build_worlds("%s-n-%s" % (name, cfg), ws + enames, config=cfg, target=target, sub="check", norun=True,
                                                  render=lambda w, bad: build.nostd_src(w, bad, head2))
            except build.LibraryBroken as e:
                out["broken"] = str(e)
            return out
        with ThreadPoolExecutor(len(configs)) as ex:
            outs = dict(zip(configs, ex.map(alone, configs)))
        self.log("built %s under %s" % (name, ", ".join(configs)))
        if "broken" in outs["std"]:
            raise ToolError(outs["std"]["broken"])
        live = []
        for c in configs:
            if "broken" in outs[c]:
                self.violation("the %s configuration does not build although std does: %s" % (c, outs[c]["broken"]),
                               {"features": build.CONFIGS[c], "compiler": outs[c]["broken"]})
            else:
                live.append(c)
        # accepted by one, accepted by all
        groups = [(c, k, outs[c][k][2][:len(ws)] if k == "n" else outs[c][k][2], ws) for c in live for k in ("s", "n") if k in outs[c]]
        groups += [(c, k, outs[c][k][2][len(ws):] if k == "n" else outs[c][k][2], enames) for c in live for k in ("e", "n") if k in outs[c]]
        for c, k, rej, wl in groups:
            base = outs["std"]["s" if wl is ws else "e"][2]
            for i, r in enumerate(rej):
                for tag, msg in sorted(set(r.items()) - set(base[i].items())):
                    if tag in base[i]:
                        continue
                    self.violation("accepted under std, rejected under %s: %s" % (c, msg.split("\n")[0]),
                                   {"features": build.CONFIGS[c], "declaration": self.source_of(wl[i], tag), "compiler": msg})
                for tag, msg in sorted(base[i].items()):
                    if tag not in r and tag[0] != "obj" and tag not in build.dependents(wl[i], base[i].keys() - {tag}):
                        self.violation("rejected under std, accepted under %s: %s" % (c, msg.split("\n")[0]),
                                       {"features": build.CONFIGS[c], "declaration": self.source_of(wl[i], tag), "compiler": msg})

        def record(job):
            c, k, i = job
            w = (ws if k == "s" else enames)[i]
            wsp, members, rejected = outs[c][k]
            bad = build.dependents(w, rejected[i])
            base = os.path.join(self.dir, "%s-%s-%d-%s" % (name, k, i, c))
            if k == "s":
                script = [ln for o in sorted(batch.scripts[i]) if ("obj", o) not in bad for ln in batch.scripts[i][o]]
                if "std" not in build.CONFIGS[c] and "alloc" not in build.CONFIGS[c]:
                    script = [ln for o in sorted(batch.scripts[i]) if ("obj", o) not in bad and not vals.dynamic(w["objs"][o - 1])
                              for ln in batch.scripts[i][o]]
            else:
                script = [ln for o, s in enumerate(worlds[i].scripts) if ("enum", o + 1) not in bad for ln in s]
            write(base + ".script", "".join(ln + "\n" for ln in script))
            err = build.run_driver(wsp, members[i], base + ".script", base + ".ndjson", timeout)
            data = open(base + ".ndjson").read() if os.path.exists(base + ".ndjson") else ""
            lines = data[:data.rfind("\n") + 1].split("\n")[:-1]
            blocks, cur = {}, None
            for ln in lines:
                if k == "e":
                    cur = int(ln[len('{"e":'):].split(",", 1)[0])
                elif ln.startswith('{"op":"new"'):
                    cur = int(ln[len('{"op":"new","o":'):].split(",", 1)[0])
                blocks.setdefault(cur, []).append(ln)
            if err and c != "std":
                self.violation("the process died under %s: %s" % (c, err), {"operation": script[min(len(lines), len(script) - 1)]})
            return blocks
        todo = [(c, k, i) for k, n in (("s", len(ws)), ("e", len(enames))) for i in range(n) for c in live]
        with ThreadPoolExecutor(8) as ex:
            blocks = dict(zip(todo, ex.map(record, todo)))
        jobs = {"s": [], "e": []}
        for k, wl in (("s", ws), ("e", enames)):
            for i, w in enumerate(wl):
                merged, where = [], []
                for o in sorted({o for c in live for o in blocks[c, k, i]}):
                    for c in live:
                        b = blocks[c, k, i].get(o, [])
                        if k == "s" and b:
                            merged.append('{"op":"cfg"}')
                            where.append((c, o))
                        merged += b
                        where += [(c, o)] * len(b)
                base = os.path.join(self.dir, "%s-%s-%d" % (name, k, i))
                write(base + ".ndjson", "".join(ln + "\n" for ln in merged))
                write(base + ".world.json", json.dumps(decl.strip(w)))
                if merged:
                    jobs[k].append((i, base, merged, where))
        for k, module, wl in (("s", "TraceSession", ws), ("e", "TraceEnum", enames)):
            res = tlc.judge(module, [(b + ".world.json", b + ".ndjson") for _, b, _, _ in jobs[k]], "C21")
            for (i, base, merged, where), (dev, r) in zip(jobs[k], res):
                self.states += r["distinct"]
                self.transitions += r["generated"]
                self.traces += len(live)
                self.events += len(merged)
                self.sample({"configurations": live, "operations": merged[:2]})
                seen = set()
                for n, d in dev:
                    c, o = where[n - 1]
                    if (c, o, d["e"]["op"]) in seen:
                        continue
                    seen.add((c, o, d["e"]["op"]))
                    src = self.rust_of(wl[i], wl[i]["objs"][o - 1]) if k == "s" else decl.enum_rs(wl[i]["enums"][o - 1])
                    self.violation("%s differs under %s" % (d["e"]["op"], c), {
                        "features": build.CONFIGS[c], "declaration": src, "observed": d["e"], "value": d["cur"],
                        "under other configurations": d["exp"],
                        "history": [ln for ln, x in zip(merged[:n], where) if x == (c, o)]})
            self.log("judged %s: %d events, %d deviations, TLC max %.1fs" % (
                module, sum(len(m) for _, _, m, _ in jobs[k]), sum(len(d) for d, _ in res), max([r["wall"] for _, r in res] + [0])))
        self.count("declarations", sum(len(w["structs"]) for w in ws))
        self.count("enums", sum(len(w["enums"]) for w in enames))
        self.count("configurations", len(live))

    def documentation(self, name, worlds):
        """Judge the documentation of accepted declarations."""
        name = "%s-%s" % (self.prop.lower(), name)
        for w in worlds:
            w["objs"] = []
        ws, members, rejected = build.build_worlds(name, worlds, sub="doc", norun=True, render=docs.source)
        texts = docs.documented(ws, members)
        self.log("documented %s: %d structs, %d rejected" % (name, sum(len(w["structs"]) for w in worlds), sum(len(r) for r in rejected)))
        recs = []
        for i, w in enumerate(worlds):
            base = os.path.join(self.dir, "%s-%d" % (name, i))
            trace = docs.lines(w, build.dependents(w, rejected[i]), texts[i])
            write(base + ".ndjson", "".join(ln + "\n" for ln in trace))
            write(base + ".world.json", json.dumps(decl.strip(w)))
            recs.append((base, [], None))
        verd = self.line_traces("TraceDoc", recs, self.prop, lambda i, d: {
            "declaration": decl.struct_rs(worlds[i]["structs"][d["e"]["d"] - 1], worlds[i]), "documentation": texts[i].get(
                decl.path(worlds[i]["structs"][d["e"]["d"] - 1]))}, world=True)
        self.count("declarations", sum(len(w["structs"]) for w in worlds))
        self.count("rejected", sum(len(r) for r in rejected))
        self.count("declarations_not_judged", sum(1 for i in verd for s in verd[i]["s"] if s["v"] != "ok" or s["soft"]))

    def source_of(self, w, tag):
        kind, k = tag
        if kind == "obj":
            return self.rust_of(w, w["objs"][k - 1])
        return decl.struct_rs(w["structs"][k - 1], w) if kind == "struct" else decl.enum_rs(w["enums"][k - 1])

    def line_traces(self, module, recs, focus, detail, world=None):
        """Judge traces in which every line stands for itself and names its subject."""
        jobs = []
        if not callable(detail):
            fixed = detail
            detail = lambda i, d: fixed
        for i, (base, script, err) in enumerate(recs):
            data = open(base + ".ndjson").read() if os.path.exists(base + ".ndjson") else ""
            data = data[:data.rfind("\n") + 1]
            write(base + ".ndjson", data)
            if err:
                n = data.count("\n")
                self.violation("the process died during an operation: %s" % err,
                               {"operation": script[min(n, len(script) - 1)], "trace_tail": data.split("\n")[-4:]})
            if data:
                jobs.append((i, base, data.split("\n")[:-1]))
        res = tlc.judge(module, [((b + ".world.json") if world else "", b + ".ndjson") for _, b, _ in jobs], focus)
        verd = {}
        for (i, base, trace), (dev, r) in zip(jobs, res):
            verd[i] = r["verdicts"]
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.traces += 1
            self.events += len(trace)
            self.sample({"operations": trace[:2]})
            seen = {}
            for n, d in dev:
                key = (d["e"]["op"], json.dumps(d["e"].get("t", [i] + d["cur"][:1] if isinstance(d["cur"], list) else 0)))
                seen[key] = seen.get(key, 0) + 1
                if seen[key] == 1:
                    self.violation("%s of %s" % key, {"history": trace[max(0, n - 3):n], "observed": d["e"], "value": d["cur"],
                                                      "expected": d["exp"], **detail(i, d)})
        self.log("judged %d traces, %d events, %d deviations, TLC max %.1fs" % (
            len(jobs), sum(len(t) for _, _, t in jobs), sum(len(d) for d, _ in res), max([r["wall"] for _, r in res] + [0])))
        return verd

    def probe(self, name, batch, meanings):
        """Run one world's scripts and judge the trace under several meanings of its
        declarations; per meaning, the deviations as (object, observation)."""
        name = "%s-%s" % (self.prop.lower(), name)
        w, = batch.worlds()
        ws, members, rejected = build.build_worlds(name, [w])
        self.rejections([w], rejected, {}, "violation")
        bad = build.dependents(w, rejected[0])
        base = os.path.join(self.dir, name)
        script = [(o, ln) for o in sorted(batch.scripts[0]) if ("obj", o) not in bad for ln in batch.scripts[0][o]]
        if not script:
            return [[] for _ in meanings]
        write(base + ".script", "".join(ln + "\n" for _, ln in script))
        err = build.run_driver(ws, members[0], base + ".script", base + ".ndjson", 120)
        trace = open(base + ".ndjson").read().split("\n")[:-1]
        if err:
            self.driver_failure(w, script, len(trace), err)
        objs, o = [], 0
        for ln in trace:
            if ln.startswith('{"op":"new"'):
                o = json.loads(ln)["o"]
            objs.append(o)
        for k, m in enumerate(meanings):
            write("%s.%d.world.json" % (base, k), json.dumps(decl.strip(m)))
        res = tlc.judge("TraceSession", [("%s.%d.world.json" % (base, k), base + ".ndjson") for k in range(len(meanings))],
                        self.prop)
        self.events += len(trace)
        self.traces += 1
        for dev, r in res:
            self.states += r["distinct"]
            self.transitions += r["generated"]
        return [[(objs[n - 1], d) for n, d in dev] for dev, r in res]

    def known_violation(self, fid, case, detail):
        """A violation that is listed is a known finding; any other is a violation."""
        for k in self.known:
            if k["id"] == fid and case in k["cases"]:
                msg = "%s: %s" % (k["what"], case)
                if msg not in self.known_seen:
                    self.known_seen.append(msg)
                return
        self.violation("%s: %s" % (fid, case), detail)

    def generated(self, module, cfg=None, args=(), timeout=300):
        """Declarations (or histories) that TLC enumerates from the specification."""
        r = tlc.tlc(module, cfg=cfg, workers=6, timeout=timeout, args=args, heap="8g", gc="-XX:+UseParallelGC")
        if not (r["ok"] or (args and r["code"] == 0)):
            raise ToolError("model %s: unexpected outcome\n%s" % (module, r["out"][-3000:]))
        if not r["generated"]:
            m = re.findall(r"The number of states generated: ([\d,]+)", r["out"])
            r["generated"] = r["distinct"] = int(m[-1].replace(",", "")) if m else 0
        self.states += r["distinct"]
        self.transitions += r["generated"]
        seen, out = set(), []
        for x in sorted(tlc.printed(r["out"], "DECL ")):
            if x not in seen:
                seen.add(x)
                out.append(json.loads(x))
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "args": list(args), "distinct": r["distinct"],
                            "generated": r["generated"], "printed": len(out), "wall_s": round(r["wall"], 1)})
        self.log("generated by %s: %d, %.1fs" % (module, len(out), r["wall"]))
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return out

    def acceptance(self, name, worlds, faults):
        """The compiler must reject exactly the declarations the specification gives one of
        these faults, with the macros built in either profile."""
        name = "%s-%s" % (self.prop.lower(), name)
        profiles = ("dev", "release")
        with ThreadPoolExecutor(3) as ex:
            fut = ex.submit(self.elabs, worlds)
            both = [ex.submit(build.build_worlds, "%s-%s" % (name, p), worlds, sub="check", release=p == "release") for p in profiles]
            rejected = dict(zip(profiles, [x.result()[2] for x in both]))
            verd = fut.result()
        nacc = nrej = nskip = 0
        for i, (w, v) in enumerate(zip(worlds, verd)):
            for k, d in enumerate(w["structs"]):
                x = v["s"][k]
                src = decl.struct_rs(d, w)
                used = "".join(decl.enum_rs(w["enums"][f["ty"]["e"] - 1]) for f in d["fields"] if f["ty"]["k"] == "enum")
                uses = {("struct", f["ty"]["d"]) for f in d["fields"] if f["ty"]["k"] == "ref"}
                if x["soft"] or x["v"] != "ok" and x["v"] not in faults or any(uses & set(rejected[p][i]) for p in profiles):
                    nskip += 1
                    continue
                if x["v"] == "ok":
                    nacc += 1
                else:
                    nrej += 1
                    self.count("fault " + x["v"])
                for p in profiles:
                    msg = rejected[p][i].get(("struct", k + 1))
                    if msg is None and build.DIED in rejected[p][i].values():
                        continue            # looking was broken off
                    if x["v"] == "ok" and msg is not None:
                        self.violation("a well-formed declaration is rejected: %s" % msg.split("\n")[0],
                                       {"declaration": used + src, "compiler": msg, "profile": p})
                    elif x["v"] != "ok" and msg in (None, build.DIED):
                        self.violation("a declaration with this fault is not rejected: %s%s" % (x["v"], ", " + msg if msg else ""),
                                       {"declaration": used + src, "profile": p})
        self.count("declarations", nacc + nrej)
        self.count("accepted_as_specified", nacc)
        self.count("rejected_as_specified", nrej)
        self.count("declarations_not_judged", nskip)
        self.log("%s: %d well-formed, %d faulty, %d not judged" % (name, nacc, nrej, nskip))

    def shapes(self, name, decls):
        """The derives must refuse exactly the declarations the specification calls unsupported."""
        name = "%s-%s" % (self.prop.lower(), name)
        worlds = [{"structs": decls[i::8], "enums": [], "objs": []} for i in range(8)]
        plain, derived = [build.build_worlds("%s-%s" % (name, n), worlds, sub="check", render=shapes.render(derive), norun=True)[2]
                          for n, derive in (("plain", False), ("derived", True))]
        for i, w in enumerate(worlds):
            for k, d in enumerate(w["structs"]):
                tag = ("struct", k + 1)
                if tag in plain[i]:
                    raise ToolError("not a declaration at all: %s\n%s" % (shapes.shape_rs(d, k + 1, False), plain[i][tag]))
                msg = derived[i].get(tag)
                self.count("supported" if d["ok"] else "unsupported")
                if not d["ok"]:
                    for o in shapes.oddities(d):
                        self.count("refused " + o if msg else "not refused " + o)
                src = shapes.shape_rs(d, k + 1)
                if d["ok"] and msg is not None:
                    self.violation("a supported declaration is rejected: %s" % msg.split("\n")[0], {"declaration": src, "compiler": msg})
                elif not d["ok"] and msg is None:
                    self.violation("an unsupported declaration is not refused: %s" % ", ".join(shapes.oddities(d)), {"declaration": src})
        self.count("declarations", len(decls))
        self.log("%s: %d declarations" % (name, len(decls)))

    def histories(self, batch, n, length=20):
        """Histories that TLC's simulator draws from the specification, of objects that
        have no script yet: n for every world."""
        todo = []
        for i, w in enumerate(batch.worlds()):
            free = [o for o in range(1, len(w["objs"]) + 1) if not batch.scripts[i].get(o)]
            if free:
                path = os.path.join(self.dir, "draw%d.world.json" % i)
                write(path, json.dumps(dict(decl.strip(w), len=length, use=free)))
                todo.append((i, w, path))
        r = random.Random(batch.rng.getrandbits(32))
        seeds = [r.randrange(1 << 30) for _ in todo]

        def draw(job):
            (i, w, path), seed = job
            return tlc.tlc("GenSession", envs={"PS_WORLD": path}, timeout=600,
                           args=["-simulate", "num=%d" % n, "-depth", str(length + 3), "-seed", str(seed)])
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(draw, zip(todo, seeds)))
        total = 0
        for (i, w, path), x in zip(todo, res):
            drawn = [json.loads(t) for t in tlc.printed(x["out"], "DECL ")]
            if x["code"] != 0 or not drawn:
                raise ToolError("GenSession: unexpected outcome\n%s" % x["out"][-3000:])
            m = re.findall(r"The number of states generated: ([\d,]+)", x["out"])
            self.states += int(m[-1].replace(",", "")) if m else 0
            self.transitions += int(m[-1].replace(",", "")) if m else 0
            for h in drawn:
                t = w["objs"][h["o"] - 1]
                arg = lambda v: "%s|%s" % (" ".join(map(str, vals.tokens(t, v, w))), json.dumps(v))
                for e in h["h"]:
                    op = e["op"]
                    line = ("N %d %s" % (h["o"], arg(e["v"])) if op == "N" else "E " + arg(e["v"]) if op == "E" else
                            " ".join([op] + [str(b) for b in e.get("b", [])]))
                    batch.scripts[i][h["o"]].append(line)
                total += len(h["h"])
        self.models.append({"module": "GenSession", "histories": n * len(todo), "operations": total,
                            "wall_s": round(max(x["wall"] for x in res), 1)})
        self.count("histories_drawn_from_the_specification", n * len(todo))
        self.log("drew %d histories, %d operations, TLC max %.1fs" % (n * len(todo), total, max(x["wall"] for x in res)))

    def elabs(self, worlds):
        jobs = []
        for i, w in enumerate(worlds):
            base = os.path.join(self.dir, "elab%d" % i)
            write(base + ".world.json", json.dumps(decl.strip(w)))
            write(base + ".ndjson", '{"op":"none"}\n')
            jobs.append((base + ".world.json", base + ".ndjson"))
        res = tlc.judge("TraceSession", jobs, "ALL")
        for dev, r in res:
            self.states += r["distinct"]
            self.transitions += r["generated"]
        return [r["verdicts"] for dev, r in res]

    def rejections(self, worlds, rejected, verd, reject):
        """Declarations the compiler refused although the specification has them well-formed."""
        for i, rej in enumerate(rejected):
            for tag, msg in sorted(rej.items()):
                kind, k = tag
                w = worlds[i]
                if kind == "obj":
                    # a type that has to support the operations does not
                    if reject == "violation":
                        self.violation("the operations are not available: %s" % msg.split("\n")[0],
                                       {"declaration": self.rust_of(w, w["objs"][k - 1]), "compiler": msg})
                    continue
                v = verd.get(i)
                if v is None:
                    v = self.elab(w)
                ok = (v["s"][k - 1]["v"] == "ok" and not v["s"][k - 1]["soft"]) if kind == "struct" else (
                    v["e"][k - 1]["fits"] and v["e"][k - 1]["nodup"] and not v["e"][k - 1]["soft"])
                self.count("rejected", 1)
                if not ok:
                    self.log("not judged and rejected:", v["s"][k - 1] if kind == "struct" else v["e"][k - 1], msg[:100])
                if ok and reject == "violation":
                    src = decl.struct_rs(w["structs"][k - 1], w) if kind == "struct" else decl.enum_rs(w["enums"][k - 1])
                    self.violation("a well-formed declaration is rejected: %s" % msg.split("\n")[0],
                                   {"declaration": src, "compiler": msg})

    def elab(self, w):
        return self.elabs([w])[0]

    def driver_failure(self, w, script, n, err):
        """The driver died in a library call: that is an observation."""
        o, ln = script[min(n, len(script) - 1)]
        self.violation("the process died during an operation: %s" % err,
                       {"declaration": self.rust_of(w, w["objs"][o - 1]), "operation": ln})

    def rust_of(self, w, t):
        out, seen = [], set()

        def go(t):
            k = t["k"]
            if k == "enum" and ("e", t["e"]) not in seen:
                seen.add(("e", t["e"]))
                out.append(decl.placed(w["enums"][t["e"] - 1], decl.enum_rs(w["enums"][t["e"] - 1])))
            elif k == "ref" and ("d", t["d"]) not in seen:
                seen.add(("d", t["d"]))
                for f in w["structs"][t["d"] - 1]["fields"]:
                    go(f["ty"])
                out.append(decl.placed(w["structs"][t["d"] - 1], decl.struct_rs(w["structs"][t["d"] - 1], w)))
            elif k == "tup":
                for x in t["ts"]:
                    go(x)
            elif k == "vec":
                go(t["t"])
        go(t)
        return "".join(out) + "// object: " + decl.ty_rs(t, w)

    def deviations(self, w, script, base, dev):
        trace = open(base + ".ndjson").read().split("\n")
        # trace lines and script lines differ: operations a type lacks leave no line
        objs, o = {}, 0
        for n, ln in enumerate(trace, 1):
            if ln.startswith('{"op":"new"'):
                o = json.loads(ln)["o"]
            objs[n] = o
        seen = {}
        for n, d in dev:
            o = objs[n]
            key = (o, d["e"]["op"])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1:
                continue
            start = max(k for k in range(1, n + 1) if trace[k - 1].startswith('{"op":"new"'))
            self.violation("%s of %s" % (d["e"]["op"], decl.ty_rs(w["objs"][o - 1], w)),
                           {"declaration": self.rust_of(w, w["objs"][o - 1]), "history": trace[start - 1:n],
                            "observed": d["e"], "value": d["cur"], "expected": d["exp"],
                            "world": decl.strip(w), "object": o,
                            "script": [ln for (oo, ln) in script if oo == o]})

    # ------------------------------------------------------------ the end
    def finish(self, assumptions=(), extra=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_judged": self.events, "models": self.models, "counts": self.counts, "samples": self.samples,
               "notes": self.notes}
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            for what, path in self.violations[:10]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + what)
            if len(self.violations) > 10:
                print("  ... and %d more" % (len(self.violations) - 10))
            return 1
        self.log("held: %d declarations, %d events judged, %d states" % (self.counts.get("declarations", 0), self.events, self.states))
        # traces are large; a violation's replay file has all that is needed of them
        shutil.rmtree(self.dir, ignore_errors=True)
        return 0
