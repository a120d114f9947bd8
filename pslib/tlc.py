"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from .build import VERIF, BUILD, ToolError, env

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg=None, envs=None, workers=1, args=(), heap="3g", timeout=800, gc="-XX:+UseSerialGC"):
    """Run TLC; returns a dict with the exit code, output and state counts."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=_tmp())
    cmd = ["java", gc, "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + meta, "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", (cfg or module + ".cfg"), *args, module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=env(envs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=timeout)
        out, code = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, code = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    stats = [ln for ln in out.splitlines() if " distinct states found" in ln and len(ln) < 300]   # (not over the long lines of deviations)
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", "\n".join(stats))
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return {"code": code, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t,
            "ok": code == 0 and "No error has been found" in out}


def _tmp():
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def unprint(line):
    """A string printed by TLC's PrintT, unquoted."""
    return json.loads(line) if line.startswith('"') else line


def printed(out, prefix):
    """PrintT'ed strings that start with prefix, without it."""
    res = []
    for ln in out.splitlines():
        if ln.startswith('"' + prefix):
            res.append(unprint(ln)[len(prefix):])
    return res


def judge(module, jobs, focus="ALL", parallel=8, timeout=800, heap="3g"):
    """Judge traces: jobs = [(world file, trace file)].  Returns per job the list of
    deviations, the verdicts on the declarations, and TLC's statistics; raises
    ToolError when TLC did not finish."""
    def one(j):
        r = tlc(module, envs={"PS_WORLD": j[0], "PS_TRACE": j[1], "PS_FOCUS": focus}, timeout=timeout, heap=heap)
        dev = []
        for s in printed(r["out"], "DEVIATION "):
            n, js = s.split(" ", 1)
            dev.append((int(n), json.loads(js)))
        if not r["ok"]:
            # an observation of a shape that no allowed one has cannot be evaluated
            st = re.findall(r"^State (\d+):", r["out"], re.M)
            if r["code"] in (75, 76, 77, 12, 13, 150, 151, 255) and st and not any(
                    x in r["out"] for x in ("OutOfMemory", "StackOverflow", "eserialize")) and (
                    "evaluat" in r["out"] or "Attempted" in r["out"]):
                n = int(st[-1])
                with open(j[1]) as f:
                    e = json.loads(f.read().split("\n")[n - 1])
                dev.append((n, {"e": e, "cur": [], "exp": "not interpretable: " + r["out"][r["out"].find("Error:"):][:1500]}))
                r["verdicts"] = None
                return dev, r
            raise ToolError("TLC failed on %s (exit %s):\n%s" % (j[1], r["code"], r["out"][-3000:]))
        ver = [json.loads(s) for s in printed(r["out"], "VERDICTS ")]
        r["verdicts"] = ver[-1] if ver else None
        return dev, r
    with ThreadPoolExecutor(parallel) as ex:
        return list(ex.map(one, jobs))
