"""Building and running generated driver crates against /repo."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import decl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("PS_BUILD") or os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")


class ToolError(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    if "PS_RUSTFLAGS" in e:             # development: coverage measurements
        e["RUSTFLAGS"] = e["PS_RUSTFLAGS"]
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if extra:
        e.update(extra)
    return e


def repo_hash():
    h = hashlib.sha256()
    for base in ("packed_struct", "packed_struct_codegen"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def write(path, text):
    """Write unless already so (keeps cargo's freshness)."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def run(cmd, **kw):
    t = kw.pop("timeout", 800)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=t, **kw)


# The library's feature configurations.  "alloc" switches on a language feature that
# only an unstable compiler accepts.
CONFIGS = {
    "std": ["std"],
    "none": [],
    "alloc": ["alloc"],
    "b64": ["byte_types_64"],
    "std_b64_b256": ["std", "byte_types_64", "byte_types_256"],
    "std_serde": ["std", "use_serde"],
    "none_serde_b256": ["use_serde", "byte_types_256"],
    "alloc_b64_b256_serde": ["alloc", "byte_types_64", "byte_types_256", "use_serde"],
    "std_alloc": ["std", "alloc"],
}


def limits():
    """What a compiler may use to look at declarations."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (150, 150))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


DIED = "the compiler does not come to an end on it"


class Workspace:
    """A cargo workspace with one member per world; several may share a target directory."""

    def __init__(self, name, release=False, toolchain=None, target="target", config=None, norun=False):
        self.name = name
        self.dir = os.path.join(BUILD, "ws", name)
        self.target = os.path.join(BUILD, target)
        self.members = []
        self.release = release
        self.toolchain = toolchain
        self.config = config
        self.norun = norun
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(self.target, exist_ok=True)

    def add(self, name, src, deps="", features=None):
        n = "w_%s_%s" % (self.name.replace("-", "_"), name)
        d = os.path.join(self.dir, n)
        write(os.path.join(d, "src", "lib.rs" if self.norun else "main.rs"), src)
        rt, ps = "", ', features = [%s]' % ", ".join('"%s"' % f for f in features) if features else ""
        if self.config is not None:
            fs = CONFIGS[self.config]
            rt = ', default-features = false, features = [%s]' % ", ".join('"%s"' % f for f in fs if f in ("std", "alloc"))
            ps = ', default-features = false, features = [%s]' % ", ".join('"%s"' % f for f in fs)
        write(os.path.join(d, "Cargo.toml"),
              '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
              '%spacked_struct = { path = "%s/packed_struct"%s }\n%s' % (
                  n, "" if self.norun else 'rt = { path = "%s/harness/rt"%s }\n' % (VERIF, rt), REPO, ps, deps))
        self.members.append(n)
        return n

    def finish(self, profile=""):
        write(os.path.join(self.dir, "Cargo.toml"),
              '[workspace]\nresolver = "2"\nmembers = [%s]\n\n[profile.dev]\ndebug = false\nopt-level = 0\n'
              'overflow-checks = true\nincremental = false\n\n[profile.release]\ndebug = false\nopt-level = 2\n%s'
              % (", ".join('"%s"' % m for m in self.members), profile))
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        # cargo decides freshness by file times; decide it by content instead
        stamp = os.path.join(self.target, "repo.sha256" + ("-release" if self.release else ""))
        h = repo_hash()
        try:
            old = open(stamp).read()
        except OSError:
            old = None
        if old != h:
            self.cargo(["clean"] + (["--release"] if self.release else []) +
                       ["-p", "packed_struct", "-p", "packed_struct_codegen", "-p", "rt"], check=False)
            with open(stamp, "w") as f:
                f.write(h)

    def cargo(self, args, check=True, timeout=800, extra=None, limited=False):
        x = {"CARGO_TARGET_DIR": self.target}
        if self.toolchain:
            x["RUSTUP_TOOLCHAIN"] = self.toolchain
        if args[0] == "doc":
            # the documentation as data
            x.update(RUSTC_BOOTSTRAP="1", RUSTDOCFLAGS="-Z unstable-options --output-format json --document-private-items")
        if self.config is not None and "alloc" in CONFIGS[self.config]:
            x["RUSTC_BOOTSTRAP"] = "1"
        if extra:
            x.update(extra)
        r = run(["cargo"] + args + ["--offline"], cwd=self.dir, env=env(x), timeout=timeout, preexec_fn=limits if limited else None)
        if check and r.returncode != 0:
            raise ToolError("cargo %s failed:\n%s" % (" ".join(args), r.stderr[-4000:]))
        return r

    def messages(self, sub, args=()):
        """Compiler errors per member: {member: [(line, text)]}."""
        if sub == "doc":
            args = ["--no-deps"]
        r = self.cargo([sub, "--message-format=json", "--keep-going"] + (["--release"] if self.release else []) + list(args),
                       check=False, limited=sub == "check")
        # compilers that were ended by a signal (out of memory, out of time)
        self.dead = set(re.findall(r"could not compile `(\w+)`[^\n]*\n\nCaused by:\n  process didn't exit successfully: [^\n]*\(signal: ", r.stderr))
        errs, seen = {}, False
        for ln in r.stdout.splitlines():
            try:
                m = json.loads(ln)
            except ValueError:
                continue
            if m.get("reason") == "build-finished":
                seen = True
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            member = m["target"]["name"]
            msg = m["message"]
            sp = [s for s in msg["spans"] if s["is_primary"]] or msg["spans"]
            line = None
            for s in sp:
                while s.get("expansion"):
                    s = s["expansion"]["span"]
                if s["file_name"].endswith(("main.rs", "src/lib.rs")) and "/repo/" not in s["file_name"]:
                    line = s["line_start"]
            if member not in self.members:
                raise LibraryBroken("%s does not build: %s" % (member, msg["message"]))
            if line is None and msg["message"].startswith("aborting due to"):
                continue
            errs.setdefault(member, []).append((line, msg["message"]))
        if not seen:
            raise ToolError("cargo %s gave no verdict:\n%s" % (sub, r.stderr[-4000:]))
        if self.dead and not self.dead <= set(self.members):
            raise LibraryBroken("%s does not build: the compiler died" % sorted(self.dead)[0])
        if r.returncode != 0 and not errs and not self.dead:
            raise ToolError("cargo %s failed:\n%s" % (sub, r.stderr[-4000:]))
        return errs

    def binary(self, member):
        return os.path.join(self.target, "release" if self.release else "debug", member)


class LibraryBroken(ToolError):
    pass


def tag_at(spans, line):
    for a, b, tag in spans:
        if line is not None and a <= line <= b:
            return tag
    return None


def dependents(w, bad):
    """Close a set of rejected declarations under 'is used by'."""
    bad = set(bad)

    def uses(t):
        k = t["k"]
        if k == "enum":
            return ("enum", t["e"]) in bad
        if k == "ref":
            return ("struct", t["d"]) in bad
        if k == "tup":
            return any(uses(x) for x in t["ts"])
        if k == "vec":
            return uses(t["t"])
        return False
    for i, d in enumerate(w["structs"]):
        if any(uses(f["ty"]) for f in d["fields"]):
            bad.add(("struct", i + 1))
    for i, t in enumerate(w["objs"]):
        if uses(t):
            bad.add(("obj", i + 1))
    return bad


def nostd_src(w, bad, head=""):
    """The declarations alone, in a crate without the standard library."""
    lines, spans = ["#![no_std]", decl.HEADER.rstrip(), head, "use packed_struct::prelude::*;"], []
    for kind, xs in (("enum", w["enums"]), ("struct", w["structs"])):
        for i, x in enumerate(xs):
            if (kind, i + 1) in bad or (kind == "struct" and has_cust(x, w)):
                continue
            a = len(lines) + 1
            lines.extend(decl.placed(x, decl.enum_rs(x) if kind == "enum" else decl.struct_rs(x, w)).rstrip("\n").split("\n"))
            spans.append((a, len(lines), (kind, i + 1)))
    return "\n".join(lines) + "\n", spans


def has_cust(d, w):
    def go(t):
        return t["k"] == "cust" or (t["k"] == "ref" and has_cust(w["structs"][t["d"] - 1], w))
    return any(go(f["ty"]) for f in d["fields"])


def restrict_src(w, bad, head=""):
    """main.rs without the rejected declarations (indices unchanged)."""
    lines, spans = [decl.HEADER.rstrip(), head, "use packed_struct::prelude::*; use rt::Cust;"], []

    def add(text, tag):
        a = len(lines) + 1
        lines.extend(text.rstrip("\n").split("\n"))
        spans.append((a, len(lines), tag))
    for i, e in enumerate(w["enums"]):
        if ("enum", i + 1) not in bad:
            add(decl.placed(e, decl.enum_rs(e) + decl.enum_val_rs(e)), ("enum", i + 1))
    for i, d in enumerate(w["structs"]):
        if ("struct", i + 1) not in bad:
            add(decl.placed(d, decl.struct_rs(d, w) + decl.struct_val_rs(d)), ("struct", i + 1))
    live = [i + 1 for i in range(len(w["objs"])) if ("obj", i + 1) not in bad]
    for i in live:
        add("fn mk_%d() -> Box<dyn rt::Obj> { Box::new(%s) }" % (i, decl.obj_rs(w["objs"][i - 1], w)), ("obj", i))
    lines.append("fn make(i: usize) -> Box<dyn rt::Obj> { match i {")
    for i in live:
        lines.append("  %d => mk_%d()," % (i, i))
    lines.append("  _ => panic!() } }")
    lines.append("fn main() { rt::main_with(&make) }")
    return "\n".join(lines) + "\n", spans


def build_worlds(name, worlds, release=False, deps="", sub="build", render=None, config=None, norun=False, target="target",
                 without=None):
    """Build every world; declarations the compiler rejects are set aside.
    Returns (workspace, members, rejected) with rejected[i] = {tag: message}."""
    render = render or restrict_src
    ws = Workspace(name, release=release, config=config, norun=norun, target=target)
    rejected = [dict() for _ in worlds]
    removed = [dependents(w, without(w)) if without else set() for w in worlds]
    spans = [None] * len(worlds)
    members = []
    for i, w in enumerate(worlds):
        src, spans[i] = render(w, removed[i])
        members.append(ws.add(str(i), src, deps))
    ws.finish()
    for rnd in range(12):
        errs = ws.messages(sub)
        if not errs and not ws.dead:
            return ws, members, rejected
        if not errs:
            for i, k in culprits(ws, worlds, members, removed, render, sub, norun).items():
                rejected[i]["struct", k] = DIED
            return ws, members, rejected
        for i, m in enumerate(members):
            if m not in errs:
                continue
            found = {}
            for line, text in errs[m]:
                tag = tag_at(spans[i], line)
                if tag is not None:
                    found.setdefault(tag, text)
            # an error in a driver function is blamed on the type it is for
            if not found:
                raise ToolError("cannot attribute compiler errors in %s: %r" % (m, errs[m][:3]))
            rejected[i].update(found)
            removed[i] = dependents(worlds[i], removed[i] | set(found))
            src, spans[i] = render(worlds[i], removed[i])
            write(os.path.join(ws.dir, m, "src", "lib.rs" if norun else "main.rs"), src)
    raise ToolError("declarations keep being rejected")


def culprits(ws, worlds, members, removed, render, sub, norun):
    """Of every world on which the compiler dies, the first structure on which it does."""
    span = {i: [1, len(worlds[i]["structs"])] for i, m in enumerate(members) if m in ws.dead}
    while any(a < b for a, b in span.values()):
        for i, m in enumerate(members):
            n = sum(span[i]) // 2 if i in span else 0
            bad = dependents(worlds[i], removed[i] | {("struct", k + 1) for k in range(n, len(worlds[i]["structs"]))})
            write(os.path.join(ws.dir, m, "src", "lib.rs" if norun else "main.rs"), render(worlds[i], bad)[0])
        ws.messages(sub)
        for i, (a, b) in span.items():
            if a < b:
                n = (a + b) // 2
                span[i] = [a, n] if members[i] in ws.dead else [n + 1, b]
    return {i: a for i, (a, _) in span.items()}


def deep():
    """As much stack as there may be, for structures of megabytes."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 1 << 30
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(hard, want), hard))


def run_driver(ws, member, script, trace, timeout=300):
    try:
        r = run([ws.binary(member), script, trace], timeout=timeout, env=env(), preexec_fn=deep)
    except subprocess.TimeoutExpired:
        return "timeout"
    if r.returncode != 0:
        return "exit %d: %s" % (r.returncode, r.stderr[-500:])
    return None
