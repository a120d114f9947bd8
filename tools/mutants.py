#!/usr/bin/env python3
"""Systematic mutation (development tool, run from scratch copies): mutates the library's and the macros'
source one place at a time in a copy of the repository, drops what does not compile or fails the
existing tests, and runs a mixture of all the checks on the rest.
    python3 tools/mutants.py WORK N SEED      (WORK/repo, WORK/verif are made)"""
import json, os, random, re, shutil, subprocess, sys, time

WORK, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, VERIF = WORK + "/repo", WORK + "/verif"
FILES = ["packed_struct/src/" + f for f in ("debug_fmt.rs", "lib.rs", "packing.rs", "primitive_enum.rs", "types_array.rs", "types_basic.rs",
         "types_bits.rs", "types_generic.rs", "types_num.rs", "types_reserved.rs", "types_tuples.rs", "types_vec.rs")] + \
        ["packed_struct_codegen/src/" + f for f in ("common.rs", "lib.rs", "pack.rs", "pack_codegen.rs", "pack_codegen_docs.rs", "pack_parse.rs",
         "pack_parse_attributes.rs", "primitive_enum.rs", "utils.rs", "utils_syn.rs")]
OPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
       (r" \| ", [" & ", " ^ "]), (r" & ", [" | "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
       (r" == ", [" != ", " >= ", " <= "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"(?<![\w.\"])(\d+)(?![\w.\"])", ["+1", "-1"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=[\w(])", ["..="]),
       (r"\bMsb\b", ["Lsb"]), (r"\bLsb\b", ["Msb"]), (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"\+= ", ["-= "]), (r"\|= ", ["&= ", "= "]),
       (r"&= ", ["|= "]), (r"\.ceil\(\)", [".floor()"]), (r"\.floor\(\)", [".ceil()"]), (r"\.start\b", [".end"]), (r"\.end\b", [".start"]),
       (r"\.rev\(\)", [""]), (r"\.skip\((\w+)\)", [""]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\bu64\b", ["u32"]), (r"\bi64\b", ["i32"]),
       (r"\bu32\b", ["u16"]), (r"\bu16\b", ["u8"]), (r"\busize\b", ["u8", "u16"]), (r"as isize", ["as i8"]), (r"wrapping_\w+", ["wrapping_add"]),
       (r"to_be_bytes", ["to_le_bytes"]), (r"to_le_bytes", ["to_be_bytes"]), (r"from_be_bytes", ["from_le_bytes"]), (r"from_le_bytes", ["from_be_bytes"]),
       (r"\.trim\(\)", [""]), (r"\.to_lowercase\(\)", [""]), (r"^\s+[\w.]+[^={}]*;$", [""]), (r"\bcontinue;", [""]), (r"\?;$", [";"]), (r"\bbreak;", [""])]


def sites():
    out = []
    for f in FILES:
        path = REPO + "/" + f
        if not os.path.exists(path):
            continue
        skip = False
        for n, ln in enumerate(open(path).read().split("\n")):
            if "#[cfg(test)]" in ln:
                break
            # a test is over at the next brace in the first column
            if ln.strip() == "#[test]":
                skip = True
            if skip:
                skip = ln != "}"
                continue
            code = ln.split("//")[0]
            if not code.strip() or code.strip().startswith(("#", "use ", "extern ", "pub mod", "mod ")):
                continue
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        if rep in ("+1", "-1") and m.group(0).isdigit():
                            v = int(m.group(0)) + int(rep)
                            if v < 0:
                                continue
                            new = str(v)
                        else:
                            new = rep
                        out.append((f, n, m.start(), m.end(), new))
    return out


def main():
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(REPO):
        subprocess.check_call(["cp", "-a", "/repo", REPO])
        shutil.copytree(HERE, VERIF, ignore=shutil.ignore_patterns("build", "out", ".git", "seeded", "evidence"))
        for p, q in (("/pslib/build.py", '"/repo'), ("/harness/rt/Cargo.toml", '"/repo')):
            s = open(VERIF + p).read().replace(q, '"' + REPO)
            open(VERIF + p, "w").write(s)
    subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    rng = random.Random(SEED)
    todo = sites()
    rng.shuffle(todo)
    print(len(todo), "sites", flush=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=WORK + "/target")
    log = open(WORK + "/log", "a")
    for f, n, a, b, new in todo[:N]:
        path = REPO + "/" + f
        src = open(path).read()
        lines = src.split("\n")
        old = lines[n]
        lines[n] = old[:a] + new + old[b:]
        what = "%s:%d: %s  ==>  %s" % (f, n + 1, old.strip(), lines[n].strip())
        try:
            open(path, "w").write("\n".join(lines))
            t = time.time()
            try:
                r = subprocess.run(["cargo", "test", "--workspace", "--offline", "-q"], cwd=REPO, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=120)
                dead = r.returncode != 0
            except subprocess.TimeoutExpired:
                dead = True
            if dead:
                res = "tests"
            else:
                try:
                    r = subprocess.run([sys.executable, "tools/mix.py"], cwd=VERIF, env=dict(os.environ, VERIF_SEED="1"), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=500, universal_newlines=True)
                    v = [x for x in r.stdout.split("\n") if x.startswith("FOUND")]
                    res = "caught " + v[0][:160] if v else "SURVIVES" if r.returncode == 0 else "FAILED " + r.stdout[-300:].replace("\n", " / ")
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT"
            log.write("%5.0f %-60s %s\n" % (time.time() - t, res[:200], what))
            log.flush()
        finally:
            open(path, "w").write(src)


main()
