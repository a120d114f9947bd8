#!/usr/bin/env python3
"""A mixture of all checks, stopping at the first violation (development tool, see mutants.py)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from pslib import build, engine, enums, families as F, ints, props
from pslib.decl import *


def step(prop, f):
    c = engine.Check(prop, "quick", 1)
    c.model = lambda *a, **k: None
    c.small_sessions = lambda *a, **k: None
    try:
        f(c, random.Random(1))
    except build.ToolError as e:
        print("FOUND %s tool error %s" % (prop, str(e)[:300].replace("\n", " ")))
        sys.exit(0)
    if c.violations:
        print("FOUND %s %s" % (prop, c.violations[0][0]))
        sys.exit(0)


def everything(s):
    F.both_script(s, 1, 3, 2)
    s.op("Z").op("V").op("T").op("D", 1, 0, 1, 0, 1).op("B")
    v = s.rand()
    s.new(v).op("E", s.arg(s.rand())).op("E", s.arg(v))


def structs(c, rng):
    b = F.Batch(rng)
    F.packed_rows(b, rng, F.grid_widths(rng, ("sint", "int", "enum", "res"), range(1, 65), rng.sample(range(8), 2), True), script=everything)
    F.random_structs(b, rng, 40, everything)
    F.notations(b, rng, F.sizes_script)
    F.arrays(b, rng, 30, F.both_script)
    F.nests(b, rng, 16, F.both_script)
    F.long_fields(b, rng, F.both_script)
    F.slice_types(b, rng, 40, F.total_script)
    F.tuple_shapes(b, rng)
    F.vec_shapes(b, rng, 20)
    F.shows(b, rng, 24)
    F.reserved_arrays(b, rng, 6)
    c.sessions("mix", b, focus="ALL")


step("C02", structs)
for p in sys.argv[1:] or ["C10", "C11", "C08", "C09", "C20", "C24", "C23", "C12", "C13", "C04", "C15", "C18", "C19", "C06", "C21"]:
    step(p, getattr(props, p))
print("quiet")
