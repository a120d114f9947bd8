"""Declarations as data, and their rendering as Rust source.

A world is {"structs": [...], "enums": [...], "objs": [...]}: the constants
Structs, Enums and Objs of the TLA+ specification (see spec/PSTypes.tla,
spec/PSLayout.tla, spec/PSCompose.tla for the meaning of every term).  Keys
starting with "_" only say how a declaration is written down in Rust and are
not part of the specification's view of it.
"""

INTN = {(0, 1): "u8", (1, 1): "i8", (0, 2): "u16", (1, 2): "i16",
        (0, 4): "u32", (1, 4): "i32", (0, 8): "u64", (1, 8): "i64"}
TYN = {v: k for k, v in INTN.items()}
WIDE = 9

BOOL = {"k": "bool"}


def INT(s, n):
    return {"k": "int", "s": s, "n": n}


def SINT(s, w, n=None):
    return {"k": "sint", "s": s, "n": n or native(w), "w": w}


def RES(v, w):
    return {"k": "res", "v": v, "w": w}


def CUST(n):
    return {"k": "cust", "n": n}


UNIT = {"k": "unit"}


def BYTES(n):
    return {"k": "bytes", "n": n}


def WRAP(k, s, w):
    return {"k": k, "s": s, "n": native(w), "w": w}


def TUP(*ts):
    return {"k": "tup", "ts": list(ts)}


def VEC(t):
    return {"k": "vec", "t": t}


def ENUM(e, c=0):
    return {"k": "enum", "e": e, "c": c}


def REF(d):
    return {"k": "ref", "d": d}


def native(w):
    return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8


def wide(v):
    """An integer as a wide big-endian two's-complement byte list."""
    return list((v & ((1 << (8 * WIDE)) - 1)).to_bytes(WIDE, "big"))


def NOPOS():
    return {"f": "none", "u": 1, "a": 0, "b": 0}


def field(name, ty, arr=0, pos=None, szn=0, szu=1, esn=0, esu=1, end="none", **kw):
    f = {"name": name, "ty": ty, "arr": arr, "pos": pos or NOPOS(), "szn": szn, "szu": szu,
         "esn": esn, "esu": esu, "end": end}
    f.update(kw)
    return f


def struct(name, fields, sz=0, num="none", end="none", **kw):
    d = {"name": name, "sz": sz, "num": num, "end": end, "fields": fields}
    d.update(kw)
    return d


def variant(name, d=None, sfx="", lit=None):
    """d: the discriminant given, or None; lit: how it is written."""
    return {"name": name, "d": [] if d is None else wide(d), "sfx": sfx, "cs": [ord(c) for c in name],
            "_v": d, "_lit": lit}


def enum(name, variants, ty="", **kw):
    e = {"name": name, "ty": ty, "vars": variants}
    e.update(kw)
    return e


def discs(e):
    out, prev = [], None
    for v in e["vars"]:
        d = v["_v"] if v["_v"] is not None else (0 if prev is None else prev + 1)
        out.append(d)
        prev = d
    return out


def strip(x):
    """The specification's view."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


# ---------------------------------------------------------------- rendering

BITS_FORMS = ["packed_bits::Bits::<%d>", "packed_bits::Bits<%d>", "packed_struct::types::bits::Bits<%d>", "packed_bits::Bits::< %d >",
              "::packed_struct::types::bits::Bits::<%d>"]


def bits_rs(t):
    return BITS_FORMS[t.get("_bits", 0)] % t["w"]


def ty_rs(t, w):
    k = t["k"]
    if k == "bool":
        return "bool"
    if k == "int":
        return INTN[t["s"], t["n"]]
    if k == "sint":
        return "Integer<%s, %s>" % (INTN[t["s"], t["n"]], bits_rs(t))
    if k == "res":
        names = ["ReservedZero", "ReservedOne"] if not t.get("_long") else ["ReservedZeroes", "ReservedOnes"]
        return "%s<%s>" % (names[t["v"]], bits_rs(t))
    if k == "enum":
        n = called(w["enums"][t["e"] - 1])
        return "EnumCatchAll<%s>" % n if t["c"] else n
    if k == "ref":
        return called(w["structs"][t["d"] - 1])
    if k == "cust":
        return "Cust<%d>" % t["n"]
    if k == "bytes":
        return "[u8; %d]" % t["n"]
    if k == "unit":
        return "()"
    if k in ("msb", "lsb"):
        i = "Integer<%s, packed_bits::Bits::<%d>>" % (INTN[t["s"], t["n"]], t["w"])
        return "%sInteger<%s, packed_bits::Bits::<%d>, %s>" % (k.capitalize(), INTN[t["s"], t["n"]], t["w"], i)
    if k == "tup":
        return "(%s,)" % ", ".join(ty_rs(x, w) for x in t["ts"])
    if k == "vec":
        return "Vec<%s>" % ty_rs(t["t"], w)
    raise ValueError(k)


def called(x):
    """What the rest of the crate calls a structure or an enum."""
    return x.get("_as") or x["name"]


def placed(x, text):
    """A declaration, in a module of its own when its name is not the only one of its kind in the crate."""
    if not x.get("_as"):
        return text
    return "pub mod in_%s { use super::*;\n%s}\npub(crate) use in_%s::%s as %s;\n" % (x["_as"].lower(), text, x["_as"].lower(), x["name"], x["_as"])


def path(x):
    return "in_%s::%s" % (x["_as"].lower(), x["name"]) if x.get("_as") else x["name"]


def pos_rs(p):
    """The position attribute, or None."""
    f = p["f"]
    if f == "none":
        return None
    hexa = p.get("_hex", 0)

    def num(n, which):
        t = (("0X%x" if p.get("_sp", 0) & 4 else "0x%X") % n) if hexa & which else str(n)
        return " %s " % t if p.get("_sp", 0) & which else t
    a, b = num(p["a"], 1), num(p["b"], 2)
    alt = p.get("_alt", 0)
    if f == "one":
        s = a
    elif f == "from":
        s = a + (":" if alt else "..")
    elif f == "incl":
        s = a + (":" if alt else "..=") + b
    else:
        s = a + ".." + b
    return '%s="%s"' % ("bytes" if p["u"] > 1 else "bits", s)


ENDS = {"msb": ["msb", "be", "MSB"], "lsb": ["lsb", "le", "LSB"]}


def hexa(n, how):
    """A size in one of its notations."""
    return [str(n), "0x%x" % n, "0X%X" % n, " %d " % n][int(how or 0)]


def field_attr(f):
    at = []
    p = pos_rs(f["pos"])
    if p:
        at.append(p)
    if f["szn"]:
        at.append('%s="%s"' % ("size_bytes" if f["szu"] > 1 else "size_bits", hexa(f["szn"], f.get("_hexsz"))))
    if f["esn"]:
        at.append('%s="%s"' % ("element_size_bytes" if f["esu"] > 1 else "element_size_bits", hexa(f["esn"], f.get("_hexsz"))))
    if f["ty"]["k"] == "enum":
        at.append('ty="enum"')
    if f["end"] != "none":
        at.append('endian="%s"' % ENDS[f["end"]][f.get("_alt_end", 0)])
    if f.get("_rev"):
        at.reverse()
    if f.get("_split") and len(at) > 1:
        return "#[packed_field(%s)] /** Documented. */ #[packed_field(%s,)] " % (at[0], ", ".join(at[1:]))
    return "#[packed_field(%s)] " % ", ".join(at) if at else ""


DERIVES = ["PackedStruct, Debug, Clone, PartialEq", "Debug, Clone, PartialEq, PackedStruct", "Debug, Clone, PartialEq)]\n#[derive(PackedStruct"]


def struct_rs(d, w):
    at = []
    if d["num"] != "none":
        at.append('bit_numbering="%s"' % (d["num"].upper() if d.get("_alt_end") == 2 else d["num"]))
    if d["sz"]:
        at.append('size_bytes="%s"' % hexa(d["sz"], d.get("_hexsz")))
    if d["end"] != "none":
        at.append('endian="%s"' % ENDS[d["end"]][d.get("_alt_end", 0)])
    s = "#[derive(%s)]\n" % DERIVES[d.get("_der", 0)]
    if d.get("_split") and len(at) > 1:
        s += "#[packed_struct(%s)]\n#[packed_struct(%s)]\n" % (", ".join(at[1:]), at[0])
    elif at:
        s += "#[packed_struct(%s)]\n" % ", ".join(at)
    s += "%sstruct %s {\n" % (d.get("_vis", "pub "), d["name"])
    for f in d["fields"]:
        t = ty_rs(f["ty"], w)
        if f["arr"]:
            t = "[%s; %s]" % (t, ["%d", "%d", "%dusize", "0x%x", "%d_usize", "0b%s"][f.get("_alen", 0)] % (
                max(f["arr"], 0) if f.get("_alen", 0) < 5 else format(max(f["arr"], 0), "b")))
        s += "    %s%s%s: %s,\n" % (field_attr(f), f.get("_vis", "pub "), f["name"], t)
    return s + "}\n"


def struct_val_rs(d):
    """Reading and writing the struct's parts, for the driver."""
    s = "impl rt::Val for %s {\n    fn rd(r: &mut rt::Rd) -> Self {\n" % d["name"]
    names = [f["name"] for f in d["fields"]]
    for i, n in enumerate(names):
        s += "        let v_%d = rt::Val::rd(r);\n" % i
    s += "        let _ = r;\n        %s { %s }\n    }\n" % (
        d["name"], ", ".join("%s: v_%d" % (n, i) for i, n in enumerate(names)))
    s += "    fn wr(&self, o: &mut String) {\n        o.push('[');\n"
    for i, n in enumerate(names):
        if i:
            s += "        o.push(',');\n"
        s += "        rt::Val::wr(&self.%s, o);\n" % n
    return s + "        o.push(']');\n    }\n}\n"


def enum_rs(e):
    s = ""
    if e.get("_repr"):
        s += "#[repr(%s)]\n" % e["_repr"]
    s += "#[derive(PrimitiveEnum%s, Clone, Copy, Debug, PartialEq)]\npub enum %s {\n" % (
        "_" + e["ty"] if e["ty"] else "", e["name"])
    for v in e["vars"]:
        if v["_v"] is None:
            s += "    %s,\n" % v["name"]
        else:
            s += "    %s = %s%s,\n" % (v["name"], v["_lit"] or v["_v"], v["sfx"])
    return s + "}\n"


def enum_val_rs(e):
    n = e["name"]
    s = "impl rt::Variants for %s {\n    fn nth(i: i64) -> Self { match i { " % n
    for i, v in enumerate(e["vars"]):
        s += "%d => %s::%s, " % (i + 1, n, v["name"])
    s += "_ => panic!(\"variant\") } }\n    fn ix(&self) -> i64 { match self { "
    for i, v in enumerate(e["vars"]):
        s += "%s::%s => %d, " % (n, v["name"], i + 1)
    s += "} }\n}\n"
    s += "impl rt::Val for %s {\n    fn rd(r: &mut rt::Rd) -> Self { rt::Variants::nth(r.num()) }\n" % n
    s += "    fn wr(&self, o: &mut String) { o.push_str(&format!(\"[{}]\", rt::Variants::ix(self))) }\n}\n"
    return s


def obj_rs(t, w):
    if t["k"] == "ref":
        return "rt::SObj::<%s>(None)" % ty_rs(t, w)
    if t["k"] in ("tup", "vec"):
        return "rt::DObj::<%s>(None)" % ty_rs(t, w)
    return "rt::FObj::<%s>(None)" % ty_rs(t, w)


HEADER = "#![allow(dead_code, unused_imports, unreachable_patterns, non_camel_case_types, non_snake_case, overflowing_literals)]\n"
