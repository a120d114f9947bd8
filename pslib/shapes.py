"""Items of every shape, put to the derives (C25): rendering of what GenShapes enumerates."""

TYPES = {"u8": ("u8", 8), "array": ("[u8; 3]", 24), "array-hex": ("[u8; 0x3]", 24), "array-suffix": ("[u8; 3usize]", 24),
         "array-of-one": ("[u8; 1]", 8), "array-empty": ("[u8; 0]", 8), "array-nested": ("[[u8; 2]; 2]", 32),
         "array-named": ("[u8; LEN]", 24), "tuple": ("(u8, u8)", 16), "reference": ("&'static u8", 8), "array-computed": ("[u8; 1 + 2]", 24)}

# Values of attributes that mean nothing; %a and %b stand for the first and last place of the member, %w for its size.
BAD_NUMBERS = ["", "x", "eight", "1 2", "0x", "0xG", "-1", "1.5", "%wbits", "%w,", "#%w", "%w %w", "-%w", "%w.0", "%w.5", "0x%wh", "%w|", "%w bits", "x%w", "%w%"]
BAD_POSITIONS = ["", "x", "x..", "a..=b", "0..=b", "a..=7", "0..b", "..", "..=7", "..7", ":", ":7", "0..=", "0:x", "1-3", "0...7", "0..1..2", "0:1:2",
                 "1,3", "0,7", "-1..=6", "0..=0x", "0to7", "0..=7..", "1..2..", "1:2:", "0....", "0::", "0:7..", "0..7:", "2..:", "%a:%b:%c", "%a:%b:%b", "%a..=%b..=%c", "%a..=%b..=%b",
                 "%a..=%b..", "%a..=%b:", "%a:%b..", "%a:%b:", "%a..=%bx", "%a..=x%b", "x%a..=%b", "%a%..=%b", "%a..=%b,", "%a..%b=", "%a=..%b", "%a..==%b",
                 "%a...%b", "%a;%b", "%a-%b", "%a %b", "%a to %b", "..=%b", ":%b", "=%a..=%b", "(%a..=%b)", "[%a:%b]", "%a..=-%b", "%a..=%b.0", "%a::%b",
                 "%a..=%b bits", "%ax..=%b", "%ax:%b"]
BAD_ENDIANS = ["", "middle", "ms", "big", "little", "msb0", "m", "be le", "native", "l"]
BAD_NUMBERINGS = ["", "msb", "lsb", "0", "msb1", "lsb00", "big", "lsb 0"]
# Attributes that are not a list of names with quoted values.
BAD_FIELD = ['(bits="0..=7" endian="msb")', '(size_bytes=1)', '(bits=0)', '(bits=0..=7)', '(bits="0..=7",, endian="lsb")', '="bits"', '(bits "0..=7")',
             '(size_bits=8u8)', '(endian=msb)', '(bits=\'0\')', '(bits=b"0..=7")', '(bits: "0..=7")', '(endian=)', '(size_bits=-8)', '("0..=7")']
BAD_OWN = ['(size_bytes=9)', '(endian="msb" size_bytes="9")', '="msb0"', '(bit_numbering=msb0)', '(endian="msb";)', '(size_bytes "9")',
           '(bit_numbering: "lsb0")', '(=)', '(size_bytes=9usize, endian="lsb")', '(bit_numbering=b"lsb0")', '(endian=true)', '("msb0")']


def number(how, i, rp):
    k = 10 * (i + 1)
    return {"none": None, "decimal": "%d" % k, "hex": "0x%X" % k, "negated": "-%d" % k, "suffixed": "%d%s" % (k, rp),
            "constant": "NUM%d" % i, "sum": "%d + 1" % k, "cast": "%d as %s" % (50 + 3 * i, rp), "byte": "b'%s'" % "ABCDEF"[i],
            "inverted": "!%d" % (34 + 3 * i), "shifted": "1 << %d" % (i + 2), "twice-negated": "- -%d" % (40 + 3 * i), "block": "{ %d }" % (80 + 3 * i)}[how]


def repr_of(ms):
    """The representation an enum's numbers need, or None if they have none in common."""
    hows = {m["a"] for m in ms}
    if "byte" in hows:
        return None if hows & {"negated", "inverted", "twice-negated"} else "u8"
    return "i8" if "suffixed" in hows else "isize"


def oddities(d):
    """What is unsupported about a declaration, for the reports."""
    out = []
    if d["item"] != ("struct" if d["derive"] == "PackedStruct" else "enum"):
        out.append("%s on a %s" % (d["derive"], d["item"]))
    elif d["gen"] != "none":
        out.append("generic over a %s" % d["gen"])
    if d["own"] != "none":
        out.append("packed_field on the structure" if d["own"] == "misplaced" else d["own"] + " of the structure")
    for m in d["ms"]:
        if m["k"] == "variant":
            if m["t"] != "unit":
                out.append("%s variant" % m["t"])
            if m["a"] in ("constant", "sum", "cast", "byte", "inverted", "shifted", "twice-negated", "block"):
                out.append("number: " + m["a"])
        else:
            if m["t"] in ("array-empty", "array-nested", "array-named", "array-computed", "tuple", "reference"):
                out.append(m["t"])
            if m["a"] == "misplaced":
                out.append("packed_struct on a field")
            if m["a"].startswith("bad-"):
                out.append(m["a"])
            if m["a"] == "whole" and m["t"] in ("array", "array-hex", "array-suffix"):
                out.append("size of a whole array")
    return out or ["?"]


SPOILT = {"bad-size": BAD_NUMBERS, "bad-position": BAD_POSITIONS, "bad-endian": BAD_ENDIANS, "bad-numbering": BAD_NUMBERINGS}


def spelled(s, rng, place=None, bad=None, value=None):
    """A shape with what is chosen at random about its spelling, the value of one kind of bad attribute perhaps given."""
    d = dict(s["d"], ok=s["ok"], fields=[], _pos=rng.random() < 0.4, _place=rng.randrange(2) if place is None else place,
             _vis=rng.choice(["pub ", "pub ", ""]), _bad={k: value if k == bad else rng.choice(v) for k, v in SPOILT.items()},
             _synf=value if bad == "field-syntax" else rng.choice(BAD_FIELD), _syno=value if bad == "own-syntax" else rng.choice(BAD_OWN))
    if bad == "bad-position":
        d["_pos"] = True
    if d["item"] == "enum":
        d["_repr"] = repr_of(d["ms"])
        if d["_repr"] is None:
            return None
        d["_forced"] = rng.choice(["", "", "_u8", "_i16", "_i64", "_u64"]) if d["_repr"] != "i8" else ""
        if d["_forced"].startswith("_u") and any(m["a"] in ("negated", "inverted") for m in d["ms"]):
            d["_forced"] = "_i32"
    return d


def prepare(shapes, rng):
    return [d for d in (spelled(s, rng) for s in shapes) if d]


def every_value(shapes, rng):
    """Every value that means nothing, and every attribute that is no list of names with values, each as the only thing wrong
    with some declaration."""
    out = []

    def only(kind, own):
        """Shapes with this, and nothing else, wrong."""
        return [s for s in shapes if not s["ok"] and s["d"]["derive"] == "PackedStruct" and s["d"]["item"] == "struct" and s["d"]["gen"] == "none"
                and oddities(s["d"]) == [kind + " of the structure" if own else kind]]
    for kind, own, key, values in [("bad-size", False, "bad-size", BAD_NUMBERS), ("bad-size", True, "bad-size", BAD_NUMBERS),
                                   ("bad-position", False, "bad-position", BAD_POSITIONS), ("bad-endian", False, "bad-endian", BAD_ENDIANS),
                                   ("bad-endian", True, "bad-endian", BAD_ENDIANS), ("bad-numbering", True, "bad-numbering", BAD_NUMBERINGS),
                                   ("bad-syntax", False, "field-syntax", BAD_FIELD), ("bad-syntax", True, "own-syntax", BAD_OWN)]:
        some = only(kind, own)
        for v in values:
            for place in (0, 1):
                out.append(spelled(rng.choice(some), rng, place, key, v))
    return out


def filled(v, a=0, b=0, w=1):
    for k, n in (("%a", a), ("%b", b), ("%c", b + 1), ("%w", w)):
        v = v.replace(k, str(n))
    return v


def shape_rs(d, k, derive=True):
    """The declaration, in a module of its own; without the derive, only what the language says of it."""
    item, ms = d["item"], d["ms"]
    lines = ["pub mod m%d { #![allow(dead_code)]" % k, "#[allow(unused_imports)] use packed_struct::prelude::*;"]
    if any(m["t"] == "array-named" for m in ms):
        lines.append("pub const LEN: usize = 3;")
    if item == "enum":
        if any(m["a"] == "constant" for m in ms):
            lines += ["pub const NUM%d: %s = %d;" % (i, d["_repr"], 90 + 3 * i) for i in range(len(ms))]
        if any(m["a"] == "byte" for m in ms) or d["_repr"] == "i8":
            lines.append("#[repr(%s)]" % d["_repr"])
        name = d["derive"] + (d["_forced"] if d["derive"] == "PrimitiveEnum" else "")
        lines.append("#[derive(%sClone, Copy, Debug, PartialEq)]" % (name + ", " if derive else ""))
        vs = []
        for i, m in enumerate(ms):
            n = number(m["a"], i, d["_repr"])
            vs.append("V%d%s%s" % (i, {"unit": "", "tuple": "(u8)", "record": " { x: u8 }"}[m["t"]], " = " + n if n else ""))
        lines.append("%senum T { %s }" % (d["_vis"], ", ".join(vs)))
        return "\n".join(lines + ["}"])
    if item == "union" or d["derive"] == "PrimitiveEnum":
        lines.append("#[derive(%sClone, Copy)]" % (d["derive"] + ", " if derive else ""))
    else:
        lines.append("#[derive(%sClone, Debug, PartialEq)]" % (d["derive"] + ", " if derive else ""))
    gen, extra = {"none": ("", None), "type": ("<G>", "G"), "lifetime": ("<'a>", "Life<'a>"), "const": ("<const N: usize>", None)}[d["gen"]]
    if d["gen"] == "lifetime":
        lines.append("")
    packing = derive and d["derive"] == "PackedStruct" and item != "union"
    fs, at = [], 0
    positioned = d["_pos"] and item == "struct"
    for i, m in enumerate(ms):
        t, w = TYPES[m["t"]]
        attr = []
        if m["a"] == "bad-position":
            u = 8 if d["_place"] else 1
            attr.append('%s="%s"' % ("bytes" if d["_place"] else "bits", filled(d["_bad"][m["a"]], at // u, (at + w) // u - 1)))
        elif positioned:
            attr.append('bits="%d.."' % at)
        at += w
        if m["a"] == "whole":
            attr.append('size_bytes="%d"' % (w // 8) if d["_place"] else 'size_bits="%d"' % w)
        if m["a"] == "element":
            attr.append('element_size_bytes="1"' if d["_place"] else 'element_size_bits="8"')
        if m["a"] == "bad-size":
            attr.append('%s%s="%s"' % ("element_" if m["t"] in ("array", "array-hex", "array-suffix") else "",
                                       "size_bytes" if d["_place"] else "size_bits",
                                       filled(d["_bad"][m["a"]], w=(8 if m["t"] in ("array", "array-hex", "array-suffix") else w) // (8 if d["_place"] else 1))))
        if m["a"] == "bad-endian":
            attr.append('endian="%s"' % d["_bad"][m["a"]])
        a = "#[packed_field(%s)] " % ", ".join(attr) if attr else ""
        if m["a"] == "bad-syntax":
            a = "#[packed_field%s] " % d["_synf"] + (a if d["_place"] else "")
        if m["a"] == "misplaced":
            a += '#[packed_struct(%s)] ' % ('endian="msb"' if d["_place"] else 'size_bytes="1"')
        fs.append((a if packing else "", "f%d" % i, t))
    if extra:
        fs.insert(d["_place"] * len(fs), ('#[packed_field(size_bytes="1")] ' if packing and not positioned else
                                           '#[packed_field(bits="%d..=%d")] ' % (at, at + 7) if packing else "", "g", extra))
    if packing and d["own"] == "misplaced":
        lines.append('#[packed_field(%s)]' % ('size_bytes="%d"' % (at // 8) if d["_place"] else 'endian="msb"'))
    own = ['bit_numbering="msb0"'] if positioned and d["own"] != "bad-numbering" else []
    if d["own"] == "bad-syntax":
        lines += ["#[packed_struct%s]" % d["_syno"]] if packing else []
    elif d["own"].startswith("bad-"):
        own.insert(d["_place"] * len(own), '%s="%s"' % (
            {"bad-size": "size_bytes", "bad-numbering": "bit_numbering", "bad-endian": "endian"}[d["own"]], filled(d["_bad"][d["own"]], w=at // 8)))
    if packing and own:
        lines.append('#[packed_struct(%s)]' % ", ".join(own))
    if item == "tuple-struct":
        lines.append("%sstruct T(%s);" % (d["_vis"], ", ".join(a + "pub " + t for a, _, t in fs)))
    else:
        lines.append("%s%s T%s { %s }" % (d["_vis"], "union" if item == "union" else "struct", gen,
                                          ", ".join("%spub %s: %s" % f for f in fs)))
    if d["gen"] == "lifetime":
        lines[lines.index("")] = "#[derive(Clone, Debug, PartialEq)] pub struct Life<'a>(pub core::marker::PhantomData<&'a u8>);"
        # keep the derive next to its item
        i = next(j for j, ln in enumerate(lines) if ln.startswith("#[derive(Clone, Debug, PartialEq)] pub struct Life"))
        lines.insert(2, lines.pop(i))
    return "\n".join(lines + ["}"])


def render(derive):
    def go(w, bad, head=""):
        lines, spans = ["#![allow(unused, non_camel_case_types)]"], []
        for i, d in enumerate(w["structs"]):
            if ("struct", i + 1) not in bad:
                a = len(lines) + 1
                lines += shape_rs(d, i + 1, derive).split("\n")
                spans.append((a, len(lines), ("struct", i + 1)))
        return "\n".join(lines) + "\n", spans
    return go
