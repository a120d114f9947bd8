"""The documentation of packed structures, as the documentation tool renders it."""
import html, json, os, re
from . import build, decl


def source(w, bad):
    """A library of the declarations alone."""
    lines, spans = [decl.HEADER.rstrip(), "use packed_struct::prelude::*;"], []
    for kind, xs in (("enum", w["enums"]), ("struct", w["structs"])):
        for i, x in enumerate(xs):
            if (kind, i + 1) in bad or (kind == "struct" and build.has_cust(x, w)):
                continue
            a = len(lines) + 1
            lines.extend(decl.placed(x, decl.enum_rs(x) if kind == "enum" else decl.struct_rs(x, w)).rstrip("\n").split("\n"))
            spans.append((a, len(lines), (kind, i + 1)))
    return "\n".join(lines) + "\n", spans


def blankless(s):
    return re.sub(r"\s+", "", s)


def parse(text):
    """(numbers the text states before the table, rows)."""
    head, _, rest = text.partition("<table")
    size = [int(x) for x in re.findall(r"(?<![\w.])\d+(?![\w])", head)]
    rows = []
    for r in re.findall(r"<tr[^>]*>(.*?)</tr>", rest, re.S):
        cells = [html.unescape(c).strip() for c in re.findall(r"<t[dh][^>]*>(.*?)</t[dh]>", r, re.S)]
        if cells and cells[0].startswith("Bit"):
            continue
        if len(cells) != 3:
            rows.append({"s": -1, "e": -1, "name": r, "type": ""})
            continue
        m = re.match(r"^(\d+)(?:\D+(\d+))?$", cells[0])
        s, e = (int(m.group(1)), int(m.group(2) or m.group(1))) if m else (-1, -1)
        rows.append({"s": s, "e": e, "name": cells[1], "type": blankless(cells[2])})
    return size, rows


def documented(ws, members):
    """Per member: {type name: documentation shown on it or on its implementations}."""
    out = []
    for m in members:
        d = json.load(open(os.path.join(ws.target, "doc", m + ".json")))
        texts = {}
        for it in d["index"].values():
            if not it.get("docs") or it.get("crate_id") != 0:
                continue
            inner = it["inner"]
            if "impl" in inner:
                t = inner["impl"]["for"].get("resolved_path")
                ref = t and t["id"]
            elif "struct" in inner:
                ref = it["id"]
            else:
                continue
            full = d["paths"].get(str(ref))
            if full:
                texts.setdefault("::".join(full["path"][1:]), []).append(it["docs"])
        out.append({k: "\n".join(v) for k, v in texts.items()})
    return out


def lines(w, bad, texts):
    out = []
    for i, d in enumerate(w["structs"]):
        if ("struct", i + 1) in bad or build.has_cust(d, w):
            continue
        size, rows = parse(texts.get(decl.path(d), ""))
        out.append(json.dumps({"op": "doc", "d": i + 1, "size": size, "rows": rows,
                               "ts": [blankless(decl.ty_rs(f["ty"], w)) for f in d["fields"]]}))
    return out
