"""Data-level fault models: unconvertible nodes, malformed elements, elements
and fields of a newer document version.  Faults refer to harness ids and are
applied to a copy of the healthy document when the plan is executed."""
import copy

from . import adf

BAD_TS = ["x", "", None, [], "12.5", "1e3", 10**20, "9" * 25, {}, "2024-01-01", -(10**19)]
BAD_URL = ["<del>", None, 5, [], True]
BAD_TEXT = [5, True, ["a"], 1.5, {"a": "b"}]
BAD_LEVEL = [None, "2", [], 1.5, {}]
BAD_PANEL = [None, 5, [], True]
BAD_CONTENT = [5, True, 2.5, -1]
CONTAINERS = [
    "paragraph", "heading", "codeBlock", "bulletList", "orderedList", "listItem", "taskList", "taskItem",
    "decisionList", "decisionItem", "mediaSingle", "panel", "blockquote", "expand", "nestedExpand",
    "table", "tableRow", "tableCell", "tableHeader",
]
BOOMS = [
    "ValueError", "KeyError", "AttributeError", "IndexError", "TypeError", "NotImplementedError",
    "RuntimeError", "RecursionError", "MemoryError", "OSError", "UnicodeDecodeError", "ZeroDivisionError",
    "AssertionError", "UnimplementedTypeError", "ParamError", "LookupError", "Custom", "ExceptionGroup",
]


class CustomError(Exception):
    pass


def make_exc(name, exc_mod=None):
    if name == "Custom":
        return CustomError("boom")
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "boom")
    if name == "ExceptionGroup":
        return ExceptionGroup("boom", [ValueError("boom")])
    if name == "UnimplementedTypeError":
        return exc_mod.UnimplementedTypeError("boom", "node")
    if name == "ParamError":
        return exc_mod.ParamError("boom")
    import builtins
    return getattr(builtins, name)("boom")


# --------------------------------------------------------------------------
# nodes that cannot be converted
# --------------------------------------------------------------------------
def render_fault_kinds(e):
    t = e["type"]
    out = []
    if t == "date": out.append("ts")
    if t in ("inlineCard", "blockCard"): out.append("url")
    if t == "text": out += ["text", "text", "codenl"]
    if t == "emoji": out.append("emoji")
    if t == "media": out += ["mtype", "mediaurl"]
    if t == "heading": out.append("level")
    if t == "panel": out.append("ptype")
    if t == "paragraph": out.append("indent")
    if t in CONTAINERS: out.append("content")
    return out


def gen_render_fault(rng, e, boom=0.3):
    """A fault that makes converting element e fail, or None."""
    kinds = render_fault_kinds(e)
    if e["type"] in ("doc", "listItem", "taskItem", "decisionItem", "tableRow", "tableCell", "tableHeader"):
        boom = 0  # structural parts may legitimately be converted by their parent
    if rng.random() < boom or not kinds:
        if boom == 0:
            return None
        return {"id": e["#"], "kind": "boom", "arg": rng.choice(BOOMS)}
    k = rng.choice(kinds)
    arg = {
        "ts": BAD_TS, "url": BAD_URL, "text": BAD_TEXT, "codenl": ["a\nb", "\n", "x\n"], "emoji": [None, 5],
        "mtype": [None, "bogus", 5], "mediaurl": ["<del>", None, 5], "level": BAD_LEVEL, "ptype": BAD_PANEL,
        "indent": BAD_LEVEL[:4], "content": BAD_CONTENT,
    }[k]
    return {"id": e["#"], "kind": k, "arg": rng.choice(arg)}


def apply_render_fault(e, f):
    k, arg = f["kind"], copy.deepcopy(f["arg"])
    if k == "boom":
        return
    if k == "ts":
        e["attrs"]["timestamp"] = arg
    elif k == "url":
        if arg == "<del>":
            e["attrs"].pop("url", None)
        else:
            e["attrs"]["url"] = arg
    elif k == "text":
        e["text"] = arg
    elif k == "codenl":
        e["text"] = arg
        e["marks"] = [{"type": "code"}] + list(e.get("marks") or [])
    elif k == "emoji":
        e["attrs"]["shortName"] = arg
        e["attrs"]["text"] = arg
    elif k == "mtype":
        e["attrs"]["type"] = arg
    elif k == "mediaurl":
        e["attrs"]["type"] = "external"
        if arg == "<del>":
            e["attrs"].pop("url", None)
        else:
            e["attrs"]["url"] = arg
    elif k == "level":
        e["attrs"]["level"] = arg
    elif k == "ptype":
        e["attrs"]["panelType"] = arg
    elif k == "indent":
        e["marks"] = list(e.get("marks") or []) + [{"type": "indentation", "attrs": {"level": arg}}]
    elif k == "content":
        e["content"] = arg
    else:
        raise AssertionError(k)


def apply_all(doc, faults, fn=apply_render_fault):
    doc = copy.deepcopy(doc)
    ids = adf.by_id(doc)
    for f in faults:
        if f["id"] in ids:
            fn(ids[f["id"]][0], f)
    return doc


def prune_failing(doc, failing):
    """The document without the elements whose ids are in failing (a cell is
    emptied instead, so that its column stays)."""
    def walk(d):
        out = dict(d)
        if isinstance(d.get("content"), list):
            new = []
            for c in d["content"]:
                if isinstance(c, dict) and c.get("#") in failing:
                    if c["type"] in ("tableCell", "tableHeader"):
                        new.append({"#": c["#"], "type": c["type"], "content": []})
                    continue
                new.append(walk(c) if isinstance(c, dict) else c)
            out["content"] = new
        return out

    return copy.deepcopy(walk(doc))


# --------------------------------------------------------------------------
# malformed elements (parsing must fail)
# --------------------------------------------------------------------------
JUNK = [None, 5, "text", [], True, 1.5, ["type"], ""]


def gen_malformed(rng, e, is_mark, parent):
    t = e["type"]
    spec, req = (adf.MARKS[t] if is_mark else adf.A[t][:2])
    opts = []
    if parent is not None:
        opts += ["notype", "junk", "empty"]
    if spec is not None:
        if req:
            opts.append("noattrs")
        opts += ["attrs", "attrs"]
        if any(r for r, _ in spec.values()) and "attrs" in e:
            opts += ["noattr", "noattr"]
    if not is_mark:
        if adf.A[t][2] and adf.A[t][3]:
            opts.append("nocontent")
        if t == "text":
            opts.append("notext")
    if not opts:
        return None
    k = rng.choice(opts)
    f = {"id": e["#"], "kind": k}
    if k == "junk":
        f["arg"] = rng.choice(JUNK)
    elif k == "attrs":
        # empty or textual attributes count only where an attribute is required
        f["arg"] = rng.choice([None, 5, "x", [], True, ""] if any(r for r, _ in spec.values()) else [None, 5, True])
    elif k == "noattr":
        f["arg"] = rng.choice(sorted(n for n, (r, _) in spec.items() if r))
    return f


def apply_malformed(doc, faults):
    doc = copy.deepcopy(doc)
    ids = adf.by_id(doc)
    for f in faults:
        if f["id"] not in ids:
            continue
        e, is_mark, parent = ids[f["id"]]
        k = f["kind"]
        if k == "notype":
            e.pop("type", None)
        elif k == "noattrs":
            e.pop("attrs", None)
        elif k == "attrs":
            e["attrs"] = copy.deepcopy(f["arg"])
        elif k == "noattr":
            if isinstance(e.get("attrs"), dict):
                e["attrs"].pop(f["arg"], None)
        elif k == "nocontent":
            e.pop("content", None)
        elif k == "notext":
            e.pop("text", None)
        elif k in ("junk", "empty"):
            lst = parent.get("marks" if is_mark else "content")
            if not isinstance(lst, list):
                continue
            for i, x in enumerate(lst):
                if x is e:
                    lst[i] = copy.deepcopy(f["arg"]) if k == "junk" else {}
    return doc


# --------------------------------------------------------------------------
# elements and fields of a newer version
# --------------------------------------------------------------------------
def junk_tree(rng, gen, d=0):
    """Anything at all: content of an unknown element."""
    r = rng.random()
    if r < 0.3 and d < 3:
        return {"type": rng.choice(["text", "paragraph", "date", "heading", "futureX"]), "content": [junk_tree(rng, gen, d + 1) for _ in range(rng.randrange(3))], "attrs": None}
    return gen.anyval()


def unknown_node(rng, gen):
    d = {"#": gen.nid(), "#u": 1, "type": rng.choice(adf.UNKNOWN_NODES)}
    if rng.random() < 0.5:
        d["attrs"] = rng.choice([None, {"a": 1}, {"localId": "x"}, 5])
    if rng.random() < 0.7:
        d["content"] = rng.choice([
            [junk_tree(rng, gen) for _ in range(rng.randrange(4))],
            [{"type": "paragraph", "content": [{"type": "text", "text": "hidden" + gen.tok()}]}],
            [{"type": "text"}], None, 5, [None],
        ])
    if rng.random() < 0.2:
        d["marks"] = rng.choice([[{"type": "glow"}], [{}], None])
    return d


def unknown_mark(rng, gen):
    d = {"#": gen.nid(), "#u": 1, "type": rng.choice(adf.UNKNOWN_MARKS)}
    if rng.random() < 0.5:
        d["attrs"] = rng.choice([None, {"href": 1}, 5, {"level": 2}])
    return d


def add_unknown(rng, doc, n, marks=0.4, rename=0.15):
    """Insert unknown elements into a copy of doc (ids stay unique)."""
    doc = copy.deepcopy(doc)
    gen = adf.Gen(rng)
    gen.n = 100000 + max([e.get("#", 0) for e, _, _ in adf.elements(doc)] or [0])
    gen.t = 100000
    for _ in range(n):
        hosts = [e for e, m, p in adf.elements(doc) if not m and e["type"] in adf.A]
        if rng.random() < marks:
            hs = [e for e in hosts if adf.A[e["type"]][4]] or hosts
            if rng.random() < 0.1:
                hs = [e for e in hosts if e["type"] != "doc"] or hosts  # marks on nodes that keep none
            e = rng.choice(hs)
            if not isinstance(e.get("marks"), list):
                e["marks"] = []
            e["marks"].insert(rng.randrange(len(e["marks"]) + 1), unknown_mark(rng, gen))
        else:
            hs = [e for e in hosts if isinstance(e.get("content"), list)]
            if not hs:
                continue
            e = rng.choice(hs)
            i = rng.randrange(len(e["content"]) + 1)
            if e["content"] and rng.random() < rename:
                c = rng.choice(e["content"])
                c["type"] = rng.choice(adf.UNKNOWN_NODES)
                c["#u"] = 1
            else:
                e["content"].insert(i, unknown_node(rng, gen))
    return doc


NAMES = [
    "x", "foo", "version", "id", "from_dict", "to_dict", "to_markdown", "get_fields", "self", "cls", "__class__",
    "__init__", "__dict__", "type_", "kwargs", "args", "ignore_error", "level", "is_opt", "to_kwargs", "text",
    "title", "state", "url", "order", "é", "", "data", "parameters", "class", "None", "#x"[1:], "is_type_of",
    "marks_", "content_", "attrs_", "_content", "localid", "Type", "TYPE", "extra",
]


KNOWN_NAMES = sorted({n for tab in (adf.A, adf.MARKS) for v in tab.values() for n in (v[0] or {})} | {"type", "attrs", "content", "marks", "text", "version"})


KNOWN_ELEMENT = ["type", "attrs", "content", "marks", "text", "version"]


def variants(n):
    """Other spellings of a known name."""
    import re
    snake = re.sub("([A-Z])", lambda m: "_" + m.group(1).lower(), n)
    out = {
        snake, snake.replace("_", "-"), n.lower(), n.upper(), n.capitalize(), n[:1].upper() + n[1:], "_" + n, n + "_", n + "s", n + "Id",
        "data-" + n, "ac:" + n, " " + n, n + " ", n[:-1], "__" + n + "__", "is_" + snake, "x" + n[:1].upper() + n[1:],
    }
    return sorted(out - {n, ""})


LOOKALIKES = [  # what a field of a later version may hold under a familiar name
    {"type": "text", "text": "x"}, {"type": "strong"}, {"type": "futureNode"}, {"type": "code", "attrs": None},
    {"type": "paragraph", "content": [{"type": "text", "text": "y"}]}, {"type": "heading"}, {"type": "link"},
    {}, None, 1, "z", [],
]


def gen_extra(rng, e, is_mark):
    """An unknown field for element e."""
    t = e["type"]
    spec = adf.MARKS[t][0] if is_mark else adf.A[t][0]
    in_attrs = spec is not None and isinstance(e.get("attrs"), dict) and rng.random() < 0.5
    if in_attrs:
        taken = set(spec)
    else:
        taken = {"type", "attrs", "content", "marks", "text", "version"}
        if is_mark:
            taken = {"type", "attrs"}
        else:
            if t != "text": taken.discard("text")
            if t != "doc": taken.discard("version")
            if not adf.A[t][2]: taken.discard("content")
            if not adf.A[t][4]: taken.discard("marks")
    names = [n for n in NAMES if n not in taken]
    r = rng.random()
    if r < 0.35:  # other spellings of the fields this element has
        own = sorted(taken & set(KNOWN_NAMES)) or KNOWN_NAMES
        names = [n for n in variants(rng.choice(own)) if n not in taken] or names
    elif r < 0.55:  # fields other elements have
        names = [n for n in KNOWN_NAMES if n not in taken] or names
    if not is_mark and not in_attrs and spec is None and rng.random() < 0.3:
        names = ["attrs"]  # the type has no attributes: anything there is unknown
    if is_mark and not in_attrs and spec is None and rng.random() < 0.3:
        names = ["attrs"]
    g = adf.Gen(rng)
    g.t = 500000
    val = g.anyval()
    if rng.random() < 0.1:
        val = {"type": "text", "text": "x"}
    key = rng.choice(names)
    if not in_attrs and not is_mark and rng.random() < 0.15:
        both = [n for n in ("content", "marks") if n not in taken]
        key = rng.choice(both) if both else key
    r = rng.random()
    if r < 0.25:  # a field in the wrong place: attributes beside "attrs", element fields inside
        own = [n for n in (KNOWN_ELEMENT if in_attrs else sorted(spec or {})) if n not in taken]
        absent = [n for n in own if n not in (e.get("attrs") or {})] if not in_attrs and isinstance(e.get("attrs"), dict) else own
        if own:
            key = rng.choice(absent or own)
            val = rng.choice([val, "x", "2", 2, True, ["x"], {"type": "text", "text": "x"}])
    if key in ("content", "marks") and rng.random() < 0.7:
        val = [rng.choice(LOOKALIKES) for _ in range(rng.randrange(1, 4))]
    return {"id": e["#"], "attrs": bool(in_attrs), "key": key, "val": val, "first": rng.random() < 0.5}


def apply_extra(doc, extras):
    doc = copy.deepcopy(doc)
    ids = adf.by_id(doc)
    for x in extras:
        if x["id"] not in ids:
            continue
        e = ids[x["id"]][0]
        tgt = e.get("attrs") if x["attrs"] else e
        if not isinstance(tgt, dict) or x["key"] in tgt:
            continue
        if x["first"]:
            items = list(tgt.items())
            tgt.clear()
            tgt[x["key"]] = copy.deepcopy(x["val"])
            tgt.update(items)
        else:
            tgt[x["key"]] = copy.deepcopy(x["val"])
    return doc
