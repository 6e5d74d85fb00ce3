"""Atlassian Document Format: schema table, generator and reference models.

The table below is written from the ADF documentation and the library's
documented data model; the reference functions (``canon``, ``warnings_of``,
``segments``) are small independent models used as oracles.  Nothing here
imports the library.

Every generated element carries a harness id under the key ``#`` so that
faults can refer to it and shrinking can delete elements freely; ``clean``
strips them before the library sees the data.
"""
import copy

R, O = True, False  # required / optional

# name -> (attrs spec or None, attrs required, has content, content required, has marks)
A = {
    "doc": (None, O, True, R, False),
    "text": (None, O, False, O, True),
    "rule": ({"localId": (O, "s")}, O, False, O, False),
    "hardBreak": ({"text": (O, "nl"), "localId": (O, "s")}, O, False, O, False),
    "listItem": ({"localId": (O, "s")}, O, True, R, False),
    "bulletList": (None, O, True, R, False),
    "orderedList": ({"order": (O, "order"), "localId": (O, "s")}, O, True, R, False),
    "paragraph": ({"localId": (O, "s")}, O, True, O, True),
    "taskItem": ({"localId": (R, "s"), "state": (R, "state")}, R, True, O, False),
    "taskList": ({"localId": (R, "s")}, R, True, R, False),
    "decisionItem": ({"localId": (R, "s"), "state": (R, "dstate")}, R, True, O, False),
    "decisionList": ({"localId": (R, "s")}, R, True, R, False),
    "emoji": ({"shortName": (R, "tok"), "id": (O, "s"), "text": (O, "tok"), "localId": (O, "s")}, R, False, O, False),
    "date": ({"timestamp": (R, "ts"), "localId": (O, "s")}, R, False, O, False),
    "mention": ({"id": (R, "s"), "localId": (O, "s"), "text": (O, "tok"), "accessLevel": (O, "s"), "userType": (O, "utype")}, R, False, O, False),
    "status": ({"text": (R, "tok"), "color": (R, "color"), "localId": (O, "s"), "style": (O, "s")}, R, False, O, False),
    "heading": ({"level": (R, "level"), "localId": (O, "s")}, R, True, O, True),
    "codeBlock": ({"language": (O, "lang"), "uniqueId": (O, "s"), "localId": (O, "s")}, O, True, O, False),
    "inlineCard": ({"url": (O, "url!"), "data": (O, "any"), "localId": (O, "s")}, R, False, O, False),
    "blockCard": ({"url": (O, "url!"), "localId": (O, "s"), "datasource": (O, "any"), "width": (O, "num"), "layout": (O, "s"), "data": (O, "any")}, R, False, O, False),
    "media": ({"type": (R, "mtype"), "id": (O, "tok!"), "collection": (O, "s"), "url": (O, "url!"), "localId": (O, "s"), "alt": (O, "tok"), "width": (O, "num"), "height": (O, "num"), "occurrenceKey": (O, "s")}, R, False, O, True),
    "mediaGroup": (None, O, True, R, False),
    "mediaSingle": ({"layout": (O, "s"), "width": (O, "num"), "widthType": (O, "s"), "localId": (O, "s")}, O, True, O, True),
    "embedCard": ({"url": (R, "url!"), "layout": (R, "s"), "width": (O, "num"), "originalHeight": (O, "num"), "originalWidth": (O, "num"), "localId": (O, "s")}, R, False, O, False),
    "extension": ({"extensionKey": (R, "tok!"), "extensionType": (R, "tok!"), "parameters": (O, "any"), "text": (O, "tok"), "layout": (O, "s"), "localId": (O, "s")}, R, False, O, True),
    "caption": ({"localId": (O, "s")}, O, True, O, False),
    "mediaInline": ({"id": (R, "s"), "collection": (R, "s"), "type": (O, "s"), "localId": (O, "s"), "alt": (O, "s"), "occurrenceKey": (O, "s"), "width": (O, "num"), "height": (O, "num"), "data": (O, "any")}, R, False, O, True),
    "panel": ({"panelType": (R, "ptype"), "panelIcon": (O, "s"), "panelIconId": (O, "s"), "panelIconText": (O, "s"), "panelColor": (O, "s"), "localId": (O, "s")}, R, True, R, False),
    "blockquote": ({"localId": (O, "s")}, O, True, R, False),
    "expand": ({"title": (O, "s"), "localId": (O, "s")}, O, True, R, False),
    "nestedExpand": ({"title": (O, "s"), "localId": (O, "s")}, R, True, R, False),
    "tableCell": ({"colspan": (O, "num"), "rowspan": (O, "num"), "colwidth": (O, "nums"), "background": (O, "s"), "localId": (O, "s")}, O, True, R, False),
    "tableHeader": ({"colspan": (O, "num"), "rowspan": (O, "num"), "colwidth": (O, "nums"), "background": (O, "s"), "localId": (O, "s")}, O, True, R, False),
    "tableRow": ({"localId": (O, "s")}, O, True, R, False),
    "table": ({"displayMode": (O, "s"), "isNumberColumnEnabled": (O, "bool"), "layout": (O, "s"), "localId": (O, "s"), "width": (O, "num")}, O, True, R, True),
}
MARKS = {
    "backgroundColor": ({"color": (R, "s")}, R),
    "code": (None, O),
    "em": (None, O),
    "link": ({"href": (R, "url!"), "title": (O, "title"), "id": (O, "s"), "collection": (O, "s"), "occurrenceKey": (O, "s")}, R),
    "strike": (None, O),
    "strong": (None, O),
    "subsup": ({"type": (R, "subsup")}, R),
    "textColor": ({"color": (R, "s")}, R),
    "underline": (None, O),
    "annotation": ({"id": (R, "s"), "annotationType": (R, "s")}, R),
    "indentation": ({"level": (R, "level")}, R),
    "border": ({"size": (R, "num"), "color": (R, "s")}, R),
    "alignment": ({"align": (R, "s")}, R),
    "breakout": ({"mode": (R, "s"), "width": (O, "num")}, R),
    "dataConsumer": ({"sources": (R, "strs")}, R),
    "fragment": ({"localId": (R, "s"), "name": (O, "s")}, R),
}
UNKNOWN_NODES = [
    "bodiedExtension", "layoutSection", "layoutColumn", "placeholder", "inlineExtension",
    "blockTaskItem", "syncBlock", "bodiedSyncBlock", "futureNode", "Text", "text ", "", "image",
    "strong", "paragraph2", "None",
]
UNKNOWN_MARKS = ["glow", "futureMark", "Strong", "", "paragraph", "sup", "code2"]

INLINE = ["text", "hardBreak", "emoji", "date", "mention", "status", "inlineCard", "mediaInline"]
BLOCK = ["paragraph", "heading", "bulletList", "orderedList", "taskList", "decisionList", "codeBlock",
         "panel", "blockquote", "expand", "table", "rule", "blockCard", "embedCard", "mediaSingle",
         "mediaGroup", "extension"]
CELL = ["paragraph", "panel", "blockquote", "orderedList", "bulletList", "rule", "heading", "codeBlock",
        "mediaSingle", "mediaGroup", "decisionList", "taskList", "blockCard", "embedCard", "extension", "nestedExpand"]
TEXT_MARKS = ["backgroundColor", "code", "em", "link", "strike", "strong", "subsup", "textColor", "underline", "annotation"]


# --------------------------------------------------------------------------
# generator
# --------------------------------------------------------------------------
DECOR = ["", " ", "  ", "*", "**", "_", "`", "|", "\\", "é", "漢字", "\u00a0", "<br>", "[x]", "- ", "1. ", "# ", "> ", "~~", "&nbsp;", "\U0001f600", "%s", "{}", "\t", "a|b|c", "\u2028", "\r", "\x0c", "\u200b", "$1", "\x00",
         "@", ":", '"', "'", "<b>", "&", "{{", "\\n", "0", "![](", "](", "```", "---", "+", "!", "\x85", "\ufeff", "e\u0301", "\u0130", "\ud7ff", "\U0010ffff", "~", "^", "==", "://", "%", ";"]


URLS = ["$", "/wiki/$", "#$", "mailto:$@h.example", "https://h.example/($)", "https://h.example/a|$", "https://h.example/$?x=1&y=[2]", "https://h.example/$ x", "<$>", "http://h.example/%7C$%20", "ftp://é/$", "https://h.example/$\\", "javascript:$", "https://[::1]:8/$", " $ ", "HTTPS://H.EXAMPLE/$/"]


class Gen:
    def __init__(self, rng, size=30, depth=4, rare=0.1, kinds=None, decor=0.25, null=0.05, wide=1):
        self.rng = rng
        self.left = size
        self.depth = depth
        self.rare = rare
        self.kinds = kinds  # restrict block kinds (swarm)
        self.n = 0
        self.t = 0
        self.decor = decor
        self.null = null
        self.wide = wide  # multiplies the number of children now and then

    def nid(self):
        self.n += 1
        return self.n

    def tok(self):
        self.t += 1
        return f"q{self.t}z"

    # values ---------------------------------------------------------------
    def anyval(self, d=0):
        r = self.rng
        k = r.randrange(10 if d < 3 else 7)
        if k == 0: return None
        if k == 1: return r.choice([True, False])
        if k == 2: return r.choice([0, 1, -1, 2**40, 10**18])
        if k == 3: return r.choice([0.0, 1.0, -0.5, 1e-9, 12.25])
        if k == 4: return ""
        if k in (5, 6): return r.choice(["a", "é|*", "x\ny", "none", "0"])
        if k == 7: return [self.anyval(d + 1) for _ in range(r.randrange(4))]
        return {r.choice(["type", "attrs", "content", "a", "localId", "text", "", "k"]) + ("" if r.random() < .7 else str(i)): self.anyval(d + 1) for i in range(r.randrange(4))}

    def value(self, kind):
        r = self.rng
        if kind == "s":
            return r.choice(["", "a", "wide", "id-1", "#fff", "é", "0", "false", self.tok()])
        if kind == "nl": return "\n"
        if kind == "order": return r.choice([1, 1, 2, 0, 7, 9, 10, 99, -3, 1000, 2**31])
        if kind == "state": return r.choice(["TODO", "DONE", "TODO", "DONE", "", "done"])
        if kind == "dstate": return r.choice(["DECIDED", ""])
        if kind in ("tok", "tok!"):
            s = self.tok()
            if kind == "tok" and r.random() < self.decor:
                s = r.choice(DECOR[3:]) + s + r.choice(DECOR)
            return s
        if kind == "title": return self.tok()
        if kind == "ts": return str(self.timestamp()) if r.random() < .8 else self.timestamp()
        if kind == "utype": return r.choice(["DEFAULT", "SPECIAL", "APP"])
        if kind == "color": return r.choice(["neutral", "purple", "blue", "red"])
        if kind == "level": return r.randrange(1, 7)
        if kind == "lang": return r.choice(["python", "none", "", "c++", "java", self.tok()])
        if kind == "any": return self.anyval()
        if kind == "url!":
            t = self.tok()
            return f"https://h.example/{t}" if r.random() < 0.8 else r.choice(URLS).replace("$", t)
        if kind == "num": return r.choice([0, 1, 100, 33.33, 0.0, 760])
        if kind == "nums": return [r.choice([0, 100, 33]) for _ in range(r.randrange(3))]
        if kind == "strs": return [r.choice(["", "a", "b"]) for _ in range(r.randrange(3))]
        if kind == "bool": return r.choice([True, False])
        if kind == "mtype": return r.choice(["external", "external", "file", "file", "link"])
        if kind == "ptype": return r.choice(["info", "note", "tip", "warning", "error", "success", "custom"])
        if kind == "subsup": return r.choice(["sub", "sup"])
        raise AssertionError(kind)

    def timestamp(self):
        r = self.rng
        k = r.randrange(6)
        if k == 0: return r.randrange(-62135596800000, 253402300799999)
        day = r.randrange(-200000, 400000)
        if k == 1: return day * 86400000
        if k == 2: return day * 86400000 - 1
        if k == 3: return day * 86400000 + 86399000 + r.randrange(1000)
        if k == 4: return r.randrange(0, 2**31) * 1000
        return r.choice([0, 1, -1, 999, -999, 1709164800000, 951782400000, 86399999, -86400000])

    def attrs(self, spec, keep=()):
        out = {}
        for k, (req, kind) in spec.items():
            if req or k in keep:
                out[k] = self.value(kind)
            elif self.rng.random() < 0.3:
                # optional attributes may be explicitly null
                if self.rng.random() < self.null and kind not in ("url!",):
                    out[k] = None
                else:
                    out[k] = self.value(kind)
        items = list(out.items())
        self.rng.shuffle(items)
        return dict(items)

    # elements --------------------------------------------------------------
    def mark(self, kind):
        spec, req = MARKS[kind]
        m = {"#": self.nid(), "type": kind}
        if spec is not None:
            m["attrs"] = self.attrs(spec)
        return m

    def text(self, plain=False, multiline=False):
        r = self.rng
        s = self.tok()
        x = r.random()
        if x < self.decor:
            s = r.choice(DECOR) + s + r.choice(DECOR) + r.choice(["", "", " x ", self.tok()]) + r.choice(DECOR)
        elif x < self.decor + 0.03:
            s = r.choice(["", " ", "  ", "\t"])
        elif multiline and x < 0.6:
            s = "\n".join(r.choice(["", "    ", "  "]) + self.tok() for _ in range(r.randrange(1, 4)))
        d = {"#": self.nid(), "type": "text", "text": s}
        if not plain and r.random() < 0.4:
            d["marks"] = [self.mark(r.choice(TEXT_MARKS)) for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if r.random() < .95 else r.randrange(4, 9))]
        elif not plain and not multiline and r.random() < 0.04:
            d["text"] = self.tok() + "\n" + self.tok()
        return d

    def node(self, kind, depth):
        r = self.rng
        self.left -= 1
        spec, areq, hasc, creq, hasm = A[kind]
        if kind == "text":
            return self.text()
        d = {"#": self.nid(), "type": kind}
        if kind == "doc":
            d["version"] = 1
        if spec is not None and (areq or r.random() < 0.35):
            d["attrs"] = self.attrs(spec)
        if kind == "media":
            a = d["attrs"]
            if a["type"] == "external":
                a["url"] = self.value("url!")
            elif a["type"] == "file":
                a["id"] = self.value("tok!")
            if r.random() < 0.4:
                d["marks"] = [self.mark(r.choice(["link", "annotation", "border"])) for _ in range(r.choice([1, 1, 2]))]
        elif kind in ("inlineCard", "blockCard"):
            d["attrs"]["url"] = self.value("url!")
        elif kind == "paragraph" and r.random() < 0.12:
            d["marks"] = [self.mark(r.choice(["alignment", "indentation"]))]
        elif kind == "heading" and r.random() < 0.12:
            d["marks"] = [self.mark(r.choice(["alignment", "indentation"]))]
        elif kind == "mediaSingle" and r.random() < 0.12:
            d["marks"] = [self.mark("link")]
        elif kind == "table" and r.random() < 0.12:
            d["marks"] = [self.mark("fragment")]
        elif kind == "extension" and r.random() < 0.3:
            d["marks"] = [self.mark(r.choice(["dataConsumer", "fragment"]))]
        elif kind in ("codeBlock", "expand") and r.random() < 0.12:
            d["marks"] = [self.mark("breakout")]  # legal ADF the data model does not keep
        if hasc:
            if creq or r.random() < 0.93:
                d["content"] = self.children(kind, depth)
        if r.random() < 0.15:
            items = list(d.items())
            r.shuffle(items)
            d = dict(items)
        return d

    def count(self, lo, hi):
        if self.rng.random() < 0.04:
            return 0
        if self.wide > 1 and self.left > 0 and self.rng.random() < 0.3:
            return self.rng.randrange(lo, hi * self.wide + 1)
        return self.rng.randrange(lo, hi + 1)

    def many(self, kinds, lo, hi, depth):
        out = []
        for _ in range(self.count(lo, hi)):
            if self.left <= 0 and out:
                break
            ks = kinds
            if self.kinds is not None:
                ks = [k for k in kinds if k in self.kinds] or kinds
            if depth <= 0:
                ks = [k for k in ks if not A[k][2] or k in ("paragraph", "heading", "codeBlock")] or ["paragraph"]
            out.append(self.node(self.rng.choice(ks), depth - 1))
        return out

    def inline(self, lo, hi, kinds=None):
        out = []
        for _ in range(self.count(lo, hi)):
            if kinds is None:
                k = "text" if self.rng.random() < 0.6 else self.rng.choice(INLINE)
            else:
                k = self.rng.choice(kinds)
            out.append(self.node(k, 0))
        return out

    def children(self, kind, depth):
        r = self.rng
        if kind == "doc": return self.many(BLOCK, 1, 6, depth)
        if kind in ("paragraph", "heading", "taskItem", "decisionItem", "caption"): return self.inline(1, 4)
        if kind == "codeBlock": return [self.text(plain=True, multiline=True) for _ in range(self.count(1, 2))]
        if kind in ("bulletList", "orderedList"): return [self.node("listItem", depth) for _ in range(self.count(1, 3))]
        if kind == "listItem":
            first = [self.node("paragraph", depth)]
            if depth > 0 and r.random() < 0.45:
                first += self.many(["bulletList", "orderedList", "bulletList", "orderedList", "codeBlock", "mediaSingle", "paragraph", "taskList", "extension"], 1, 2, depth - 1)
            return first
        if kind == "taskList":
            out = [self.node("taskItem", depth)]
            for _ in range(r.randrange(3)):
                out.append(self.node("taskList", depth - 1) if depth > 0 and r.random() < 0.35 else self.node("taskItem", depth))
            return out
        if kind == "decisionList": return [self.node("decisionItem", depth) for _ in range(self.count(1, 3))]
        if kind == "mediaSingle":
            out = [self.node("media", depth)]
            if r.random() < 0.4: out.append(self.node("caption", depth))
            return out
        if kind == "mediaGroup": return [self.node("media", depth) for _ in range(self.count(1, 2))]
        if kind == "panel": return self.many(["paragraph", "heading", "bulletList", "orderedList", "blockCard", "mediaGroup", "mediaSingle", "codeBlock", "taskList", "rule", "decisionList", "extension"], 1, 3, depth)
        if kind == "blockquote": return self.many(["paragraph", "orderedList", "bulletList", "codeBlock", "mediaSingle", "mediaGroup", "extension"], 1, 3, depth)
        if kind == "expand": return self.many([k for k in BLOCK if k != "expand"] + ["nestedExpand"], 1, 3, depth)
        if kind == "nestedExpand": return self.many(["paragraph", "heading", "mediaSingle", "mediaGroup", "codeBlock", "bulletList", "orderedList", "taskList", "decisionList", "rule", "panel", "blockquote"], 1, 3, depth)
        if kind == "table":
            big = self.left > 0 and r.random() < 0.06
            w = r.randrange(4, 14) if big else r.randrange(1, 4)
            rows = []
            for i in range(r.choice([1, 4, 12]) if big else self.count(1, 3)):
                row = {"#": self.nid(), "type": "tableRow", "content": []}
                for _ in range(w):
                    row["content"].append(self.node("tableHeader" if (i == 0 and r.random() < .7) else "tableCell", depth))
                rows.append(row)
            return rows
        if kind == "tableRow": return [self.node("tableCell", depth) for _ in range(self.count(1, 3))]
        if kind in ("tableCell", "tableHeader"):
            return self.many(CELL if r.random() < 0.3 else ["paragraph"], 1, 2, depth - 1)
        raise AssertionError(kind)


def gen_doc(rng, size=None, depth=None, **kw):
    if size is None:
        size = rng.choice([3, 8, 8, 20, 20, 40])
    if depth is None:
        depth = rng.choice([1, 2, 3, 3, 5])
    kinds = None
    if rng.random() < 0.4:
        kinds = set(rng.sample(BLOCK, rng.randrange(1, 6)))
    x = rng.random()
    if x < 0.03:  # deep and narrow
        kinds = set(rng.sample(["bulletList", "orderedList", "taskList", "expand", "panel", "blockquote", "table"], 2))
        size, depth = 40, rng.choice([8, 12, 20])
    elif x < 0.06:  # wide
        kw["wide"] = rng.choice([4, 10])
        size = max(size, 40)
    doc = Gen(rng, size=size, depth=depth, kinds=kinds, **kw).node("doc", depth)
    x = rng.random()
    if x < 0.15:
        repeat(rng, doc)
    elif x < 0.18:
        enlarge(rng, doc)
    elif x < 0.2:
        bury(rng, doc)
    if rng.random() < 0.35:
        focus(rng, doc)
    return doc


def bury(rng, doc):
    """Put a part of the document far below."""
    g = Gen(rng, size=6)
    g.n = max(e["#"] for e, _, _ in elements(doc))
    g.t = 200000
    kids = doc.get("content") or []
    if not kids or not all(e["type"] in BLOCK for e in kids):
        return
    inner = kids[rng.randrange(len(kids))]
    at = next(i for i, k in enumerate(kids) if k is inner)
    pool = rng.sample(["bulletList", "orderedList", "panel", "blockquote", "expand"], rng.choice([1, 1, 2]))
    left = rng.choice([10, 20, 40])
    while left > 0:
        t = rng.choice(pool)
        d = {"#": g.nid(), "type": t}
        if A[t][1]:
            d["attrs"] = g.attrs(A[t][0])
        extra = [g.node("paragraph", 1)] if rng.random() < 0.1 else []
        if t in ("bulletList", "orderedList"):
            d["content"] = [{"#": g.nid(), "type": "listItem", "content": extra + [inner]}]
            left -= 1
        else:
            d["content"] = extra + [inner]
        left -= 1
        inner = d
    kids[at] = inner


RARE = ["nestedExpand", "caption", "breakout", "breakout", "dataConsumer", "fragment", "border", "tableRow"]


def focus(rng, doc):
    """Make sure one type, drawn evenly from all of them, is in the document."""
    g = Gen(rng, size=6)
    g.n = max(e["#"] for e, _, _ in elements(doc))
    g.t = 100000
    kind = rng.choice(RARE if rng.random() < 0.4 else [k for k in A if k != "doc"] + list(MARKS))
    if kind in MARKS:
        host = (lambda t: t == "text") if kind in TEXT_MARKS else (lambda t: t != "text" and A[t][4] and not (kind == "indentation" and t == "media"))
        hosts = [e for e, is_mark, _ in elements(doc) if not is_mark and e.get("type") in A and host(e["type"])]
        if not hosts:
            new = g.node(rng.choice([t for t in A if host(t) and t != "text"] or ["text"]), 1)
            hosts = [e for e in [new] if host(e["type"])]
            _place(rng, g, doc, new)
        e = rng.choice(hosts)
        if kind == "code" and "\n" in e["text"]:
            return
        e.setdefault("marks", []).insert(rng.randrange(len(e["marks"]) + 1), g.mark(kind))
    else:
        _place(rng, g, doc, g.node(kind, 2))


def _place(rng, g, doc, new):
    """Put a new node where the format allows it."""
    t = new["type"]
    host = {"listItem": ["bulletList", "orderedList"], "taskItem": ["taskList"], "decisionItem": ["decisionList"], "nestedExpand": ["tableCell", "expand"],
            "media": ["mediaSingle", "mediaGroup"], "caption": ["mediaSingle"], "tableRow": ["table"], "tableCell": ["tableRow"], "tableHeader": ["tableRow"]}.get(t)
    if t in INLINE:
        host = ["paragraph", "heading"]
    if host is None:
        doc.setdefault("content", []).insert(rng.randrange(len(doc["content"]) + 1), new)
        return
    hosts = [e for e, m, _ in elements(doc) if not m and e.get("type") in host and isinstance(e.get("content"), list)]
    if hosts and rng.random() < 0.6:
        e = rng.choice(hosts)
        if t in ("tableRow", "tableCell", "tableHeader", "caption", "media"):
            e["content"].append(new)
        else:
            e["content"].insert(rng.randrange(len(e["content"]) + 1), new)
        return
    h = rng.choice(host)
    up = {"#": g.nid(), "type": h}
    if A[h][1]:
        up["attrs"] = g.attrs(A[h][0])
    up["content"] = [g.node("media", 1)] * (t == "caption") + [new]
    _place(rng, g, doc, up)


def repeat(rng, doc):
    """The same content again: equal siblings, equal texts far apart."""
    ids = [max(e["#"] for e, m, p in elements(doc) if "#" in e)]

    def again(d):
        d = copy.deepcopy(d)
        for e, m, p in elements(d):
            if "#" in e:
                ids[0] += 1
                e["#"] = ids[0]
        return d

    for _ in range(rng.choice([1, 1, 2, 4])):
        els = [(e, m, p) for e, m, p in elements(doc) if p is not None]
        if not els:
            return
        e, m, p = rng.choice(els)
        sibs = p["marks" if m else "content"]
        k = rng.randrange(4)
        if k < 2 and p["type"] != "tableRow":
            i = next(i for i, x in enumerate(sibs) if x is e)
            sibs.insert(i + (k and rng.randrange(2)), again(e))
        elif k == 2 and p["type"] != "tableRow" and not m:
            sibs.append(again(e))
        else:
            texts = [e for e, m, p in elements(doc) if e.get("type") == "text" and isinstance(e.get("text"), str)]
            if len(texts) > 1:
                a, b = rng.sample(texts, 2)
                coded = any(isinstance(m, dict) and m.get("type") == "code" for m in a.get("marks") or [])
                if not (coded and "\n" in b["text"]):  # inline code of several lines has no Markdown
                    a["text"] = b["text"]


def enlarge(rng, doc, text=0.6):
    """Sizes nobody writes a test for."""
    texts = [e for e, m, p in elements(doc) if e.get("type") == "text" and isinstance(e.get("text"), str) and e["text"]]
    if texts and rng.random() < text:
        e = rng.choice(texts)
        n = rng.choice([300, 5000, 70000])
        sep = rng.choice([" ", "", "*", "|", " x "])
        if sum(len(t["text"]) for t in texts) < 200:
            e["text"] = e["text"] + (sep + "w") * n + sep + "q999z"
    else:
        kids = [e for e, m, p in elements(doc) if isinstance(e.get("content"), list) and e["content"] and isinstance(e["content"][-1], dict) and e.get("type") not in ("tableRow",)]
        if kids:
            e = rng.choice(kids)
            c = e["content"][-1]
            top = max(x["#"] for x, m, p in elements(doc) if "#" in x)
            size = sum(1 for _ in elements(c))
            for _ in range(max(1, min(150, rng.choice([20, 400, 400]) // size))):
                c = copy.deepcopy(c)
                for x, m, p in elements(c):
                    if "#" in x:
                        top += 1
                        x["#"] = top
                e["content"].append(c)


# --------------------------------------------------------------------------
# structural helpers
# --------------------------------------------------------------------------
def clean(d):
    """The data the library sees: harness keys removed."""
    if isinstance(d, dict):
        return {k: clean(v) for k, v in d.items() if not (isinstance(k, str) and k.startswith("#"))}
    if isinstance(d, list):
        return [clean(x) for x in d]
    return d


def elements(d, path=(), parent=None):
    """All elements (nodes and marks) in document order: (dict, is_mark, parent)."""
    yield d, False, parent
    if "#u" in d or not known(d, False):
        return
    _, _, hasc, _, hasm = A[d["type"]]
    if hasm and isinstance(d.get("marks"), list):
        for m in d["marks"]:
            if isinstance(m, dict):
                yield m, True, d
    if hasc and isinstance(d.get("content"), list):
        for c in d["content"]:
            if isinstance(c, dict):
                yield from elements(c, path, d)


def by_id(doc):
    return {e["#"]: (e, m, p) for e, m, p in elements(doc) if "#" in e}


def known(d, is_mark):
    t = d.get("type")
    return isinstance(t, str) and t in (MARKS if is_mark else A)


# --------------------------------------------------------------------------
# reference models
# --------------------------------------------------------------------------
def canon(d, is_mark=False):
    """What a parsed element serialises to: known fields only, unknown elements
    skipped, everything else verbatim."""
    t = d["type"]
    if is_mark:
        spec, _ = MARKS[t]
        out = {"type": t}
        if spec is not None and "attrs" in d:
            out["attrs"] = {k: v for k, v in d["attrs"].items() if k in spec}
        return out
    spec, _, hasc, _, hasm = A[t]
    out = {"type": t}
    if t == "doc":
        out["version"] = d.get("version", 1)
    if t == "text" and "text" in d:
        out["text"] = d["text"]
    if spec is not None and "attrs" in d:
        out["attrs"] = {k: v for k, v in d["attrs"].items() if k in spec}
    if hasc and "content" in d:
        c = d["content"]
        out["content"] = [canon(x) for x in c if known(x, False)] if isinstance(c, list) else c
    if hasm and "marks" in d:
        m = d["marks"]
        out["marks"] = [canon(x, True) for x in m if known(x, True)] if isinstance(m, list) else m
    return copy.deepcopy(out)


def prune_unknown(d, is_mark=False):
    """The document without its unknown elements (harness keys kept)."""
    out = dict(d)
    if not is_mark:
        if isinstance(d.get("content"), list):
            out["content"] = [prune_unknown(c) for c in d["content"] if known(c, False)]
        if isinstance(d.get("marks"), list):
            out["marks"] = [prune_unknown(m, True) for m in d["marks"] if known(m, True)]
    return out


def warnings_of(d):
    """(type, category) of every skipped element, in parse order."""
    out = []
    _, _, hasc, _, hasm = A[d["type"]]
    if hasc and isinstance(d.get("content"), list):
        for c in d["content"]:
            if known(c, False):
                out += warnings_of(c)
            else:
                out.append((c["type"], "node"))
    if hasm and isinstance(d.get("marks"), list):
        for m in d["marks"]:
            if not known(m, True):
                out.append((m["type"], "mark"))
    return out


def civil(ms):
    """ISO calendar day (UTC) of a millisecond timestamp, integers only."""
    z = ms // 86400000 + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    day = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return f"{y + (m <= 2):04d}-{m:02d}-{day:02d}"


def _s(x, tables):
    out = []
    for line in x.split("\n"):
        line = line.strip()
        if line:
            for _ in range(tables):
                line = line.replace("|", "\\|")
            out.append(line)
    return out


def _apply_marks(cur, d, tables):
    for m in d.get("marks") or []:
        if m.get("type") == "link":
            a = m["attrs"]
            if isinstance(a.get("title"), str):
                cur = _s(a["title"], tables)
            cur = cur + _s(str(a["href"]), tables)
    return cur


def segments(d, tables=0):
    """Text pieces a healthy element must show, in order."""
    t = d.get("type")
    if t not in A:
        return []
    a = d.get("attrs") or {}
    kids = d.get("content") or []

    def sub(n=0):
        out = []
        for c in kids:
            out += segments(c, tables + n)
        return out

    if t == "text":
        return _apply_marks(_s(d["text"], tables), d, tables)
    if t in ("hardBreak", "rule", "caption", "mediaGroup", "mediaInline"):
        return []
    if t == "codeBlock":
        lang = a.get("language")
        out = sub()
        return (_s(lang, tables) if isinstance(lang, str) and lang != "none" else []) + out
    if t == "date":
        return [civil(int(a["timestamp"]))]
    if t == "mention":
        return _s(a["text"], tables) if isinstance(a.get("text"), str) else ["@Unknown"]
    if t == "emoji":
        return _s(a["text"] if isinstance(a.get("text"), str) else a["shortName"], tables)
    if t == "status":
        return _s(a["text"], tables)
    if t in ("inlineCard", "blockCard", "embedCard"):
        return _s(a["url"], tables) * 2
    if t == "media":
        alt = _s(a["alt"], tables) if isinstance(a.get("alt"), str) else ["media"]
        if a["type"] == "link":
            return ["[media]"]
        if a["type"] == "external":
            return _apply_marks(alt + _s(a["url"], tables), d, tables)
        return _apply_marks(alt + ["media:" + a["id"]], d, tables)
    if t == "extension":
        if isinstance(a.get("text"), str) and a["text"]:
            return [a["extensionKey"]] + _s(a["text"], tables)
        return [a["extensionType"], a["extensionKey"]]
    if t in ("bulletList", "orderedList"):
        out = []
        for c in kids:
            if c.get("type") == "listItem":
                out += segments(c, tables)
        return out
    if t == "taskList":
        out = []
        for c in kids:
            if c.get("type") in ("taskItem", "taskList"):
                out += segments(c, tables)
        return out
    if t == "decisionList":
        out = []
        for c in kids:
            if c.get("type") == "decisionItem":
                out += segments(c, tables)
        return out
    if t == "panel":
        return [a["panelType"].upper()] + sub()
    if t == "table":
        out = []
        for row in kids:
            for cell in row.get("content") or []:
                out += segments(cell, tables)
        return out
    if t in ("tableCell", "tableHeader"):
        return sub(1)
    return sub()  # doc, paragraph, heading, listItem, items, quote, expand, mediaSingle


UNRENDERED = ("caption", "mediaGroup", "mediaInline")


def rendered_ids(d, out=None, is_root=True):
    """ids of the nodes whose conversion a rendering of d performs."""
    if out is None:
        out = set()
    out.add(d.get("#"))
    t = d.get("type")
    if t in UNRENDERED or t not in A or not A[t][2]:
        return out
    keep = {"bulletList": ("listItem",), "orderedList": ("listItem",), "taskList": ("taskItem", "taskList"), "decisionList": ("decisionItem",)}.get(t)
    for c in d["content"] if isinstance(d.get("content"), list) else []:
        if isinstance(c, dict) and "#u" not in c and known(c, False) and (keep is None or c["type"] in keep):
            rendered_ids(c, out, False)
    return out


def freeze(x):
    """Hashable, type-strict image of JSON-like data (True != 1 != 1.0)."""
    if isinstance(x, dict):
        return ("d",) + tuple((k, freeze(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0])))
    if isinstance(x, list):
        return ("l",) + tuple(freeze(v) for v in x)
    return (type(x).__name__, repr(x))


def freeze_ordered(x):
    """As freeze, with key order."""
    if isinstance(x, dict):
        return ("d",) + tuple((k, freeze_ordered(v)) for k, v in x.items())
    if isinstance(x, list):
        return ("l",) + tuple(freeze_ordered(v) for v in x)
    return (type(x).__name__, repr(x))
