"""C28: what the maintenance scripts leave behind is complete and reproducible,
and making it again repairs it."""
import ast
import json
import os
import re
import shutil
import sys
import tempfile

from .. import boot, core, disk, world

ID = "C28"
CLOCK = False
RUNS = {"quick": 800, "thorough": 40000}
MUST_PROBE = ["report", "gen", "pages", "report_ok", "gen_ok", "pages_ok", "fault_fired", "crashed", "interrupted", "input_missing", "input_damaged", "cyclic", "mixin_kept", "mixin_made", "same_process", "hashseed", "stale_output", "page_trouble"]
REAL = ["scripts/s01-adf-json-schema-analysis/s2_analyze_adf_json_schema.py, scripts/s02-nodes-code-gen/s1_gen_code.py and its templates, scripts/s02-download-unit-test-data/step1_download.py, atlas_doc_parser.tests.data.schema (copies of the working tree) in freshly started interpreters", "jinja2", "a scratch directory on a real file system"]
STUB = ["I/O errors, torn writes, interrupts and crash points (seeded file seam)", "network (down)", "Confluence client (scripted pages)", "sleeping", "hash seed, time zone, directory order"]
RULE = "two or more freshly started interpreters per seed; distinct: different hash of input, faults and outputs"
STATE = {}
REPORT = "scripts/s01-adf-json-schema-analysis/ADF-JSON-Schema-Analysis.md"
SCHEMA = "adf_json_schema.json"
PAGES = "scripts/s02-download-unit-test-data/tmp"
WORDS = ["paragraph", "heading", "text", "doc", "table", "table_row", "table_cell", "bulletList", "listItem", "media", "mediaSingle", "hardBreak", "codeBlock", "panel", "rule", "emoji", "date", "status", "expand", "nestedExpand", "layoutColumn", "taskItem", "x", "aB", "zZZ", "syncBlock", "inlineCard", "blockCard", "a_b_c"]
MARKS = ["strong", "em", "link", "code", "textColor", "backgroundColor", "underline", "sub_sup", "border", "dataConsumer"]
ATTRS = ["localId", "url", "width", "height", "level", "color", "order", "layout", "state", "title", "alt", "collection"]


def begin(scratch):
    STATE["scratch"] = scratch


def setup(env):
    files = {}
    for top in (boot.PKG, "scripts"):
        for root, dirs, names in os.walk(os.path.join(boot.REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "docs", "tmp"))
            for n in sorted(names):
                if n.endswith((".py", ".jinja2", ".jinja")):
                    with open(os.path.join(root, n), "rb") as f:
                        files[os.path.relpath(os.path.join(root, n), boot.REPO)] = f.read()
    STATE["files"] = files


# -- input ------------------------------------------------------------------
def snake(n):
    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", re.sub("(.)([A-Z][a-z]+)", r"\1_\2", n)).lower()


def gen_schema(rng):
    nodes = rng.sample(WORDS, rng.choice([0, 1, 3, 8, 16, len(WORDS)]))
    marks = rng.sample(MARKS, rng.choice([0, 1, 4, len(MARKS)]))
    names = [n + "_node" for n in nodes] + [m + "_mark" for m in marks]
    for n in list(nodes):
        for suffix in ("_with_alignment_node", "_with_no_marks_node", "_root_only_node", "_full_node"):
            if rng.random() < 0.15:
                names.append(n + suffix)
    for x in ("block_content", "non_nestable_block_content", "inline_node", "tableCell_content", "code_inline_node", "formatted_text_inline_node", "mediaSingle_caption_node", "layout_definition", "misc"):
        if rng.random() < 0.3:
            names.append(x)
    names = list(dict.fromkeys(names))
    rng.shuffle(names)
    acyclic = rng.random() < 0.4
    defs = {}
    for k, n in enumerate(names):
        refs = rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2, 5])))
        if acyclic:
            refs = [r for r in refs if base_of(r) < base_of(n)]
        base = n.rsplit("_", 1)[0]
        props = {}
        if rng.random() < 0.9:
            props["type"] = {"enum": [re.sub("_([a-z])", lambda m: m.group(1).upper(), base.split("_with_")[0])]}
        if rng.random() < 0.6:
            keys = rng.sample(ATTRS, rng.choice([0, 1, 2, 5]))
            attrs = {"type": "object", "properties": {a: rng.choice([{"type": "string"}, {"type": "integer", "minimum": 0}, {"type": "number"}, {"type": "boolean"}, {"enum": ["a", "b"]}, {"anyOf": [{"type": "string"}, {"type": "object"}]}, {"type": "array", "items": {"type": "integer"}}, {"$ref": "#/definitions/" + rng.choice(names)}, {}]) for a in keys}, "additionalProperties": False}
            if rng.random() < 0.7:
                attrs["required"] = [a for a in keys if rng.random() < 0.5]
            props["attrs"] = attrs if rng.random() < 0.9 else {"anyOf": [attrs, {"type": "object"}]}
        if refs or rng.random() < 0.2:
            items = [{"$ref": "#/definitions/" + r} for r in refs]
            props["content"] = {"type": "array", "items": {"anyOf": items} if len(items) != 1 else items[0]}
        if rng.random() < 0.3:
            props["marks"] = {"type": "array", "items": {}}
        if rng.random() < 0.2:
            props["text"] = {"type": "string", "minLength": 1}
        if rng.random() < 0.1:
            props["version"] = {"enum": [1]}
        req = [p for p in props if rng.random() < 0.5]
        if rng.random() < 0.25 and refs:
            defs[n] = {"allOf": [{"$ref": "#/definitions/" + refs[0]}, {"type": "object", "properties": props, "required": req}]}
        else:
            defs[n] = {"type": "object", "properties": props, "required": req, "additionalProperties": False}
    return {"$schema": "http://json-schema.org/draft-04/schema#", "$ref": "#/definitions/doc_node", "definitions": defs}


def gen_fault(rng, n):
    if rng.random() < 0.35:
        return None
    kind = rng.choice(["any", "open-w", "write", "write", "close", "open-r", "read", "list"])
    what = {
        "open-w": ["EACCES", "EROFS", "EMFILE", "ENOSPC", "crash", "crash_after", "interrupt"],
        "write": ["torn_crash", "torn_crash", "torn_crash", "torn_error", "torn_error", "ENOSPC", "EIO", "crash", "crash_after", "interrupt", "EDQUOT"],
        "close": ["EIO", "ENOSPC", "torn_crash", "crash_after", "interrupt"],
        "open-r": ["EIO", "EMFILE", "EACCES", "crash", "interrupt"],
        "read": ["EIO", "ENOMEM", "crash", "interrupt"],
        "list": ["EIO", "crash", "interrupt"],
        "any": ["EIO", "ENOSPC", "crash", "crash_after", "interrupt"],
    }[kind]
    return [kind, rng.choice([1, 1 + rng.randrange(2 * n + 2), 1 + rng.randrange(6 * n + 6) if kind == 'any' else 1 + rng.randrange(2 * n + 2)]), rng.choice(what), rng.choice([0, 0.01, 0.5, 0.9, 0.999])]


def gen(rng, i, tier):
    pages = {}
    for k in range(rng.choice([0, 1, 2, 4])):
        pages[str(294223873 + 7 * k)] = {
            "title": rng.choice(["Welcome", "Page", "a.b", "  x ", "Überblick", "日本", "%s", "tmp", "long " * 20]) + " " + str(k),
            "body": json.dumps({"type": "doc", "version": 1, "content": [{"type": "paragraph", "content": [{"type": "text", "text": rng.choice(["hello", "é日 \u2028 \U0001f600", "", "\n\t\\\"", "x" * 70000])}]} for _ in range(rng.choice([0, 1, 3]))]}, ensure_ascii=rng.random() < 0.5),
            "trouble": rng.choice(["error", "interrupt", "crash", "refused", "torn"]) if rng.random() < 0.3 else None,
        }
    schema = gen_schema(rng)
    procs = []
    kinds = rng.choice([["report"], ["gen"], ["pages"], ["report", "gen"], ["report", "gen", "pages"]])
    for _ in range(rng.choice([1, 1, 2, 3])):
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append({"what": rng.choice(kinds), "order": rng.getrandbits(30), "fault": gen_fault(rng, len(schema["definitions"])), "files": {}, "network": rng.random() < 0.8})
        procs.append({"steps": steps, "input": rng.choice(["good"] * 6 + ["missing", "torn", "empty", "garbage", "earlier"]), "hashseed": rng.choice([0, rng.randrange(1, 2**32), rng.randrange(1, 2**32)]), "cwd": rng.choice(["root", "/", "script"]), "tz": rng.choice(["UTC", "XXX-14"])})
    mixins = [[rng.choice(WORDS), rng.choice(["# mine\nclass X:\n    pass\n", "", "é = 1\n", "x" * 9000])] for _ in range(rng.choice([0, 1, 5]))]
    return {
        "docs": [], "schema": schema, "earlier": gen_schema(rng), "procs": procs, "pages": pages, "kinds": kinds, "mixins": mixins, "cut": rng.random(),
        "stale": rng.choice(["none", "short", "long", "other"]), "hashseed": rng.randrange(1, 2**32),
    }


# -- one world ----------------------------------------------------------------
def write_tree(root, plan):
    for rel, data in STATE["files"].items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
    os.makedirs(os.path.join(root, boot.PKG, "mixins"))
    for name, text in plan["mixins"]:
        put(root, f"{boot.PKG}/mixins/node_{snake(name)}.py", text)
    put(root, "home/.atlassian/sanhehu/sanhe-dev.txt", "token\n")
    if plan["stale"] != "none":
        put(root, REPORT, {"short": "# ADF\n", "long": "- stale\n" * 5000, "other": "é" * 10}[plan["stale"]])
        put(root, PAGES + "/Old page.json", "{}")
        put(root, f"{boot.PKG}/nodes/parse.py", {"short": "", "long": "# stale\n" * 5000, "other": "x ="}[plan["stale"]])


def put(root, rel, text):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)


def set_input(root, plan, kind):
    good = json.dumps(plan["schema"], indent=2)
    if kind == "missing":
        if os.path.exists(os.path.join(root, SCHEMA)):
            os.unlink(os.path.join(root, SCHEMA))
        return
    text = {"good": good, "torn": good[: int(plan["cut"] * (len(good) - 1))], "empty": "", "garbage": "<html>\n", "earlier": json.dumps(plan["earlier"])}[kind]
    try:
        with open(os.path.join(root, SCHEMA), encoding="utf-8") as f:
            if f.read() == text:
                return  # nobody touched it
    except OSError:
        pass
    put(root, SCHEMA, text)


def snapshot(root):
    out = {}
    for d in (os.path.dirname(REPORT), f"{boot.PKG}/nodes", f"{boot.PKG}/mixins", PAGES):
        top = os.path.join(root, d)
        if os.path.isdir(top):
            for n in sorted(os.listdir(top)):
                p = os.path.join(top, n)
                if os.path.isfile(p):
                    with open(p, "rb") as f:
                        out[d + "/" + n] = f.read()
    return out


def spawn(root, plan, proc, scratch):
    job, res, err = (os.path.join(scratch, n) for n in ("job.json", "result.json", "stderr"))
    with open(job, "w", encoding="utf-8") as f:
        json.dump({"steps": proc["steps"], "pages": plan["pages"], "wanted": [int(k) for k in plan["pages"]]}, f)
    if os.path.exists(res):
        os.unlink(res)
    e = {"PYTHONHASHSEED": str(proc["hashseed"]), "PYTHONDONTWRITEBYTECODE": "1", "HOME": os.path.join(root, "home"), "PATH": "/usr/bin:/bin", "TZ": proc["tz"], "LC_ALL": "C.UTF-8"}
    child = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "schemachild.py")
    args = [sys.executable, "-B", child, root, job, res]
    cwd = {"root": root, "/": "/", "script": os.path.join(root, "scripts/s02-gen-code")}[proc["cwd"]]
    pid = os.fork()
    if pid == 0:
        try:
            os.chdir(cwd)
            null = os.open("/dev/null", os.O_RDWR)
            fd = os.open(err, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
            os.dup2(null, 0)
            os.dup2(null, 1)
            os.dup2(fd, 2)
            os.closerange(3, 256)
            os.execve(args[0], args, e)
        finally:
            os._exit(97)
    _, st = os.waitpid(pid, 0)
    try:
        with open(res, encoding="utf-8") as f:
            return json.load(f)
    except (OSError, ValueError):
        with open(err, "rb") as f:
            raise core.HarnessError(f"no result: status {st}: {f.read()[-600:].decode('utf-8', 'replace')}")


CLEAN = {"order": 0, "fault": None, "files": {}, "network": False}


def execute(plan, env, run):
    scratch = tempfile.mkdtemp(dir=STATE["scratch"])
    try:
        body(plan, run, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def pristine(plan, scratch, schema, n):
    """What each script makes of this input in an ordinary first run."""
    root = os.path.join(scratch, "ref%d" % n)
    os.mkdir(root)
    write_tree(root, dict(plan, stale="none"))
    set_input(root, dict(plan, schema=schema), "good")
    before = snapshot(root)
    o = spawn(root, plan, {"steps": [dict(CLEAN, what=w) for w in plan["kinds"]], "hashseed": 0, "cwd": "root", "tz": "UTC"}, scratch)
    for s in o["steps"]:
        if s["end"][0] != "ok":
            raise world.Violation("fails", f"{s['what']}, first run without faults: {s['end'][1:]}")
    after = snapshot(root)
    return before, {k: v for k, v in after.items() if before.get(k) != v or k == REPORT}


def mine(what, path):
    """Is this one of the files the script is to make?"""
    if what == "report":
        return path == REPORT
    if what == "pages":
        return path.startswith(PAGES + "/")
    return path.startswith((f"{boot.PKG}/nodes/", f"{boot.PKG}/mixins/"))


def body(plan, run, scratch):
    before, want = pristine(plan, scratch, plan["schema"], 0)
    earlier = None
    if any(p["input"] == "earlier" for p in plan["procs"]):
        earlier = pristine(plan, scratch, plan["earlier"], 1)[1]
    if "report" in plan["kinds"]:
        oracle_report(plan["schema"], want.get(REPORT), run)
    if "gen" in plan["kinds"]:
        oracle_gen(plan, want, run)
    if "pages" in plan["kinds"]:
        oracle_pages(plan, want)
    root = os.path.join(scratch, "tree")
    os.mkdir(root)
    write_tree(root, plan)
    if plan["stale"] != "none":
        run.probe("stale_output")
    hand = {f"{boot.PKG}/mixins/node_{snake(n)}.py" for n, _ in plan["mixins"]}
    kept = {k: v for k, v in snapshot(root).items() if k in hand}
    for n, proc in enumerate(plan["procs"] + [None]):
        final = proc is None
        if final:
            proc = {"steps": [dict(CLEAN, what=w, order=5) for w in plan["kinds"]], "input": "good", "hashseed": plan["hashseed"], "cwd": "/", "tz": "UTC"}
        set_input(root, plan, proc["input"])
        if proc["hashseed"]:
            run.probe("hashseed")
            run.fault("hashseed")
        if proc["input"] != "good":
            run.fault("input:" + proc["input"])
        # one process per step when what a single step did has to be seen
        groups = [[s] for s in proc["steps"]] if proc["input"] in ("missing", "torn", "empty", "garbage") else [proc["steps"]]
        for steps in groups:
            old = snapshot(root)
            o = spawn(root, plan, dict(proc, steps=steps), scratch)
            run.calls += len(steps)
            now = snapshot(root)
            if len(steps) > 1:
                run.probe("same_process")
            if o.get("network"):
                run.probe("page_trouble")
                run.fault("page-trouble", o["network"])
            bad_page = bool(o.get("network"))
            judge(plan, run, proc, steps, o, old, now, want if proc["input"] != "earlier" else earlier, f"process {n + 1}" if not final else "the last run", bad_page)
            for k, v in kept.items():
                if now.get(k) != v:
                    raise world.Violation("mixin-changed", f"{k}: {old.get(k)!r} -> {now.get(k)!r}"[:400])
            run.mix((o["steps"], sorted(now.items())))
    run.mix((plan["hashseed"], plan["procs"]))
    if kept:
        run.probe("mixin_kept")


def judge(plan, run, proc, steps, o, old, now, want, who, bad_page):
    damaged = proc["input"] in ("missing", "torn", "empty", "garbage")
    last = {}
    for s, r in zip(steps, o["steps"]):
        what = s["what"]
        run.probe(what)
        end = r["end"]
        if r.get("fired"):
            run.probe("fault_fired")
            run.fault(f"{r['fired'][2]}:{r['fired'][0]}")
        if end[0] == "crash":
            run.probe("crashed")
        elif end[0] == "exc" and end[1] == "KeyboardInterrupt":
            run.probe("interrupted")
        elif end[0] == "exc" and not r.get("fired"):
            if what == "pages" and bad_page:
                pass
            elif what != "pages" and damaged:
                run.probe("input_missing" if proc["input"] == "missing" else "input_damaged")
            else:
                raise world.Violation("fails", f"{what}, {who}, nothing in its way: {end[1:]}")
        if end[0] == "ok":
            run.probe(what + "_ok")
            if damaged and what != "pages":
                raise world.Violation("silent-failure", f"{what}, {who}: reported success with its input {proc['input']}")
        last[what] = r
    if len(o["steps"]) < len(steps):
        run.probe("crashed")
        crashed = steps[len(o["steps"])]["what"] if o["steps"] and o["steps"][-1]["end"][0] != "crash" or not o["steps"] else None
        if crashed:  # died in the middle of a page download
            last[crashed] = {"end": ["crash"], "fired": None}
    for what in ("report", "gen", "pages"):
        r = last.get(what)
        files = {k for k in set(old) | set(now) if mine(what, k)}
        if r is None or damaged and what != "pages" and not r.get("fired"):
            for k in files:
                if old.get(k) != now.get(k):
                    raise world.Violation("output-damaged", f"{who}: {k} changed, though {'its input is ' + proc['input'] if r else 'nothing was to make it'} ({[s['what'] for s in steps]})")
        elif r["end"][0] == "ok":
            for k in sorted(files | {k for k in want if mine(what, k)}):
                exp = want.get(k)
                if exp is None and what != "pages":
                    continue  # not one of this run's files
                if now.get(k) != exp:
                    raise world.Violation("wrong-output", f"{what}, {who}, hash seed {proc['hashseed']}: {k}: {delta(exp, now.get(k))}")


def delta(want, got):
    if got is None or want is None:
        return "missing" if got is None else "should not be there"
    a, b = want.decode("utf-8", "replace").split("\n"), got.decode("utf-8", "replace").split("\n")
    for k in range(max(len(a), len(b))):
        x, y = a[k] if k < len(a) else None, b[k] if k < len(b) else None
        if x != y:
            return f"line {k + 1}: expected {x!r:.200}, got {y!r:.200} ({len(want)} and {len(got)} bytes)"


# -- what is to be in the output, from the input alone ------------------------
def base_of(name):
    if name.endswith("_node"):
        return name[:-5].split("_with_")[0]
    return name[:-5] if name.endswith("_mark") else name


def refs_in(x):
    if isinstance(x, dict):
        r = x.get("$ref")
        if isinstance(r, str) and r.startswith("#/definitions/"):
            yield r[len("#/definitions/"):]
        for v in x.values():
            yield from refs_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs_in(v)


def enums_in(x):
    if isinstance(x, dict):
        t = x.get("type")
        if isinstance(t, dict) and "enum" in t:
            yield from t["enum"]
        for v in x.values():
            yield from enums_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from enums_in(v)


def oracle_report(schema, text, run):
    if text is None:
        raise world.Violation("incomplete-report", "no report")
    defs = schema["definitions"]
    parts, cur = {}, None
    for line in text.decode("utf-8").split("\n"):
        m = re.match(r"#+ (.*)", line)
        if m:
            cur = parts.setdefault(m.group(1).strip(), [])
        elif cur is not None and line.strip():
            cur.append(line)

    def items(title):
        for t, lines in parts.items():
            if title in t:
                return [x[2:] for x in lines if x.startswith("- ")]
        raise world.Violation("incomplete-report", f"no section {title!r} in {sorted(parts)}")
    types = set(enums_in(defs))
    got = items("All Type Enum Values")
    if sorted(got) != sorted(types):
        raise world.Violation("incomplete-report", f"types: {world.diff_text(sorted(types), sorted(got))}")
    deps = {}
    for n, d in defs.items():
        if n.endswith("_node"):
            b = base_of(n)
            deps.setdefault(b, set()).update(base_of(r) for r in refs_in(d) if r.endswith(("_node", "_mark")))
    deps = {b: v - {b} for b, v in deps.items()}
    order, shown = [], {}
    for t, lines in parts.items():
        if "Implementation Order" in t:
            for line in lines:
                m = re.match(r"\d+\. \*\*(.+?)\*\* - (?:depends on: (.*)|no dependencies)$", line)
                if m:
                    order.append(m.group(1))
                    shown[m.group(1)] = set(m.group(2).split(", ")) if m.group(2) else set()
    if sorted(order) != sorted(deps):
        raise world.Violation("incomplete-report", f"nodes: {world.diff_text(sorted(deps), sorted(order))}")
    for b in deps:
        if shown[b] != deps[b]:
            raise world.Violation("incomplete-report", f"dependencies of {b}: {world.diff_text(sorted(deps[b]), sorted(shown[b]))}")
    # nodes that reach no cycle come after all they depend on
    clean = {b for b in deps if not reaches_cycle(b, deps)}
    if clean != set(deps):
        run.probe("cyclic")
    at = {b: k for k, b in enumerate(order)}
    for b in clean:
        for x in deps[b]:
            if x in at and at[x] > at[b]:
                raise world.Violation("wrong-order", f"{b} is listed before {x}, which it depends on")
    marks = {base_of(n) for n in defs if n.endswith("_mark")}
    if sorted(items("Mark Definitions")) != sorted(marks):
        raise world.Violation("incomplete-report", f"marks: {world.diff_text(sorted(marks), sorted(items('Mark Definitions')))}")
    leaf = {"Node" + b[0].upper() + b[1:] for b in deps if not deps[b]}
    if set(items("Leaf Nodes")) != leaf:
        raise world.Violation("incomplete-report", f"leaf nodes: {world.diff_text(sorted(leaf), sorted(items('Leaf Nodes')))}")
    if len(items("Composite Nodes")) != len(deps) - len(leaf):
        raise world.Violation("incomplete-report", f"composite nodes: {items('Composite Nodes')}")


def reaches_cycle(b, deps):
    """Does something b (transitively) depends on, or b, lie on a cycle?"""
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        # is x on a cycle?
        inner, t2 = set(), [y for y in deps.get(x, ())]
        while t2:
            y = t2.pop()
            if y == x:
                return True
            if y not in inner:
                inner.add(y)
                t2.extend(deps.get(y, ()))
        todo.extend(deps.get(x, ()))
    return False


def oracle_gen(plan, want, run):
    defs = plan["schema"]["definitions"]
    skip = ("inline_node", "code_inline_node", "formatted_text_inline_node", "mediaSingle_caption_node")
    hand = {f"node_{snake(n)}" for n, _ in plan["mixins"]}
    registry = {"mark": {}, "node": {}}
    for n, d in defs.items():
        kind = "mark" if n.endswith("_mark") else "node" if n.endswith("_node") else None
        if kind is None or n in skip or "_with_" in n or n.endswith(("_root_only_node", "_full_node")):
            continue
        base = n[:-5]
        mod = f"{kind}_{snake(base)}"
        cls = kind.capitalize() + "".join(w.capitalize() for w in snake(base).split("_"))
        rel = f"{boot.PKG}/nodes/{mod}.py"
        props = dict(d.get("properties", {}))
        for x in d.get("allOf", []):
            props.update(x.get("properties", {}))
        enum = (props.get("type") or {}).get("enum", [base])[0]
        registry[kind].setdefault(enum, []).append(cls)
        data = want.get(rel)
        if data is None:
            data = STATE["files"].get(rel)
        try:
            tree = ast.parse(data.decode("utf-8"))
        except (SyntaxError, AttributeError) as e:
            raise world.Violation("incomplete-modules", f"{rel} of {n}: {e}")
        classes = {c.name: c for c in tree.body if isinstance(c, ast.ClassDef)}
        if cls not in classes:
            raise world.Violation("incomplete-modules", f"{rel} of {n}: no class {cls} in {sorted(classes)}")

        def fields(c):
            return [a.target.id for a in classes[c].body if isinstance(a, ast.AnnAssign)]
        exp = {"type"} | {k for k in ("attrs",) if k in props}
        if kind == "node":
            exp |= {k for k in ("content", "marks", "text", "version") if k in props}
        if set(fields(cls)) != exp:
            raise world.Violation("incomplete-modules", f"{cls} has the fields {fields(cls)}, expected {sorted(exp)}")
        if cls + "Mixin" not in [b.id for b in classes[cls].bases if isinstance(b, ast.Name)]:
            raise world.Violation("incomplete-modules", f"{cls} does not use its mixin")
        if repr(enum)[1:-1] not in ast.unparse(classes[cls]):
            raise world.Violation("incomplete-modules", f"{cls} does not name its type {enum}")
        if "attrs" in props:
            a = props["attrs"].get("properties", {})
            req = set(props["attrs"].get("required", []))
            got = fields(cls + "Attrs") if cls + "Attrs" in classes else None
            if got is None or sorted(got) != sorted(a):
                raise world.Violation("incomplete-modules", f"{cls}Attrs has the fields {got}, expected {sorted(a)}")
            opt = {x.target.id for x in classes[cls + "Attrs"].body if isinstance(x, ast.AnnAssign) and x.value is not None}
            if opt != set(a) - req:
                raise world.Violation("incomplete-modules", f"optional fields of {cls}Attrs: {sorted(opt)}, expected {sorted(set(a) - req)}")
        mix = f"{boot.PKG}/mixins/{mod}.py"
        if mod not in hand:
            run.probe("mixin_made")
            if cls + "Mixin" not in (want.get(mix) or b"").decode("utf-8"):
                raise world.Violation("incomplete-modules", f"no stub {mix}")
    text = want.get(f"{boot.PKG}/nodes/parse.py")
    try:
        tree = ast.parse(text.decode("utf-8"))
    except (SyntaxError, AttributeError) as e:
        raise world.Violation("incomplete-registry", f"{e}")
    for kind in registry:
        got = {}
        for a in tree.body:
            if isinstance(a, ast.Assign) and isinstance(a.value, ast.Dict) and kind in a.targets[0].id:
                for k, v in zip(a.value.keys, a.value.values):
                    got.setdefault(k.value, []).append(v.id)
        if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in registry[kind].items()}:
            raise world.Violation("incomplete-registry", f"{kind}s: {world.diff_text(registry[kind], got)}")


def oracle_pages(plan, want):
    exp = {f"{PAGES}/{q['title']}.json": json.loads(q["body"]) for q in plan["pages"].values()}
    got = {k: v for k, v in want.items() if k.startswith(PAGES + "/")}
    if set(got) != set(exp):
        raise world.Violation("incomplete-pages", f"{world.diff_text(sorted(exp), sorted(got))}")
    for k, v in got.items():
        if json.loads(v) != exp[k]:
            raise world.Violation("wrong-page", f"{k}: {v!r:.200}")


def shrink(plan):
    for k in range(len(plan["procs"])):
        yield dict(plan, procs=plan["procs"][:k] + plan["procs"][k + 1:])
    for k, p in enumerate(plan["procs"]):
        for j in range(len(p["steps"])):
            if len(p["steps"]) > 1:
                q = dict(p, steps=p["steps"][:j] + p["steps"][j + 1:])
                yield dict(plan, procs=plan["procs"][:k] + [q] + plan["procs"][k + 1:])
            if p["steps"][j]["fault"]:
                q = dict(p, steps=p["steps"][:j] + [dict(p["steps"][j], fault=None)] + p["steps"][j + 1:])
                yield dict(plan, procs=plan["procs"][:k] + [q] + plan["procs"][k + 1:])
    names = list(plan["schema"]["definitions"])
    for size in (max(1, len(names) // 2), 1):
        for lo in range(0, len(names), size):
            keep = names[:lo] + names[lo + size:]
            yield dict(plan, schema=dict(plan["schema"], definitions={n: plan["schema"]["definitions"][n] for n in keep}))
    for k in plan["pages"]:
        yield dict(plan, pages={a: b for a, b in plan["pages"].items() if a != k})
    for k in plan["kinds"]:
        if len(plan["kinds"]) > 1:
            kinds = [x for x in plan["kinds"] if x != k]
            yield dict(plan, kinds=kinds, procs=[q for q in (dict(p, steps=[s for s in p["steps"] if s["what"] in kinds]) for p in plan["procs"]) if q["steps"]])
    for k, v in (("mixins", []), ("stale", "none")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
