"""C18: download caches never serve truncated or failed downloads."""
import importlib
import importlib.util
import io
import json
import math
import os
import random
import re
import resource
import shutil
import signal
import sys
import tempfile

from .. import adf, boot, core, disk, net, world
from . import c04, c17

ID = "C18"
ZYGOTE = "cold"
CLOCK = True
RUNS = {"quick": 900, "thorough": 40000}
MUST_PROBE = ["served_from_cache", "fetched", "remote_failed", "fault_fired", "crashed", "changed_remote", "main_complete", "big_value", "interrupted", "redirected", "empty_body", "confusable"]
REAL = ["scripts/crawl_atlas_doc_reference/step1_crawl_document.py and atlas_doc_parser/tests/data (copies of the working tree)", "diskcache and sqlite on a scratch directory", "requests/urllib3, httpx/httpcore, sanhe_confluence_sdk above the socket"]
STUB = ["the network and the remote side (simulated byte streams)", "file errors, torn writes, file-size limits and crash points (seeded)", "clock"]
ASSUME = ["a crash loses the process and its buffers, not the kernel's page cache: sqlite's own power-failure safety is not tested"]
STATE = {}
SCRIPT = os.path.join("scripts", "crawl_atlas_doc_reference", "step1_crawl_document.py")
HOST = "developer.atlassian.com"
HOME = f"https://{HOST}/cloud/jira/platform/apis/document/structure/"
SCHEMA = "https://unpkg.com/@atlaskit/adf-schema@51.5.4/dist/json-schema/v1/full.json"


def begin(scratch):
    STATE["scratch"] = scratch


def setup(env):
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
        os.environ.pop(k, None)
    import ssl
    import requests, bs4, diskcache, httpx, httpcore, jmespath, httpcore._sync.http11, anyio  # noqa
    import home_secret_toml.api  # noqa
    import sanhe_confluence_sdk.methods.page.get_page  # noqa
    import sanhe_confluence_sdk.client  # noqa
    import diskcache.core
    import encodings.idna, encodings.latin_1, html.entities, sqlite3, shutil  # noqa
    ctx = ssl.create_default_context()
    httpx._config.create_ssl_context = lambda *a, **kw: ctx
    import httpx._transports.default as d
    if hasattr(d, "create_ssl_context"):
        d.create_ssl_context = lambda *a, **kw: ctx
    bs4.BeautifulSoup("<div><h1>x</h1></div>", "html.parser").prettify()
    diskcache.core.Cache(os.path.join(STATE["scratch"], f"warm{os.getpid()}")).close()
    files = {}
    for base in (boot.PKG_DIR,):
        for root, dirs, names in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "docs"))
            for n in sorted(names):
                if n.endswith((".py", ".jinja")):
                    p = os.path.join(root, n)
                    with open(p, "rb") as f:
                        files[os.path.relpath(p, boot.REPO)] = f.read()
    with open(os.path.join(boot.REPO, SCRIPT), "rb") as f:
        files[SCRIPT] = f.read()
    STATE["files"] = files
    STATE["script"] = compile(files[SCRIPT], SCRIPT, "exec", dont_inherit=True)
    for rel in files:
        if "/tests/" in rel:
            STATE.setdefault("codes", {})[rel] = compile(files[rel], os.path.join(boot.REPO, rel), "exec", dont_inherit=True)
            boot._codes[os.path.join(boot.REPO, rel)] = STATE["codes"][rel]


# --------------------------------------------------------------------------
# plans
# --------------------------------------------------------------------------
STATUS = [400, 401, 403, 404, 410, 429, 500, 502, 503]


# pairs of addresses that a careless cache key confuses
ALIKE = [
    ["marks/text/", "nodes/text/"], ["text/", "text/?v=2"], ["a", "a/"], ["A/", "a/"], ["p?x=1&y=2", "p?y=2&x=1"], ["a/b/", "a_b/"], ["a%20b/", "a+b/"],
    ["n/1/", "n/11/"], ["x/index.html", "x/"], ["p?id=1", "p?id=01"], ["doc/" + "long" * 60 + "1", "doc/" + "long" * 60 + "2"], ["\u00e9/", "e/"],
]


def gen_outcome(rng, bad, vmax, hops=0):
    o = {"kind": "ok", "version": rng.randrange(vmax), "gzip": rng.random() < 0.3, "chunked": rng.random() < 0.3}
    if rng.random() < hops:
        o["hop"] = rng.choice([301, 302, 307, 308])
    if rng.random() < bad:
        k = rng.choice(["error", "error", "error", "short", "short", "reset", "stall", "drop", "short_head", "timedout", "timedout", "unreach"])
        o["kind"] = k
        o["at"] = rng.choice([0, 0.1, 0.5, 0.99, 1.0])
        if k == "error":
            o["status"] = rng.choice(STATUS)
            o["as"] = rng.choice(["json", "html"])
    return o


def gen(rng, i, tier):
    comp = rng.choice(["crawler", "crawler", "crawler", "main", "page", "page", "schema"])
    bad = rng.choice([0, 0.2, 0.5, 0.8])
    vmax = rng.choice([1, 3]) if comp != "main" else 1
    procs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        fault = None
        x = rng.random()
        if x < 0.25:
            fault = ["disk", rng.randrange(1, 12 if comp in ("crawler", "main") else 7), rng.choice(["EIO", "ENOSPC", "crash", "crash_after", "torn_crash", "torn_error", "interrupt", "EACCES", "EMFILE"]), rng.choice([0, 0.01, 0.5, 0.99, 1.0])]
        elif x < 0.45:
            fault = ["inject", int(math.exp(rng.uniform(0, math.log(60)))), rng.choice(["KeyboardInterrupt", "SystemExit", "MemoryError", "OSError"])]
        elif x < 0.65:
            fault = ["crash", int(math.exp(rng.uniform(0, math.log(1500 if comp in ("crawler", "main") else 30))))]
        elif x < 0.75:
            fault = ["fsize", rng.choice([0, 100, 5000, 30000, 33000, 50000, 100000])]
        ops = []
        for _ in range(1 if comp == "main" else rng.choice([1, 2, 3, 6])):
            ops.append([rng.choice(["get", "get", "get", "fresh"] if comp == "crawler" else ["get", "get", "twice"]), rng.randrange(3)])
        procs.append({"fault": fault, "ops": ops})
    hops = rng.choice([0, 0.3]) if comp in ("crawler", "main") else 0
    sizes = [rng.choice([10, 500, 20000, 40000, 70000]) for _ in range(4)]
    paths = None
    if comp == "crawler":
        paths = rng.choice(ALIKE + [["a/", "b?x=1"]] * 4)
        sizes = [0 if rng.random() < 0.12 else x for x in sizes]
    return {
        "paths": paths,
        "docs": [], "comp": comp, "procs": procs, "outcomes": [[gen_outcome(rng, bad, vmax, hops) for _ in range(rng.choice([1, 3, 6]))] for _ in range(4)],
        "refuse": [rng.choice(["refused", "dns", "timeout", None]) for _ in range(rng.choice([0, 0, 4]))], "sizes": sizes, "seed": rng.getrandbits(30),
    }


# --------------------------------------------------------------------------
# the remote side's contents
# --------------------------------------------------------------------------
WORDS = ["alpha", "b\u00eata", "\u4e2d\u6587", "delta", "&amp;", "emoji\U0001F600", "&lt;x&gt;", "o'k"]


def filler(url, version, size):
    rng = random.Random(f"{url}{version}{size}")
    out, n = [], 0
    while n < size:
        w = rng.choice(WORDS) + str(rng.randrange(1000))
        out.append(w)
        n += len(w) + 1
    return " ".join(out)


def page_value(url, version, size):
    return {"type": "doc", "version": 1, "content": [{"type": "paragraph", "content": [{"type": "text", "text": filler(url, version, size)}]}], "n": [version, 1.0, True, None]}


def urls_of(plan):
    comp = plan["comp"]
    if comp == "crawler":
        return [HOME] + [HOME + x for x in plan["paths"]]
    if comp == "main":
        return [HOME, f"https://{HOST}/n/0/", f"https://{HOST}/n/1/", f"https://{HOST}/n/2/"]
    if comp == "page":
        return [f"https://sim.atlassian.net/wiki/api/v2/pages/{100 + k}?body-format=atlas_doc_format" for k in range(3)]
    return [SCHEMA]


def content(comp, url, version, size):
    if comp == "crawler" and not size:
        return ""
    if comp in ("crawler", "main"):
        nav = "".join(f'<a href="/n/{k}/">link{k}</a>' for k in range(3)) if comp == "main" else ""
        return f'<!DOCTYPE html><html><body><div class="sideNavLinksScrollable">{nav}</div><div id="m"><h1>T</h1><p>{filler(url, version, size)}</p></div></body></html>'
    if comp == "page":
        return json.dumps({"id": "1", "title": "t", "body": {"atlas_doc_format": {"representation": "atlas_doc_format", "value": json.dumps(page_value(url, version, size))}}})
    return json.dumps({"$schema": "x", "definitions": {"a": filler(url, version, size), "v": [version, 1.0, True]}})


def value_of(comp, url, version, size):
    """What a correct caller gets for this delivered version."""
    if comp in ("crawler", "main"):
        return content(comp, url, version, size)
    if comp == "page":
        return adf.freeze(page_value(url, version, size))
    return adf.freeze(json.loads(content(comp, url, version, size)))


# --------------------------------------------------------------------------
# one client process
# --------------------------------------------------------------------------
def process(plan, root, proc, state, report):
    """Runs the operations of one process; ``report`` streams facts out, so
    that they survive a crash."""
    comp = plan["comp"]
    urls = urls_of(plan)
    size = {u: plan["sizes"][k] for k, u in enumerate(urls)}

    from urllib.parse import quote
    asked_as = {quote(u, safe=":/?&=%+"): u for u in urls}  # how it looks on the wire
    hop_to = f"https://{HOST}/r/"
    pending, count = {}, {}

    def decide(url, n):
        url = asked_as.get(url, url)
        if url.startswith(hop_to) and url[len(hop_to):] in pending:
            u, o = pending.pop(url[len(hop_to):])
            report(("request", u, o))
            return o
        n = count[url] = count.get(url, -1) + 1
        if url not in urls:
            return {"kind": "error", "status": 404, "as": "html"}
        if proc.get("clean"):
            o = {"kind": "ok", "version": proc["clean"][urls.index(url)]}
        else:
            k = state["asked"].get(url, 0) + n
            seq = plan["outcomes"][urls.index(url)]
            o = seq[k] if k < len(seq) else {"kind": "ok", "version": seq[-1]["version"]}
        if comp == "crawler" and not size[url] and o["kind"] in ("short", "reset", "stall", "timedout", "unreach"):
            o = dict(o, kind="drop")  # an empty body has no middle
        if o.get("hop"):
            k = f"{urls.index(url)}-{n}"
            pending[k] = (url, {x: v for x, v in o.items() if x != "hop"})
            report(("hop", url))
            return {"kind": "hop", "status": o["hop"], "to": hop_to + k}
        report(("request", url, o))
        return o
    def body_of(u, v):
        u = asked_as.get(u, u)
        if u.startswith(hop_to):
            u = urls[int(u[len(hop_to):].split("-")[0])]
        return content(comp, u, v, size[u])
    remote = net.Remote(decide, lambda u, v: (body_of(u, v).encode("utf-8"), "text/html" if comp in ("crawler", "main") else "application/json"))
    tries = [state["connects"]]

    def refuse(host):
        n = tries[0]
        tries[0] += 1
        report(("connect", host, n))
        if proc.get("clean") or n >= len(plan["refuse"]):
            return None
        if plan["refuse"][n]:
            report(("refused", plan["refuse"][n]))
        return plan["refuse"][n]
    remote.refuse = refuse
    net.install(remote)
    fault = proc["fault"]
    d = disk.Disk(root, None, None)
    if fault and fault[0] == "disk":
        d.fault = (fault[1], fault[2], fault[3])
    d.on_crash = lambda: report(("fault", "crash:" + d.log[-1][0]))
    d.skip = (boot.PKG + os.sep,)
    rng = random.Random(plan["seed"] * 100 + state["pn"])
    os.urandom = lambda n: rng.randbytes(n)  # names of stored files
    sys.stdout = io.StringIO()
    os.chdir(root)
    boot.ROOT[0] = root
    with d:
        load = {"crawler": load_script, "main": load_script, "page": load_page, "schema": load_schema}[comp]
        report(("op", "load", 0))
        solo = None
        if fault and fault[0] in ("inject", "crash"):
            codes = list(core.walk_code(STATE["script"])) if comp in ("crawler", "main") else [c for r in STATE["codes"] if r.endswith(("samples.py", "schema.py")) for c in core.walk_code(STATE["codes"][r])]
            if fault[0] == "crash" and comp in ("crawler", "main"):
                import diskcache.core as dc
                for name in sorted(vars(dc.Cache)) + sorted(vars(dc.Disk)):
                    f = vars(dc.Cache).get(name) or vars(dc.Disk).get(name)
                    f = getattr(f, "__wrapped__", f)
                    if hasattr(f, "__code__"):
                        codes.extend(core.walk_code(f.__code__))
            core.instrument(codes, None, True)

            def make():
                if fault[0] == "crash":
                    report(("fault", "crash"))
                    os._exit(disk.CRASH)
                report(("fault", "interrupt:" + fault[2]))
                return c04.make(fault[2])
            solo = (fault[1], make)
        if fault and fault[0] == "fsize":
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], resource.RLIM_INFINITY))

        def attempt(fn):
            try:
                return ("ok", fn())
            except BaseException as e:
                return ("exc", type(e).__name__, re.sub("0x[0-9a-f]+", "0x", str(e).replace(root, "ROOT"))[:200])
            finally:
                if d.fired and not state.get("told"):
                    state["told"] = True
                    report(("fault", d.fired[2] + ":" + d.fired[0]))

        def go():
            o = attempt(lambda: load(root))
            if fault and fault[0] == "fsize":
                report(("fault", f"file-size-limit"))
            if o[0] == "exc":
                report(("result", o))
                return
            get = o[1]
            report(("result", ("ok", None)))
            for kind, n in proc["ops"]:
                u = urls[n % len(urls)]
                report(("op", kind, u))
                report(("result", attempt(lambda: get(kind, u, n % len(urls)))))
        if solo:
            with core.Solo(*solo) as s:
                go()
        else:
            go()


def load_script(root):
    path = os.path.join(root, SCRIPT)
    ns = {"__name__": "step1_crawl_document", "__file__": path}
    exec(STATE["script"], ns)

    def get(kind, url, n):
        if kind == "main":
            ns["main"]()
            return None
        if kind == "fresh":
            return ns["get_html_by_url_with_cache"](url, use_cache=False)
        return ns["get_html_by_url_with_cache"](url)
    return get


def load_page(root):
    c = importlib.import_module(boot.PKG + ".tests.data.client")
    from sanhe_confluence_sdk.client import Confluence
    if c.client is None:
        c.client = Confluence(url="https://sim.atlassian.net", username="u", password="p")
    s = importlib.import_module(boot.PKG + ".tests.data.samples")

    def get(kind, url, n):
        p = s.PageSample(name=f"sample{n}", url=f"https://sim.atlassian.net/wiki/spaces/X/pages/{100 + n}/Title")
        v = adf.freeze(p.adf)
        if kind == "twice" and adf.freeze(p.adf) != v:
            raise world.Violation("second-access-differs", "the same sample object")
        return v
    return get


def load_schema(root):
    s = importlib.import_module(boot.PKG + ".tests.data.schema")

    def get(kind, url, n):
        a = s.AdfJsonSchema()
        v = adf.freeze(a.data)
        if kind == "twice" and adf.freeze(a.data) != v:
            raise world.Violation("second-access-differs", "the same schema object")
        return v
    return get


def run_process(fn):
    """Run fn(report) in a forked process; returns (facts, crashed)."""
    import pickle, struct, traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            real_write = os.write

            def report(x):
                b = pickle.dumps(x)
                b = struct.pack(">I", len(b)) + b
                while b:
                    b = b[real_write(w, b):]
            try:
                fn(report)
            except BaseException:
                report(("harness", traceback.format_exc()))
        finally:
            os._exit(0)
    os.close(w)
    data = world._read_all(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    facts, pos = [], 0
    while pos + 4 <= len(data):
        n = struct.unpack(">I", data[pos:pos + 4])[0]
        facts.append(pickle.loads(data[pos + 4:pos + 4 + n]))
        pos += 4 + n
    for f in facts:
        if f[0] == "harness":
            raise core.HarnessError(f[1])
    crashed = os.WIFEXITED(st) and os.WEXITSTATUS(st) == disk.CRASH
    if st and not crashed:
        raise core.HarnessError(f"client process died: {st}")
    return facts, crashed


# --------------------------------------------------------------------------
# the oracle
# --------------------------------------------------------------------------
WHAT = {"crawler": "get_html_by_url_with_cache", "main": "main", "page": "PageSample.adf", "schema": "AdfJsonSchema.data"}


def execute(plan, env, run):
    root = tempfile.mkdtemp(dir=STATE["scratch"])
    try:
        for rel, data in STATE["files"].items():
            if plan["comp"] in ("crawler", "main") and rel != SCRIPT:
                continue
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        os.makedirs(os.path.join(root, "tests", "adf_samples"))
        body(plan, run, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def complete(o):
    """Was this response delivered completely and successfully?"""
    return o["kind"] == "ok"


def body(plan, run, root):
    comp = plan["comp"]
    urls = urls_of(plan)
    size = {u: plan["sizes"][k] for k, u in enumerate(urls)}
    state = {"asked": {}, "connects": 0}
    delivered = {u: set() for u in urls}
    stored = {}  # url -> the value an intact entry must hold
    doubtful = {}  # url -> why its entry may be incomplete
    last = [plan["outcomes"][k][-1]["version"] for k in range(len(urls))]
    procs = [dict(p, ops=[["main", 0]] if comp == "main" else p["ops"]) for p in plan["procs"]]
    final = [["main", 0]] if comp == "main" else [["get", n] for n in range(len(urls))]
    procs += [{"fault": None, "ops": final, "clean": last}, {"fault": None, "ops": final, "clean": [v + 7 for v in last] if comp != "main" else last}]
    for v in size.values():
        if v > 33000:
            run.probe("big_value")
    if comp == "crawler" and plan["paths"] != ["a/", "b?x=1"]:
        run.probe("confusable")
    log = []
    for pn, proc in enumerate(procs):
        state["pn"] = pn
        facts, crashed = run_process(lambda report: process(plan, root, proc, dict(state), report))
        if crashed:
            run.probe("crashed")
        op, asked, refused, faulted, here = None, [], False, None, False
        for f in facts + ([("result", ("crash",))] if crashed else []):
            if f[0] == "op":
                op, asked, refused, here = f[1:], [], False, False
                if crashed is False:
                    pass
            elif f[0] == "connect":
                state["connects"] += 1
            elif f[0] == "refused":
                refused = True
                run.fault("net:" + f[1])
            elif f[0] == "hop":
                run.probe("redirected")
            elif f[0] == "request":
                u, o = f[1], f[2]
                state["asked"][u] = state["asked"].get(u, 0) + 1
                if not size[u] and comp == "crawler":
                    run.probe("empty_body")
                asked.append((u, o))
                if complete(o):
                    if u in delivered:
                        if delivered[u] and o["version"] not in delivered[u]:
                            run.probe("changed_remote")
                        delivered[u].add(o["version"])
                    run.probe("fetched")
                else:
                    run.fault("net:" + o["kind"] + (":" + str(o.get("status", "")) if o["kind"] == "error" else ""))
                    run.probe("remote_failed")
            elif f[0] == "fault":
                faulted = f[1]
                here = True
                run.fault(f[1])
                run.probe("fault_fired")
                if f[1].startswith("interrupt"):
                    run.probe("interrupted")
            elif f[0] == "result":
                run.calls += 1
                judge(plan, run, proc, pn, op, f[1], asked, refused, faulted, here, delivered, stored, doubtful, size, urls)
        log.append((pn, [x if x[0] != "result" else (x[0], world.short(x[1], 80)) for x in facts]))
    if comp == "main":
        d = os.path.join(root, os.path.dirname(SCRIPT), "tmp")
        from bs4 import BeautifulSoup
        names = {"Atlassian Document Format": urls[0], "link0": urls[1], "link1": urls[2], "link2": urls[3]}
        got = sorted(os.listdir(d))
        if got != sorted(n + ".html" for n in names):
            raise world.Violation("incomplete-output", f"a clean crawl produced {got}")
        for n, u in names.items():
            with open(os.path.join(d, n + ".html"), encoding="utf-8") as f:
                text = f.read()
            want = str(BeautifulSoup(content(comp, u, last[urls.index(u)], size[u]), "html.parser").find("div", id="m").prettify())
            if text != want:
                raise world.Violation("wrong-output", f"{n}.html of a clean crawl: {world.diff_text(want, text)}")
        run.probe("main_complete")
    run.mix(log)


def is_error(v):
    """Is this the body of an error response (perhaps of an earlier one)?"""
    if isinstance(v, str):
        return bool(re.fullmatch(r"<html><body><h1>error \d+</h1><div><h1>error</h1>[^<]*</div></body></html>", v)) or v.startswith('{"error": {"status"')
    return v[0] == "d" and any(x[0] == "error" for x in v[1:])


def judge(plan, run, proc, pn, op, res, asked, refused, faulted, here, delivered, stored, doubtful, size, urls):
    comp = plan["comp"]
    kind, u = op
    where = f"{WHAT[comp]}: process {pn}, {kind} {u if u else ''}"
    bad_net = refused or any(not complete(o) for _, o in asked)
    if kind == "load":
        if res[0] == "exc" and not faulted:
            raise world.Violation("load-fails", f"{where}: {res[1:]}")
        return
    if kind == "main":
        if res[0] == "ok":
            for x, o in asked:
                if not complete(o):
                    raise world.Violation("failure-hidden", f"{where}: succeeded although the remote failed with {o}")
            for x in urls:
                stored[x] = True
                if not delivered[x]:
                    raise world.Violation("failure-hidden", f"{where}: succeeded without {x}")
        elif res[0] == "exc" and not faulted and not bad_net:
            raise world.Violation("get-fails", f"{where}: {res[1:]}")
        if res[0] == "ok" and proc.get("clean"):
            if all(doubtful.get(x) == "complete" for x in urls) and asked:
                raise world.Violation("not-served-from-cache", f"{where}: fetched {[x for x, _ in asked]} again")
            if not asked:
                run.probe("served_from_cache")
        if res[0] == "ok":
            for x in urls:
                doubtful[x] = "complete"
        return
    if res[0] == "exc" and res[1] == "Violation":
        raise world.Violation("second-access-differs", where)
    want_cache = u in stored and kind != "fresh"
    if res[0] == "ok":
        v = res[1]
        vals = {ver: value_of(comp, u, ver, size[u]) for ver in delivered[u]}
        if want_cache:
            if asked and not here:  # reading the entry may just have failed
                raise world.Violation("not-served-from-cache", f"{where}: the cached entry is intact, yet it asked the network")
            if asked and v in vals.values():
                run.probe("refetched_after_read_error")
            elif v != stored[u]:
                raise world.Violation("wrong-content", f"{where}: the intact cached entry differs: {world.diff_text(stored[u], v)}")
            run.probe("served_from_cache")
        elif v not in vals.values():
            if any(o["kind"] == "error" for _, o in asked) or is_error(v):
                raise world.Violation("error-served", f"{where}: returned and cached the body of the error response {[o['status'] for _, o in asked]}: {world.short(v, 120)}")
            raise world.Violation("wrong-content", f"{where}: returned what the remote never delivered ({len(asked)} requests, {doubtful.get(u)}): {world.short(v, 160)}")
        elif kind == "fresh" and not asked:
            raise world.Violation("stale", f"{where}: asked for a fresh download, got the cached one")
        elif asked and v != vals[asked[-1][1]["version"]]:
            raise world.Violation("wrong-content", f"{where}: returned another version than the one just delivered")
        stored[u] = v
        doubtful.pop(u, None)
        return
    # it failed or crashed
    if res[0] == "exc" and not faulted and not bad_net:
        if u in doubtful:
            raise world.Violation("torn-served", f"{where}: after {doubtful[u]} while storing, the cached copy is unusable for good: {res[1]}")
        raise world.Violation("get-fails", f"{where}: {res[1:]}")
    if want_cache and res[0] == "exc" and not faulted:
        raise world.Violation("not-served-from-cache", f"{where}: the cached entry is intact: {res[1:]}")
    if faulted and (asked or kind == "fresh"):
        # the entry may or may not have been replaced
        stored.pop(u, None)
        doubtful[u] = faulted
