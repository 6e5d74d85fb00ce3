"""C25: a crawl of the format reference is complete or fails, and restarts."""
import html
import io
import math
import os
import random
import re
import resource
import shutil
import signal
import sys
import tempfile

from .. import boot, core, disk, net, world
from . import c04, c18

ID = "C25"
ZYGOTE = "cold"
CLOCK = True
RUNS = {"quick": 700, "thorough": 40000}
MUST_PROBE = ["crawl_complete", "crawl_failed", "fault_fired", "crashed", "resumed", "served_from_cache", "old_files", "same_page_twice", "no_links", "no_main_part", "offline", "navigation_changed", "clock_jump", "redirected"]
REAL = ["scripts/crawl_atlas_doc_reference/step1_crawl_document.py (copy of the working tree)", "diskcache and sqlite on a scratch directory", "BeautifulSoup", "requests/urllib3 above the socket"]
STUB = ["the network and the site (simulated byte streams)", "file errors, torn writes, file-size limits and crash points (seeded)", "clock"]
ASSUME = ["a crash loses the process and its buffers, not the kernel's page cache", "titles of the navigation are distinct and usable as file names"]
STATE = c18.STATE
HOST, HOME, SCRIPT = c18.HOST, c18.HOME, c18.SCRIPT
FIRST = "Atlassian Document Format"
TITLES = ["Text mark", "node", "a.b", ".hidden", "\u4e2d\u6587", "emoji\U0001F600", "x &amp; y", " spaced  out ", "page.html", "~", "-rf", "%41", "a:b", "*", "long " * 30, "tmp", "h1", "\u00e9t\u00e9", "e\u0301t\u00e9", "Node", "$HOME", "index", "&lt;b&gt;"]
NAV = ["plain", "list", "classes", "span"]
SHAPES = 8


def begin(scratch):
    c18.begin(scratch)


def setup(env):
    c18.setup(env)


# --------------------------------------------------------------------------
# plans
# --------------------------------------------------------------------------
def gen(rng, i, tier):
    n = rng.choice([0, 1, 2, 3, 3, 4, 6, 9])
    big = rng.choice([0, 0.2])
    pages = [{"size": 0, "shape": 0}]
    for k in range(n):
        pages.append({
            "path": rng.choice(["/n/%d/", "/cloud/jira/x/%d/", "/d?id=%d", "/%d", "/cloud/jira/platform/apis/document/nodes/n%d/"]) % k,
            "shape": rng.randrange(SHAPES),
        })
    for p in pages:
        p["size"] = 40000 if rng.random() < big else rng.choice([0, 10, 200, 800])
        p["part"] = rng.random() > 0.01
    pages[0]["shape"] = rng.randrange(SHAPES)
    vmax = rng.choice([1, 1, 2])
    titles = rng.sample(TITLES, len(TITLES))
    nav = []
    for v in range(vmax):
        links = [[k, titles[k]] for k in range(1, n + 1)]
        if v and n:
            links = [x for x in links if rng.random() < 0.8]
        if rng.random() < 0.2 and n:  # a page named twice, or the start page
            links.insert(rng.randrange(len(links) + 1), [rng.choice([0, 1, n]), titles[n + 1]])
        if rng.random() < 0.3:
            rng.shuffle(links)
        nav.append(links)
    bad = rng.choice([0, 0, 0.1, 0.3])
    procs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        fault = None
        x = rng.random()
        if x < 0.3:
            fault = ["disk", rng.randrange(1, 8 + 4 * n), rng.choice(["EIO", "ENOSPC", "crash", "crash_after", "torn_crash", "torn_error", "interrupt", "EACCES", "EMFILE"]), rng.choice([0, 0.01, 0.5, 0.99, 1.0])]
        elif x < 0.5:
            fault = ["inject", int(math.exp(rng.uniform(0, math.log(60 + 40 * n)))), rng.choice(["KeyboardInterrupt", "SystemExit", "MemoryError", "OSError"])]
        elif x < 0.7:
            fault = ["crash", int(math.exp(rng.uniform(0, math.log(800 + 400 * n))))]
        elif x < 0.8:
            fault = ["fsize", rng.choice([0, 100, 500, 5000, 30000, 33000, 50000])]
        procs.append({"fault": fault, "ops": rng.choice([1, 1, 1, 2]), "jump": rng.choice([0, 0, 0, 3600, 86400 * 40, 86400 * 4000, -86400])})
    # what the requests of the whole history meet, in order
    outcomes = [c18.gen_outcome(rng, bad, vmax, rng.choice([0, 0.2])) for _ in range(rng.choice([0, 5, 15, 40]))]
    return {
        "docs": [], "pages": pages, "nav": nav, "look": [rng.choice(NAV), rng.random() < 0.5, rng.random() < 0.5], "procs": procs, "outcomes": outcomes,
        "refuse": {str(rng.randrange(2 * n + 4)): rng.choice(["refused", "dns", "timeout"]) for _ in range(rng.choice([0, 0, 1, 2]))},
        "junk": rng.sample(["old.html", "sub", FIRST + ".html", "link0.html", ".hidden.html", "sub/deep/x.html", "notes.txt"] + [titles[0].replace("&amp;", "&") + ".html"], rng.choice([0, 0, 1, 3])),
        "seed": rng.getrandbits(30),
    }


# --------------------------------------------------------------------------
# the site
# --------------------------------------------------------------------------
def url_of(plan, k):
    return HOME if k == 0 else f"https://{HOST}{plan['pages'][k]['path']}"


def nav_html(plan, version):
    look = plan["look"][0]
    links = []
    for k, title in plan["nav"][version]:
        href = "/" + url_of(plan, k).split("/", 3)[3]
        inner = f"<span>{title}</span>" if look == "span" else title
        a = f'<a class="l" href="{href}">{inner}</a>'
        links.append(f"<li>{a}</li>" if look == "list" else a)
    s = "\n".join(links)
    if look == "list":
        s = f"<ul><li>Group<ul>{s}</ul></li></ul>"
    cls = "a sideNavLinksScrollable b" if look == "classes" else "sideNavLinksScrollable"
    return f'<div class="{cls}">{s}</div>'


def main_part(plan, k, version):
    """The part of a page that a crawl keeps; None if it has none."""
    p = plan["pages"][k]
    if not p["part"]:
        return None
    words = c18.filler(url_of(plan, k), version, p["size"])
    link = '<a href="/elsewhere/">other</a>'
    body = f"<p>page {k} version {version} {words} {link}</p><pre>  x\n y</pre>"
    return {
        3: f'<div id="m"><p>intro</p><h1>T{k}</h1>{body}</div>',
        6: f'<div id="m"><div class="x">before</div><h1>T{k}</h1>{body}</div>',
        7: f'<div id="m"><h1>T{k}</h1><div><h1>inner</h1>{body}</div></div>',
    }.get(p["shape"], f'<div id="m"><h1>T{k}</h1>{body}</div>')


def page_html(plan, k, version):
    p = plan["pages"][k]
    m = main_part(plan, k, version) or f"<p>moved {k}</p>"
    if p["shape"] == 1:
        m = f'<div class="a"><div class="b">{m}</div><div>after</div></div>'
    if p["shape"] == 2:
        m = f"<div><h2>Contents</h2></div><div><p>x</p></div>{m}"
    if p["shape"] == 4:
        m = f"<header><h1>Site</h1></header>{m}" + ("<div><h1>Second</h1></div>" if p["part"] else "")
    if p["shape"] == 5:
        m = f"<div><section><h1>Deep</h1></section></div>{m}"
    nav = nav_html(plan, version) if k == 0 else '<div class="sideNavLinksScrollable"><a href="/not/part/of/it/">no</a></div>'
    foot = '<footer><a href="/footer/">Footer</a></footer>' if plan["look"][1] else ""
    return f"<!DOCTYPE html><html><head><title>t{k}</title></head><body>{nav if plan['look'][2] else ''}{m}{'' if plan['look'][2] else nav}{foot}</body></html>"


def canon(text):
    """Structure and texts of a piece of HTML, without its indentation."""
    from bs4 import BeautifulSoup, NavigableString

    def walk(x):
        for c in x.children:
            if isinstance(c, NavigableString):
                s = " ".join(str(c).split())
                if s:
                    yield s
            else:
                yield (c.name, sorted((k, " ".join(v) if isinstance(v, list) else v) for k, v in c.attrs.items()), list(walk(c)))
    return list(walk(BeautifulSoup(text, "html.parser")))


def expected(plan, version):
    """File name -> page, for a crawl that saw this version of the start page."""
    out = {FIRST + ".html": 0}
    for k, title in plan["nav"][version]:
        out[html.unescape(title) + ".html"] = k
    return out


# --------------------------------------------------------------------------
# one process
# --------------------------------------------------------------------------
class Disk(disk.Disk):
    tell = None

    def op(self, kind, rel):
        had = self.fired
        f = super().op(kind, rel)
        if self.fired and not had:
            self.tell(("fault", f"{f}:{kind}"))
        return f


def tree(d):
    out = {}
    for base, dirs, names in os.walk(d):
        for n in dirs + names:
            p = os.path.join(base, n)
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    out[os.path.relpath(p, d)] = f.read()
            else:
                out[os.path.relpath(p, d)] = None
    return out


def process(plan, root, proc, state, report):
    pages = {url_of(plan, k): k for k in range(len(plan["pages"]))}
    hop_to = f"https://{HOST}/r/"
    pending = {}
    n = [state["requests"]]
    m = [state["connects"]]

    def decide(url, _):
        if url.startswith(hop_to) and url[len(hop_to):] in pending:
            k, o = pending.pop(url[len(hop_to):])
            report(("request", k, o))
            return o
        if url not in pages:
            report(("request", None, {"kind": "error", "status": 404, "url": url}))
            return {"kind": "error", "status": 404, "as": "html"}
        k = pages[url]
        report(("asked", k))
        c = n[0]
        n[0] += 1
        last = len(plan["nav"]) - 1
        o = plan["outcomes"][c] if c < len(plan["outcomes"]) and not proc.get("clean") else {"kind": "ok", "version": last}
        if o.get("hop"):
            report(("hop",))
            pending[str(c)] = (k, {x: v for x, v in o.items() if x != "hop"})
            return {"kind": "hop", "status": o["hop"], "to": f"{hop_to}{c}"}
        report(("request", k, o))
        return o

    def body_of(url, v):
        k = pages[url] if url in pages else hops[url]
        return page_html(plan, k, v).encode("utf-8"), "text/html"
    hops = {}
    real_decide = decide

    def decide2(url, c):
        if url.startswith(hop_to) and url[len(hop_to):] in pending:
            hops[url] = pending[url[len(hop_to):]][0]
        return real_decide(url, c)
    remote = net.Remote(decide2, body_of)

    def refuse(host):
        c = m[0]
        m[0] += 1
        report(("connect",))
        why = "refused" if proc.get("clean") == "offline" else None if proc.get("clean") else plan["refuse"].get(str(c))
        if why:
            report(("refused", why))
        return why
    remote.refuse = refuse
    net.install(remote)
    boot.CLOCK.now += state["jump"]
    fault = proc["fault"]
    d = Disk(root, None, None)
    d.tell = report
    if fault and fault[0] == "disk":
        d.fault = (fault[1], fault[2], fault[3])
    rng = random.Random(plan["seed"] * 100 + state["pn"])
    os.urandom = lambda k: rng.randbytes(k)
    sys.stdout = io.StringIO()
    os.chdir(root)
    boot.ROOT[0] = root
    with d:
        solo = None
        if fault and fault[0] in ("inject", "crash"):
            codes = list(core.walk_code(STATE["script"]))
            if fault[0] == "crash":
                import diskcache.core as dc
                for name in sorted(vars(dc.Cache)) + sorted(vars(dc.Disk)):
                    f = vars(dc.Cache).get(name) or vars(dc.Disk).get(name)
                    f = getattr(f, "__wrapped__", f)
                    if hasattr(f, "__code__"):
                        codes.extend(core.walk_code(f.__code__))
            core.instrument(codes, None, True)

            def make():
                if fault[0] == "crash":
                    report(("fault", "crash"))
                    os._exit(disk.CRASH)
                report(("fault", "interrupt:" + fault[2]))
                return c04.make(fault[2])
            solo = (fault[1], make)
        if fault and fault[0] == "fsize":
            report(("fault", "file-size-limit"))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], resource.RLIM_INFINITY))

        def attempt(fn):
            try:
                return ("ok", fn())
            except BaseException as e:
                return ("exc", type(e).__name__, re.sub("0x[0-9a-f]+", "0x", str(e).replace(root, "ROOT"))[:200])

        def go():
            report(("op", "load"))
            o = attempt(lambda: c18.load_script(root))
            if o[0] == "exc":
                report(("result", o))
                return
            report(("result", ("ok", None)))
            for _ in range(proc["ops"]):
                report(("op", "main"))
                r = attempt(lambda: o[1]("main", None, 0))
                d.busy += 1
                report(("tree", tree(os.path.join(root, os.path.dirname(SCRIPT), "tmp")) if r[0] == "ok" else None))
                d.busy -= 1
                report(("result", r[:1] + (None,) if r[0] == "ok" else r))
        if solo:
            with core.Solo(*solo):
                go()
        else:
            go()


# --------------------------------------------------------------------------
# the oracle
# --------------------------------------------------------------------------
def sound(plan):
    """Still a possible site, after shrinking?"""
    n = len(plan["pages"])
    paths = [p.get("path") for p in plan["pages"][1:]]
    titles = [[t for _, t in links] for links in plan["nav"]]
    return n and plan["nav"] and all(0 <= k < n for links in plan["nav"] for k, _ in links) and all(len(set(t)) == len(t) and all(t) for t in titles) and len(set(paths)) == len(paths) and all(isinstance(p, str) and p.startswith("/") for p in paths) and all(o["version"] < len(plan["nav"]) for o in plan["outcomes"]) and len(plan["look"]) == 3


def execute(plan, env, run):
    if not sound(plan):
        return
    root = tempfile.mkdtemp(dir=STATE["scratch"])
    try:
        p = os.path.join(root, SCRIPT)
        os.makedirs(os.path.dirname(p))
        with open(p, "wb") as f:
            f.write(STATE["files"][SCRIPT])
        out = os.path.join(os.path.dirname(p), "tmp")
        for name in plan["junk"]:
            x = os.path.join(out, name)
            os.makedirs(os.path.dirname(x), exist_ok=True)
            if name == "sub":
                os.makedirs(x, exist_ok=True)
            else:
                with open(x, "w") as f:
                    f.write("<p>from an older crawl</p>")
            run.probe("old_files")
        body(plan, run, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def body(plan, run, root):
    if len(plan["nav"][-1]) == 0:
        run.probe("no_links")
    for links in plan["nav"]:
        if len({k for k, _ in links}) < len(links) or 0 in {k for k, _ in links}:
            run.probe("same_page_twice")
    state = {"requests": 0, "connects": 0, "jump": 0}
    delivered = {k: set() for k in range(len(plan["pages"]))}
    sure = set()  # pages that are stored beyond doubt
    procs = list(plan["procs"]) + [{"fault": None, "ops": 1, "jump": 0, "clean": "online"}, {"fault": None, "ops": 2, "jump": 86400 * 900, "clean": "offline"}]
    log = []
    failed_before = False
    for pn, proc in enumerate(procs):
        state["pn"] = pn
        state["jump"] += proc["jump"]
        if proc["jump"]:
            run.probe("clock_jump")
        facts, crashed = c18.run_process(lambda report: process(plan, root, proc, dict(state), report))
        if crashed:
            run.probe("crashed")
        faulted, arrived, bad, asked, got, op = None, [], False, [], None, None
        where = lambda: f"process {pn}"
        for f in facts + ([("result", ("crash",))] if crashed else []):
            if f[0] == "op":
                op, bad, asked, got = f[1], False, [], None
            elif f[0] == "connect":
                state["connects"] += 1
            elif f[0] == "refused":
                bad = True
                run.fault("net:" + f[1])
            elif f[0] == "fault":
                faulted = f[1]
                run.fault(f[1])
                run.probe("fault_fired")
            elif f[0] == "hop":
                run.probe("redirected")
            elif f[0] == "asked":
                k = f[1]
                asked.append(k)
                state["requests"] += 1
                if not faulted:
                    sure.update(x for x in arrived if x != k)
                    if k in sure:
                        raise world.Violation("downloaded-again", f"{where()}: page {k} had been downloaded and stored, yet it was requested again")
            elif f[0] == "request":
                k, o = f[1:]
                if o["kind"] == "ok":
                    delivered[k].add(o["version"])
                    arrived.append(k)
                else:
                    bad = True
                    run.fault("net:" + o["kind"] + (":" + str(o["status"]) if o["kind"] == "error" else ""))
            elif f[0] == "tree":
                got = f[1]
            elif f[0] == "result" and op == "load":
                if f[1][0] == "exc" and not faulted:
                    raise world.Violation("cannot-start", f"{where()}: {f[1][1:]}")
            elif f[0] == "result":
                run.calls += 1
                r = f[1]
                missing = not all(p["part"] for p in plan["pages"])
                if r[0] == "ok":
                    judge(plan, where(), got, delivered)
                    run.probe("crawl_complete")
                    if not faulted:
                        sure.update(arrived)
                    if failed_before:
                        run.probe("resumed")
                    if not asked:
                        run.probe("served_from_cache")
                        if proc.get("clean") == "offline":
                            run.probe("offline")
                else:
                    failed_before = True
                    if missing:
                        run.probe("no_main_part")
                    if r[0] == "exc" and not faulted and not missing and (not bad or proc.get("clean")):
                        raise world.Violation("crawl-fails", f"{where()}{', all faults over' if proc.get('clean') else ''}: {r[1:]}")
                    run.probe("crawl_failed")
        log.append((pn, [x if x[0] != "tree" else sorted((x[1] or {}).items()) for x in facts]))
    if any(len(v) > 1 for v in delivered.values()):
        run.probe("navigation_changed")
    run.mix(log)


def judge(plan, where, got, delivered):
    """A crawl reported success and left these files."""
    if got is None:
        raise world.Violation("incomplete-output", f"{where}: a crawl succeeded without an output directory")
    best = None
    for v in sorted(delivered[0]):
        want = expected(plan, v)
        lost, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        if lost or extra:
            e = ("incomplete-output" if lost else "foreign-output", f"{where}: a crawl reported success, but the pages {lost} are missing and {extra} do not belong to it")
        else:
            e = None
            for name, k in sorted(want.items()):
                seen = canon(got[name].decode("utf-8", "replace")) if got[name] is not None else None
                parts = [main_part(plan, k, x) for x in sorted(delivered[k])]
                if not any(p is not None and canon(p) == seen for p in parts):
                    e = ("wrong-output", f"{where}: a crawl reported success, but {name!r} does not hold page {k} ({len(parts)} versions delivered): {world.short(got[name], 160)}")
                    break
            if e is None:
                return
        best = best or e
    raise world.Violation(*(best or ("incomplete-output", f"{where}: a crawl succeeded although its start page was never delivered")))
