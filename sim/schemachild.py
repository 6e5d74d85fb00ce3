"""Runs the maintenance scripts inside a real, freshly started interpreter: its
file system below one root goes through the disk seam, its network is down, its
sleeping takes no time.

argv: root, job file, result file."""
import sys


def main():
    root, job, result = sys.argv[1:4]
    here = sys.path[0]
    sys.path[0] = root
    import importlib.util
    import json
    import os
    import random
    import socket
    import time
    import types
    with open(job, encoding="utf-8") as f:
        p = json.load(f)
    spec = importlib.util.spec_from_file_location("seam_disk", os.path.join(here, "disk.py"))
    disk = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(disk)

    class Seam(disk.Disk):
        """Faults are aimed at the k-th operation of one kind."""
        want = None

        def op(self, kind, rel):
            self.log.append((kind, rel))
            if self.want and self.fired is None and rel.startswith(self.area):
                k, left, what, frac = self.want
                if k == "any" or k == kind:
                    self.want = (k, left - 1, what, frac)
                    if left <= 1:
                        self.fired = (kind, rel, what)
                        self.fault = (0, what, frac)
                        return what
            return None

    out = {"steps": []}

    def save():
        with real_open(result, "w", encoding="utf-8") as f:
            json.dump(out, f)
    real_open = open

    def down(*a, **kw):
        raise OSError(101, "Network is unreachable")
    socket.getaddrinfo = down
    socket.socket.connect = down
    time.sleep = lambda s: None

    # the Confluence client
    class Confluence:
        def __init__(self, *a, **kw):
            pass

        def get_page_by_id(self, page_id, *a, **kw):
            q = p["pages"].get(str(page_id))
            if q is None:
                raise KeyError(page_id)
            q["n"] = q.get("n", 0) + 1
            k = q.get("trouble")
            if k and q["n"] == 1 and step["network"]:
                out["network"] = out.get("network", 0) + 1
                if k == "error":
                    raise ConnectionError("connection reset")
                if k == "interrupt":
                    raise KeyboardInterrupt("injected")
                if k == "crash":
                    save()
                    os._exit(disk.CRASH)
                if k == "refused":
                    return {"errors": [{"status": 404, "title": "Not Found"}]}
                if k == "torn":
                    return {"title": q["title"], "body": {"atlas_doc_format": {"value": q["body"][:-1]}}}
            return {"id": str(page_id), "title": q["title"], "body": {"atlas_doc_format": {"representation": "atlas_doc_format", "value": q["body"]}}}
    pkg, api, conf = (types.ModuleType(n) for n in ("pyatlassian", "pyatlassian.api", "pyatlassian.api.confluence"))
    conf.Confluence = Confluence
    api.confluence = conf
    pkg.api = api
    sys.modules.update({"pyatlassian": pkg, "pyatlassian.api": api, "pyatlassian.api.confluence": conf})

    import io
    sys.stdout = io.StringIO()
    loaded = {}
    PATHS = {"report": "scripts/s01-adf-json-schema-analysis/s2_analyze_adf_json_schema.py", "gen": "scripts/s02-nodes-code-gen/s1_gen_code.py", "pages": "scripts/s02-download-unit-test-data/step1_download.py"}
    AREA = {"report": ("scripts/s01", "adf_json_schema"), "gen": ("atlas_doc_parser/nodes", "atlas_doc_parser/mixins", "scripts/s02-nodes", "adf_json_schema"), "pages": ("scripts/s02-download",)}

    for step in p["steps"]:
        what = step["what"]
        d = Seam(root, random.Random(step["order"]))
        d.area = AREA[what]
        d.want = tuple(step["fault"]) if step["fault"] else None
        o = {"what": what}

        def crash():
            o["end"] = ["crash"]
            o["fired"] = d.fired
            out["steps"].append(o)
            save()
        d.on_crash = crash
        for path, text in step["files"].items():  # somebody changes the input
            with real_open(os.path.join(root, path), "w", encoding="utf-8") as f:
                f.write(text)
        try:
            with d:
                m = loaded.get(what)
                if m is None:
                    spec = importlib.util.spec_from_file_location("script_" + what, os.path.join(root, PATHS[what]))
                    m = importlib.util.module_from_spec(spec)
                    spec.loader.exec_module(m)
                    loaded[what] = m
                if what == "pages":
                    m.main(list(p["wanted"]))
                else:
                    m.main()
            o["end"] = ["ok"]
        except BaseException as e:
            o["end"] = ["exc", type(e).__name__, str(e)[:200].replace(root, "ROOT")]
        o["fired"] = d.fired
        o["ops"] = len(d.log)
        out["steps"].append(o)
    save()


main()
