"""Runs inside a real, freshly started interpreter without any simulator hook:
reads a job, processes its documents with the library, reports what happened.

argv: REPO, job file, result file."""
import sys


def main():
    repo, job, result = sys.argv[1:4]
    sys.path[0] = repo
    import gc
    import json
    with open(job, encoding="utf-8") as f:
        p = json.load(f)
    keep = [object() for _ in range(p["junk"])]  # moves later objects around
    if p["gc"] == "off":
        gc.disable()
    elif p["gc"] == "often":
        gc.set_threshold(3, 2, 2)
    if p["setlocale"]:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    import importlib
    import logging
    for m in p["imports"]:
        try:
            importlib.import_module(m)
        except ImportError:
            if not m.endswith(tuple(p["optional"])):
                raise
    records = []

    class H(logging.Handler):
        def emit(self, record):
            records.append(record.getMessage())

    lg = logging.getLogger("atlas_doc_parser")
    lg.addHandler(H())
    import atlas_doc_parser.settings as settings
    settings.WARN_UNIMPLEMENTED_TYPE = p["warn"]
    from atlas_doc_parser.api import NodeDoc, parse_node

    def attempt(fn):
        try:
            return ["ok", fn()]
        except RecursionError:
            return ["exc", "RecursionError", ""]
        except Exception as e:
            return ["exc", type(e).__name__, str(e)]

    out = {}
    for n in p["order"]:
        d = p["docs"][n]
        del records[:]
        got = attempt(lambda: NodeDoc.from_dict(d) if n % 2 else parse_node(d))
        o = {"warnings": list(records)}
        if got[0] == "exc":
            o["parse"] = got
        else:
            node = got[1]
            o["data"] = attempt(lambda: json.dumps(node.to_dict(), ensure_ascii=True))
            o["md"] = attempt(lambda: node.to_markdown())
            o["mdi"] = attempt(lambda: node.to_markdown(ignore_error=True))
            o["equal"] = attempt(lambda: parse_node(node.to_dict()) == node)
        out[str(n)] = o
    with open(result, "w", encoding="utf-8") as f:
        json.dump(out, f, ensure_ascii=True)
    del keep


main()
