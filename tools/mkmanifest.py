"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C20": "pure function of the document: no schedule, clock, fault, I/O or history takes part in it, so there is nothing for a simulator to decide (guide: answer not applicable rather than dress input generation in simulator vocabulary)",
    "C21": "pure function of one element and a set of types, evaluated on immutable data; no schedule, clock, fault or history takes part",
}
NOTE = {
    "C01": "seeded search over bytecode-level interleavings of real library code against the same calls run alone in fresh forked processes",
    "C02": "seeded search over first-import orders, interleavings of threads in a cold process and interrupt points during import, against an ordinarily started process",
    "C03": "seeded search over call histories (failures, interrupts, toggles, clock and time-zone changes, mutations) against the same call alone in a fresh process",
    "C04": "seeded search over injection points (function entries, loop back edges, returns of C calls, stack limits) of interrupts, exits and allocation failures; exact repetition afterwards",
    "C05": "seeded search over sets of failing nodes and interleavings; oracle: strict rendering of the document without the failing nodes",
    "C06": "seeded search over failing nodes (data and raised errors) and interleavings; oracle: which rendered nodes fail",
    "C07": "seeded search over positions and contents of unknown elements, log-destination faults and interleavings; oracle: the document without them",
    "C08": "seeded search over malformed elements, unknown types and fields, and interleavings; oracle: which known elements are malformed",
    "C09": "seeded search over added fields and interleavings; oracle: the document without them",
    "C10": "seeded search over histories of parses and switch changes, log-destination faults and interleavings; oracle: executable model of the skipped elements",
    "C11": "seeded search over failures, interrupts and later mutations (also by other threads); oracle: ordered type-strict snapshots of the input and of the document",
    "C12": "seeded search over render/serialise/mutate histories and interleavings with failures; oracle: snapshots of the document and a reference model of serialisation",
    "C13": "seeded search over save/crash/restart/reload generations in separate processes; oracle: executable model of serialisation",
    "C14": "seeded search over damaged and newer documents and interleavings; oracle: executable model of the ordered text pieces",
    "C15": "seeded search over time zones, clock jumps and interleavings; oracle: integer calendar model",
    "C16": "seeded search over process environments in freshly started interpreters; oracle: byte equality with a reference process",
    "C17": "seeded search over directory orders, I/O faults and crash points of the real generator on a scratch copy; oracle: the shipped module",
    "C18": "seeded search over network, disk and crash faults of the real caches with a simulated remote and scratch disk; oracle: what the remote delivered",
    "C19": "seeded search over child-run outcomes and interrupt points of the real helpers; oracle: the working directory before the call",
    "C22": "seeded search over message histories between processes (duplicates, crashes, restarts, late and interrupted receipt, cold and warm receivers) and interleavings; oracle: the image in the sending process and a reference process",
    "C23": "seeded search over repeated histories of calls, failures, interrupts and interleavings; oracle: live objects, memory blocks and process-wide settings before and after",
    "C24": "seeded search over histories, failures and interleavings with deep and wide documents; oracle: executed lines against a bound computed from the document, and against the same call alone",
    "C26": "seeded search over fork points inside interleaved calls, with failures and interrupts; oracle: results, warnings and progress of the same calls alone in a fresh process",
    "C27": "seeded search over the moments at which nested calls (signal handler, finaliser, log handler) arrive inside a call, same thread; oracle: results, warnings and progress of every inner and outer call alone in a fresh process",
    "C28": "seeded search over schemas, pages, hash seeds, sequences of script runs and file faults/crash points; oracles: output of an undisturbed run, and completeness computed from the input alone",
    "C25": "seeded search over network, disk and crash faults, interrupts, clock jumps and restarts of the real crawler with a simulated site; oracle: what the site delivered",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py"))]
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import sim.runner, sim.world, sim.ops\"",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
        "level": "exploration",
        "level_note": NOTE[i] + ". Samples, does not enumerate; trusts the harness models in /verif/sim and CPython.",
    } for i in have],
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in have],
    "notes": "No hooks in /repo: the simulator uses sys.monitoring and replaces locks, clock, import locks, log destination, files and subprocesses from outside. Replay: python3 check.py replay FILE.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(have)
