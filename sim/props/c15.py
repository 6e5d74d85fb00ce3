"""C15: dates render as the same UTC calendar day wherever and whenever."""
import os
import random
import re
import time

from .. import adf, boot, clients, core, faults, world

ID = "C15"
RUNS = {"quick": 2600, "thorough": 120000}
MUST_PROBE = ["threads_overlapped", "tz_change", "clock_jump", "changed_during", "pre_epoch", "midnight", "far", "restart"]
TZS = ["UTC", "XXX-14", "YYY12", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3",
       "IST-5:30", "LMT0:01:15", "<-0330>3:30", "BST0BST,M3.5.0/1,M10.5.0", "", ":bogus", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
DAY = 86400000


def stamp(rng):
    k = rng.randrange(8)
    lo, hi = -62135596800000, 253402300799999
    if k == 0:
        return rng.randrange(lo, hi + 1)
    day = rng.randrange(lo // DAY, hi // DAY) if rng.random() < 0.3 else rng.randrange(-30000, 60000)
    if k <= 3:
        return max(lo, min(hi, day * DAY + rng.choice([0, -1, 1, 999, -999, 1000, 500, -500])))
    if k == 4:  # around local midnights and offsets
        return max(lo, min(hi, day * DAY + rng.choice([-14, -12, -5, -1, 1, 2, 5, 12, 14]) * 3600000 + rng.choice([0, -1, 1])))
    if k == 5:  # around daylight saving switches of some year
        y = rng.randrange(1900, 2100)
        days = (y - 1970) * 365 + (y - 1969) // 4
        return (days + rng.choice([68, 75, 85, 90, 95, 270, 300, 305, 310])) * DAY + rng.randrange(-DAY, DAY)
    if k == 6:  # leap days and year ends
        y = rng.choice([1600, 1700, 1900, 1968, 1972, 2000, 2024, 2100, 2400])
        a, b = y - 1, 719162
        jan1 = a * 365 + a // 4 - a // 100 + a // 400 - b
        return (jan1 + rng.choice([0, -1, 58, 59, 60, 364, 365])) * DAY + rng.choice([0, -1, 1, DAY - 1])
    return rng.choice([lo, hi, 0, -1, 1, 2**31 * 1000, 2**31 * 1000 - 1, -(2**31) * 1000, -(2**31) * 1000 - 1, 2**32 * 1000, 253402300799000, lo + 1])


def gen(rng, i, tier):
    s = clients.gen_sched(rng, single=0.35)
    nt = s.pop("nt")
    stamps = [stamp(rng) for _ in range(rng.choice([1, 3, 8]))]
    if rng.random() < 0.3:
        stamps += [stamps[0] + d for d in (1, -1, 500)]
    lo, hi = -62135596800000, 253402300799999
    stamps = [max(lo, min(hi, x)) for x in stamps]
    threads = []
    for k in range(nt):
        t = []
        for _ in range(rng.choice([1, 3, 6])):
            x = rng.random()
            if x < 0.3:
                t.append(["tz", rng.randrange(len(TZS)), 0])
            elif x < 0.45:
                t.append(["jump", rng.choice([1, -1, 3600, 86400 * 180, -86400 * 365 * 30, 10**9, -5 * 10**9]), 0])
            else:
                t.append([rng.choice(["date", "date", "doc", "doci", "cell"]), rng.randrange(len(stamps)), rng.getrandbits(16)])
        threads.append(t)
    return dict(s, stamps=stamps, threads=threads, tz=rng.choice(TZS), restart=rng.choice([0, 0, -10**9, 86400 * 180]) if rng.random() < 0.25 else None)


def date_el(ms, r):
    a = {"timestamp": ms if r & 1 else str(ms)}
    if r & 2:
        a["localId"] = "l"
    return {"type": "date", "attrs": a}


def execute(plan, env, run):
    if not plan["stamps"]:
        return
    world.attach_sink(env)
    st = plan["stamps"]
    _set_tz(plan["tz"])
    if plan.get("restart") is not None:
        boot.CLOCK.now = max(0.0, boot.CLOCK.now + plan["restart"])
        env.restart()
        world.attach_sink(env)
        run.fault("restart_elsewhere")
        run.probe("restart")
    changes = [0]
    got = []

    def client(k):
        def body():
            for op, n, r in plan["threads"][k]:
                if op == "tz":
                    with core.quiet():
                        _set_tz(TZS[n % len(TZS)])
                        changes[0] += 1
                        run.fault("time_zone_change")
                        run.probe("tz_change")
                    continue
                if op == "jump":
                    boot.CLOCK.now = max(0.0, boot.CLOCK.now + n)
                    changes[0] += 1
                    run.fault("clock_jump")
                    run.probe("clock_jump")
                    continue
                n %= len(st)
                ms = [st[n]]
                with core.quiet():
                    c0 = changes[0]
                    el = date_el(st[n], r)
                    if op != "date":
                        ms = [st[(n + j) % len(st)] for j in range(1 + r // 8 % 3)]
                        inline = []
                        for j, x in enumerate(ms):
                            inline += [date_el(x, r >> j), {"type": "text", "text": ", "}]
                        el = {"type": "paragraph", "content": inline}
                        if op == "cell":
                            el = {"type": "table", "content": [{"type": "tableRow", "content": [{"type": "tableCell", "attrs": {}, "content": [el]}]}]}
                        el = {"type": "doc", "version": 1, "content": [el]}
                o = world.outcome(lambda: env.api.parse_node(el).to_markdown(**({"ignore_error": True} if op == "doci" else {})), image=lambda v: v)
                core.note(f"{k}:{o}")
                got.append((op, ms, o))
                if changes[0] != c0:
                    run.probe("changed_during")
        return body

    clients.run_clients(env, run, plan, [client(k) for k in range(len(plan["threads"]))])
    for op, ms, o in got:
        run.calls += 1
        want = [adf.civil(x) for x in ms]
        for x in ms:
            if x < 0:
                run.probe("pre_epoch")
            if x % DAY in (0, 1, DAY - 1):
                run.probe("midnight")
            if abs(x) > 2**31 * 1000:
                run.probe("far")
        if o[0] == "exc":
            raise world.Violation("raises", f"timestamps {ms} under TZ {os.environ.get('TZ')!r}: {o[1]}: {o[2]}")
        if op == "date":
            ok = o[1] == want[0]
            found = o[1]
        else:
            found = re.findall(r"-?\d+-\d+-\d+", o[1])
            ok = found == want
        if not ok:
            raise world.Violation("wrong-day", f"timestamps {ms}: expected {want}, got {found!r} (TZ at the end {os.environ.get('TZ')!r})")
    run.mix([(op, ms, o) for op, ms, o in got])


def _set_tz(tz):
    os.environ["TZ"] = tz
    time.tzset()
