"""C11: systrace HTML files, against spec/SysTrace.tla through Trace_Reader."""
import io, random
import tv, obs
import drv_reader as R

MARKS = ["<!-- BEGIN TRACE -->", "<title>Android System Trace</title>"]
OPEN = ['  <script class="trace-data" type="application/text">', '  <script class="trace-data">', '  var linuxPerfData = "\\']


def execute(case):
    t = tv.trappy()
    t.SysTrace.disable_cache = not case.get("cache", False)
    with io.open("trace.html", "w", encoding="utf-8", newline="") as f:
        f.write(u"".join(l + "\n" for l in case["lines"]))
    names = [s["name"] for s in case["sel"]]

    def go():
        return t.SysTrace("trace.html", scope="custom", events=names, normalize_time=case["norm"])
    r = obs.Caught(go)
    if not r.err and case.get("cache"):
        r = obs.Caught(go)
    fw = sum(1 for w in r.warns if "failed to parse" in w)
    if r.err:
        return {"err": r.err, "named": True, "fwarn": fw, "events": {}, "base": [0, 0], "end": [0, 0], "cpus": -1}
    tr = r.res
    try:
        cpus = tr._cpus
    except AttributeError:
        cpus = None
    return {"err": "", "named": False, "fwarn": fw, "events": obs.trace_events(tr, names),
            "base": tv.secns(tr.basetime), "end": tv.secns(tr.endtime),
            "cpus": -1 if cpus is None else int(cpus)}


SW = R.ev("sched_switch", "switch")
MW = R.ev("tracing_mark_write", "systext", fb=True)
EA = R.ev("ev_a")

FUNCS = ["doFrame", "", "a b c", "x=1", "f(1, 2)", "HW_VSYNC_0", "deliver:7", "caf\u00e9", "ev", "{}"]


def marker(r):
    x = r.random()
    ev = r.choice("BECSFXA")
    if x < 0.15:
        return r.choice("EBX")
    if x < 0.3:
        return "%s|%s" % (ev, r.choice(["1", "4242", "007"]))
    if x < 0.55:
        return "%s|%s|%s" % (ev, r.choice(["1", "4242"]), r.choice(FUNCS))
    if x < 0.8:
        return "%s|%s|%s|%s" % (ev, r.choice(["0", "612"]), r.choice(FUNCS), r.choice(["0", "-17", "a b", "", "1|2|3", "|", "text=1"]))
    return r.choice(["trace_event_clock_sync: parent_ts=1.5", "hello world", "E|", "B||f", "B|x|f", "b|1|f", "EB|1|f", "B1|f",
                     "|1|f", "B |1|f", "B|1 |f", "BEGIN", "note B|1|f", "tracing", "Battery=1", "C|-1|f|2", "Everything ok",
                     "a={1 2}", "E1"])


def tline(rng, st):
    st[0] += rng.choice([0, 1, 10, 1000])
    e = rng.choice(["sched_switch", "tracing_mark_write", "tracing_mark_write", "ev_a", "other"])
    pay = {"sched_switch": lambda: R.MK["sched_switch"][2](rng), "tracing_mark_write": lambda: marker(rng),
           "ev_a": lambda: "a=%d" % rng.randint(0, 9), "other": lambda: "z=1"}[e]()
    return "  %s-%d [%03d] d..3 %d.%06d: %s: %s" % (rng.choice(["sh", "<...>", "Binder:1_2", "a b"]), rng.randint(1, 99),
                                                    rng.choice([0, 1, 2, 7, 11]), st[0] // 10 ** 6, st[0] % 10 ** 6, e, pay)


NOISE = ["<html>", "<!DOCTYPE html>", "", "  </script>", "<script>", "  var x = 1;", "# tracer: nop", "#", "    <!-- BEGIN TRACE -->",
         "<script class=\"trace-data\">", "<!-- END TRACE -->", "</body>", "timelineViewEl.viewTitle = 'Android System Trace';",
         "  sh-1 [000] nonsense", "var linuxPerfData = 1"]


def gen(rng):
    st = [5000000]
    def noise(n):
        return [rng.choice(NOISE) if rng.random() < 0.6 else tline(rng, st) for _ in range(n)]
    lines = noise(rng.randint(0, 3))
    for _ in range(rng.choice([1, 1, 1, 2])):
        lines.append(rng.choice(MARKS))
        lines += noise(rng.choice([0, 0, 1, 3]))
    if rng.random() < 0.93:
        lines.append(rng.choice(OPEN))
    lines += [rng.choice(["# tracer: nop", "#", "", "# entries-in-buffer/entries-written: 1/1   #P:4"]) for _ in range(rng.randint(0, 3))]
    lines.append(tline(rng, st))
    for _ in range(rng.randint(0, 8)):
        lines.append(tline(rng, st) if rng.random() < 0.9 else rng.choice(["junk", "", "  </script> x"]))
    if rng.random() < 0.85:
        lines.append(rng.choice(["  </script>", "</script>", "   sh-9 [001] 99.5: ev_a: a=8</script>"]))
        lines += noise(rng.randint(0, 4))
    sel = rng.sample([SW, MW, EA], rng.randint(1, 3))
    return case(sel, lines, rng.random() < 0.5, rng.random() < 0.25)


def case(sel, lines, norm=False, cache=False):
    return {"html": True, "sel": sel, "lines": [l.rstrip("\n") for l in lines], "norm": norm, "win": R.OPEN, "cache": cache}


def check(chk, prop):
    recs = chk.mc("MC_SysTrace", emits=True)
    T = [r for r in recs if "templates" in r][0]["templates"]
    cases = [case([EA, MW], [T[i - 1] for i in r["hist"]]) for r in recs if "hist" in r]
    lim = chk.pick(800, 6000)
    if len(cases) > lim:
        cases = chk.rng.sample(cases, lim)
    chk.run(execute, cases, "Trace_Reader", label="model-behaviours")
    chk.run(execute, [gen(chk.rng) for _ in range(chk.pick(600, 6000))], "Trace_Reader", label="seeded-executions")
    chk.assumptions = ["lines of the page are newline terminated", "at most one trace per page is looked at: the first"]
