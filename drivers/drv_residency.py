"""C25: task residency and event plots against spec/Residency.tla."""
import io, json, os, re
import tv, obs
from drv_stats import TICK, tick
from drv_iline import displayed

NOPAGE = {"lanes": [], "domain": [], "keys": [], "summary": False, "stride": False, "map": [], "given": False, "data": [], "resources": False, "intact": False}


def page(html):
    m = re.search(r"EventPlot\.generate\('(\w+)', '([^']*)', ", html)
    d, end = json.JSONDecoder().raw_decode(html[m.end():])
    assert html[m.end() + end:].lstrip().startswith(")") and 'id="%s"' % m.group(1) in html
    return {"lanes": [{"id": l["id"], "label": str(l["label"])} for l in d["lanes"]], "domain": [tick(x) for x in d["xDomain"]], "keys": d["keys"],
            "summary": d["showSummary"], "stride": d["stride"], "given": d["colorMap"] is not None,
            "map": [{"name": k, "color": v} for k, v in sorted((d["colorMap"] or {}).items())],
            "data": [{"name": k, "ivs": [], "lanes": [{"lane": int(l), "evs": [[tick(x) for x in e] for e in evs]} for l, evs in sorted(v.items())]} for k, v in sorted(d["data"].items())],
            "resources": False, "intact": True}


def nbdir():
    """a data directory of jupyter which holds what would be downloaded"""
    d = os.path.abspath("jupyter")
    os.environ["JUPYTER_DATA_DIR"] = d
    where = os.path.join(d, "nbextensions", "plotter_scripts", "EventPlot")
    os.makedirs(where, exist_ok=True)
    for f in ("d3.min.js", "d3.tip.v0.6.3.js"):
        with open(os.path.join(where, f), "w") as fh:
            fh.write("// " + f)
    return where


def make_trace(case):
    import pandas as pd
    t = tv.trappy()
    sw = case["sw"]
    if case["how"] == "bare":
        tr = t.BareTrace()
        df = pd.DataFrame({"__cpu": [s["cpu"] for s in sw], "__comm": [s["pcomm"] for s in sw], "__pid": [s["prev"] for s in sw],
                           "prev_comm": [s["pcomm"] for s in sw], "prev_pid": [s["prev"] for s in sw], "next_comm": [s["comm"] for s in sw],
                           "next_pid": [s["next"] for s in sw]}, index=pd.Index([s["t"] / TICK for s in sw], name="Time"))
        tr.add_parsed_event("sched_switch", df)
        return tr, tr
    t.FTrace.disable_cache = True
    html = case["how"] == "html"
    fn = "trace.html" if html else "trace.txt"
    with io.open(fn, "w") as f:
        if html:
            f.write(u'<html>\n<!-- BEGIN TRACE -->\n  <script class="trace-data" type="application/text">\n# tracer: nop\n#\n')
        elif case["header"]:
            f.write(u"version = 6\ncpus=%d\n" % case["cpus"])
        f.write(u"  sh-1 [000] %s0.000000: unrelated: a=1\n" % ("d..2 " if html else ""))
        for s in sw:
            f.write(u"  %s-%d [%03d] %s%d.%09d: sched_switch: prev_comm=%s prev_pid=%d prev_prio=120 prev_state=S ==> next_comm=%s next_pid=%d next_prio=120\n"
                    % (s["pcomm"], s["prev"], s["cpu"], "d..2 " if html else "", s["t"] // TICK, (s["t"] % TICK) * 15625000, s["pcomm"], s["prev"], s["comm"], s["next"]))
        if html:
            f.write(u"  </script>\n<!-- END TRACE -->\n</html>\n")
    tr = t.SysTrace(fn) if html else t.FTrace(fn)
    return tr, (fn if case["bypath"] else tr)


def run_switches(case):
    def go():
        from trappy.plotter import plot_trace
        from trappy.plotter.Utils import get_trace_event_data
        import warnings
        where = nbdir()
        trace, handle = make_trace(case)
        one = lambda xs: xs[0] if len(xs) == 1 and case["scalars"] else list(xs)
        kw = {}
        if case["names"]:
            kw["execnames"] = one(case["names"])
        if case["pids"]:
            kw["pids"] = one(case["pids"])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            data, procs, domain = get_trace_event_data(trace, **kw)
        warned = len([x for x in w if x.category is UserWarning])
        tasks = [{"name": k, "lanes": [], "ivs": [[tick(a), tick(b), int(c)] for a, b, c in v]} for k, v in sorted(data.items())]
        pg = page(displayed(lambda: plot_trace(handle, **kw)))
        served = {f for f in os.listdir(where)}
        pg["resources"] = {"EventPlot.js", "EventPlot_help.jpg", "d3.min.js", "d3.tip.v0.6.3.js"} <= served
        return {"tasks": tasks, "procs": sorted(procs), "domain": [tick(x) for x in domain], "warned": warned, "page": pg}
    r = obs.Caught(go)
    return dict(r.res or {"tasks": [], "procs": [], "domain": [], "warned": 0, "page": NOPAGE}, err=r.err, msg=r.msg[:200])


def run_plot(case):
    def go():
        tv.trappy()
        from trappy.plotter.EventPlot import EventPlot
        data = {str(d["name"]): [[s / TICK, e / TICK, l] for s, e, l in d["evs"]] for d in case["data"]}
        before = json.dumps(data, sort_keys=True)
        kw = {}
        if case["lanes"]:
            kw["lanes"] = list(case["lanes"])
        if case["num"]:
            kw["num_lanes"] = case["num"]
        if case["prefix"] != "Lane: ":
            kw["lane_prefix"] = case["prefix"]
        if not case["summary"]:
            kw["summary"] = False
        if case["stride"]:
            kw["stride"] = True
        if case["map"]:
            kw["color_map"] = {m["name"]: m["color"] for m in case["map"]}
        p = EventPlot(data, list(data), tuple(x / TICK for x in case["domain"]), **kw)
        pg = page(p.html())
        pg["intact"] = json.dumps(data, sort_keys=True) == before and p.html() == p.html()
        return {"page": pg}
    r = obs.Caught(go)
    return dict(r.res or {"page": NOPAGE}, err=r.err, msg=r.msg[:200])


def execute(case):
    return run_plot(case) if case["kind"] == "plot" else run_switches(case)


def lanes(case):
    m = 1 + max(s["cpu"] for s in case["sw"])
    return max(m, case["cpus"]) if case["how"] == "ftrace" and case["header"] else m


def finish(rng, c):
    c["kind"] = "switches"
    c["how"] = c.get("how") or rng.choice(["bare", "ftrace", "ftrace", "html"])
    c["header"] = rng.random() < 0.6
    c["cpus"] = rng.choice([1, 2, 4, 8])
    c["cpus"] = lanes(c)
    c["bypath"] = rng.random() < 0.5
    c["scalars"] = rng.random() < 0.5
    names = sorted({s["comm"] for s in c["sw"]})
    pids = sorted({s["next"] for s in c["sw"]})
    c["names"] = rng.sample(names, rng.randint(1, min(2, len(names)))) if rng.random() < 0.25 else []
    c["pids"] = [p for p in rng.sample(pids, rng.randint(1, min(3, len(pids)))) if p] if rng.random() < 0.25 else []
    return c


def modelled(rng, r):
    comm = {0: "swapper", 1: "a", 2: "a"}
    t, sw = 0, []
    for s in r["sw"]:
        t += rng.choice([1, 2, 40])
        sw.append(dict(s, t=t, pcomm=comm[s["prev"]]))
        comm[s["next"]] = s["comm"]
    return finish(rng, {"sw": sw})


def gen_switches(rng):
    """a simulated machine; switches may get lost"""
    ncpu = rng.choice([1, 2, 4])
    names = ["sh", "kworker/0:1", "migration/0", "migration/1", "migrationd", "db_migration", "rcu_preempt", "42", "surfaceflinger", "Binder:12_3", "a-1"]
    tasks = {p: rng.choice(names) for p in rng.sample(range(1, 3000), rng.randint(1, 6))}
    run = {c: 0 for c in range(ncpu)}
    t, sw, drop = 0, [], rng.choice([0, 0, 0.1, 0.4])
    for _ in range(rng.randint(1, 25)):
        t += rng.choice([1, 1, 3, 20])
        c = rng.randrange(ncpu)
        free = [p for p in tasks if p not in run.values()] + ([0] if run[c] else [])
        if not free:
            continue
        n = rng.choice(free)
        if rng.random() < 0.05 and n:
            tasks[n] = rng.choice(names)                # exec
        prev, run[c] = run[c], n
        if sw and rng.random() < drop:
            continue
        sw.append({"t": t, "cpu": c, "prev": prev, "next": n, "comm": tasks.get(n, "swapper/%d" % c), "pcomm": tasks.get(prev, "swapper/%d" % c)})
    return finish(rng, {"sw": sw}) if sw else gen_switches(rng)


def gen_plot(rng):
    nlanes = rng.choice([1, 2, 4])
    named = rng.random() < 0.4
    ids = rng.sample(range(0, 9), nlanes) if named else list(range(nlanes))
    data, end = [], 1
    for i in range(rng.randint(1, 4)):
        t, evs = rng.randint(0, 9), []
        for _ in range(rng.choice([0, 1, 2, 5])):
            e = t + rng.choice([0, 0, 1, 5, 30])
            evs.append([t, e, rng.choice(ids)])
            t = e + rng.choice([0, 1, 7])
        end = max([end] + [e[1] for e in evs])
        data.append({"name": rng.choice(["task-%d", "%d", "A b %d"]) % i, "evs": evs})
    if named and rng.random() < 0.1:
        ids = ids[:-1] or [77]
    return {"kind": "plot", "data": data, "lanes": ids if named else [], "num": 0 if named or rng.random() < 0.05 else nlanes, "prefix": rng.choice(["Lane: ", "CPU"]),
            "domain": [0, end], "summary": rng.random() < 0.7, "stride": rng.random() < 0.4,
            "map": [{"name": d["name"], "color": rng.choice(["red", "#FF0000"])} for d in data if rng.random() < 0.7] if rng.random() < 0.3 else []}


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Residency", emits=True)
    lim = chk.pick(700, 8000)
    chk.run(execute, [modelled(rng, r) for r in rng.sample(recs, min(lim, len(recs)))], "Trace_Residency", label="model-behaviours")
    chk.run(execute, [gen_switches(rng) for _ in range(chk.pick(400, 5000))], "Trace_Residency", label="seeded-switches")
    chk.run(execute, [gen_plot(rng) for _ in range(chk.pick(400, 5000))], "Trace_Residency", label="seeded-plots")
    chk.assumptions = ["pages are read as the text a notebook displays; no JavaScript is run", "what would be downloaded is in place already"]
