"""C21, C22: plot constraints and their expansion against spec/Constraints.tla."""
import io
import tv, obs
from drv_stats import TICK, I, S, NONE, val, cell, tick


def pval(c, unit):
    return c["i"] / unit if c["k"] == "i" and unit != 1 else val(c)


def frame(tab, piv="", unit=1):
    import pandas as pd
    def one(c, r):
        if c not in r["c"]:
            return None
        return pval(r["c"][c], unit) if c == piv else val(r["c"][c])
    return pd.DataFrame({c: [one(c, r) for r in tab["rows"]] for c in tab["cols"]}, columns=tab["cols"],
                        index=pd.Index([r["t"] / TICK for r in tab["rows"]], name="Time", dtype=float))


def make_data(case, n, d):
    t = tv.trappy()
    if d["frame"]:
        return frame(d["tabs"][""], case["pivot"], case["unit"])
    if d["how"] == "bare":
        tr = t.BareTrace(name=d["name"])
        for ev, tab in sorted(d["tabs"].items()):
            tr.add_parsed_event(ev, frame(tab, case["pivot"], case["unit"]))
        return tr
    t.FTrace.disable_cache = True
    lines = sorted((r["t"], ev, " ".join("%s=%s" % (k, val(v)) for k, v in sorted(r["c"].items())))
                   for ev, tab in d["tabs"].items() for r in tab["rows"])
    fn = "trace%d.txt" % n
    with io.open(fn, "w") as f:
        f.write(u"  sh-1 [000] 0.0: unrelated: a=1\n")
        for ti, ev, p in lines:
            f.write(u"  sh-1 [000] %d.%09d: %s: %s\n" % (ti // TICK, (ti % TICK) * 15625000, ev, p))
    return t.FTrace(fn, name=d["name"], scope="custom", events=sorted(d["tabs"]))


def templates(case, data):
    """the event classes of the first trace that has them"""
    out = []
    for name in case["tmpls"]:
        if name == "":
            out.append(None)
            continue
        for tr in data:
            if name in tr.class_definitions:
                out.append(tr.class_definitions[name])
                break
    return out


def filters(case):
    out = {}
    for f in case["filters"]:
        vs = [pval(v, case["unit"]) if f["col"] == case["pivot"] else val(v) for v in f["vals"]]
        out[f["col"]] = vs[0] if case.get("single") and len(vs) == 1 else tuple(vs) if case.get("tuples") else vs
    return out


def pv(p, case):
    from trappy.plotter import AttrConf
    if isinstance(p, str) and p == AttrConf.PIVOT_VAL:
        return NONE
    return cell(p * case["unit"]) if case["unit"] != 1 and not isinstance(p, str) else cell(p)


def scalar(xs, case):
    return xs[0] if len(xs) == 1 and case.get("scalars") else xs


def execute(case):
    def go():
        from trappy.plotter import AttrConf
        from trappy.plotter.Constraint import ConstraintManager
        data = [make_data(case, n, d) for n, d in enumerate(case["data"])]
        w = tuple(x / TICK for x in case["w"]) if case["w"] else None
        kw = {}
        if w is not None or not case.get("scalars"):
            kw["window"] = w
        if not case["zip"]:
            kw["zip_constraints"] = False
        m = ConstraintManager(scalar(data, case), scalar(list(case["cols"]), case), scalar(templates(case, data), case),
                              case["pivot"] or AttrConf.PIVOT, filters(case), **kw)
        made = []
        for c in m:
            made.append({"label": str(c), "res": [{"pv": pv(k, case), "pts": [{"t": tick(t), "v": cell(v)} for t, v in zip(s.index.tolist(), s.tolist())]}
                                                  for k, s in c.result.items()]})
        ps, n = m.generate_pivots()
        qs, k = m.generate_pivots(True)
        return {"made": made, "labels": [str(x) for x in m.constraint_labels()], "pivots": [pv(p, case) for p in ps], "npivots": n,
                "perm": [[I(a), pv(p, case)] for a, p in qs], "nperm": k, "len": len(m)}
    r = obs.Caught(go)
    if r.err:
        return {"err": r.err, "msg": r.msg[:200], "made": [], "labels": [], "pivots": [], "npivots": 0, "perm": [], "nperm": 0, "len": 0}
    return dict(r.res, err="", msg="")


def rtable(rng, base, cols, pivots, n, dups, missing, taken):
    rows, t = [], 0
    for k in range(n):
        t += rng.choice([1, 1, 2, 5, 9] + ([0] if dups and k else []))
        while taken is not None and t in taken:
            t += 1
        if taken is not None:
            taken.add(t)
        c = {}
        for j, col in enumerate(cols):
            if col == "p":
                c[col] = rng.choice(pivots)
            elif col == "s":
                c[col] = S(rng.choice(["x", "y", "xy"]))
            elif col == "q":
                c[col] = I(rng.randint(0, 2))
            else:
                c[col] = I(base + 100 * j + rng.randint(0, 99))
            if missing and col != "p" and rng.random() < 0.25:
                c.pop(col)
        rows.append({"t": t, "c": c})
    present = [c for c in cols if any(c in r["c"] for r in rows)]
    return {"cols": present, "rows": rows}


def gen(rng, nt=None, np_=None, nc=None, valid=True):
    kind = rng.choice(["frame", "bare", "ftrace", "bare", "ftrace"])
    unit = 1
    family = rng.choice(["small", "small", "wide", "strings", "hexlike", "mixed", "decimals", "fractions", "masks"])
    if kind == "ftrace" and family in ("hexlike", "decimals", "mixed", "fractions"):
        family = "wide"
    pivots = {"small": [I(0), I(1)], "wide": [I(x) for x in (0, 3, 10, 9, 100, 2)], "strings": [S(x) for x in ("zeta", "alpha", "Mid_1", "kworker/0:1")],
              "hexlike": [S(x) for x in ("0x10", "0xa", "b", "add", "0x9")], "mixed": [I(12), S("rs:main"), I(3), S("abc")],
              "decimals": [S("10"), S("9"), S("100"), I(11)], "fractions": [I(x) for x in (1, 2, 3, 7, 5, 40)],
              "masks": [S("00000000,00000006"), S("00000000,00000039"), S("00000000,0000000f")]}[family]
    if family == "fractions":
        unit = 4
    zip_ = rng.random() < 0.6
    lens = [nt, nc, np_]
    if nt is None:
        k = rng.choice([1, 2, 2, 3, 4])
        lens = [rng.choice([1, k]) for _ in range(3)] if zip_ else [rng.choice([1, 2, 3])] + [rng.choice([1, k]) for _ in range(2)]
        if not valid:
            lens = [rng.choice([0, 1, 2, 3]) for _ in range(3)]
            if kind == "frame":
                lens[2] = 1
    if kind == "frame":
        lens[2] = 1
    events = ["ev_a", "ev_b", "zev"] if kind != "frame" else [""]
    cols = ["p", "v", "u", "q", "s"]
    has_missing = rng.random() < 0.3
    data = []
    for n in range(lens[0]):
        taken = set() if kind == "ftrace" else None
        tabs = {}
        for j, ev in enumerate(events):
            mine = cols[:] if rng.random() < 0.8 else [c for c in cols if rng.random() < 0.7]
            size = rng.choice([0, 1, 4, 8, 12]) if rng.random() < 0.9 else 0
            tabs[ev] = rtable(rng, 1000 * (3 * n + j + 1), mine or ["v"], pivots, size, kind == "frame" and rng.random() < 0.5, has_missing, taken)
        data.append({"name": rng.choice(["", "", "run%d" % n, "base: line"]) if kind != "frame" else "", "frame": kind == "frame", "how": kind, "tabs": tabs})
    cs = [rng.choice(["v", "u", "q", "s", "v"]) for _ in range(lens[1])]
    ts = [rng.choice(events) for _ in range(lens[2])]
    fs = []
    for col in rng.sample(["p", "q", "s", "nope", "v"], rng.choice([0, 0, 1, 1, 2])):
        pool = pivots if col == "p" else [I(0), I(1), I(2), I(7)] if col in ("q", "nope", "v") else [S("x"), S("y"), S("zz")]
        fs.append({"col": col, "vals": rng.sample(pool, rng.randint(0, min(3, len(pool))))})
    w = []
    if rng.random() < 0.4:
        a = rng.randint(0, 60)
        w = [a, a + rng.choice([0, 1, 5, 20, 60])]
    return {"data": data, "cols": cs, "tmpls": ts, "zip": zip_, "pivot": rng.choice(["", "p", "p", "p", "q" if unit == 1 else "p", "s" if unit == 1 else "p"]), "filters": fs, "w": w, "unit": unit,
            "scalars": rng.random() < 0.5, "single": rng.random() < 0.3, "tuples": rng.random() < 0.2}


def request(case):
    """Make the plotter asked for."""
    import pandas as pd
    t = tv.trappy()
    r = case["r"]
    def trace(n):
        x = t.BareTrace(name="run%d" % n)
        x.add_parsed_event("ev_a", pd.DataFrame({"v": [1, 2], "u": [3, 4]}, index=pd.Index([0.5, 1.5], name="Time")))
        return x
    frame = pd.DataFrame({"v": [1, 2], "u": [3, 4]}, index=pd.Index([0.5, 1.5], name="Time"))
    data = {"none": [], "frame": frame, "frames": [frame, frame + 1], "trace": trace(0), "traces": [trace(0), trace(1)]}[r["data"]]
    kw, args = {}, [data]
    if r["templates"]:
        cls = trace(0).class_definitions["ev_a"]
        args.append(cls if case["scalar"] else [cls])
    if r["column"]:
        kw["column"] = "v" if case["scalar"] else ["v"]
    sig = {"good": "ev_a:v", "several": ["ev_a:v", "ev_a:u"], "unknown": ["ev_a:v", "ev_zz:v"], "half": "ev_a", "empty-column": "ev_a:"}
    if r["signals"]:
        kw["signals"] = sig[r["signals"]]

    def go():
        from trappy.plotter.LinePlot import LinePlot
        from trappy.plotter.BarPlot import BarPlot
        from trappy.plotter.ILinePlot import ILinePlot
        {"LinePlot": LinePlot, "BarPlot": BarPlot, "ILinePlot": ILinePlot}[r["plotter"]](*args, **kw)
    x = obs.Caught(go)
    return {"err": x.err, "msg": x.msg[:200]}


def check(chk, prop):
    rng = chk.rng
    if prop == "C21":
        recs = chk.mc("MC_Constraint", emits=True)
        lim = chk.pick(1500, 20000)
        recs = recs if len(recs) <= lim else rng.sample(recs, lim)
        cases = []
        for i, r in enumerate(recs):
            dup = len({x["t"] for x in r["tab"]["rows"]}) < len(r["tab"]["rows"])
            how = "frame" if dup or not r["tab"]["rows"] or i % 3 == 0 else "bare" if i % 3 == 1 else "ftrace"
            ev = "" if how == "frame" else "ev_a"
            cases.append({"data": [{"name": "", "frame": how == "frame", "how": how, "tabs": {ev: r["tab"]}}], "cols": ["v"], "tmpls": [ev],
                          "zip": True, "pivot": r["pivot"], "filters": r["filters"], "w": r["w"], "unit": 1, "scalars": i % 2 == 0})
        chk.run(execute, cases, "Trace_Constraint", label="model-behaviours")
        chk.run(execute, [gen(rng, 1, 1, 1) for _ in range(chk.pick(1000, 10000))], "Trace_Constraint", label="seeded-constraints")
    else:
        recs = chk.mc("MC_Expand", emits=True)
        cases = []
        for i, r in enumerate(recs):
            c = gen(rng, r["lens"][0], r["lens"][2], r["lens"][1])
            while c["data"] and c["data"][0]["frame"] and r["lens"][2] != 1:
                c = gen(rng, r["lens"][0], r["lens"][2], r["lens"][1])
            if not c["data"]:
                c["tmpls"] = [""] * r["lens"][2]
            c["zip"] = r["zip"]
            c["scalars"] = i % 2 == 0
            cases.append(c)
        chk.run(execute, cases, "Trace_Constraint", label="model-behaviours")
        chk.run(execute, [gen(rng, valid=rng.random() < 0.8) for _ in range(chk.pick(900, 9000))], "Trace_Constraint", label="seeded-expansions")
        chk.run(request, [{"r": r, "scalar": rng.random() < 0.5} for r in chk.mc("MC_Requests", emits=True)], "Trace_Requests", label="requests")
    chk.assumptions = ["events of a trace are in time order", "filters list the accepted values"]
