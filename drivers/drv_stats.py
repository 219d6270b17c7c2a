"""C16, C17: triggers, topologies and aggregation against spec/Triggers.tla."""
import io, random
import tv, obs

TICK = 64


def I(n):
    return {"k": "i", "i": n, "s": ""}


def S(x):
    return {"k": "s", "i": 0, "s": x}


NONE = {"k": "n", "i": 0, "s": ""}


def val(c):
    return c["i"] if c["k"] == "i" else c["s"]


def cell(v):
    c = tv.cell(v)
    if c["k"] == "n":
        return NONE
    if c["k"] == "i" and len(c["d"]) < 10:
        return I(-int(c["d"]) if c["neg"] else int(c["d"]))
    if c["k"] == "s":
        return S(c["v"])
    return {"k": "?", "i": 0, "s": str(c)}


def tick(t):
    n = float(t) * TICK
    return int(n) if n == int(n) else -1


class After1(object):
    def __init__(self):
        self.prev = None

    def __call__(self, v):
        r = self.prev == 1
        self.prev = v
        return bool(r)


FNS = {"ge2": lambda: (lambda v: v >= 2), "even": lambda: (lambda v: v % 2 == 0), "isa": lambda: (lambda v: v == "a"),
       "none": lambda: (lambda v: False), "after1": After1}


def make_trace(case):
    """the event tables as a trace object, either of a parsed file or given as tables"""
    import pandas as pd
    t = tv.trappy()
    tabs = case["tables"]
    if case["how"] == "bare":
        tr = t.BareTrace()
        for n, rows in tabs.items():
            cols = sorted({c for r in rows for c in r["c"]})
            df = pd.DataFrame({c: [val(r["c"][c]) if c in r["c"] else None for r in rows] for c in cols},
                              index=pd.Index([r["t"] / TICK for r in rows], name="Time", dtype=float), columns=cols)
            tr.add_parsed_event(n, df)
        return tr
    t.FTrace.disable_cache = True
    lines = sorted((r["t"], n, " ".join("%s=%s" % (k, val(v)) for k, v in sorted(r["c"].items()))) for n, rows in tabs.items() for r in rows)
    with io.open("trace.txt", "w") as f:
        f.write(u"  sh-1 [000] 0.0: unrelated: a=1\n")
        for ti, n, p in lines:
            f.write(u"  sh-1 [000] %d.%09d: %s: %s\n" % (ti // TICK, (ti % TICK) * 15625000, n, p))
    return t.FTrace("trace.txt", scope="custom", events=sorted(tabs))


def make_trigger(tr, d):
    from trappy.stats.Trigger import Trigger
    fs = {}
    for f in d["filters"]:
        fs[f["col"]] = FNS[f["fn"]]() if f["kind"] == "fn" else [val(v) for v in f["vals"]] if f["kind"] == "list" else val(f["vals"][0])
    v = d["val"]
    return Trigger(tr, getattr(tr, d["ev"]), fs, val(v["cell"]) if v["kind"] == "const" else v["col"], d["pivot"])


def series(s):
    return [{"t": tick(t), "v": cell(v)} for t, v in zip(s.index.tolist(), s.tolist())]


def execute_trigger(case):
    def go():
        tr = make_trace(case)
        out = []
        stateful = any(f["fn"] == "after1" for f in case["tr"]["filters"])
        g = make_trigger(tr, case["tr"])
        for pv in case["pvs"]:
            if stateful:
                g = make_trigger(tr, case["tr"])
            out.append(series(g.generate(val(pv))))
        return out
    r = obs.Caught(go)
    return {"err": r.err, "res": r.res if not r.err else []}


def clip(s):
    return s.clip(0, 1)


AGG = {"none": None, "double": lambda s: s * 2, "cumsum": lambda s: s.cumsum(), "sum": lambda s: s.sum(), "clip": clip,
       "scaled": lambda s, scale=1: s * scale}


def execute_agg(case):
    from trappy.stats.Topology import Topology
    from trappy.stats.Aggregator import MultiTriggerAggregator

    def go():
        tr = make_trace(case)
        if case["clusters"]:
            given = [list(g) for g in case["adds"][0]["groups"]]
            topo = Topology(clusters=given)
            given.append([77])         # the caller's list is the caller's
            rest = case["adds"][2:]
        else:
            topo, rest = Topology(), case["adds"]
        for a in rest:
            given = [list(g) for g in a["groups"]]
            topo.add_to_level(a["name"], given)
            given.append([77])
        trs = [make_trigger(tr, d) for d in case["trs"]]
        aggs = {}
        for fn in sorted({c["fn"] for c in case["calls"]}):
            aggs[fn] = MultiTriggerAggregator(trs[0] if len(trs) == 1 and case["single"] else trs, topo, AGG[fn])
        res = []
        for c in case["calls"]:
            kw = {"scale": 3} if c["fn"] == "scaled" else {}
            if not (c["level"] == "all" and case["dflt"]):
                kw["level"] = c["level"]
            out = aggs[c["fn"]].aggregate(**kw)
            one = []
            for s in out:
                if c["fn"] == "sum":
                    one.append([{"t": 0, "v": num(s)}])
                else:
                    one.append([{"t": tick(t), "v": num(v)} for t, v in zip(s.index.tolist(), s.tolist())])
                    s *= 5             # what the caller does with its result
            res.append(one)
        names = list(topo)
        tp = {}
        for n in names:
            gs = topo.get_level(n)
            tp[n] = {"groups": [list(g) for g in gs], "span": topo.level_span(n), "has": topo.has_level(n),
                     "index": [topo.get_index(n, g) for g in gs], "nodes": [list(topo.get_node(n, i)) for i in range(len(gs))]}
        return {"res": res, "topo": tp, "all": [list(g) for g in topo.get_level("all")], "iter": len(names), "ghost": topo.has_level("nope")}
    r = obs.Caught(go)
    if r.err:
        return {"err": r.err, "res": [], "topo": {"none": {}}, "all": [], "iter": 0, "ghost": False}
    return dict(r.res, err="")


def num(v):
    v = float(v)
    return int(v) if v == int(v) else 999999 if v != v else 888888


def table(rng, n, npiv, missing=False, t0=1, taken=None):
    rows, t = [], t0
    for _ in range(n):
        t += rng.choice([1, 1, 2, 7])
        while taken is not None and t in taken:
            t += 1
        if taken is not None:
            taken.add(t)
        c = {"p": I(rng.randrange(npiv)), "v": I(rng.randint(0, 4)), "s": S(rng.choice(["a", "b", "ab"])), "w": I(rng.choice([-1, 1, 1, 3]))}
        if missing and rng.random() < 0.3:
            c.pop(rng.choice(["v", "s"]))
        rows.append({"t": t, "c": c})
    return rows


def rfilters(rng, missing=False):
    out = []
    for col in rng.sample(["v", "s", "w"], rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(["value", "list", "fn"])
        vals = {"v": [I(i) for i in range(5)], "s": [S("a"), S("b"), S("c")], "w": [I(1), I(-1), I(2)]}[col]
        fn = ""
        if kind == "fn":
            fn = rng.choice(["isa", "none"] if col == "s" else ["ge2", "even", "after1", "none"])
            vs = []
        else:
            vs = [rng.choice(vals)] if kind == "value" else rng.sample(vals, rng.randint(0, len(vals)))
        out.append({"col": col, "kind": kind, "vals": vs, "fn": fn})
    return out


def rtrigger(rng, evs, numeric=False):
    if rng.random() < 0.6:
        v = {"kind": "const", "cell": I(rng.choice([0, 1, -1, 5])), "col": ""}
    else:
        v = {"kind": "col", "cell": NONE, "col": rng.choice(["v", "w"] + ([] if numeric else ["s"]))}
    return {"ev": rng.choice(evs), "pivot": "p", "filters": rfilters(rng), "val": v}


def gen16(rng):
    missing = rng.random() < 0.3
    how = rng.choice(["bare", "ftrace"])
    tabs = {"ev_a": table(rng, rng.randint(0, 10), 3, missing, taken=set())}
    if missing and not all(any(c in r["c"] for r in tabs["ev_a"]) for c in "vs"):
        missing = False
        tabs = {"ev_a": table(rng, 6, 3)}
    pivot = rng.choice(["p", "p", "s"]) if not missing else "p"
    tr = rtrigger(rng, ["ev_a"])
    tr["pivot"] = pivot
    if missing:
        tr["filters"] = [f for f in tr["filters"] if f["fn"] != "after1"]
    pvs = [I(0), I(1), I(2), I(9)] if pivot == "p" else [S("a"), S("b"), S("zz")]
    rng.shuffle(pvs)
    return {"tables": tabs, "how": how, "tr": tr, "pvs": pvs}


def gen17(rng):
    taken = set()
    tabs = {"ev_a": table(rng, rng.randint(0, 9), 5, taken=taken), "ev_b": table(rng, rng.randint(0, 6), 5, taken=taken)}
    for k in tabs:
        tabs[k].sort(key=lambda r: r["t"])
    nodes = rng.sample(range(6), rng.randint(1, 5))

    def groups():
        ns = nodes[:]
        rng.shuffle(ns)
        out = []
        while ns:
            k = rng.randint(1, len(ns))
            out.append(ns[:k])
            ns = ns[k:]
        return out
    g = groups()
    clusters = rng.random() < 0.5
    adds = [{"name": "cluster", "groups": g}]
    if clusters:
        adds.append({"name": "cpu", "groups": [[n] for n in sorted(nodes)]})
    for _ in range(rng.randint(0, 3)):
        adds.append({"name": rng.choice(["x", "y", "cluster"]), "groups": groups()[:rng.randint(1, 3)]})
    names = sorted({a["name"] for a in adds}) + ["all", "all"]
    trs = [rtrigger(rng, ["ev_a", "ev_b"], True) for _ in range(rng.randint(1, 3))]
    for t in trs:
        t["filters"] = [f for f in t["filters"] if f["fn"] != "after1"]
    if not sum(len(tabs[t["ev"]]) for t in trs):
        tabs = {"ev_a": table(rng, 3, 5), "ev_b": table(rng, 3, 5, t0=100)}
    fns = rng.sample(["none", "double", "cumsum", "sum", "clip", "scaled"], rng.randint(1, 2))
    calls = [{"level": rng.choice(names), "fn": rng.choice(fns)} for _ in range(rng.randint(1, 6))]
    return {"tables": tabs, "how": rng.choice(["bare", "ftrace"]), "trs": trs, "adds": adds, "clusters": clusters,
            "calls": calls, "single": rng.random() < 0.5, "dflt": rng.random() < 0.5}


def check(chk, prop):
    if prop == "C16":
        recs = chk.mc("MC_Triggers", emits=True)
        lim = chk.pick(1500, 20000)
        recs = recs if len(recs) <= lim else chk.rng.sample(recs, lim)
        cases = [{"tables": {"ev_a": r["table"]}, "how": "bare" if i % 3 else "ftrace", "tr": r["tr"], "pvs": [I(r["pv"])]} for i, r in enumerate(recs)]
        # tables without rows still have the columns the trigger names
        for c in cases:
            if not c["tables"]["ev_a"]:
                c["how"] = "ftrace"
        chk.run(execute_trigger, cases, "Trace_Triggers", label="model-behaviours")
        chk.run(execute_trigger, [gen16(chk.rng) for _ in range(chk.pick(900, 9000))], "Trace_Triggers", label="seeded-executions")
        chk.assumptions = ["filters name columns the event has", "a predicate is called on every value of its column"]
        return
    recs = chk.mc("MC_Aggregate", emits=True)
    worlds = [r for r in recs if "worlds" in r][0]["worlds"]
    cases = []
    for r in recs:
        if "calls" not in r:
            continue
        w = worlds[r["which"] - 1]
        cases.append({"tables": {"ev_a": w["table"]}, "how": "bare", "trs": w["trs"], "adds": w["levels"], "clusters": False,
                      "calls": [{"level": l, "fn": r["fn"]} for l in r["calls"]], "single": False, "dflt": False})
    chk.run(execute_agg, cases, "Trace_Triggers", label="model-behaviours")
    chk.run(execute_agg, [gen17(chk.rng) for _ in range(chk.pick(900, 9000))], "Trace_Triggers", label="seeded-histories")
    chk.assumptions = ["nodes are integers", "times of different events differ (as in every parsed trace)"]
