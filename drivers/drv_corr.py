"""C18: indexers and correlation against spec/Correlate.tla."""
import io, random
import tv, obs
import drv_stats as st
from drv_stats import I, S, NONE, val

UNIT = 12.5e-6


def world(tabs, how, name):
    import pandas as pd
    t = tv.trappy()
    if how == "bare":
        tr = t.BareTrace()
        for n, rows in tabs.items():
            cols = ["p", "v", "w", "s"]
            tr.add_parsed_event(n, pd.DataFrame({c: [val(r["c"][c]) for r in rows] for c in cols},
                                                index=pd.Index([r["t"] * UNIT for r in rows], name="Time", dtype=float), columns=cols))
        return tr
    t.FTrace.disable_cache = True
    lines = sorted((r["t"], n, " ".join("%s=%s" % (k, val(v)) for k, v in sorted(r["c"].items()))) for n, rows in tabs.items() for r in rows)
    with io.open(name, "w") as f:
        f.write(u"  sh-1 [000] 0.0: unrelated: a=1\n")
        for ti, n, p in lines:
            f.write(u"  sh-1 [000] 0.%09d: %s: %s\n" % (ti * 12500, n, p))
    return t.FTrace(name, scope="custom", events=sorted(tabs))


def pair_score(how):
    if how == "agree":
        return lambda x, y: int(((x == y) & x.notnull() & y.notnull()).sum())

    def f(x, y):
        a, b = x.fillna(7).tolist(), y.fillna(7).tolist()
        if len(a) != len(b):
            return -1
        return int(sum((i + 1) * (3 * p + 5 * q) for i, (p, q) in enumerate(zip(a, b))))
    return f


def score(c):
    c = float(c)
    if c != c:
        return {"nan": True, "m": 0, "q": 0}
    m = int(round(c * 1000))
    return {"nan": False, "m": m, "q": int(m / 100.0)}


def unit(t):
    return int(round(float(t) / UNIT))


def shown(c, case):
    """What Correlator.plot() draws: by axis in use, the lines."""
    from matplotlib import pyplot as plt
    plt.close("all")
    c.plot(case["level"], **({"per_line": case["plot"]} if case["plot"] != 3 else {}))
    figs = [plt.figure(n) for n in plt.get_fignums()]
    out = [[{"t": [unit(x) for x in l.get_xdata()], "v": [-9999 if y != y else int(y) if y == int(y) else -99 for y in l.get_ydata()]} for l in a.lines]
           for f in figs for a in f.axes if a.lines]
    plt.close("all")
    return out


def execute(case):
    from trappy.stats.Topology import Topology
    from trappy.stats.Aggregator import MultiTriggerAggregator
    from trappy.stats.Correlator import Correlator

    def go():
        tra, trb = world(case["a"], case["how"], "a.txt"), world(case["b"], case["how"], "b.txt")
        topo = Topology()
        for a in case["adds"]:
            topo.add_to_level(a["name"], [list(g) for g in a["groups"]])
        kw = {"corrfunc": pair_score(case["corr"])} if case["corr"] else {}

        def agg(tr):
            return MultiTriggerAggregator([st.make_trigger(tr, d) for d in case["trs"]], topo, st.AGG[case["fn"]])

        def one(x, y):
            c = Correlator(x, y, **kw)
            if case["twice"]:
                c.correlate(case["level"], resample=case["resample"])
            s, total = c.correlate(case["level"]) if case["resample"] else c.correlate(case["level"], resample=False)
            return c, [score(v) for v in s], int(round(float(total) * 1000))
        c, s, total = one(agg(tra), agg(trb))
        _, s2, total2 = one(agg(trb), agg(tra))
        z = c.indexer.series()
        plots = shown(c, case) if case["plot"] else []
        return {"plots": plots, "index": [unit(t) for t in c.indexer.index.tolist()], "scores": s, "total": total,
                "swapped": {"scores": s2, "total": total2},
                "zeros": [{"t": unit(t), "v": int(v)} for t, v in zip(z.index.tolist(), z.tolist())],
                "uniform": [unit(t) for t in c.indexer.get_uniform().tolist()]}
    r = obs.Caught(go)
    if r.err:
        return {"err": r.err, "plots": [], "index": [], "scores": [], "total": 0, "swapped": {"scores": [], "total": 0}, "zeros": [], "uniform": []}
    return dict(r.res, err="")


def row(t, p, v):
    return {"t": t, "c": {"p": I(p), "v": I(v), "w": I(1), "s": S("a")}}


def const(v, n):
    return {"ev": "ev_a", "pivot": "p", "filters": [{"col": "v", "kind": "value", "vals": [I(v)], "fn": ""}],
            "val": {"kind": "const", "cell": I(n), "col": ""}}


ON_OFF = [const(1, 1), const(0, -1)]


def copy_shift(tab, s):
    """the same activity 2*s units (s samples) later; all but the first event move"""
    return [dict(r, t=r["t"] if r["t"] == 0 else r["t"] + 2 * s) for r in tab]


def gen(rng):
    nn = rng.randint(1, 3)
    n = rng.randint(1, 9)
    hor = rng.choice([6, 12, 12, 25])

    def table(start):
        ts = sorted(rng.sample(range(1, 2 * hor, 2), min(n, hor)))
        return ([row(0, 7, 3)] if start else []) + [row(t, rng.randrange(nn + 1), rng.choice([0, 1, 1, 2])) for t in ts]
    first = rng.choice(["both", "a", "b"])
    a = {"ev_a": table(first != "b")}
    kind = rng.choice(["other", "other", "same", "shift", "near"])
    b = {"ev_a": table(first != "a")}
    if kind == "same":
        b = a = {"ev_a": table(True)}
    elif kind == "shift":
        a = {"ev_a": table(True)}
        b = {"ev_a": copy_shift(a["ev_a"], rng.randint(0, 5))}
    elif kind == "near":
        b = {"ev_a": [r for r in a["ev_a"] if rng.random() < 0.8] or a["ev_a"][:1]}
        if not any(r["t"] == 0 for r in b["ev_a"] + a["ev_a"]):
            b["ev_a"] = [row(0, 7, 3)] + b["ev_a"]
    nodes = list(range(nn))
    groups = [nodes] if rng.random() < 0.3 else [[x] for x in nodes]
    if nn == 3 and rng.random() < 0.4:
        groups = [[2, 0], [1]]
    adds = [{"name": "cpu", "groups": groups}]
    if rng.random() < 0.5:
        adds.append({"name": "pkg", "groups": [nodes]})
    trs = ON_OFF if rng.random() < 0.7 else [{"ev": "ev_a", "pivot": "p", "filters": [], "val": {"kind": "col", "cell": NONE, "col": "v"}}]
    return {"a": a, "b": b, "how": rng.choice(["bare", "ftrace"]), "trs": trs, "adds": adds,
            "fn": rng.choice(["cumsum", "cumsum", "none", "double"]), "corr": rng.choice(["", "", "agree", "print"]),
            "level": rng.choice(["all"] + [x["name"] for x in adds]), "resample": kind != "same" or rng.random() < 0.6,
            "twice": rng.random() < 0.3, "plot": rng.choice([0, 0, 0, 0, 1, 2, 3])}


def check(chk, prop):
    chk.mc("MC_Correlate")
    recs = chk.mc("MC_Correlate", "MC_CorrelateEmit.cfg", emits=True)
    lim = chk.pick(1000, 12000)
    recs = recs if len(recs) <= lim else chk.rng.sample(recs, lim)
    cases = []
    for i, r in enumerate(recs):
        def tab(ts, vs):
            return [row(t, 0, v) if k else row(t, 7, 3) for k, (t, v) in enumerate(zip(ts, vs))]
        cases.append({"a": {"ev_a": tab(r["at"], r["av"])}, "b": {"ev_a": tab(r["bt"], r["bv"])}, "how": "bare", "trs": ON_OFF,
                      "adds": [{"name": "cpu", "groups": [[0]]}], "fn": ["cumsum", "none"][i % 2], "corr": ["", "agree", "print"][i % 3],
                      "level": ["cpu", "all"][i % 2], "resample": True, "twice": False, "plot": 3 if i % 20 == 0 else 0})
    chk.run(execute, cases, "Trace_Correlate", label="model-behaviours")
    chk.run(execute, [gen(chk.rng) for _ in range(chk.pick(500, 8000))], "Trace_Correlate", label="seeded-executions")
    chk.assumptions = ["no event falls on the very time of a sample other than the first", "small integer activity (Pearson's r is checked in tenths and where it is exactly 1)"]
