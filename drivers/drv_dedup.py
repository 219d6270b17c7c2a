"""C15: handle_duplicate_index against spec/Dedup.tla."""
import random
import tv, obs

VALS = [3, "x", 0.5, -1, "", None, 7, 10 ** 12, 2.25]


def execute(case):
    tv.trappy()
    import pandas as pd
    from trappy.utils import handle_duplicate_index
    idx = [t / 1e9 for t in case["ts"]]
    if case["kind"] == "int":
        idx = [int(x) for x in idx]
    n = len(idx)
    index = pd.Index(idx, name="Time", dtype=float if case["kind"] != "int" else int)
    vals = pd.Series(list(range(n)), index=index)
    if case["kind"] == "frame":
        data = pd.DataFrame({"row": list(range(n)), "v": [VALS[i % len(VALS)] for i in range(n)],
                             "f": [i * 0.5 for i in range(n)]}, index=index)
        if n % 3 == 0:
            data["Time"] = [n - i for i in range(n)]       # a column with the index's name
        if case["lines"]:
            data["__line"] = case["lines"]
    else:
        data = vals
    before, bidx = data.copy(deep=True), list(data.index)
    kw = {} if case["default"] else {"max_delta": case["maxd"] / 1e9}
    r = obs.Caught(lambda: handle_duplicate_index(data, **kw))
    touched = list(data.index) != bidx or not data.reset_index(drop=True).equals(before.reset_index(drop=True)) or list(index) != bidx
    if r.err:
        return {"err": r.err, "order": [], "t": [], "rank": [], "same": [], "touched": touched, "intact": False}
    out = r.res
    rows = [int(x) for x in (out["row"] if case["kind"] == "frame" else out).tolist()]
    times = [float(x) for x in out.index]
    rk = {t: i for i, t in enumerate(sorted(set(times)))}
    intact = sorted(rows) == list(range(n))
    if case["kind"] == "frame" and intact:
        intact = list(out.columns) == list(before.columns)
        for c in before.columns:
            a, b = out[c].tolist(), before[c].tolist()
            intact = intact and all(obs.typed(a[i]) == obs.typed(b[rows[i]]) for i in range(n))
    return {"err": "", "order": [r + 1 for r in rows], "t": [int(round(t * 1e9)) for t in times], "rank": [rk[t] for t in times],
            "same": [times[i] == float(idx[rows[i]]) if rows[i] < n else False for i in range(len(rows))],
            "touched": touched, "intact": bool(intact)}


def mk(rng, ts, maxd, kind, default=False):
    lines = []
    if kind == "frame" and rng.random() < 0.7 and len(ts) <= 6:
        lines = rng.sample(range(100), len(ts))
        if rng.random() < 0.5:      # any row order
            rng.shuffle(ts)
    return {"ts": ts, "maxd": maxd, "kind": kind, "lines": lines, "default": default}


def gen(rng):
    kind = rng.choice(["series", "frame", "frame"])
    unit = rng.choice([1000, 125000, 31250000])
    ts, t = [], rng.choice([0, 0, 1000000, 100000000])
    for _ in range(rng.randint(0, 12 if kind == "series" else 6)):
        t += rng.choice([0, 0, 0, 1, 2, 5]) * unit
        ts.append(t)
    if rng.random() < 0.3:
        return mk(rng, ts, 1000, kind, True)
    return mk(rng, ts, rng.choice([1000, 125000, 1000000, 31250000]), kind)


def check(chk, prop):
    recs = chk.mc("MC_Dedup", emits=True)
    cases = []
    for r in recs:
        kind = chk.rng.choice(["series", "frame", "int"])
        if len(r["ts"]) > 6:
            kind = "series"
        u = 40000000 if kind != "int" else 10 ** 9
        if kind == "int" and (r["maxd"] > 2 or any(t > 1 for t in r["ts"])):
            kind, u = "series", 40000000
        cases.append(mk(chk.rng, [t * u for t in r["ts"]], r["maxd"] * (u if kind != "int" else 100000000), kind))
    lim = chk.pick(1200, 20000)
    if len(cases) > lim:
        cases = chk.rng.sample(cases, lim)
    chk.run(execute, cases, "Trace_Dedup", label="model-behaviours")
    chk.run(execute, [gen(chk.rng) for _ in range(chk.pick(900, 9000))], "Trace_Dedup", label="seeded-executions")
    chk.assumptions = ["times and gaps are large compared to the resolution of floating point numbers"]
