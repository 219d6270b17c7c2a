"""C29: results of Workload Automation against spec/Results.tla."""
import io, math, os
import tv, obs


def text(v):
    return "%d" % (v // 1000) if v % 1000 == 0 else repr(v / 1000.0)


def cells(df):
    out = []
    for i, (bench, run) in enumerate(df.columns.tolist()):
        for num, v in zip(df.index.tolist(), df.iloc[:, i].tolist()):
            if not (isinstance(v, float) and math.isnan(v)):
                out.append({"bench": str(bench), "run": str(run), "num": int(num), "val": int(round(float(v) * 1000))})
    return out


def execute(case):
    tv.trappy()
    from trappy.wa import Result, get_results, combine_results
    import matplotlib.pyplot as plt
    import csv

    paths, texts = [], []
    for k, f in enumerate(case["files"]):
        d = "out%d" % k
        os.makedirs(d)
        fn = os.path.join(d, "results.csv" if case["how"] != "file" else "r.csv")
        with io.open(fn, "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(["id", "workload", "iteration", "metric", "value", "units"])
            for r in f["rows"]:
                w.writerow([str(r["id"]), str(r["bench"]), "1", str(r["metric"]), text(r["val"]), ""])
        texts.append(io.open(fn).read())
        paths.append((d, fn))

    def read(k, f):
        kw = {"name": str(f["name"])} if f["name"] else {}
        d, fn = paths[k]
        if case["how"] == "cwd":
            old = os.getcwd()
            os.chdir(d)
            try:
                return get_results(**kw)
            finally:
                os.chdir(old)
        return get_results(d if case["how"] == "dir" else fn, **kw)
    r = obs.Caught(lambda: [read(k, f) for k, f in enumerate(case["files"])])
    o = {"err": r.err, "msg": r.msg[:200], "tables": [], "kinds": True, "comberr": "", "comb": [], "combcols": [], "bars": [], "kept": True,
         "all": [], "limits": []}
    if r.err:
        return o
    res = r.res
    o["tables"] = [cells(x) for x in res]
    o["kinds"] = all(isinstance(x, Result) for x in res)
    if len(res) > 1:
        c = obs.Caught(lambda: combine_results(res))
        o["comberr"] = c.err
        o["msg"] = c.msg[:200]
        if not c.err:
            o["kinds"] = o["kinds"] and isinstance(c.res, Result)
            o["comb"] = cells(c.res)
            o["combcols"] = [[str(b), str(x)] for b, x in c.res.columns.tolist()]
        o["kinds"] = o["kinds"] and o["tables"] == [cells(x) for x in res]
    if case["bars"]:
        def bars():
            for bench in sorted({x["bench"] for x in o["tables"][0]}):
                plt.close("all")
                other = None
                if case["fig"]:
                    res[0].init_fig()
                    if case["behind"]:
                        other = plt.subplots()[1]   # the user's next figure
                res[0].plot_results_benchmark(bench, **({"title": str(case["title"])} if case["title"] else {}))
                ax = res[0].ax if case["fig"] else plt.gca()
                leg = ax.get_legend()
                o["bars"].append({"bench": bench, "title": ax.get_title(), "legend": sorted(x.get_text() for x in leg.get_texts()) if leg else [],
                                  "other": 0 if other is None else len(other.containers) + len(other.lines) + (other.get_legend() is not None), "sets": [
                    {"run": str(k.get_label()), "vals": [-1 if math.isnan(p.get_height()) else int(round(p.get_height() * 1000)) for p in k]} for k in ax.containers]})
            plt.close("all")
        b = obs.Caught(bars)
        if b.err:
            o["err"], o["msg"] = b.err, b.msg[:200]

        def everything():
            """All benchmarks at once, each on a figure of its own"""
            res[0].ax = None
            plt.close("all")
            res[0].plot_results()
            for n in plt.get_fignums():
                for ax in plt.figure(n).axes:
                    o["all"].append({"title": ax.get_title(), "runs": sorted(str(k.get_label()) for k in ax.containers)})
            plt.close("all")
        b = obs.Caught(everything) if not b.err else b
        if b.err:
            o["err"], o["msg"] = b.err, b.msg[:200]

        def limits():
            """Room for further data"""
            import pandas as pd
            for lim in case["limits"]:
                plt.close("all")
                res[0].init_fig()
                ax = res[0].ax
                other = None
                if lim["other"]:
                    ax.set_ylim(lim["lo"] / 1000.0, lim["hi"] / 1000.0)
                    other = plt.subplots()[1]
                    other.set_ylim(-3, 4)
                ax.set_ylim(lim["lo"] / 1000.0, lim["hi"] / 1000.0)
                data = pd.DataFrame({"s%d" % i: pd.Series([float("nan") if v == -1 else v / 1000.0 for v in c], dtype=float) for i, c in enumerate(lim["data"])})
                res[0].enlarge_axis(data)
                o["limits"].append({"lo": int(round(ax.get_ylim()[0] * 10000)), "hi": int(round(ax.get_ylim()[1] * 10000)),
                                    "kept": other is None or tuple(other.get_ylim()) == (-3, 4)})
            plt.close("all")
        b = obs.Caught(limits) if not b.err else b
        if b.err:
            o["err"], o["msg"] = b.err, b.msg[:200]
    o["kept"] = texts == [io.open(fn).read() for _, fn in paths]
    return o


def finish(rng, c):
    c["how"] = rng.choice(["dir", "dir", "file", "cwd"])
    c["bars"] = rng.random() < 0.3
    c["fig"] = rng.random() < 0.4
    c["behind"] = rng.random() < 0.3
    c["title"] = rng.choice(["", "A title"])
    c["limits"] = []
    for _ in range(rng.choice([1, 2, 3])):
        n, m = rng.randint(1, 3), rng.randint(1, 4)
        top = rng.choice([500, 5000, 60000])
        data = [[rng.choice([rng.randint(0, top), 1000 * rng.randint(0, top // 500)]) for _ in range(m)] for _ in range(n)]
        for row in data:
            for i in range(m):
                if rng.random() < 0.25:
                    row[i] = -1             # not run that often
        if all(v == -1 for row in data for v in row):
            data[0][0] = 7000
        vals = [v for row in data for v in row if v != -1]
        lo = rng.choice([0, min(vals), min(vals) - 1500, min(vals) + 500, rng.randint(-5000, 5000)])
        hi = rng.choice([max(vals), max(vals) + 1, max(vals) + 2500, max(vals) - 500, rng.randint(0, top)])
        c["limits"].append({"data": data, "lo": lo, "hi": max(hi, lo + 100), "other": rng.random() < 0.3})
    return c


def modelled(rng, rs):
    files = []
    for r in rs:
        rows = [dict(x, val=rng.choice([1000, 1500, 242052, 7000, 2000]) + 1000 * x["val"]) for x in r["rows"]]
        files.append({"rows": rows, "name": rng.choice(["", "", "", "malkovich"])})
    return finish(rng, {"files": files})


def gen(rng):
    benches = rng.sample(["antutu", "t-rex_offscreen", "geekbench", "the chase", "b,1", "x\"y"], rng.randint(1, 4))
    ids = rng.sample(["power_allocator", "step_wise", "gov", "a_b", "run1", "x_12_y"], rng.randint(1, 3))
    metrics = ["score", "score 1", "score 12", "score_2", "Overall_Score", "Overall_Score_2", "Overall_Score_10", "FPS", "FPS_0", "FPS_3", "FPS 1",
               "Memory_score", "multicore_score 2", "CPU_integer", "execution_time", "fps", "Score", "score_total", "Overall_Score_x_3"]
    files = []
    for k in range(rng.choice([1, 1, 2, 3])):
        rows = []
        for _ in range(rng.choice([1, 3, 10, 25])):
            rows.append({"id": rng.choice(ids) + "_%d" % rng.randint(0, 12) * rng.choice([1, 1, 1, 0]), "bench": rng.choice(benches),
                         "metric": rng.choice(metrics), "val": rng.choice([1000 * rng.randint(0, 99), rng.randint(0, 500000)])})
        files.append({"rows": rows, "name": rng.choice(["", "", "new", "old"])})
    return finish(rng, {"files": files})


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Results", emits=True)
    cases = [modelled(rng, rng.sample(recs, rng.choice([1, 1, 2, 3]))) for _ in range(chk.pick(1000, 15000))]
    chk.run(execute, cases, "Trace_Results", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(800, 12000))], "Trace_Results", label="seeded-results")
    chk.assumptions = ["rows hold a number as their value", "of scores sharing benchmark, run and number the first is kept (as documented by the code)"]
