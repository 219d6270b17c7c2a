"""C28: thermal plots and comparisons of runs against spec/Compare.tla."""
import io, math, os
import tv, obs
from drv_stats import TICK, tick
from drv_power import event, MASKS
from drv_iline import displayed

NOTHING = -1000000001
KINDS = {"cin": u"thermal_power_cpu_get_power: cpus=%(mask)s freq=%(freq)d load={%(all)s} dynamic_power=%(power)d static_power=0",
         "cout": u"thermal_power_cpu_limit: cpus=%(mask)s freq=%(freq)d cdev_state=1 power=%(power)d",
         "din": u"thermal_power_devfreq_get_power: type=gpu freq=%(hz)d load=%(load)d dynamic_power=%(power)d static_power=0 power=%(power)d",
         "dout": u"thermal_power_devfreq_limit: type=gpu freq=%(hz)d cdev_state=1 power=%(power)d",
         "temp": u"thermal_temperature: thermal_zone=cls%(zone)d id=%(zone)d temp_prev=%(v)d temp=%(v)d",
         "pid": u"thermal_power_allocator_pid: thermal_zone_id=0 err=%(err)d err_integral=%(err)d p=%(p)d i=%(i)d d=%(d)d output=%(output)d",
         "gov": u"thermal_power_allocator: thermal_zone_id=%(zone)d req_power={%(r)s} total_req_power=%(sr)d granted_power={%(g)s} total_granted_power=%(sg)d "
                u"power_range=3000 max_allocatable_power=9000 current_temperature=%(cur)d delta_temperature=%(delta)d",
         "old": u"thermal_power_allocator: thermal_zone_id=%(zone)d current_temperature=%(cur)d delta_temperature=%(delta)d Ptot_in=%(sr)d Ptot_out=%(sg)d %(named)s"}


def write(run, d, actors, old):
    os.makedirs(d)
    es = [(e["t"], KINDS[e["k"]] % dict(e, all=" ".join(map(str, e["loads"])), hz=e["freq"] * 1000)) for e in run["ev"]]
    es += [(e["t"], KINDS["temp"] % e) for e in run["temps"]]
    es += [(e["t"], KINDS["pid"] % dict(e, err=7)) for e in run["pid"]]
    for e in run["gov"]:
        x = dict(e, r=" ".join(map(str, e["req"])), g=" ".join(map(str, e["granted"])), sr=sum(e["req"]), sg=sum(e["granted"]),
                 named=" ".join("P%s_in=%d P%s_out=%d" % (a, i, a, o) for a, i, o in zip(actors, e["req"], e["granted"])))
        es.append((e["t"], KINDS["old" if old else "gov"] % x))
    with io.open(os.path.join(d, "trace.txt"), "w") as f:
        f.write(u"  sh-1 [000] 0.000000: unrelated: a=1\n")
        for t, l in sorted(es):
            f.write(u"  k/0:1-7 [000] %d.%09d: %s\n" % (t // TICK, (t % TICK) * 15625000, l))
    if run["weights"] or run["dump"]:
        z = os.path.join(d, "after/sys/devices/virtual/thermal/thermal_zone0")
        os.makedirs(z)
        for w in run["weights"]:
            with io.open(os.path.join(z, "cdev%d_weight" % w["cdev"]), "w") as f:
                f.write(u"%d\n" % w["w"])
        with io.open(os.path.join(z, "policy"), "w") as f:
            f.write(u"power_allocator\n")


def thousandth(v):
    v = float(v)
    return NOTHING if math.isnan(v) else int(round(v * 1000))


def axis(a):
    import numpy as np
    s = a.get_subplotspec()
    lines = []
    for l in a.lines:
        ys = np.ma.filled(np.ma.asarray(l.get_ydata(), dtype=float), np.nan).tolist()
        lines.append({"name": str(l.get_label()), "pts": [[tick(t), thousandth(v)] for t, v in zip(list(l.get_xdata()), ys)]})
    leg = a.get_legend()
    names = [l["name"] for l in lines if l["pts"]]
    title, _, rest = a.get_title().partition(" (mean = ")
    try:
        mean = int(round(float(rest.split("C,")[0]) * 100))
    except ValueError:
        mean = 0
    return {"row": s.rowspan.start + 1, "col": s.colspan.start + 1, "title": title, "xlabel": a.get_xlabel(), "lines": lines, "mean": mean,
            "leg": not names or (leg is not None and [x for x in (y.get_text() for y in leg.get_texts()) if x in names] == names),
            "upto": int(round(a.get_xlim()[1] * 1000)) if a.patches else 0,
            "bars": [[int(math.floor(p.get_x() * 1000)), int(math.ceil((p.get_x() + p.get_width()) * 1000)), int(p.get_height())] for p in a.patches]}


def figures():
    import matplotlib.pyplot as plt
    out = []
    for n in plt.get_fignums():
        f = plt.figure(n)
        if not f.axes:
            continue
        g = f.axes[0].get_subplotspec().get_gridspec().get_geometry()
        out.append({"size": [int(round(x * 1000)) for x in f.get_size_inches()], "rows": g[0], "cols": g[1], "axes": [axis(a) for a in f.axes]})
    return out


def execute(case):
    t = tv.trappy()
    import matplotlib.pyplot as plt
    from trappy import plot_utils as pu
    t.FTrace.disable_cache = True
    op = case["op"]
    plt.close("all")
    for i, r in enumerate(case["runs"]):
        write(r, "r%d" % i, case["actors"], op == "inout")
    m = {str(x["mask"]): str(x["label"]) for x in case["map"]}
    act = [str(a) for a in case["actors"]]
    kw = {}
    if case["w"]:
        kw["width"] = case["w"]
    if case["h"]:
        kw["height"] = case["h"]
    tz = {} if case["tz"] == -1 else {"tz_id": case["tz"]}
    lim = {"range": "range", "default": "default", "pair": tuple(case["give"])}[case["lim"]]
    lims = {"cur": [0, 0], "got": [0, 0]}

    def load():
        return [t.FTrace("r%d" % i, name=str(r["name"]), **({"scope": "thermal"} if r["scope"] else {})) for i, r in enumerate(case["runs"])]

    def ylim():
        return [int(round(x * 1000)) for x in plt.gca().get_ylim()]

    def go():
        if op in ("compare", "summary"):
            a, b = tuple(act) if case["give"][0] else act, sorted(m.items()) if case["give"][1] else m
            if op == "summary":
                displayed(lambda: t.summary_plots(a, b, path="r0", title=str(case["runs"][0]["name"]), **dict(kw, **tz)))
            else:
                displayed(lambda: t.compare_runs(a, b, [(str(r["name"]), "r%d" % i) for i, r in enumerate(case["runs"])], **dict(kw, **tz)))
            return
        runs = load()
        one = dict(kw, title=str(case["title"]))
        if op == "temperature":
            if case["lim"] != "range" or case["give"][0]:
                pu.plot_temperature(runs, ylim="default", **dict(kw, **tz))
                lims["cur"] = ylim()
                plt.close("all")
                pu.plot_temperature(runs, ylim=lim, **dict(kw, **tz))
                lims["got"] = ylim()
            else:
                pu.plot_temperature(runs, ylim="default", **dict(kw, **tz))
                lims["cur"] = ylim()
                plt.close("all")
                pu.plot_temperature(runs, **dict(kw, **tz))
                lims["got"] = ylim()
        elif op == "controller":
            pu.plot_controller(runs, **kw)
        elif op == "input":
            pu.plot_input_power(runs, act, **kw)
        elif op == "weighted":
            pu.plot_weighted_input_power(runs, act, **kw)
        elif op == "output":
            pu.plot_output_power(runs, act, **kw)
        elif op == "temphist":
            pu.plot_temperature_hist(runs)
        elif op == "load":
            pu.plot_load(runs, m, **kw)
        elif op == "allfreqs":
            pu.plot_allfreqs(runs, m, **kw)
        elif op == "freqhists":
            pu.plot_freq_hists(runs, m)
        elif op == "thermal":
            k = dict(one, legend_label=str(case["lab"]), **tz)
            g = runs[0].thermal_governor.data_frame
            if case["ctl"] and len(g):
                k["control_temperature"] = (g["current_temperature"] + g["delta_temperature"]) / 1000
            runs[0].thermal.plot_temperature(**k)
        elif op == "governor":
            runs[0].thermal_governor.plot_temperature(legend_label=str(case["lab"]), **one)
        elif op == "single":
            runs[0].thermal_governor.plot_input_power(act, **one)
            runs[0].thermal_governor.plot_output_power(act, **one)
            runs[0].pid_controller.plot_controller(**one)
        else:
            assert op == "inout"
            runs[0].thermal_governor.plot_inout_power(title=str(case["title"]))
    r = obs.Caught(go)
    figs = figures()
    plt.close("all")
    return {"err": r.err, "msg": r.msg[:200], "figs": figs if not r.err else [], "lims": lims}


def clock(rng):
    """distinct rising times"""
    t = [0]

    def tick_():
        t[0] += rng.choice([1, 1, 2, 5, 64])
        return t[0]
    return tick_


def temp(rng, t, zone):
    return {"t": t, "zone": zone, "v": rng.choice([1000 * rng.randint(20, 110), rng.randint(20000, 110000), 0, -2000] if rng.random() < 0.1 else [1000 * rng.randint(20, 110), rng.randint(20000, 110000)])}


def gov(rng, t, zone, n, m):
    return {"t": t, "zone": zone, "cur": rng.randint(20000, 110000), "delta": rng.choice([0, -1000, 3000, rng.randint(-20000, 20000)]),
            "req": [rng.randint(0, 2000) for _ in range(n)], "granted": [rng.randint(0, 2000) for _ in range(m)]}


def run(rng, name, masks, ladder, n, has, zones):
    """a run with the kinds of events named in has"""
    at = clock(rng)
    r = {"name": name, "temps": [], "gov": [], "pid": [], "weights": [], "ev": [], "dump": rng.random() < 0.2, "scope": rng.random() < 0.5}
    kinds = [k for k in ("temps", "gov", "pid", "cin", "cout", "din", "dout") if k in has]
    todo = list(kinds)                     # each at least once
    todo += [rng.choice(kinds) for _ in range(rng.choice([0, 3, 8, 16]) if kinds else 0)]
    rng.shuffle(todo)
    for k in todo:
        t = at()
        if k == "temps":
            r[k].append(temp(rng, t, rng.choice(zones)))
        elif k == "gov":
            r[k].append(gov(rng, t, rng.choice(zones), n, n))
        elif k == "pid":
            r[k].append({"t": t, "output": rng.randint(0, 9000), "p": rng.randint(-5000, 5000), "i": rng.randint(-500, 500), "d": rng.choice([0, 3, -2])})
        else:
            r["ev"].append(event(rng, k, t, rng.choice(masks), rng.choice(ladder)))
    if "weights" in has:
        cd = list(range(n)) if rng.random() < 0.7 else sorted(rng.sample(range(13), min(13, n + rng.choice([0, 0, 1]))))
        rng.shuffle(cd)
        r["weights"] = [{"cdev": c, "w": rng.choice([1024, 512, rng.randint(0, 1024)])} for c in cd]
    return r


def case(rng, op, runs, actors, mapping, **kw):
    c = {"op": op, "runs": runs, "actors": actors, "map": mapping, "tz": -1, "w": 0, "h": 0, "title": rng.choice(["", "before"]), "lab": rng.choice(["", "x"]),
         "ctl": rng.random() < 0.5, "lim": "range", "give": [0, 0]}
    if rng.random() < 0.4:
        c["w"], c["h"] = rng.choice([0, 7, 20]), rng.choice([0, 4, 5])
    c.update(kw)
    return c


NAMES = ["", "a", "run 1", "known good", "b"]
ACTORS = ["GPU", "A15", "A7", "big", "LITTLE", "cpu", "npu", "dsp", "isp", "vpu", "m4", "x1", "x2"]


def modelled(rng, r):
    at, out, names = 0, [], rng.sample(NAMES, 2)
    where = {e["t"]: None for x in r["runs"] for k in ("temps", "gov") for e in x[k]}
    for t in sorted(where):
        at += rng.choice([1, 2, 64])
        where[t] = at
    for x, n in zip(r["runs"], names):
        g = []
        for e in x["gov"]:
            g.append(dict(e, t=where[e["t"]], cur=e["cur"] + rng.randint(0, 9000), req=[rng.randint(0, 2000) for _ in range(2)], granted=[rng.randint(0, 2000) for _ in range(2)]))
        out.append({"name": n, "temps": [dict(e, t=where[e["t"]], v=e["v"] + rng.randint(0, 30000)) for e in x["temps"]], "gov": g, "pid": [], "ev": [],
                    "weights": [{"cdev": k, "w": rng.randint(1, 1024)} for k in range(2)] if rng.random() < 0.5 else [], "dump": False, "scope": rng.random() < 0.5})
    op = rng.choice(["temperature"] * 5 + ["temphist"] * 2 + ["input", "weighted", "output", "thermal", "governor"])
    if op in ("thermal", "governor"):
        rng.shuffle(out)
        out = out[:1]
    elif rng.random() < 0.5:
        out.reverse()
    tz = rng.choice([-1, 0, 0, 1, 1])
    return case(rng, op, out, rng.sample(ACTORS, 2), [], tz=tz, **limits(rng, op))


def limits(rng, op):
    if op != "temperature" or rng.random() < 0.6:
        return {}
    return {"lim": rng.choice(["default", "pair", "range"]), "give": rng.choice([[0, 90], [10, 60], [-5, 120], [1, 2]])}


def gen(rng, op=None):
    op = op or rng.choice(["temperature", "temperature", "temphist", "controller", "input", "input", "weighted", "output", "load", "allfreqs", "freqhists", "thermal", "governor", "single", "inout"])
    one = op in ("thermal", "governor", "single", "inout", "summary")
    nr = 1 if one else rng.choice([1, 2, 2, 3])
    names = rng.sample(NAMES, nr) if rng.random() < 0.9 else ["same"] * nr
    n = rng.choice([1, 2, 3, 3, 4, 12])
    actors = rng.sample(ACTORS, n)
    masks = rng.sample(MASKS, rng.randint(1, 3))
    mapped = list(masks)
    ladder = [rng.choice([1000 * rng.randint(1, 2500), rng.randint(1, 2500000)]) for _ in range(rng.randint(1, 3))]
    zones = rng.choice([[0], [1], [0, 1], [0, 1, 2]])
    runs = []
    for k in range(nr):
        has = {"temps", "gov", "pid", "cin", "cout"}
        if rng.random() < 0.5:
            has |= {"din", "dout"}
        if rng.random() < 0.5:
            has |= {"weights"}
        if rng.random() < (0.35 if op in ("temperature", "temphist", "thermal", "governor") else 0.06):
            has -= set(rng.sample(["temps", "gov", "pid", "cin", "cout", "dout"], rng.choice([1, 1, 2])))
        r = run(rng, names[k], masks, ladder, n, has, zones)
        if n > 1 and rng.random() < 0.06:     # zones with other numbers of actors
            for e in r["gov"]:
                if rng.random() < 0.5:
                    e["req"], e["granted"] = e["req"][:-1], e["granted"][:-1]
        runs.append(r)
    if rng.random() < 0.06:
        mapped = mapped[1:] + rng.sample([m for m in MASKS if m not in masks], rng.choice([0, 1]))
    elif rng.random() < 0.2:
        mapped += rng.sample([m for m in MASKS if m not in masks], 1)
    rng.shuffle(mapped)
    labels = rng.sample(["A53", "A57", "A72", "big", "LITTLE", "a cluster"], len(mapped))
    if rng.random() < 0.06 and op in ("input", "output", "single", "compare"):
        actors = actors[1:] if rng.random() < 0.5 else actors + ["extra"]
    kw = limits(rng, op)
    if op == "inout":
        for r in runs:
            for e in r["gov"]:
                e["req"], e["granted"] = (e["req"] + [5] * n)[:n], (e["granted"] + [6] * n)[:n]
        kw["actors"] = actors = [a for a in actors]
    kw["tz"] = rng.choice([-1, -1, 0, 0, 1, 2]) if op in ("temperature", "thermal", "compare", "summary") else -1
    if op in ("compare", "summary") and rng.random() < 0.1:
        kw["give"] = rng.choice([[1, 0], [0, 1], [1, 1]])
    return case(rng, op, runs, kw.pop("actors", actors), [{"mask": m, "label": l} for m, l in zip(mapped, labels)], **kw)


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Compare", emits=True)
    cases = [modelled(rng, r) for r in rng.sample(recs, min(len(recs), chk.pick(350, 6000)))]
    chk.run(execute, cases, "Trace_Compare", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(500, 8000))], "Trace_Compare", label="seeded-plots")
    chk.run(execute, [gen(rng, rng.choice(["compare", "compare", "summary"])) for _ in range(chk.pick(60, 1200))], "Trace_Compare", label="seeded-comparisons")
    chk.assumptions = ["runs in which neither the thermal framework nor the governor told temperatures of the zone are left open, as are power plots of runs without such events",
                       "weights are numbers", "the deviation a histogram's title tells is not judged"]
