"""C23: figures of LinePlot and BarPlot against spec/Plots.tla."""
import tv, obs
from drv_stats import TICK, I, S, val, cell, tick
from drv_constraint import make_data, templates, filters, scalar, gen as gen_world


def hexcolor(c):
    import matplotlib.colors as mc
    return mc.to_hex(c)


def micro(x):
    return int(round(float(x) * 1000000))


def ent(x):
    return -1 if x is None else int(x) if x == int(x) else -2


def execute(case):
    def go():
        tv.trappy()
        import matplotlib
        import matplotlib.pyplot as plt
        from trappy.plotter.LinePlot import LinePlot
        from trappy.plotter.BarPlot import BarPlot
        plt.close("all")
        data = [make_data(case, n, d) for n, d in enumerate(case["data"])]
        kw = {"per_line": case["per_line"]}
        args = [scalar(data, case)]
        tmpl = templates(case, data)
        if case["signals"]:
            kw["signals"] = ["%s:%s" % s for s in zip(case["tmpls"], case["cols"])]
            if case["colors"]:
                kw["signals"] = [s + ":" + ",".join(str(int(c[i:i + 2], 16)) for i in (1, 3, 5)) for s, c in zip(kw["signals"], case["colors"])]
        else:
            if tmpl != [None]:
                args.append(scalar(tmpl, case))
            kw["column"] = scalar(list(case["cols"]), case)
            if case["colors"]:
                kw["colors"] = [[int(c[i:i + 2], 16) for i in (1, 3, 5)] for c in case["colors"]]
        if case["pivot"]:
            kw["pivot"] = case["pivot"]
        if case["filters"]:
            kw["filters"] = filters(case)
        if not case["zip"]:
            kw["permute"] = True
        if case["concat"]:
            kw["concat"] = True
        if case["map"]:
            kw["map_label"] = {val(m["pv"]): m["label"] for m in case["map"]}
        if case["xlim"]:
            kw["xlim"] = tuple(case["xlim"])
        if case["ylim"]:
            kw["ylim"] = tuple(case["ylim"])
        if case["title"]:
            kw["title"] = case["title"]
        if not case["style"]:
            kw["style"] = False
        if case["ncol"]:
            kw["legend_ncol"] = case["ncol"]
        import trappy.plotter
        from trappy.plotter import AttrConf
        saved = list(AttrConf.ARGS_TO_FORWARD)
        for o in case["fwd"]:
            (trappy.plotter.register_forwarding_arg if o["op"] == "register" else trappy.plotter.unregister_forwarding_arg)(o["arg"])
        if case["psize"]:
            kw["point_size"] = case["psize"]
        for a in case["passed"]:
            kw[a["arg"]] = a["v"]
        if case["bars"]:
            if case["stacked"]:
                kw["stacked"] = True
            p = BarPlot(*args, **kw)
        else:
            for k, d in (("fill", False), ("scatter", False)):
                if case[k] != d:
                    kw[k] = case[k]
            if case["marker"] != "None" and not case["scatter"]:
                kw["marker"] = case["marker"]
            if case["linestyle"] != "-":
                kw["linestyle"] = case["linestyle"]
            if case["drawstyle"] != "default":
                kw["drawstyle"] = case["drawstyle"]
            p = LinePlot(*args, **kw)
        AttrConf.ARGS_TO_FORWARD[:] = saved
        if case["save"]:
            p.savefig("out.png", dpi=20)
        else:
            p.view()
        f = plt.figure(plt.get_fignums()[-1])
        axes, grid = [], [0, 0]
        for ax in f.axes:
            ss = ax.get_subplotspec()
            grid = list(ss.get_gridspec().get_geometry())
            arts = []
            if case["bars"]:
                for c in ax.containers:
                    arts.append({"props": {"linewidth": 0, "zorder": 0, "markersize": 0, "markevery": 0}, "color": hexcolor(c[0].get_facecolor()), "pts": [], "mark": "", "line": "", "drawstyle": "",
                                 "bars": [{"x": micro(r.get_x()), "w": micro(r.get_width()), "y": int(r.get_y()), "h": int(r.get_height())} for r in c]})
            else:
                for l in ax.lines:
                    arts.append({"props": {"linewidth": ent(l.get_linewidth()), "zorder": ent(l.get_zorder()), "markersize": ent(l.get_markersize()), "markevery": ent(l.get_markevery())},
                                 "color": hexcolor(l.get_color()), "mark": str(l.get_marker()), "line": l.get_linestyle(), "drawstyle": l.get_drawstyle(),
                                 "pts": [{"t": tick(x), "v": cell(y)} for x, y in zip(list(l.get_xdata()), list(l.get_ydata()))], "bars": []})
            axes.append({"cell": [ss.rowspan.start, ss.colspan.start], "title": ax.get_title(), "arts": arts,
                         "fills": len(ax.collections), "xl": [round(x) for x in ax.get_xlim()] if case["xlim"] else [],
                         "yl": [round(x) for x in ax.get_ylim()] if case["ylim"] else []})
        leg = f.legends[-1]
        entries = [{"text": t.get_text(), "color": hexcolor(h.get_facecolor() if case["bars"] else h.get_color())}
                   for t, h in zip(leg.get_texts(), leg.legendHandles)]
        title = f._suptitle.get_text() if f._suptitle is not None else ""
        plt.close("all")
        return {"grid": grid, "axes": axes, "legend": entries, "title": title, "ncol": int(getattr(leg, "_ncol", case["ncol"]))}
    r = obs.Caught(go)
    if r.err:
        return {"err": r.err, "msg": r.msg[:200], "grid": [0, 0], "axes": [], "legend": [], "title": "", "ncol": 0}
    return dict(r.res, err="", msg="")


PALETTE = ["#112233", "#ff0000", "#00c8ff", "#808080", "#0a0b0c", "#fe01fe"]


def options(rng, c):
    """how the plot is asked for"""
    c["per_line"] = c.get("per_line") or rng.choice([1, 2, 2, 3, 5])
    c["concat"] = c.get("concat", rng.random() < 0.35)
    pvs = sorted({(x["k"], x["i"], x["s"]) for d in c["data"] for tab in d["tabs"].values() for r in tab["rows"] if c["pivot"] in r["c"] for x in [r["c"][c["pivot"]]]}) if c["pivot"] else []
    c["map"] = [{"pv": {"k": k, "i": i, "s": s}, "label": "lbl%d" % n} for n, (k, i, s) in enumerate(pvs) if rng.random() < 0.5] if rng.random() < 0.3 else []
    c["bars"] = c.get("bars", rng.random() < 0.3)
    c["stacked"] = c["bars"] and rng.random() < 0.5
    c["xlim"] = [1, 5] if rng.random() < 0.2 else []
    c["ylim"] = [10, 4000] if rng.random() < 0.2 else []
    c["title"] = "All of it" if rng.random() < 0.2 else ""
    c["fill"] = not c["bars"] and rng.random() < 0.15
    c["scatter"] = not c["bars"] and not c["fill"] and rng.random() < 0.15
    c["marker"] = "x" if not c["bars"] and rng.random() < 0.15 else "None"
    c["linestyle"] = "--" if not c["bars"] and rng.random() < 0.15 else "-"
    c["drawstyle"] = "steps-post" if not c["bars"] and not c["fill"] and rng.random() < 0.15 else "default"
    frames = bool(c["data"]) and c["data"][0]["frame"]
    known = not frames and all(any(t in d["tabs"] for d in c["data"]) for t in c["tmpls"])
    c["signals"] = known and len(c["cols"]) == len(c["tmpls"]) and rng.random() < 0.4
    nsig = max(len(c["cols"]), len(c["tmpls"]))
    c["colors"] = []
    if rng.random() < 0.3:
        n = nsig if c["signals"] or not c["zip"] else max(nsig, len(c["data"]))
        c["colors"] = rng.sample(PALETTE, min(n, len(PALETTE)))
    c["style"] = rng.random() < 0.85
    c["ncol"] = rng.choice([1, 2, 5]) if rng.random() < 0.2 else 0
    c["psize"] = rng.choice([3, 9]) if c["scatter"] and rng.random() < 0.6 else 0
    c["fwd"], c["passed"] = [], []
    if not c["bars"] and rng.random() < 0.3:
        c["fwd"] = [{"op": rng.choice(["register", "unregister"]), "arg": rng.choice(["linewidth", "zorder", "markevery"])} for _ in range(rng.randint(0, 4))]
        c["passed"] = [{"arg": a, "v": rng.choice([3, 7])} for a in ("linewidth", "zorder", "markersize", "markevery") if rng.random() < 0.5 and not (a == "markersize" and c["scatter"])]
    c["save"] = rng.random() < 0.03
    c.pop("single", None)
    return c


def gen(rng):
    while True:
        c = gen_world(rng)
        if c["unit"] != 1:
            continue
        c["w"] = []
        c["cols"] = [rng.choice(["v", "u"]) for _ in c["cols"]]
        c["pivot"] = rng.choice(["", "p", "p", "p"])
        c["bars"] = rng.random() < 0.3
        if c["bars"]:                # no bars are drawn of missing values
            for d in c["data"]:
                for tab in d["tabs"].values():
                    tab["rows"] = [r for r in tab["rows"] if all(x in r["c"] for x in ("v", "u"))]
                    tab["cols"] = [x for x in tab["cols"] if any(x in r["c"] for r in tab["rows"])]
        return options(rng, c)


def modelled(rng, r):
    """the data of a behaviour of the model: event k of trace t has the pivot values given"""
    data, base = [], 1000
    for t, row in enumerate(r["has"]):
        tabs, taken = {}, 0
        for k, ps in enumerate(row):
            rows, base = [], base + 1000
            for j in range(rng.choice([1, 2])):
                for p in ps:
                    taken += rng.choice([1, 3])
                    rows.append({"t": taken, "c": {"p": p, "v": I(base + len(rows)), "u": I(base + 500 + len(rows))}})
            tabs["ev_%d" % k] = {"cols": ["p", "v", "u"] if rows else [], "rows": rows}
        data.append({"name": rng.choice(["", "run%d" % t]), "frame": False, "how": rng.choice(["bare", "ftrace"]), "tabs": tabs})
    nc = r["nc"]
    cols = ["v"] if rng.random() < 0.5 else [rng.choice(["v", "u"]) for _ in range(nc)]
    c = {"data": data, "cols": cols if len(cols) == nc or nc > 1 else ["v"], "tmpls": ["ev_%d" % k for k in range(nc)], "zip": r["mode"] != "permute", "pivot": "p",
         "filters": [], "w": [], "unit": 1, "scalars": rng.random() < 0.5, "concat": r["mode"] == "concat", "per_line": r["perLine"]}
    return options(rng, c)


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Plots", emits=True)
    lim = chk.pick(400, 6000)
    chk.run(execute, [modelled(rng, r) for r in rng.sample(recs, min(lim, len(recs)))], "Trace_Plots", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(500, 6000))], "Trace_Plots", label="seeded-figures")
    chk.assumptions = ["what a figure shows is read back from matplotlib's artists (not from pixels)", "the order in which series of an axis are drawn is free"]
