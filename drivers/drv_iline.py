"""C24: pages of ILinePlot against spec/ILine.tla."""
import json, re
import tv, obs
from drv_stats import TICK, I, S, NONE, val, cell, tick
from drv_constraint import make_data, templates, filters, scalar, gen as gen_world
from drv_plots import PALETTE

SHELL = []


def displayed(fn):
    """the HTML a notebook would show of what fn displays"""
    if not SHELL:
        import os
        os.environ["IPYTHONDIR"] = os.path.abspath("ipython")
        from traitlets.config import Config
        from IPython.core.interactiveshell import InteractiveShell
        c = Config()
        c.HistoryManager.enabled = False
        SHELL.append(InteractiveShell.instance(config=c))
    from IPython.utils.capture import capture_output
    with capture_output() as out:
        fn()
    return "\n".join(o.data["text/html"] for o in out.outputs if "text/html" in o.data)


def milli(v):
    c = tv.cell(v)
    return NONE if c["k"] == "n" else I(int(round(float(v) * 1000)))


def page(html):
    """what is in a page of interactive line plots"""
    names = re.findall(r"var (\w+)_data\s*=", html)
    num = {n: i + 1 for i, n in enumerate(names)}
    figs = []
    for m in re.finditer(r"var (\w+)_data\s*=\s*", html):
        d, _ = json.JSONDecoder().raw_decode(html[m.end():])
        assert d["name"] == m.group(1)
        figs.append({"title": d["title"], "labels": [str(l) for l in d["data"]["labels"]],
                     "rows": [{"t": tick(r[0]), "vs": [milli(v) for v in r[1:]]} for r in d["data"]["data"]],
                     "step": bool(d["step_plot"]), "fill": bool(d["fill_graph"]), "alpha": int(round(100 * d.get("fill_alpha", 0))),
                     "perLine": d["per_line"], "points": bool(d["drawPoints"]), "stroke": int(d["strokeWidth"]), "psize": d["pointSize"],
                     "sync": bool(d["syncZoom"]), "group": str(d["syncGroup"]),
                     "yl": list(d.get("valueRange", [])), "xl": [tick(x) for x in d.get("dateWindow", [])]})
    table = re.search(r"<table.*?</table>", html, re.S).group(0)
    rows = [re.findall(r'id="(\w+)"', r) for r in re.findall(r"<tr>.*?</tr>", table, re.S)]
    cells = [[num.get(x, 0) for x in r] for r in rows if not all(x.endswith("_legend") for x in r)]
    legends = [[num.get(x[:-7], 0) for x in r] for r in rows if all(x.endswith("_legend") for x in r)]
    caption = re.search(r"<caption[^>]*>(.*?)</caption>", table, re.S)
    calls = []
    for m in re.finditer(r"ILinePlot\.generate\((\w+)_data\s*(?:,\s*(\[.*?\]))?\)", html, re.S):
        cols = []
        for s in json.loads(m.group(2)) if m.group(2) else []:
            rgb = re.match(r"rgb\((\d+), (\d+), (\d+)\)$", s)
            cols.append("#%02x%02x%02x" % tuple(int(x) for x in rgb.groups()) if rgb else s)
        calls.append({"fig": num.get(m.group(1), 0), "colors": cols, "given": bool(m.group(2))})
    return {"title": caption.group(1) if caption else "", "cells": cells, "legends": legends, "calls": calls, "figs": figs}


def execute(case):
    def go():
        tv.trappy()
        from trappy.plotter.ILinePlot import ILinePlot
        data = [make_data(case, n, d) for n, d in enumerate(case["data"])]
        kw = {"per_line": case["per_line"]}
        args = [scalar(data, case)]
        tmpl = templates(case, data)
        if case["signals"]:
            kw["signals"] = ["%s:%s" % s for s in zip(case["tmpls"], case["cols"])]
            if case["colors"]:
                kw["signals"] = [s + ":" + ",".join(str(int(c[i:i + 2], 16)) for i in (1, 3, 5)) for s, c in zip(kw["signals"], case["colors"])]
        else:
            if tmpl != [None]:
                args.append(scalar(tmpl, case))
            kw["column"] = scalar(list(case["cols"]), case)
            if case["colors"]:
                kw["colors"] = [[int(c[i:i + 2], 16) for i in (1, 3, 5)] for c in case["colors"]]
        if case["pivot"]:
            kw["pivot"] = case["pivot"]
        if case["filters"]:
            kw["filters"] = filters(case)
        if not case["zip"]:
            kw["permute"] = True
        for k in ("concat", "fill", "scatter"):
            if case[k]:
                kw[k] = True
        if case["map"]:
            kw["map_label"] = {val(m["pv"]): m["label"] for m in case["map"]}
        if case["w"]:
            kw["xlim"] = tuple(x / TICK for x in case["w"])
        if case["ylim"]:
            kw["ylim"] = tuple(case["ylim"])
        if case["alpha"]:
            kw["fill_alpha"] = case["alpha"] / 100.0
        if case["drawstyle"] != "default":
            kw["drawstyle"] = case["drawstyle"]
        if case["sync"]:
            kw["sync_zoom"] = True
        for k, n in (("title", "title"), ("group", "group")):
            if case[k]:
                kw[n] = case[k]
        if case["psize"] != 2:
            kw["point_size"] = case["psize"]
        def view():
            ILinePlot(*args, **dict(kw)).view(max_datapoints=case["max"], test=True)
        one = page(displayed(view))
        two = page(displayed(view))
        one["groups"] = [[f.pop("group") for f in p["figs"]] for p in (one, two)]
        if one != dict(two, groups=one["groups"]):
            one["title"] += " (differs when plotted again)"
        return one
    r = obs.Caught(go)
    if r.err:
        return {"err": r.err, "msg": r.msg[:200], "groups": [[], []], "title": "", "cells": [], "legends": [], "calls": [], "figs": []}
    return dict(r.res, err="", msg="")


def options(rng, c, style=None):
    c["per_line"] = c.get("per_line") or rng.choice([1, 2, 2, 3, 5])
    c["concat"] = c.get("concat", rng.random() < 0.35)
    pvs = sorted({(x["k"], x["i"], x["s"]) for d in c["data"] for tab in d["tabs"].values() for r in tab["rows"] if c["pivot"] in r["c"] for x in [r["c"][c["pivot"]]]}) if c["pivot"] else []
    c["map"] = [{"pv": {"k": k, "i": i, "s": s}, "label": "lbl%d" % rng.choice([n, n, 1])} for n, (k, i, s) in enumerate(pvs) if rng.random() < 0.5] if rng.random() < 0.3 else []
    c["ylim"] = [10, 4000] if rng.random() < 0.2 else []
    c["title"] = "All of it" if rng.random() < 0.2 else ""
    c["fill"] = rng.random() < 0.15
    c["alpha"] = 25 if rng.random() < 0.15 else 0
    c["scatter"] = rng.random() < 0.15
    c["psize"] = rng.choice([2, 2, 2, 5])
    c["sync"] = rng.random() < 0.2
    c["group"] = "grp" if rng.random() < 0.2 else ""
    c["drawstyle"] = style or rng.choice(["default", "default", "steps-post", "steps-pre", "steps-mid"])
    frames = bool(c["data"]) and c["data"][0]["frame"]
    known = not frames and all(any(t in d["tabs"] for d in c["data"]) for t in c["tmpls"])
    c["signals"] = known and len(c["cols"]) == len(c["tmpls"]) and rng.random() < 0.4
    nsig = max(len(c["cols"]), len(c["tmpls"]))
    c["colors"] = []
    if rng.random() < 0.4:
        n = nsig if c["signals"] or not c["zip"] else max(nsig, len(c["data"]))
        if c["pivot"] and c["concat"]:
            n = max(n, min(len(pvs), 6))
        if n <= len(PALETTE):
            c["colors"] = rng.sample(PALETTE, n)
            if c["signals"]:
                c["colors"] = c["colors"][:nsig]
    c["max"] = 75000 if rng.random() < 0.8 else rng.randint(1, 40)
    c.pop("single", None)
    return c


def distinct(d):
    return all(len({r["t"] for r in tab["rows"]}) == len(tab["rows"]) for tab in d["tabs"].values())


def gen(rng):
    while True:
        c = gen_world(rng)
        if c["unit"] != 1 or not all(distinct(d) for d in c["data"]):
            continue
        if rng.random() < 0.6:
            c["w"] = []
        c["cols"] = [rng.choice(["v", "u"]) for _ in c["cols"]]
        c["pivot"] = rng.choice(["", "p", "p", "p"])
        return options(rng, c)


def modelled(rng, r):
    """the series of a behaviour of the model: those of frames, or of the
    events of a trace, or of the pivot values of an event"""
    how = rng.choice(["frame", "bare", "pivot", "traces"])
    rows = [[{"t": 4 * p["t"], "c": {} if p["v"]["k"] == "n" else {"v": p["v"]}} for p in s] for s in r["ss"]]
    if how == "pivot" and len(rows) > 1:
        all_ = sorted([(x["t"], j, x) for j, s in enumerate(rows) for x in s], key=lambda y: y[:2])
        tab = {"cols": ["p", "v"], "rows": [{"t": t, "c": dict(x["c"], p=I(j))} for t, j, x in all_]}
        c = {"data": [{"name": "", "frame": False, "how": "bare", "tabs": {"ev_a": tab}}], "cols": ["v"], "tmpls": ["ev_a"], "pivot": "p", "concat": True}
    elif how == "bare":
        c = {"data": [{"name": "run", "frame": False, "how": "bare", "tabs": {"ev_%d" % j: {"cols": ["v"], "rows": s} for j, s in enumerate(rows)}}],
             "cols": ["v"], "tmpls": ["ev_%d" % j for j in range(len(rows))], "pivot": "", "concat": False}
    elif how == "traces":
        names = rng.choice([["", "", ""], ["one", "one", "one"], ["a", "b", "c"]])
        c = {"data": [{"name": names[j], "frame": False, "how": "bare", "tabs": {"ev_a": {"cols": ["v"], "rows": s}}} for j, s in enumerate(rows)],
             "cols": ["v"], "tmpls": ["ev_a"], "pivot": "", "concat": False}
    else:
        c = {"data": [{"name": "", "frame": True, "how": "frame", "tabs": {"": {"cols": ["v"], "rows": s}}} for s in rows], "cols": ["v"], "tmpls": [""],
             "pivot": "", "concat": False}
    c.update(zip=True, filters=[], w=[], unit=1, scalars=rng.random() < 0.5)
    return options(rng, c, r["style"])


def check(chk, prop):
    rng = chk.rng
    # (a column without any number is not one of numbers)
    recs = [r for r in chk.mc("MC_ILine", emits=True) if all(any(p["v"]["k"] == "i" for p in s) for s in r["ss"])]
    lim = chk.pick(500, 6000)
    chk.run(execute, [modelled(rng, r) for r in rng.sample(recs, min(lim, len(recs)))], "Trace_ILine", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(500, 6000))], "Trace_ILine", label="seeded-pages")
    chk.assumptions = ["pages are read as the text a notebook displays; no JavaScript is run", "events and data frames with equal times are the business of C15",
                       "series that share a figure are numbers"]
