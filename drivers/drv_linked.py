"""C35: interactive line plots in a browser against spec/Linked.tla. The HTML
a notebook displays is loaded into a page (lib/js) whose scripts are run by
node; pages come and go, windows are looked at and the notebook is resized."""
import json, math, re
import tv, obs
from drv_timeline import browse, U
from drv_plots import PALETTE


def frames(p):
    import pandas as pd
    out = []
    for rows in p["frames"]:
        out.append(pd.DataFrame({"v": [float("nan") if r[1] is None else r[1] for r in rows]}, index=[r[0] / U for r in rows]))
    return out


def html(p):
    from drv_iline import displayed
    from trappy.plotter.ILinePlot import ILinePlot
    kw = {"column": "v", "per_line": p["per_line"]}
    if p["group"]:
        kw["group"] = p["group"]
    if p["sync"]:
        kw["sync_zoom"] = True
    if p["xl"]:
        kw["xlim"] = tuple(x / U for x in p["xl"])
    if p["yl"]:
        kw["ylim"] = tuple(y / 1000.0 for y in p["yl"])
    if p["colours"]:
        kw["colors"] = [[int(c[i:i + 2], 16) for i in (1, 3, 5)] for c in p["colours"]]
    if p["alpha"]:
        kw["fill_alpha"] = p["alpha"] / 100.0
    for k in ("fill", "scatter", "concat"):
        if p[k]:
            kw[k] = True
    if p["title"]:
        kw["title"] = p["title"]
    if p["steps"]:
        kw["drawstyle"] = "steps-post"
    if p["psize"] != 2:
        kw["point_size"] = p["psize"]
    return displayed(ILinePlot(frames(p), **kw).view)


def cell(v):
    return {"k": "n", "i": 0} if v is None or v != v else {"k": "i", "i": int(math.floor(v * 1000 + 0.5))}


def told(text):
    """the figures of a page, in the order of the scripts that draw them"""
    figs = {}
    for m in re.finditer(r"var (\w+)_data\s*=\s*", text):
        d, _ = json.JSONDecoder().raw_decode(text[m.end():])
        figs[m.group(1)] = {"name": d["name"], "title": d["title"], "labels": [str(l) for l in d["data"]["labels"]],
                            "rows": [{"t": int(round(r[0] * U)), "vs": [cell(v) for v in r[1:]]} for r in d["data"]["data"]],
                            "xl": [int(round(x * U)) for x in d.get("dateWindow", [])], "yl": [int(round(y * 1000)) for y in d.get("valueRange", [])],
                            "group": str(d["syncGroup"]), "sync": bool(d["syncZoom"]), "step": bool(d["step_plot"]), "fill": bool(d["fill_graph"]),
                            "alpha": int(round(100 * d.get("fill_alpha", 0))), "points": bool(d["drawPoints"]), "stroke": int(d["strokeWidth"]), "psize": d["pointSize"],
                            "perLine": d["per_line"], "height": d["height"], "given": False, "colors": []}
    out = []
    for m in re.finditer(r"ILinePlot\.generate\((\w+)_data\s*(?:,\s*(\[.*?\]))?\)", text, re.S):
        f = figs[m.group(1)]
        f["given"], f["colors"] = bool(m.group(2)), json.loads(m.group(2)) if m.group(2) else []
        out.append(f)
    return out


def execute(case):
    def go():
        tv.trappy()
        import drv_publish
        drv_publish.plot("ILinePlot")
        pages = [html(p) for p in case["pages"]]
        steps = []
        for s in case["steps"]:
            if s["do"] == "page":
                steps.append({"do": "page", "n": s["n"], "width": s["area"], "html": pages[s["n"] - 1]})
            elif s["do"] == "resize":
                steps.append({"do": "resize", "width": s["area"]})
            else:
                steps.append(s)
        seen = browse(steps)
        names, ids = {}, []
        out = {"told": [told(p) for p in pages], "seen": seen}
        # figures are named by chance
        for n, figs in enumerate(out["told"], 1):
            for k, f in enumerate(figs, 1):
                names[f["name"]] = "fig%d.%d" % (n, k)
                f["name"] = names[f["name"]]
                if len(f["group"]) == 32:
                    f["group"] = "own%d" % n
        for o in seen:
            for p in o["pages"]:
                del p["timelines"], p["help"]
                for g in p["graphs"]:
                    g["id"] = names.get(g["id"], g["id"])
                    g["legend"] = names.get(g["legend"][:-7], "?") + g["legend"][-7:]
        return out
    r = obs.Caught(go)
    return dict(r.res, err="", msg="") if not r.err else {"err": r.err, "msg": (r.msg or "")[:300], "told": [], "seen": []}


# ------------------------------------------------------------- generation
def page(rng, figs=None, group=None, sync=None):
    nf = len(figs) if figs else rng.choice([1, 1, 2, 3])
    fr = figs
    if not fr:
        fr = []
        for _ in range(nf):
            ts = sorted(rng.sample(range(0, 40), rng.randint(1, 5)))
            fr.append([[t * 128, rng.choice([None, 1, 5, -3, 7, 0, 12, 2.5])] for t in ts])
            if all(v is None for _, v in fr[-1]):
                fr[-1][0][1] = 4
    lo = rng.randrange(0, 20) * 128
    return {"frames": fr, "group": rng.choice(["", "g", "g", "h"]) if group is None else group, "sync": rng.random() < 0.6 if sync is None else sync,
            "xl": [lo, lo + 128 * rng.randint(1, 20)] if rng.random() < 0.2 else [], "yl": [-2000, 9000] if rng.random() < 0.2 else [],
            "per_line": rng.choice([1, 2, 3]), "colours": rng.sample(PALETTE, nf) if rng.random() < 0.3 else [], "alpha": 25 if rng.random() < 0.15 else 0,
            "fill": rng.random() < 0.15, "scatter": rng.random() < 0.15, "steps": rng.random() < 0.2, "concat": nf > 1 and rng.random() < 0.6,
            "title": "All" if rng.random() < 0.2 else "", "psize": rng.choice([2, 2, 4])}


def nfigs(p):
    return len(p["frames"]) if p["concat"] else 1


def gen(rng):
    pages = [page(rng) for _ in range(rng.randint(1, 4))]
    area = rng.choice([600, 900, 1000])
    steps, on, nxt = [], [], 1
    for _ in range(rng.randint(2, 8)):
        k = rng.random()
        if nxt <= len(pages) and (k < 0.55 or not on):
            steps.append({"do": "page", "n": nxt, "area": area})
            on.append(nxt)
            nxt += 1
        elif not on:
            break
        elif k < 0.65:
            n = rng.choice(on)
            on.remove(n)
            steps.append({"do": "drop", "n": n})
        elif k < 0.8:
            area = rng.choice([500, 600, 1200])
            steps.append({"do": "resize", "area": area})
        else:
            n = rng.choice(on)
            lo = rng.randrange(0, 30) * 128
            steps.append({"do": "look", "n": n, "fig": rng.randint(1, nfigs(pages[n - 1])), "x": [lo, lo + rng.randint(1, 10) * 128]})
    return {"pages": pages, "steps": steps}


def modelled(rng, r):
    pages, steps = [], []
    for h in r["hist"]:
        if h["do"] == "page":
            fs = h["figs"]
            p = page(rng, [[[x["t"] * 128, x["vs"][0]["i"]] for x in f["rows"]] for f in fs], {"own": ""}.get(fs[0]["group"], fs[0]["group"]), fs[0]["sync"])
            p["xl"] = [x * 128 for x in fs[0]["xl"]]
            p["concat"] = len(fs) > 1
            pages.append(p)
            steps.append({"do": "page", "n": h["n"], "area": 900})
        else:
            steps.append({"do": "drop", "n": h["n"]})
    return {"pages": pages, "steps": steps}


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Linked", emits=True)
    chk.run(execute, [modelled(rng, r) for r in rng.sample(recs, min(len(recs), chk.pick(350, 5000)))], "Trace_Linked", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(400, 6000))], "Trace_Linked", label="seeded-notebooks")
    chk.assumptions = ["Dygraph 1.1.1, its synchronizer, jQuery and requirejs behave as lib/js/browser.js has them",
                       "what the page tells of its figures is right (C24)"]
