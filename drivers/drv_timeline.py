"""C34: timelines of event plots in a browser against spec/Timeline.tla.
The HTML a notebook displays is loaded into a page (lib/js) whose scripts are
run by node; gestures are made on it and what it shows is read back."""
import json, os, subprocess
from fractions import Fraction as F
import tv, obs

U = 2048          # units of time in a second
D = 4 * U         # the domain of the plots
LEFT, RIGHT, TOP = 70, 15, 15
NODE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "js", "page.js")


def browse(steps):
    p = subprocess.run(["node", NODE, tv.REPO], input=json.dumps({"steps": steps}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=120)
    if p.returncode:
        raise RuntimeError("page.js: " + p.stderr[-500:])
    return json.loads(p.stdout)


def web():
    """a notebook server's folder with everything in place; IPython displays"""
    import drv_publish
    drv_publish.plot("EventPlot")


def html(p):
    from drv_iline import displayed
    from trappy.plotter.EventPlot import EventPlot
    data = {}
    for i in p["items"]:
        lane = p["lanes"][i["lane"] - 1] if p["named"] else i["lane"] - 1
        data.setdefault(i["name"], []).append([i["s"] / U, i["e"] / U, lane])
    kw = {"lanes": list(p["lanes"])} if p["named"] else {"num_lanes": len(p["lanes"]), "lane_prefix": p["prefix"]}
    if p["colours"]:
        kw["color_map"] = {c["name"]: c["colour"] for c in p["colours"]}
    if not p["summary"]:
        kw["summary"] = False
    if p["stride"]:
        kw["stride"] = True
    return displayed(EventPlot(data, sorted(data), [p["lo"] / U, p["hi"] / U], **kw).view)


def execute(case):
    def go():
        tv.trappy()
        web()
        pages = [html(p) for p in case["plots"]]
        steps = []
        for s in case["steps"]:
            k = s["do"]
            if k == "page":
                steps.append({"do": "page", "n": s["n"], "width": s["width"] + LEFT + RIGHT, "html": pages[s["n"] - 1]})
            elif k == "resize":
                steps.append({"do": k, "width": s["width"] + LEFT + RIGHT})
            elif k == "zoom":
                num, den, one = s["num"], s["den"], []
                while num > 1:
                    one.append({"by": 2, "at": s["px"]})
                    num //= 2
                while den > 1:
                    one.append({"by": 0.5, "at": s["px"]})
                    den //= 2
                steps.append({"do": k, "n": s["n"], "steps": one})
            elif k == "pan":
                half = s["px"] // 2
                steps.append({"do": "zoom", "n": s["n"], "steps": [{"move": half}, {"move": s["px"] - half}]})
            elif k == "brush":
                path = [[s["lo"]] * 2] + ([[s["lo"], (s["lo"] + s["hi"]) // 2], [s["lo"], s["hi"]]] if s["hi"] > s["lo"] else [])
                steps.append({"do": k, "n": s["n"], "path": path})
            elif k in ("A", "B", "ask"):
                steps.append({"do": "click", "n": s["n"], "at": [LEFT + s["px"], TOP + s["y"]], "ctrl": k != "A", "alt": k == "ask"})
            else:
                steps.append({"do": k, "n": s["n"]})
        return browse(steps)
    r = obs.Caught(go)
    return {"err": r.err, "msg": (r.msg or "")[:300], "obs": r.res if not r.err else [], "help": "/nbextensions/plotter_scripts/EventPlot/EventPlot_help.jpg"}


# ------------------------------------------------------------- generation
NAMES = ["a", "task", "1234", "kworker/0:1", "b c", "x", "sh-77", "it's"]
COLOURS = ["red", "#00FF00", "#123456", "teal"]


def plot(rng, nmax=14, fine=False):
    nl = rng.choice([1, 2, 2, 3, 5])
    named = rng.random() < 0.4
    prefix = rng.choice(["CPU ", "Lane: ", ""])
    lanes = rng.sample(["big0", "LITTLE", "7", "gpu", "CPU: 1", "z"], nl) if named else [prefix + str(i) for i in range(nl)]
    names = rng.sample(NAMES, rng.randint(1, 5))
    items = []
    step = rng.choice([1, 8, 128, 512])
    for l in range(1, nl + 1):
        n = rng.randint(0, max(1, nmax // nl))
        cuts = sorted(rng.sample(range(0, D // step + 1), min(2 * n, D // step + 1)))
        touching = rng.random() < 0.5
        for j in range(0, len(cuts) - 1, 1 if touching else 2):
            e = cuts[j + 1]
            if rng.random() < 0.1:
                e = cuts[j] + 1 if step > 1 else e
            items.append({"name": rng.choice(names), "lane": l, "s": cuts[j] * step, "e": min(D, max(e, cuts[j] + 1) * step if step > 1 else max(e, cuts[j] + 1))})
        if rng.random() < 0.2 and n:      # another's events at the same time
            items.append({"name": "other", "lane": l, "s": 0, "e": D})
    # events of a name in a lane are disjoint and in order
    items = [i for k, i in enumerate(items) if not any(o["name"] == i["name"] and o["lane"] == i["lane"] and o["s"] < i["e"] and i["s"] < o["e"] for o in items[:k])]
    items.sort(key=lambda i: (i["s"], i["e"]))
    if not items:
        items = [{"name": "a", "lane": 1, "s": 0, "e": D // 2}]
    used = sorted({i["name"] for i in items})
    colours = [{"name": n, "colour": COLOURS[k % 4]} for k, n in enumerate(rng.sample(used, rng.randint(1, len(used))))] if rng.random() < 0.35 else []
    return {"lo": 0, "hi": D, "lanes": lanes, "named": named, "prefix": prefix, "items": items, "colours": colours, "summary": rng.random() < 0.7, "stride": rng.random() < 0.15}


class Sim:
    """where a plot stands, for choosing gestures which lead to whole numbers"""
    def __init__(self, p, w):
        self.p, self.lo, self.hi, self.w = p, F(p["lo"]), F(p["hi"]), w

    def zoom(self, num, den, px):
        d = self.p["hi"] - self.p["lo"]
        l = min(F(d), (self.hi - self.lo) * den / num)
        if l < d / 16:
            return False
        lo = self.lo + px * ((self.hi - self.lo) - l) / self.w
        lo = max(F(self.p["lo"]), min(self.p["hi"] - l, lo))
        return self.put(lo, lo + l)

    def pan(self, px):
        l = self.hi - self.lo
        lo = max(F(self.p["lo"]), min(self.p["hi"] - l, self.lo - px * l / self.w))
        return self.put(lo, lo + l)

    def put(self, lo, hi):
        if lo.denominator != 1 or hi.denominator != 1:
            return False
        self.lo, self.hi = lo, hi
        return True

    def time(self, px):
        return self.lo + (self.hi - self.lo) * px / self.w


def S(do, n=0, **kw):
    return dict({"do": do, "n": n, "num": 1, "den": 1, "px": 0, "y": 0, "lo": 0, "hi": 0, "width": 0}, **kw)


def gesture(rng, sim, n, last=None):
    """a gesture on plot n, or None"""
    p, k = sim.p, rng.random()
    sixteenth = sim.w // 16
    h = 50 * len(p["lanes"]) - 30
    if k < 0.25:
        num, den = rng.choice([(2, 1), (2, 1), (4, 1), (1, 2), (1, 4)])
        px = sixteenth * rng.randint(0, 16)
        return S("zoom", n, num=num, den=den, px=px) if sim.zoom(num, den, px) else None
    if k < 0.4:
        px = sixteenth * rng.choice([-20, -8, -4, -1, 1, 2, 6, 16])
        return S("pan", n, px=px) if sim.pan(px) else None
    if k < 0.55 and p["summary"]:
        l = rng.choice([D, D // 2, D // 4, D // 8])
        lo = rng.randrange(0, D - l + 1, 128)
        if rng.random() < 0.15:
            return S("brush", n, lo=lo, hi=lo)
        sim.put(F(lo), F(lo + l))
        return S("brush", n, lo=lo, hi=lo + l)
    y = rng.randrange(0, h)
    if k < 0.78:
        px = sixteenth * rng.randint(0, 16)
        if rng.random() < 0.5 and sim.w >= 256:
            px = rng.randrange(0, sim.w + 1)
        if sim.time(px).denominator != 1:
            return None
        return S("A" if k < 0.68 else "B", n, px=px, y=y)
    # an event in view
    i = rng.choice(p["items"])
    t = F(rng.choice([i["s"], i["e"], (i["s"] + i["e"]) // 2, rng.randint(0, D)]))
    px = (t - sim.lo) * sim.w / (sim.hi - sim.lo)
    if px.denominator != 1 or not 0 <= px <= sim.w:
        px = F(sixteenth * rng.randint(0, 16))
        if sim.time(px).denominator != 1:
            return None
    return S("ask", n, px=int(px), y=rng.choice([y, (i["lane"] - 1) * h // len(p["lanes"]) + 3]))


def gen(rng):
    plots = [plot(rng) for _ in range(rng.choice([1, 1, 2]))]
    w = rng.choice([256, 512, 1024])
    steps, sims = [], {}
    for n, p in enumerate(plots, 1):
        own = w if rng.random() < 0.7 else rng.choice([256, 512])
        steps.append(S("page", n, width=own))
        sims[n] = Sim(p, own)
        if n == 1 and len(plots) == 2 and rng.random() < 0.5:
            g = gesture(rng, sims[1], 1)
            if g:
                steps.append(g)
    helped = False
    for _ in range(rng.randint(1, 7)):
        k = rng.random()
        if k < 0.15:
            w = rng.choice([256, 512, 1024])
            steps.append(S("resize", 0, width=w))
            for s in sims.values():
                s.w = w
        elif k < 0.18 and not helped:
            steps.append(S("help", rng.choice(sorted(sims))))
            helped = True
        elif k < 0.21 and len(sims) > 1:
            n = rng.choice(sorted(sims))
            del sims[n]
            steps.append(S("drop", n))
        else:
            n = rng.choice(sorted(sims))
            g = gesture(rng, sims[n], n)
            if g:
                steps.append(g)
    return {"plots": plots, "steps": steps}


def modelled(rng, r):
    """a history of the model, on one of two plots"""
    p = plot(rng)
    w = rng.choice([512, 1024])
    steps = [S("page", 1, width=w)]
    unit = w // 16
    h = 50 * len(p["lanes"]) - 30
    for g in r["hist"]:
        k = g["do"]
        if k == "zoom":
            steps.append(S(k, 1, num=g["a"], den=g["b"], px=g["c"] * unit))
        elif k == "pan":
            steps.append(S(k, 1, px=g["a"] * unit))
        elif k == "brush":
            if p["summary"]:
                steps.append(S(k, 1, lo=g["a"] * 128, hi=g["b"] * 128))
        elif k == "resize":
            steps.append(S(k, 0, width=g["a"] * unit))
        elif k == "ask":
            steps.append(S(k, 1, px=g["a"] * unit, y=min(g["b"], len(p["lanes"])) * h // len(p["lanes"]) - 5))
        else:
            steps.append(S(k, 1, px=g["a"] * unit))
    plots = [p]
    if rng.random() < 0.3:
        plots.append(plot(rng, 4))
        steps.insert(rng.randint(1, len(steps)), S("page", 2, width=rng.choice([256, 512])))
    return {"plots": plots, "steps": whole(plots, steps)}


def whole(plots, steps):
    """without the gestures that lead to fractions of a unit"""
    sims, out = {}, []
    for s in steps:
        k, ok = s["do"], True
        if k == "page":
            sims[s["n"]] = Sim(plots[s["n"] - 1], s["width"])
        elif k == "resize":
            for x in sims.values():
                x.w = s["width"]
        else:
            sim = sims[s["n"]]
            if k == "zoom":
                ok = sim.zoom(s["num"], s["den"], min(s["px"], sim.w))
                s["px"] = min(s["px"], sim.w)
            elif k == "pan":
                ok = sim.pan(s["px"])
            elif k == "brush" and s["hi"] > s["lo"]:
                ok = sim.put(F(s["lo"]), F(s["hi"]))
            elif k in ("A", "B", "ask"):
                ok = sim.time(s["px"]).denominator == 1
        if ok:
            out.append(s)
    return out


def crowd(rng, i):
    """more events than are drawn of one name when sampling"""
    n = rng.choice([1990, 2000, 2001, 2500, 2730])
    p = {"lo": 0, "hi": D, "lanes": ["L0"], "named": False, "prefix": "L", "items": [{"name": "a", "lane": 1, "s": 3 * k, "e": 3 * k + 2} for k in range(n)],
         "colours": [], "summary": True, "stride": i % 2 == 0}
    steps = [S("page", 1, width=rng.choice([512, 1024]))]
    for _ in range(2):
        if rng.random() < 0.6:
            l = rng.choice([D // 2, D // 4, D])
            lo = rng.randrange(0, D - l + 1, 256)
            steps.append(S("brush", 1, lo=lo, hi=lo + l))
        else:
            steps.append(S("resize", 0, width=rng.choice([512, 1024])))
    return {"plots": [p], "steps": steps, "crowd": {"n": n, "stride": p["stride"]}}


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Timeline", emits=True)
    chk.run(execute, [modelled(rng, r) for r in rng.sample(recs, min(len(recs), chk.pick(350, 4096)))], "Trace_Timeline", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(450, 6000))], "Trace_Timeline", label="seeded-gestures")
    chk.run(execute, [crowd(rng, i) for i in range(chk.pick(10, 120))], "Trace_Timeline", label="crowds")
    chk.assumptions = ["d3 3.5.6, d3-tip, jQuery and requirejs behave as lib/js/browser.js has them",
                       "which point a magnification keeps in place is left to d3"]
