"""C26: signals and colours against spec/Signals.tla."""
import tv, obs
from drv_iline import displayed, page


def run_map(case):
    from trappy.plotter.ColorMap import ColorMap
    import matplotlib.cm as cm
    def go():
        m = ColorMap.rgb_cmap([list(c) for c in case["rgb"]]) if case["rgb"] else ColorMap(case["n"])
        lut = {tuple(round(float(x), 6) for x in cm.get_cmap("hsv")(i)[:3]): i for i in range(256)}
        cols, seats, inv = [], [], []
        for i in range(case["n"]):
            c = m.cmap(i)
            cols.append([int(round(255 * float(x))) for x in c[:3]])
            seats.append(lut.get(tuple(round(float(x), 6) for x in c[:3]), -100))
            inv.append([int(round(255 * float(x))) for x in m.cmap_inv(i + 1)[:3]])
        return {"cols": cols, "seats": seats, "inv": inv}
    r = obs.Caught(go)
    return dict(r.res or {"cols": [], "seats": [], "inv": []}, err=r.err, msg=r.msg[:200])


def run_signals(case):
    t = tv.trappy()
    import pandas as pd
    import matplotlib.pyplot as plt
    from trappy.plotter.ILinePlot import ILinePlot
    from trappy.plotter.LinePlot import LinePlot
    traces = []
    for k, name in enumerate(case["traces"]):
        tr = t.BareTrace(name=name)
        for j, e in enumerate(case["have"]):
            tr.add_parsed_event(str(e["ev"]), pd.DataFrame({str(c): [100 * k + 10 * j + n, 5 + k] for n, c in enumerate(e["cols"])},
                                                           index=pd.Index([0.5, 1.5 + k], name="Time")))
        traces.append(tr)
    traces = traces[0] if len(traces) == 1 and case["scalars"] else traces
    sigs = case["sigs"][0] if len(case["sigs"]) == 1 and case["scalars"] else list(case["sigs"])
    kw = {"signals": sigs}
    if case["also"]:
        kw["column"] = ["v"]
    def iline():
        p = page(displayed(lambda: ILinePlot(traces, **kw).view(test=True)))
        call = p["calls"][0]
        n = len(p["figs"][0]["labels"]) - 1
        cols = [call["colors"][i % len(call["colors"])] for i in range(n)] if call["given"] else []
        return {"labels": p["figs"][0]["labels"][1:], "colors": [[int(c[i:i + 2], 16) for i in (1, 3, 5)] for c in cols], "given": call["given"]}
    def line():
        import matplotlib.colors as mc
        plt.close("all")
        LinePlot(traces, **kw).view()
        leg = plt.figure(plt.get_fignums()[-1]).legends[-1]
        out = {"labels": [x.get_text() for x in leg.get_texts()], "colors": [[int(round(255 * float(x))) for x in mc.to_rgb(h.get_color())] for h in leg.legendHandles],
               "given": any(s.count(":") == 2 and not s.endswith(":") for s in case["sigs"])}
        plt.close("all")
        return out
    r = obs.Caught(line if case["static"] else iline)
    return dict(r.res or {"labels": [], "colors": [], "given": False}, err=r.err, msg=r.msg[:200])


def execute(case):
    return run_map(case) if case["kind"] == "map" else run_signals(case)


def gen(rng):
    have = [{"ev": ev, "cols": rng.sample(["v", "load", "next_pid", "cpu frequency", "7"], rng.randint(1, 3))}
            for ev in rng.sample(["e", "cpu_frequency", "sched_switch", "my-event", "3"], rng.randint(1, 3))]
    color = lambda: ",".join(rng.choice(["%d", "%d", "%03d", "0x%x", "0x%02X"]) % rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(3))
    sigs = []
    mode = rng.choice(["none", "all", "some"])
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        h = rng.choice(have)
        ev = h["ev"] if rng.random() < 0.94 else rng.choice(["nope", "cpu", "E", "e "])
        s = ev + ":" + (rng.choice(h["cols"]) if rng.random() < 0.9 else rng.choice(["nope", "V", "e"]))
        if mode == "all" or mode == "some" and rng.random() < 0.5:
            s += ":" + color()
        if rng.random() < 0.03:
            s = rng.choice([s + ":", ":" + s, s.replace(":", ""), s + ",", s + ":red", s + ":1,2,3,4", s.replace(":", "::", 1), ""])
        sigs.append(s)
    traces = [rng.choice(["", "run%d" % i]) for i in range(rng.choice([1, 1, 2, len(sigs)]))]
    return {"kind": "signals", "sigs": sigs, "have": have, "traces": traces, "also": rng.random() < 0.03, "scalars": rng.random() < 0.5, "static": rng.random() < 0.3}


def check(chk, prop):
    rng = chk.rng
    recs = [r["sig"] for r in chk.mc("MC_Signals", emits=True)]
    odd = [s for s in recs if s.startswith("e:v")]
    rest = [s for s in recs if not s.startswith("e:v")]
    cases = []
    for s in rng.sample(odd, min(len(odd), chk.pick(400, 10000))) + rng.sample(rest, min(len(rest), chk.pick(500, 10000))):
        have = [{"ev": e, "cols": ["v", "e", "7"]} for e in ("e", "v", "7")]
        sigs = [str(s)] if rng.random() < 0.6 else rng.sample(["v:e", str(s)], 2)
        cases.append({"kind": "signals", "sigs": sigs, "have": have, "traces": [""], "also": False, "scalars": rng.random() < 0.5, "static": rng.random() < 0.15})
    chk.run(execute, cases, "Trace_Signals", label="model-behaviours")
    cases = [gen(rng) for _ in range(chk.pick(500, 6000))]
    for n in sorted(set(list(range(1, 60)) + [rng.randint(60, 300) for _ in range(chk.pick(20, 200))])):
        cases.append({"kind": "map", "n": n, "rgb": []})
        cases.append({"kind": "map", "n": n, "rgb": [[rng.randint(0, 255), i % 256, (i // 256) * 20] for i in range(n)]})
    chk.run(execute, cases, "Trace_Signals", label="seeded-signals")
    chk.assumptions = ["colours are those of the page's call or of the figure's legend", "colours other than three values of 0 to 255 are out of scope"]
