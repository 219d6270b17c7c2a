"""C27: power tables of clusters and devfreq devices against spec/Power.tla."""
import io, math
import tv, obs
from drv_stats import TICK, tick

NONE = {"err": "unset", "msg": "", "title": "", "cols": [], "ps": []}


def num(v, scale):
    return -1 if v is None or isinstance(v, float) and math.isnan(v) else int(round(float(v) * scale))


def cols_of(df, scale):
    """the columns of a table as [name, pts]"""
    idx = [tick(t) for t in df.index.tolist()]
    return [{"name": str(c), "pts": [[t, num(v, scale)] for t, v in zip(idx, df.iloc[:, i].tolist())]} for i, c in enumerate(df.columns)]


def lines_of(ax, scale):
    """the lines of an axis as [name, pts]"""
    import numpy as np
    out = []
    for l in ax.lines:
        ys = np.ma.filled(np.ma.asarray(l.get_ydata(), dtype=float), np.nan).tolist()
        out.append({"name": str(l.get_label()), "pts": [[tick(t), num(v, scale)] for t, v in zip(list(l.get_xdata()), ys)]})
    return out


def caught(fn):
    r = obs.Caught(fn)
    return dict(NONE, **dict(r.res or {}, err=r.err, msg=r.msg[:200]))


def write(case, fn):
    with io.open(fn, "w") as f:
        f.write(u"  sh-1 [000] 0.000000: unrelated: a=1\n")
        for e in case["ev"]:
            d = u"  k/0:1-%d [000] %d.%09d: " % (e["pid"], e["t"] // TICK, (e["t"] % TICK) * 15625000)
            if e["k"] == "cin":
                d += u"thermal_power_cpu_get_power: cpus=%s freq=%d load={%s} dynamic_power=%d static_power=0" % (e["mask"], e["freq"], " ".join(map(str, e["loads"])), e["power"])
            elif e["k"] == "cout":
                d += u"thermal_power_cpu_limit: cpus=%s freq=%d cdev_state=%d power=%d" % (e["mask"], e["freq"], 1, e["power"])
            elif e["k"] == "din":
                d += u"thermal_power_devfreq_get_power: type=gpu freq=%d load=%d dynamic_power=%d static_power=0 power=%d" % (e["freq"] * 1000, e["load"], e["power"], e["power"])
            else:
                d += u"thermal_power_devfreq_limit: type=gpu freq=%d cdev_state=%d power=%d" % (e["freq"] * 1000, 1, e["power"])
            f.write(d + u"\n")


def execute(case):
    t = tv.trappy()
    import matplotlib.pyplot as plt
    t.FTrace.disable_cache = True
    write(case, "trace.txt")
    m = {str(x["mask"]): str(x["label"]) for x in case["map"]}
    ks = {e["k"] for e in case["ev"]}
    kinds = ["thermal_power_cpu_get_power", "thermal_power_cpu_limit", "thermal_power_devfreq_get_power", "thermal_power_devfreq_limit"]
    kw = {"scope": "thermal"} if case["scope"] else {}
    tr = t.FTrace("trace.txt", name=str(case["name"]), **kw)
    names = ["cpu_in_power", "cpu_out_power", "devfreq_in_power", "devfreq_out_power"]
    before = {n: getattr(tr, n).data_frame.copy() for n in names}
    o = {}
    o["cin"] = caught(lambda: {"cols": cols_of(tr.cpu_in_power.get_all_freqs(m), 1000)})
    o["cout"] = caught(lambda: {"cols": cols_of(tr.cpu_out_power.get_all_freqs(m), 1000)})
    o["load"] = caught(lambda: {"cols": cols_of(tr.cpu_in_power.get_load_data(m), 1000)})
    o["norm"] = caught(lambda: {"cols": cols_of(tr.cpu_in_power.get_normalized_load_data(m), 1000000)})
    o["din"] = caught(lambda: {"cols": cols_of(tr.devfreq_in_power.get_all_freqs(), 1000)})
    o["dout"] = caught(lambda: {"cols": cols_of(tr.devfreq_out_power.get_all_freqs(), 1000)})
    o["all"] = caught(lambda: {"ps": [{"label": str(l), "title": "", "cols": cols_of(d, 1000)} for l, d in tr.get_all_freqs_data(m)]})
    n = len(m) + (1 if "din" in ks and "dout" in ks else 0)

    def pall():
        plt.close("all")
        if case["axes"]:
            axes = list(plt.subplots(nrows=n, ncols=2, squeeze=False)[1][:, 0])
            tr.plot_allfreqs(m, ax=axes)
        else:
            tr.plot_allfreqs(m)
            axes = [a for f in plt.get_fignums() for a in plt.figure(f).axes]
        ps = []
        for a in axes:
            cs = lines_of(a, 1000)
            lab = {c["name"].rsplit("_freq_", 1)[0] for c in cs}
            leg = a.get_legend()
            assert not cs or [x.get_text() for x in leg.get_texts()] == [c["name"] for c in cs]
            if lab:
                assert len(lab) == 1, lab
                ps.append({"label": {"gpu": "GPU"}.get(list(lab)[0], list(lab)[0]), "title": a.get_title(), "cols": cs})
        return {"ps": ps}

    def load(fn, scale):
        def go():
            plt.close("all")
            if case["axes"]:
                ax = plt.subplots(ncols=2)[1][1]
                fn(m, title=str(case["title"]), ax=ax)
            else:
                fn(m, title=str(case["title"]))
                ax = plt.gca()
            axs = [a for f in plt.get_fignums() for a in plt.figure(f).axes if a.lines]
            assert axs == [ax]
            assert [x.get_text() for x in ax.get_legend().get_texts()] == [l.get_label() for l in ax.lines]
            return {"title": ax.get_title(), "cols": lines_of(ax, scale)}
        return go

    def hist():
        plt.close("all")
        ax = plt.subplots(nrows=2 * n)[1]
        tr.plot_freq_hists(m, ax)
        hs = []
        for a in ax:
            title, _, rest = a.get_title().partition(" (mean = ")
            num_ = rest.split(",")[0].lstrip("0123456789.na")
            hs.append({"title": title, "unit": num_ if a.get_xlabel() == "Frequency (%s)" % num_ else "?", "upto": int(round(a.get_xlim()[1] * 1000)),
                       "bars": [[int(math.floor(p.get_x() * 1000)), int(math.ceil((p.get_x() + p.get_width()) * 1000))] for p in a.patches if p.get_height()]})
        return {"hs": hs}
    o["pall"] = caught(pall)
    o["pload"] = caught(load(tr.plot_load, 1000))
    o["pnorm"] = caught(load(tr.plot_normalized_load, 1000000))
    o["hist"] = dict({"hs": []}, **caught(hist))
    plt.close("all")
    o["kept"] = all(getattr(tr, k).data_frame.equals(d) for k, d in before.items())
    return o


MASKS = ["00000000,0000000f", "00000000,00000030", "00000000,000000f0", "00000000,00000039", "00000000,00000006", "0000000f", "000000f0", "00000000,00000001", "000000c0", "00000000,000000ff", "00000003,00000003", "000000f0,00000000", "00000001,00000000,80000000"]


def event(rng, k, t, mask, freq):
    cpus = bin(int(mask.replace(",", "") or "0", 16)).count("1")
    loads = [rng.choice([0, 1, 50, 100, rng.randint(0, 100)]) for _ in range(cpus)]
    return {"k": k, "t": t, "mask": mask if k[0] == "c" else "", "freq": freq, "loads": loads if k == "cin" else [],
            "load": sum(loads) if k == "cin" else rng.randint(0, 100), "power": rng.randint(0, 5000), "pid": rng.randint(1, 999)}


def finish(rng, c):
    c["name"] = rng.choice(["", "run"])
    c["title"] = rng.choice(["", "before"])
    c["scope"] = rng.random() < 0.5
    c["axes"] = rng.random() < 0.6
    return c


def modelled(rng, r):
    masks = rng.sample(MASKS, 2)
    who = {"A": masks[0], "B": masks[1]}
    f = rng.sample([261888, 450000, 850000, 1100000, 1900000, 2400000], 2)
    ev, t = [], 0
    flip = rng.random() < 0.5
    for x in r["rows"]:
        t += rng.choice([1, 3, 64])
        k = "d" if x["who"] == "GPU" else "c"
        ev.append(event(rng, k + ("in" if flip or rng.random() < 0.6 else "out"), t, who.get(x["who"], ""), f[x["v"] - 1]))
    labels = rng.sample(["A15", "A7", "big", "LITTLE", "cpu 0"], 2)
    return finish(rng, {"ev": ev, "map": [{"mask": m, "label": l} for m, l in zip(masks, labels)]})


def gen(rng):
    masks = rng.sample(MASKS, rng.randint(1, 4))
    mapped = list(masks)
    if rng.random() < 0.12 and len(masks) > 1:
        mapped.remove(rng.choice(masks))
    if rng.random() < 0.25:
        mapped += rng.sample([m for m in MASKS if m not in masks], 1)
    rng.shuffle(mapped)
    labels = rng.sample(["A53", "A57", "A72", "GPU0", "big", "LITTLE", "a cluster"], len(mapped))
    kinds = rng.choice([["cin", "cout"], ["cin", "cout", "din", "dout"], ["cin", "cout", "din", "dout"], ["cin", "cout", "din"], ["cin", "dout", "cout"], ["cin"], ["cin", "din"]])
    ev, t = [], 0
    ladder = [rng.choice([1000 * rng.randint(1, 2500), rng.randint(1, 2500000)]) for _ in range(rng.randint(1, 4))]
    for _ in range(rng.choice([1, 4, 8, 20])):
        t += rng.choice([1, 1, 2, 13, 64])
        ev.append(event(rng, rng.choice(kinds), t, rng.choice(masks), rng.choice(ladder)))
    return finish(rng, {"ev": ev, "map": [{"mask": m, "label": l} for m, l in zip(mapped, labels)]})


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Power", emits=True)
    cases = [modelled(rng, r) for r in rng.sample(recs, min(len(recs), chk.pick(350, 6000)))]
    chk.run(execute, cases, "Trace_Power", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(350, 6000))], "Trace_Power", label="seeded-power-traces")
    chk.assumptions = ["distinct masks have distinct labels", "loads come as load={..}", "which mean and deviation a histogram's title tells is not judged"]
