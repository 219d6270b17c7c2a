"""C14: apply_callbacks on traces, through Trace_Reader and Callbacks."""
import io, random
import tv, obs, drv_bulk
import drv_reader as R


def execute(case):
    t = tv.trappy()
    t.FTrace.disable_cache = not case["cache"]
    with io.open("trace.txt", "w", encoding="utf-8", newline="") as f:
        f.write(u"".join(l + "\n" for l in case["lines"]))

    def win(w):
        return tuple(None if b == [] else b[0] + b[1] / 1e9 for b in w)
    kw = dict(normalize_time=case["norm"], window=win(case["win"]["rel"]), abs_window=win(case["win"]["abs"]))
    names = [s["name"] for s in case["sel"]]

    def go():
        return t.FTrace("trace.txt", scope="custom", events=[s["ask"] for s in case["sel"]], **kw)
    r = obs.Caught(go)
    if not r.err and case["cache"]:
        r = obs.Caught(go)
    if r.err:
        return {"err": r.err, "cberr": "", "calls": [], "columns": {}}
    tr, calls = r.res, []

    def callback(ev):
        def fn(d):
            calls.append((ev, dict(d)))
            d.clear()                    # the caller's copy: must not matter
        return fn
    for n in case["before"]:
        getattr(tr, n)
    c = obs.Caught(lambda: tr.apply_callbacks({n: callback(n) for n in case["req"]}))
    out = []
    times = {n: {int(l): float(ti) for l, ti in zip(df["__line"].tolist(), df.index.tolist())} if len(df) else {}
             for n, df in ((n, getattr(tr, n).data_frame) for n in names)}
    for ev, d in calls:
        line = tv.cell(d.get("__line"))
        ln = int(line["d"]) if line["k"] == "i" else -1
        i = d.get("Index")
        out.append({"ev": ev, "keys": sorted(str(k) for k in d), "line": ln,
                    "t": tv.secns(i) if isinstance(i, float) else [-1, -1],
                    "rowtime": isinstance(i, float) and times[ev].get(ln) == float(i),
                    "comm": str(d.get("__comm")), "pid": tv.cell(d.get("__pid")).get("d", "?"), "cpu": tv.cell(d.get("__cpu")).get("d", "?"),
                    "cols": {str(k): tv.cell(v) for k, v in d.items() if k not in R.obs.SPECIAL + ("Index",) and tv.cell(v)["k"] != "n"}})
    return {"err": "", "cberr": c.err, "calls": out,
            "columns": {n: [str(x) for x in getattr(tr, n).data_frame.columns] for n in names}}


def finish(rng, c, req):
    c.update(req=req, before=[], cache=rng.random() < 0.25)
    return c


def gen(rng):
    sel = rng.sample(R.KV[:3] + [R.MARK], rng.randint(1, 4))
    names = [s["name"] for s in sel]
    keys = rng.sample(["a", "b", "_x", "__y", "class", "k1", "Line", "9z", "x.y", "Time"], rng.randint(1, 4))

    def payload(r):
        return " ".join("%s=%s" % (k, r.choice(["0", "1", "-5", "foo", "0x10", "", "4294967295"])) for k in keys if r.random() < 0.8) or "a=1"
    lines = R.gen_lines(rng, rng.randint(1, 14), names, junk=0.1, payload=payload)
    c = R.base_case(rng, sel, lines)
    if rng.random() < 0.2:
        c["win"] = {"rel": [[0, 0, 0], [rng.randint(0, 2), 0, 0]], "abs": [[0, 0, 0], []]}
    req = rng.sample(names, rng.randint(0, len(names)))
    return finish(rng, c, req)


def check(chk, prop):
    recs = chk.mc("MC_Callbacks", emits=True)
    sel = [R.ev("ev_a"), R.ev("ev_b"), R.ev("ev_c")]
    cases = []
    lim = chk.pick(900, 12000)
    for i, r in enumerate(recs if len(recs) <= lim else chk.rng.sample(recs, lim)):
        ls = ["  sh-%d [00%d] %d.%06d: %s: a=%d" % (j, j % 3, 5, j // 2, e, j) for j, e in enumerate(r["lines"])]
        req = list(r["req"])
        chk.rng.shuffle(req)
        s = sel[:]
        chk.rng.shuffle(s)
        cases.append(finish(chk.rng, R.base_case(chk.rng, s, ls), req))
    chk.run(execute, cases, "Trace_Reader", label="model-behaviours")
    chk.run(execute, [gen(chk.rng) for _ in range(chk.pick(700, 7000))], "Trace_Reader", label="seeded-executions")
    drv_bulk.more(chk)
    chk.assumptions = ["no payload has a key called Index, __line, __comm, __pid or __cpu"]
