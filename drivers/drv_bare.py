"""C13: BareTrace/FTrace as collections of event tables, against spec/BareTrace.tla."""
import random
import tv, obs

TICK = 64.0


def execute(case):
    import pandas as pd
    t = tv.trappy()
    t.FTrace.disable_cache = True
    if case["parsed"]:
        rows = sorted((x, p["name"]) for p in case["parsed"] for x in p["times"])
        with open("trace.txt", "w") as f:
            # the header line comes first and belongs to no selected event
            f.write("  sh-1 [000] 100.000000: start_of_trace: a=1\n" if not case["norm0"] else "")
            for x, n in rows:
                f.write("  sh-1 [000] %.9f: %s: a=1 cpu=2\n" % (x / TICK, n))
        tr = t.FTrace("trace.txt", scope="custom", events=[p["name"] for p in case["parsed"]], normalize_time=False)
        # __getattr__ answers for the parsed names
    else:
        tr = t.BareTrace(case.get("name", "bare"))
    given, out = {}, []
    universe = sorted({o["name"] for o in case["ops"] if o["op"] == "add"} | {p["name"] for p in case["parsed"]})
    for op in case["ops"]:
        o = {"err": "", "res": ""}
        if op["op"] == "add":
            df = pd.DataFrame({"a": list(range(len(op["times"]))), "cpu": [i % 2 for i in range(len(op["times"]))],
                               "s": ["x"] * len(op["times"])}, index=[x / TICK for x in op["times"]])
            keep = df.copy(deep=True)
            kw = {"pivot": op["pivot"]} if op["pivot"] else {}
            r = obs.Caught(lambda: tr.add_parsed_event(op["name"], df, **kw))
            o["err"] = r.err
            if not r.err:
                given[op["name"]] = (df, keep)
        elif op["op"] == "duration":
            r = obs.Caught(tr.get_duration)
            o["err"] = r.err
            o["res"] = int(r.res * TICK) if not r.err and float(r.res * TICK).is_integer() else -1
        else:
            r = obs.Caught(lambda: tr.get_filters(op["key"]) if op["key"] else tr.get_filters())
            o["err"] = r.err
            o["res"] = list(r.res) if not r.err else []
        evs = {n: getattr(tr, n) for n in universe if isinstance(getattr(tr, n, None), t.base.Base)}
        o["has"] = sorted(evs)
        o["times"] = {n: [int(x * TICK) if float(x * TICK).is_integer() else -1 for x in e.data_frame.index] for n, e in evs.items()}
        o["pivots"] = {n: getattr(e, "pivot", "") for n, e in evs.items()}
        o["same"] = [evs[n].data_frame.equals(k) and list(evs[n].data_frame.columns) == list(k.columns) and
                     d.equals(k) and list(d.index) == list(k.index) for n, (d, k) in given.items() if n in evs]
        out.append(o)
    return out


NAMES = ["counters", "pmu", "pmu_counters", "sched_extra", "a", "endtime", "get_duration", "name", "x.y", "sched switch"]
RES = ["endtime", "get_duration", "name"]


def case(rng):
    parsed, base = [], 0
    if rng.random() < 0.4:
        for n in rng.sample(["ev_a", "ev_b", "sched_x"], rng.randint(1, 3)):
            parsed.append({"name": n, "times": [], "pivot": ""})
        t = rng.choice([64, 640])
        for _ in range(rng.randint(0, 6)):
            t += rng.choice([1, 2, 40, 640])
            rng.choice(parsed)["times"].append(t)
    ops = []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.5:
            ts = sorted(rng.randint(-5 if not parsed else 0, 2000) for _ in range(rng.choice([0, 1, 1, 2, 3])))
            names = [p["name"] for p in parsed] + NAMES * 2
            ops.append({"op": "add", "name": rng.choice(names), "times": ts, "pivot": rng.choice(["", "", "cpu"])})
        elif r < 0.8:
            ops.append({"op": "duration"})
        else:
            ops.append({"op": "filters", "key": rng.choice(["", "pmu", "sched", "a", "zzz", "_", "counters"])})
    ops.append({"op": "duration"})
    ops.append({"op": "filters", "key": rng.choice(["", "pmu", "s"])})
    return {"parsed": parsed, "ops": ops, "norm0": True}


def check(chk, prop):
    recs = chk.mc("MC_BareTrace", emits=True)
    cases = [{"parsed": [], "norm0": True, "ops": [dict(o, op="add") for o in r["h"]] +
              [{"op": "duration"}, {"op": "filters", "key": ""}, {"op": "filters", "key": "b"}]} for r in recs]
    lim = chk.pick(500, 6000)
    if len(cases) > lim:
        cases = chk.rng.sample(cases, lim)
    chk.run(execute, cases, "Trace_BareTrace", label="model-behaviours")
    chk.run(execute, [case(chk.rng) for _ in range(chk.pick(800, 8000))], "Trace_BareTrace", label="seeded-histories")
    chk.assumptions = ["event tables are in time order (the index contract of add_parsed_event)"]
