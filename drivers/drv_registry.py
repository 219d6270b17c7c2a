"""C09: registrations, scopes and event selection against spec/Registry.tla."""
import random
import tv, obs

UNIVERSE = []      # every name an attribute could have
VOCAB = ["foo:", "foo: bar", "baz", "qux:", "alpha_beta:", "alpha_beta", "my_evt:", "zed", "sched_foo:", "pow"]
CLASSES = ["MyEvent", "FOOBar", "myEvent", "HTTPServer", "A", "aB", "ABC", "SchedFoo", "Sched_Foo", "X2Y", "Baz", "qux", "AlphaBETAGamma"]
ASK = ["foo", "foo:", "my_event", "baz", "other", "fresh", "qux", "alpha_beta", "my_evt", "zed", "sched_foo", "h_ttpserver", "kk", "abc"]
BUILTIN = ["sched_switch", "sched_switch:", "cpu_idle", "thermal", "thermal_temperature", "thermal_power_cpu_limit", "cpu_out_power",
           "tracing_mark_write", "sys_enter", "sched_contrib_scale_factor", "sched_contrib_scale_f", "cpu_frequency:", "pid_controller",
           "thermal_power_allocator", "devfreq_in_power", "clock_set_rate", "f2fs_sync_file_exit"]


def names():
    if not UNIVERSE:
        t = tv.trappy()
        G = t.ftrace.GenericFTrace
        for d in (G.thermal_classes, G.sched_classes, G.dynamic_classes):
            UNIVERSE.extend(d)
            UNIVERSE.extend(c.unique_word.rstrip(":") for c in d.values())
        UNIVERSE.extend(VOCAB + ASK + ["foo_bar", "f_oobar", "abc", "sched_foo", "x2_y", "alpha_betagamma", "b", "c", "named_one", "named_two"])
        UNIVERSE[:] = sorted(set(UNIVERSE))
    return UNIVERSE


def observe(tr):
    return {"err": "", "words": {n: c.unique_word for n, c in tr.class_definitions.items()},
            "has": [n for n in names() if hasattr(tr, n)] + sorted(n for n in tr.class_definitions if n not in UNIVERSE and hasattr(tr, n)),
            "filters": list(tr.get_filters()),
            "rows": {n: len(getattr(tr, n).data_frame) for n in tr.class_definitions if hasattr(tr, n)}}


NOTHING = {"err": "", "words": {}, "has": [], "filters": [], "rows": {}}


def execute(case):
    t = tv.trappy()
    t.FTrace.disable_cache = True
    with open("trace.txt", "w") as f:
        f.write("".join(l + "\n" for l in case["lines"]))
    live, traces, out = {}, {}, []
    ever = []
    try:
        for i, op in enumerate(case["ops"], 1):
            if op["op"] == "register":
                def reg():
                    if op.get("same"):      # the same class, in one more scope
                        t.register_ftrace_parser(live[op["id"]], op["scope"])
                        return live[op["id"]]
                    if op["how"] == "dynamic":
                        return t.register_dynamic_ftrace(op["cls"], op["word"], op["scope"])
                    kw = {"unique_word": op["word"]}
                    if op["name"]:
                        kw["name"] = op["name"]
                    c = type(str(op["cls"]), (t.base.Base,), kw)
                    t.register_ftrace_parser(c, op["scope"])
                    return c
                r = obs.Caught(reg)
                live[op["id"]] = r.res
                if r.res is not None:
                    ever.append(r.res)
                out.append(dict(NOTHING, err=r.err))
            elif op["op"] == "unregister":
                f = t.unregister_dynamic_ftrace if op.get("how") == "dynamic" else t.dynamic.unregister_ftrace_parser
                r = obs.Caught(lambda: f(live[op["id"]]))
                out.append(dict(NOTHING, err=r.err))
            elif op["op"] == "open":
                evs = op["events"]
                r = obs.Caught(lambda: t.FTrace("trace.txt", scope=op["scope"], events=evs[0] if op.get("single") else list(evs)))
                if r.err:
                    out.append(dict(NOTHING, err=r.err))
                else:
                    traces[i] = r.res
                    out.append(observe(r.res))
            else:
                out.append(observe(traces[op["of"]]) if op["of"] in traces else NOTHING)
        return out
    finally:
        G = t.ftrace.GenericFTrace
        for c in ever:
            for d in (G.thermal_classes, G.sched_classes, G.dynamic_classes):
                for n in [n for n, v in d.items() if v is c]:
                    del d[n]
        # a builtin that was replaced or removed comes back
        restore()


_saved = []


def restore():
    t = tv.trappy()
    G = t.ftrace.GenericFTrace
    for d, s in zip((G.thermal_classes, G.sched_classes, G.dynamic_classes), _saved):
        d.clear()
        d.update(s)


def save():
    t = tv.trappy()
    G = t.ftrace.GenericFTrace
    _saved[:] = [dict(d) for d in (G.thermal_classes, G.sched_classes, G.dynamic_classes)]
    names()


def lines(rng, words):
    out = []
    for i, w in enumerate(words):
        out.append("  sh-1 [000] %d.5: %s a=%d" % (i + 1, w if w.rstrip().endswith(":") else w + ":", i))
    return out


def clash(w):
    """words a line must not hold two of"""
    return w


FILE = ["foo: bar:", "foo:", "baz:", "qux:", "alpha_beta:", "my_evt:", "zed:", "other:", "fresh:", "sched_switch:", "cpu_idle:", "thermal_temperature:",
        "sched_contrib_scale_f:", "foo:"]


def pool_op(rng, n):
    w = rng.choice(VOCAB)
    how = rng.choice(["dynamic", "dynamic", "class"])
    return {"op": "register", "how": how, "cls": rng.choice(CLASSES), "word": w,
            "name": "" if how == "dynamic" else rng.choice(["", "named_one", "named_two", "foo"]),
            "scope": rng.choice(["all", "all", "sched", "thermal"]), "id": n}


def open_op(rng):
    evs = [rng.choice(ASK if rng.random() < 0.6 else BUILTIN) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    op = {"op": "open", "scope": rng.choice(["custom"] * 4 + ["all", "sched", "thermal", "everything"]), "events": evs}
    if len(evs) == 1 and rng.random() < 0.4:
        op["single"] = True
    return op


def history(rng):
    ops, live, opens, n = [], [], [], 0
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if live and rng.random() < 0.12:
            ops.append(dict(rng.choice(live), same=True, scope=rng.choice(["all", "sched", "thermal"])))
        elif r < 0.35:
            n += 1
            o = pool_op(rng, n)
            ops.append(o)
            live.append(o)
        elif r < 0.5 and live:
            o = live.pop(rng.randrange(len(live)))
            ops.append({"op": "unregister", "id": o["id"], "how": o["how"]})
        elif r < 0.6 and opens:
            ops.append({"op": "again", "of": rng.choice(opens)})
        else:
            ops.append(open_op(rng))
            opens.append(len(ops))
    ops.append(open_op(rng))
    for i in opens[:2]:
        ops.append({"op": "again", "of": i})
    words = rng.sample(FILE, rng.randint(1, 5))
    return {"lines": lines(rng, words), "ops": ops}


def from_model(recs, rng):
    pool = {1: ("MyEvent", "foo:"), 2: ("FOOBar", "foo: bar"), 3: ("myEvent", "baz")}
    asks = [[], ["foo"], ["my_event"], ["baz"], ["other", "foo:"], ["f_oobar", "fresh"]]
    for r in recs:
        ops, live = [], {}
        same = rng.random() < 0.5
        for o in r["h"]:
            if o["op"] == "register":
                # the same class may be registered several times: one parser per registration
                c, w = pool[o["i"]]
                if same and o["i"] in live:
                    ops.append(dict([p for p in ops if p.get("id") == live[o["i"]][0]][0], same=True, scope=o["scope"]))
                    continue
                ops.append({"op": "register", "how": "dynamic", "cls": c, "word": w, "name": "", "scope": o["scope"], "id": 10 * len(ops) + o["i"]})
                live.setdefault(o["i"], []).append(ops[-1]["id"])
            else:
                for i in live.pop(o["i"], []):
                    ops.append({"op": "unregister", "id": i, "how": "dynamic"})
        for s in ("custom", "sched", "all"):
            ops.append({"op": "open", "scope": s, "events": rng.choice(asks)})
        ops.append({"op": "open", "scope": "thermal", "events": rng.choice(asks)})
        yield {"lines": lines(rng, ["foo: bar:", "foo:", "baz:", "fresh:", "other:"]), "ops": ops}


def check(chk, prop):
    save()
    recs = chk.mc("MC_Registry", emits=True)
    chk.run(execute, list(from_model(recs, chk.rng)), "Trace_Registry", label="model-behaviours")
    chk.run(execute, [history(chk.rng) for _ in range(chk.pick(350, 4000))], "Trace_Registry", label="seeded-histories")
    chk.assumptions = ["the table of built-in parsers is spec/Builtins.tla", "an event name answering to two parsers resolves to the first of thermal, sched, dynamic"]
