"""C19, C20: stats expressions against spec/Grammar.tla and spec/Super.tla."""
import io, operator, random, sys, types
from fractions import Fraction
import tv, obs

TICK = 8.0


def tok(k, s="", n=0, d=1):
    return {"k": k, "s": s, "n": n, "d": d}


def number(v):
    import numpy as np
    if v is None:
        return {"t": "-", "n": 0, "d": 1}
    if isinstance(v, (bool, np.bool_)):
        return {"t": "b", "n": int(v), "d": 1}
    if not isinstance(v, (int, float, np.integer, np.floating)):
        return {"t": "?", "n": 0, "d": 1}
    if v != v:
        return {"t": "-", "n": 0, "d": 1}
    if v in (float("inf"), float("-inf")):
        return {"t": "?", "n": 0, "d": 1}
    f = Fraction(float(v)) if isinstance(v, (float, np.floating)) else Fraction(int(v))
    if abs(f.numerator) > 10000 or f.denominator > 64:
        return {"t": "?", "n": 0, "d": 1}
    return {"t": "f" if isinstance(v, (float, np.floating)) else "i", "n": f.numerator, "d": f.denominator}


def text(tokens, rng, names=None):
    """the expression, spaced at random"""
    out = []
    for i, t in enumerate(tokens):
        if t["k"] == "num":
            v = Fraction(t["n"], t["d"])
            s = str(v.numerator) if v.denominator == 1 and rng.random() < 0.7 else str(float(v)) if rng.random() < 0.8 or v.denominator > 1 else "%d." % v
        else:
            s = (names or {}).get(t["s"], t["s"])
        out.append(s + rng.choice(["", "", " ", "  "]))
    return rng.choice(["", " "]) + "".join(out)


VARS = {"x": 3, "y_2": 6, "zero": 0, "half": 0.5, "yes": True, "no": False}


class Callable(object):
    def __call__(self, *a):
        return len(a)


def functions():
    import functools
    return {"five": lambda: 5, "dbl": lambda a: a * 2, "dbl2": functools.partial(operator.mul, 2), "sub": lambda a, b: a - b,
            "third": lambda a, b, c: c, "max": max, "count": Callable()}


def execute_num(case):
    t = tv.trappy()
    from trappy.stats.grammar import Parser
    rng = random.Random(case["spacing"])
    p = Parser(t.BareTrace(), pvars=dict(VARS, **functions()))
    out = []
    for ts in case["exprs"]:
        r = obs.Caught(lambda: p.solve(text(ts, rng)))
        out.append({"err": r.err, "v": number(r.res) if not r.err else {"t": "?", "n": 0, "d": 1}})
    return out


def variables():
    return {k: number(v) for k, v in VARS.items()}


# ------------------------------------------------------------ expressions
LEVELS = [("**",), (), ("*", "/", "//", "%"), ("+", "-"), (">", "<", ">=", "<=", "==", "!="), ("&&", "||", "&", "|")]


def rexpr(rng, depth, level=6, paren=0.25):
    """tokens of an expression of at most that level"""
    if depth <= 0 or level == 0:
        r = rng.random()
        if r < 0.15 and depth > 0:
            return [tok("lp", "(")] + rexpr(rng, depth - 1) + [tok("rp", ")")]
        if r < 0.6:
            n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8])
            return [tok("num", "", n, 1)] if rng.random() < 0.8 else [dict(tok("num"), **dict(zip("nd", reduced(n, rng.choice([2, 4])))))]
        if r < 0.85 or depth <= 0:
            return [tok("id", rng.choice(sorted(VARS)))]
        f, n = rng.choice([("five", 0), ("dbl", 1), ("dbl2", 1), ("sub", 2), ("third", 3), ("max", 2), ("operator.sub", 2), ("operator.neg", 1), ("count", rng.randint(0, 3))])
        out = [tok("fn", f), tok("lp", "(")]
        for i in range(n):
            out += ([tok("comma", ",")] if i else []) + rexpr(rng, depth - 1 - (n > 1))
        return out + [tok("rp", ")")]
    if rng.random() < 0.3:
        return rexpr(rng, depth, level - 1)
    if level == 2:
        return [tok("op", rng.choice("+--"))] + rexpr(rng, depth, rng.choice([1, 1, 2])) if rng.random() < 0.5 else rexpr(rng, depth, 1)
    out = rexpr(rng, depth - 1, level - 1)
    for _ in range(rng.choice([1, 1, 2, 3]) if depth > 1 else rng.choice([0, 1, 1, 2])):
        out += [tok("op", rng.choice(LEVELS[level - 1]))]
        if level == 1:
            if rng.random() < 0.3:
                out += [tok("op", rng.choice("+-"))]
            out += rexpr(rng, 0, 0) if rng.random() < 0.8 else [tok("lp", "(")] + rexpr(rng, depth - 1) + [tok("rp", ")")]
        else:
            out += rexpr(rng, depth - 1, level - 1)
    return out


def reduced(n, d):
    f = Fraction(n, d)
    return f.numerator, f.denominator


def small(rng):
    while True:
        e = rexpr(rng, rng.choice([1, 2, 2, 3]), rng.choice([6, 6, 6, 5, 4]))
        if len(e) <= 28:
            return e


# ------------------------------------------------------------------ tables
def world_trace(case):
    import pandas as pd
    t = tv.trappy()
    w = case["world"]
    made = []
    if case["how"] == "bare":
        tr = t.BareTrace()
        for ev, rows in sorted(w["rows"].items()):
            df = pd.DataFrame({c: [r["c"].get(c) for r in rows] for c in w["cols"][ev]}, columns=w["cols"][ev],
                              index=pd.Index([r["t"] / TICK for r in rows], name="Time", dtype=float))
            tr.add_parsed_event(ev, df, w["pivot"][ev] or None)
        return tr, made, tr.class_definitions
    t.FTrace.disable_cache = True
    with io.open("trace.txt", "w") as f:
        f.write(u"  sh-1 [000] 0.0: unrelated: a=1\n")
        for tm, ev, r in sorted((r["t"], ev, r) for ev, rows in w["rows"].items() for r in rows if True):
            f.write(u"  sh-1 [000] %.6f: %s: %s\n" % (tm / TICK, ev, " ".join("%s=%d" % kv for kv in sorted(r["c"].items()))))
    for ev in sorted(w["rows"]):
        kw = {"pivot": w["pivot"][ev]} if w["pivot"][ev] else {}
        made.append(t.register_dynamic_ftrace("Tv" + ev.title().replace("_", ""), ev + ":", **kw))
    tr = t.FTrace("trace.txt")
    return tr, made, {m.name: m for m in made}


def ev_name(ev, case):
    return ev


def label(v):
    return str(v)


def project(r):
    import pandas as pd
    if isinstance(r, pd.DataFrame):
        return {"k": "t", "times": [tick(t) for t in r.index.tolist()], "v": {label(c): [number(x) for x in r[c].tolist()] for c in r.columns}, "n": number(None)}
    if isinstance(r, pd.Series):
        return {"k": "v", "times": [], "v": {label(c): [number(x)] for c, x in zip(r.index.tolist(), r.tolist())}, "n": number(None)}
    return {"k": "n", "times": [], "v": {"none": []}, "n": number(r)}


def tick(t):
    n = float(t) * TICK
    return int(n) if n == int(n) else -99


def execute_tab(case):
    t = tv.trappy()
    from trappy.stats.grammar import Parser
    rng = random.Random(case["spacing"])
    made = []
    try:
        tr, made, classes = world_trace(case)
        w = case["world"]
        evname = {ev: [n for n in classes if n in (ev, "tv" + ev.replace("_", "")) or n.replace("_", "") == "tv" + ev.replace("_", "")][0] for ev in w["rows"]}
        pv = functions()
        names = {}
        for a in case["accs"]:
            if case["alias"]:
                pv["AL_" + a["ev"]] = classes[evname[a["ev"]]]
                names[a["s"]] = "AL_%s:%s" % (a["ev"], a["col"])
            elif case["spacing"] % 5 == 0:
                # by the class, as in trappy.thermal.Thermal:temp
                mod = sys.modules.setdefault("tvclasses.of", types.ModuleType("tvclasses.of"))
                sys.modules.setdefault("tvclasses", types.ModuleType("tvclasses"))
                setattr(mod, "Cls" + a["ev"].title(), classes[evname[a["ev"]]])
                names[a["s"]] = "tvclasses.of.Cls%s:%s" % (a["ev"].title(), a["col"])
            else:
                names[a["s"]] = rng.choice(["%s:%s", "%s:%s", "%s : %s"]) % (evname[a["ev"]], a["col"])
        kw = {}
        if w["filters"]:
            kw["filters"] = {f["col"]: f["vals"] if len(f["vals"]) != 1 or case["alias"] else f["vals"][0] for f in w["filters"]}
        if w["lo"] or w["ended"] or case["alias"]:
            kw["window"] = (w["lo"] / TICK, w["hi"] / TICK if w["ended"] else None)
        o = case["opts"]
        if o["method"] != "pad" or case["spacing"] % 3 == 0:
            kw["method"] = o["method"]
        if o["limit"] or case["spacing"] % 3 == 1:
            kw["limit"] = o["limit"] or None
        if not o["fill"] or case["spacing"] % 2:
            kw["fill"] = o["fill"]
        p = Parser(tr, pvars=pv, **kw)
        sols = []
        for ts in case["exprs"]:
            r = obs.Caught(lambda: p.solve(text(ts, rng, names)))
            sols.append(dict(project(r.res) if not r.err else project(0), err=r.err))
        ref = {"times": [], "cols": []}
        if case["mask"]:
            m = r.res[[c for c in r.res.columns if label(c) == case["mask"]][0]]
            d = p.ref(m)
            ref = {"times": [tick(t) for t in d.index.tolist()],
                   "cols": [{"col": str(c[0]), "lab": label(c[1]), "v": [number(x) for x in d.iloc[:, i].tolist()]} for i, c in enumerate(d.columns)]}
        info = []
        for a in case["accs"]:
            if case["mask"]:
                continue
            i = p.inspect(names[a["s"]])
            back = {v: k for k, v in evname.items()}
            info.append({"length": int(i["length"]), "column": i["column"], "present": bool(i["column_present"]), "cls": back.get(i["class"].name, "?"),
                         "pivot": i["pivot"] or "", "values": [label(x) for x in i["pivot_values"] or []]})
        return {"sols": sols, "ref": ref, "info": info}
    finally:
        for m in made:
            t.unregister_dynamic_ftrace(m)


def rworld(rng, evs):
    w = {"rows": {}, "cols": {}, "pivot": {}, "lo": 0, "hi": 0, "ended": False, "filters": []}
    for ev in evs:
        rows, t = [], rng.choice([0, 1, 2])
        for _ in range(rng.randint(1, 8)):
            c = {"p": rng.randrange(3), "x": rng.randint(-3, 9), "y": rng.randint(0, 40)}
            rows.append({"t": t, "c": c})
            t += rng.choice([1, 1, 2, 5])
        if len(rows) > 1 and rng.random() < 0.3:
            for r in rows[1:]:
                if rng.random() < 0.3:
                    r["c"].pop("y")
        w["rows"][ev] = rows
        w["cols"][ev] = ["p", "x", "y"]
        w["pivot"][ev] = rng.choice(["p", "p", ""])
    if rng.random() < 0.5 or len(evs) == 1:
        pass
    elif rng.random() < 0.7:
        for ev in evs:
            w["pivot"][ev] = w["pivot"][evs[0]]
    if rng.random() < 0.4:
        w["lo"] = rng.randint(0, 6)
        w["ended"] = rng.random() < 0.6
        w["hi"] = w["lo"] + rng.randint(0, 12) if w["ended"] else 0
    if rng.random() < 0.4:
        col, vals = rng.choice([("p", [0, 1, 2, 3]), ("x", list(range(-3, 10)))])
        w["filters"] = [{"col": col, "vals": rng.sample(vals, rng.randint(1, 3 if col == "p" else 9))}]
    return w


def texpr(rng, accs, depth):
    """an expression over accessors; numbers on one side of an operator at most"""
    a = [tok("acc", rng.choice(accs)["s"])]
    r = rng.random()
    if depth <= 0 or r < 0.15:
        return a
    if r < 0.3:
        return [tok("fn", "dbl"), tok("lp", "(")] + texpr(rng, accs, depth - 1) + [tok("rp", ")")]
    if r < 0.4:
        return [tok("fn", "sub"), tok("lp", "(")] + texpr(rng, accs, depth - 1) + [tok("comma", ",")] + a + [tok("rp", ")")]
    if r < 0.5:
        return [tok("op", "-")] + a
    num = [tok("num", "", rng.choice([1, 2, 2, 4, 3]), 1)]
    op = rng.choice(["+", "-", "*", "/", "+", "-", "*", "//", "%"])
    l = [tok("lp", "(")] + texpr(rng, accs, depth - 1) + [tok("rp", ")")] if rng.random() < 0.4 else texpr(rng, accs, depth - 1)
    right = num if rng.random() < 0.5 else a
    if op in ("/", "//", "%"):
        right = num
    return l + [tok("op", op)] + right if rng.random() < 0.8 else num + [tok("op", rng.choice("+-*"))] + l


def top(rng, accs):
    e = texpr(rng, accs, rng.randint(0, 2))
    r = rng.random()
    if r < 0.25:
        return e + [tok("op", rng.choice(["<", ">", ">=", "<=", "==", "!="])), tok("num", "", rng.randint(0, 9), 1)]
    if r < 0.35:
        a, b = rng.choice(accs), rng.choice(accs)
        return [tok("lp", "("), tok("acc", a["s"]), tok("op", ">"), tok("num", "", 2, 1), tok("rp", ")"), tok("op", rng.choice("&|")),
                tok("lp", "("), tok("acc", b["s"]), tok("op", "<="), tok("num", "", 5, 1), tok("rp", ")")]
    if r < 0.5:
        f = rng.choice(["numpy.max", "numpy.sum", "numpy.min"])
        red = [tok("fn", f), tok("lp", "(")] + e + [tok("rp", ")")]
        if rng.random() < 0.4:
            return red + [tok("op", rng.choice(["+", "*", ">", "-"])), tok("num", "", rng.randint(1, 5), 1)]
        if rng.random() < 0.4:
            return [tok("acc", rng.choice(accs)["s"]), tok("op", "-")] + red
        return red
    return e


def apart(w):
    """no two events at one time (as in a parsed trace), nothing at time 0"""
    def at(t, k):
        return 4 * t + 1 + k
    evs = sorted(w["rows"])
    return dict(w, rows={e: [dict(r, t=at(r["t"], k)) for r in w["rows"][e]] for k, e in enumerate(evs)},
                lo=at(w["lo"], 0) if w["lo"] else 0, hi=at(w["hi"], 1) if w["ended"] else 0)


def kept(w, ev):
    rows = [r for r in w["rows"][ev] if r["t"] >= w["lo"] and not (w["ended"] and r["t"] > w["hi"])]
    return [r for r in rows if all(r["c"][f["col"]] in f["vals"] for f in w["filters"])]


def gen20(rng):
    evs = rng.choice([["ev_a"], ["ev_a", "ev_b"], ["ev_a", "ev_b"], ["ev_a", "ev_b", "ev_c"]])
    w = rworld(rng, evs)
    how = rng.choice(["bare", "bare", "ftrace"])
    if how == "ftrace":
        w = apart(w)
    elif rng.random() < 0.3:
        # times may be negative, and a window may end at 0
        d = w["hi"] if w["ended"] and rng.random() < 0.6 else rng.randint(1, 9)
        windowed = w["lo"] or w["ended"]
        w = dict(w, rows={e: [dict(r, t=r["t"] - d) for r in w["rows"][e]] for e in evs}, lo=w["lo"] - d if windowed else 0, hi=w["hi"] - d if w["ended"] else 0)
    accs = [{"s": "%s:%s" % (e, c), "ev": e, "col": c} for e in evs for c in ("x", "y")]
    ok = [a for a in accs if kept(w, a["ev"])]
    exprs = [top(rng, ok) for _ in range(rng.randint(1, 4))] if ok else []
    if exprs and rng.random() < 0.4:
        exprs.append(rng.choice(exprs))
    mask = ""
    if ok and rng.random() < 0.4:
        a = rng.choice(ok)
        exprs.append([tok("acc", a["s"]), tok("op", rng.choice(["<", ">", "!="])), tok("num", "", rng.randint(0, 9), 1)])
        mask = "NO_PIVOT" if not w["pivot"][a["ev"]] else str(rng.choice(kept(w, a["ev"]))["c"]["p"])
    elif len(ok) < len(accs):
        exprs.append([tok("acc", rng.choice([a for a in accs if a not in ok])["s"])])
    # an inspection needs rows to tell pivot values from
    used = accs if len(ok) == len(accs) else ok
    return {"world": w, "accs": used if not mask and len(exprs) and all(t["s"] in [a["s"] for a in used] for e in exprs for t in e if t["k"] == "acc") else accs,
            "exprs": exprs, "mask": mask, "opts": dict(USUAL, limit=rng.choice([0, 0, 0, 1, 2])), "how": how, "alias": rng.random() < 0.3, "spacing": rng.randrange(10 ** 6)}


USUAL = {"method": "pad", "limit": 0, "fill": True}


def other(rng):
    """Accessors one after the other, reindexed in another way."""
    c = gen20(rng)
    c["exprs"] = [[tok("acc", rng.choice(c["accs"])["s"])] for _ in range(rng.randint(2, 5))]
    c["mask"] = ""
    c["opts"] = rng.choice([{"method": "bfill", "limit": 0, "fill": True}, {"method": "bfill", "limit": 0, "fill": False}, {"method": "nearest", "limit": 0, "fill": True},
                            {"method": "pad", "limit": 0, "fill": False}, {"method": "pad", "limit": 1, "fill": False}, {"method": "bfill", "limit": 1, "fill": True}])
    return c


def check(chk, prop):
    rng = chk.rng
    if prop == "C19":
        recs = chk.mc("MC_Grammar", emits=True)
        lim = chk.pick(1600, 30000)
        recs = recs if len(recs) <= lim else rng.sample(recs, lim)
        cases = [{"vars": variables(), "exprs": [r["tree"] for r in recs[i:i + 4]], "spacing": i} for i in range(0, len(recs), 4)]
        chk.run(execute_num, cases, "Trace_Grammar", label="model-behaviours")
        cases = []
        for i in range(chk.pick(700, 7000)):
            es = [small(rng) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.5:
                es.append(rng.choice(es))
            cases.append({"vars": variables(), "exprs": es, "spacing": rng.randrange(10 ** 6)})
        chk.run(execute_num, cases, "Trace_Grammar", label="seeded-histories")
        chk.assumptions = ["results are judged where they are exact: rationals over a power of two up to 64", "expressions are in the documented grammar"]
        return
    recs = chk.mc("MC_Super", emits=True)
    worlds = [r for r in recs if "worlds" in r][0]["worlds"]
    ms = [r for r in recs if "which" in r]
    lim = chk.pick(320, 2000)
    ms = ms if len(ms) <= lim else rng.sample(ms, lim)
    cases = []
    for i, r in enumerate(ms):
        w = worlds[r["which"] - 1]
        w = dict(w, rows={"ev_" + k: v for k, v in w["rows"].items()}, cols={"ev_" + k: v for k, v in w["cols"].items()}, pivot={"ev_" + k: v for k, v in w["pivot"].items()})
        w = apart(w) if i % 4 == 0 else w
        accs = [{"s": "ev_%s:%s" % (e, c), "ev": "ev_" + e, "col": c} for e in "ab" for c in "xy"]
        cases.append({"world": w, "accs": accs, "exprs": [[tok("acc", "ev_%s:%s" % tuple(h))] for h in r["hist"]], "mask": "", "opts": dict(USUAL),
                      "how": "ftrace" if i % 4 == 0 else "bare", "alias": i % 3 == 0, "spacing": i})
    chk.run(execute_tab, cases, "Trace_Grammar", label="model-behaviours")
    chk.run(execute_tab, [gen20(rng) for _ in range(chk.pick(600, 6000))], "Trace_Grammar", label="seeded-histories")
    chk.run(execute_tab, [other(rng) for _ in range(chk.pick(250, 2500))], "Trace_Grammar", label="other-reindexing")
    chk.assumptions = ["reindexed otherwise than by padding, a time without a row may show the row before or after it", "times of an event's rows differ"]
