"""Long traces (C01, C03, C06, C07, C14) against spec/Bulk.tla."""
import hashlib, io, json, re
import tv, obs


def kind(tr, i):
    return "other" if i % tr["j"] == tr["j"] - 1 else "b" if i % tr["k"] == tr["k"] - 1 else "a"


def text(tr):
    last = {}
    for i in range(tr["n"]):
        last[kind(tr, i)] = i
    out = []
    for i in range(tr["n"]):
        us = tr["base"] * 1000000 + (i // tr["d"]) * tr["step"]
        k = kind(tr, i)
        pay = "v=%d w=x%d" % (i, i % 5)
        if tr["arr"]:
            own = 5 if i == last[k] else 1 + i % 3
            pay += " arr={%s}" % " ".join(str(i + x) for x in range(1, own + 1))
        if i % 1000 in (tr["k"], 0):
            pay += " rare=%d" % i
        stamp = "%d.%06d" % (us // 1000000, us % 1000000) if not tr["ns"] else "%d" % (us * 1000)
        out.append("  t%d-%d [%03d] %s: bulk_%s: %s\n" % (i % 3, 100 + i % 7, i % tr["ncpu"], stamp, k, pay))
    return "".join(out)


def num(v):
    """A number as it is, a letter and digits as the digits; missing: -1"""
    if isinstance(v, str):
        m = re.match("^[a-z]([0-9]+)$", v)
        return int(m.group(1)) if m else -2
    if v is None or v != v:
        return -1
    return int(v) if v == int(v) else -3


def rows(df, base, width):
    if not len(df):
        return []
    cols = ["__line", "__comm", "__pid", "__cpu", "v", "w", "rare"] + ["arr%d" % x for x in range(width)]
    n = len(df)
    data = [[num(v) for v in df[c].tolist()] if c in df.columns else [-1] * n for c in cols]
    extra = [c for c in df.columns if c not in cols]
    ts = df.index.tolist()
    rank = {t: i for i, t in enumerate(sorted(set(ts)))}
    return [{"row": [d[i] for d in data] + ([-9] if extra else []), "t": int(round((ts[i] - base) * 1e6)), "rank": rank[ts[i]]} for i in range(n)]


class Rss(object):
    def __init__(self):
        self.ru_maxrss = 0

    def __call__(self, *a):
        r = Rss()
        self.ru_maxrss += 100000
        r.ru_maxrss = self.ru_maxrss
        return r


def execute(case):
    t = tv.trappy()
    tr = case["tr"]
    with io.open("trace.txt", "w") as f:
        f.write(text(tr))
    if case["tight"]:
        if hasattr(t.base, "_get_free_memory_kb"):
            t.base._get_free_memory_kb = lambda: 1000
        if hasattr(t.base, "getrusage"):
            t.base.getrusage = Rss()
    t.ftrace.GenericFTrace.disable_cache = not case["cache"]
    kw = {"normalize_time": case["norm"]}
    if tr["win"]:
        kw["window"] = tuple(x / 1e6 for x in tr["win"])
    opens = []
    for _ in range(2 if case["cache"] else 1):
        r = obs.Caught(lambda: t.FTrace("trace.txt", scope="custom", events=["bulk_a", "bulk_b"], **kw))
        if r.err:
            return {"err": r.err, "msg": r.msg[:200], "opens": []}
        x = r.res
        base = 0 if case["norm"] else x.basetime
        seen = []
        x.apply_callbacks({e: (lambda d: seen.append(num(d["__line"]))) for e in ("bulk_a", "bulk_b")})
        tabs = {e: getattr(x, "bulk_" + e).data_frame for e in "ab"}
        opens.append({"err": "", "rows": {e: rows(d, base, 5 if tr["arr"] else 0) for e, d in tabs.items()},
                      "hash": hashlib.sha256("".join(json.dumps([e, [str(c) for c in d.columns], obs.table(d)]) for e, d in sorted(tabs.items())).encode()).hexdigest(),
                      "seen": seen, "base": num(x.basetime), "last": int(round((x.endtime - x.basetime) * 1e6))})
    return {"err": "", "msg": "", "opens": opens}


def gen(rng, big):
    n = rng.choice([10050, 12000, 21000]) if big else rng.choice([200, 999, 3000])
    d, step = rng.choice([1, 1, 3, 50]), rng.choice([1, 7, 250])
    end = (n // d) * step
    win = []
    if rng.random() < 0.3:
        lo, hi = sorted([rng.randrange(n // d), rng.randrange(n // d)])
        # between two times
        win = [lo * step + step // 2 + 1, hi * step + step // 2 + 1] if step > 1 else []
    return {"tr": {"n": n, "k": rng.choice([2, 10, 1500]), "j": rng.choice([7, 4000]), "d": d, "step": step, "ncpu": rng.choice([1, 4, 8]), "arr": rng.random() < 0.3,
                   "base": rng.choice([1, 77, 100000]), "ns": rng.random() < 0.3, "win": win},
            "cache": rng.random() < 0.5, "tight": rng.random() < 0.5, "norm": rng.random() < 0.5}


def more(chk):
    chk.mc("MC_Bulk")
    rng = chk.rng
    cases = [gen(rng, True) for _ in range(chk.pick(4, 40))] + [gen(rng, False) for _ in range(chk.pick(6, 60))]
    cases[0]["tr"].update(k=1500, j=4000)
    cases[0].update(cache=True, tight=True)
    chk.run(execute, cases, "Trace_Bulk", label="long-traces", shards=8)
