"""C36: tables written as CSV and read back, against spec/Csv.tla."""
import csv, io, os, re
import tv, obs

HEAD = ["__comm", "__pid", "__cpu", "__line"]


def whole(table, text):
    """The table as it is in the event, with the columns of every trace."""
    cols = HEAD + (["string"] if text else ["z"] + table["cols"])
    rows = []
    for i, r in enumerate(table["rows"]):
        comm = table.get("comms", ["sh"] * 99)[i]
        head = [{"k": "s", "v": comm}] + [{"k": "i", "v": str(v)} for v in (10 + i, i % 2, i)]
        rows.append(head + (list(r) if text else [{"k": "i", "v": str(i)}] + list(r)))
    return {"cols": cols, "times": list(table["times"]), "rows": rows}


def lines(table, text):
    out = []
    for i, r in enumerate(table["rows"]):
        comm = table.get("comms", ["sh"] * 99)[i]
        if text:
            pay = r[0]["v"]
        else:
            pay = " ".join(["z=%d" % i] + ["%s=%s" % (c, hex(int(x["v"])) if table.get("hex") and x["k"] == "i" and x["v"][0] != "-" else x["v"])
                                           for c, x in zip(table["cols"], r) if x["k"] != "n"])
        t = ("%.6f" % float(table["times"][i])).split(".")
        out.append(u"  %s-%d [%03d] %s.%s: %s: %s\n" % (comm, 10 + i, i % 2, t[0], t[1], "tracing_mark_write" if text else "ev_x", pay))
    return u"".join(out)


def cell(v):
    c = tv.cell(v)
    if c["k"] == "n":
        return {"k": "n", "v": ""}
    if c["k"] == "i":
        return {"k": "i", "v": ("-" if c["neg"] else "") + c["d"]}
    return {"k": c["k"], "v": str(c["v"])}


def seen(o):
    d = o.data_frame
    vals = [d.iloc[:, i].tolist() for i in range(len(d.columns))]
    return {"cols": [str(c) for c in d.columns], "times": [repr(float(t)) for t in d.index],
            "rows": [[cell(v[i]) for v in vals] for i in range(len(d))], "index": str(d.index.name)}


def records(fn):
    if not os.path.exists(fn):
        return []
    with io.open(fn, encoding="utf-8", newline="") as f:
        out = [list(r) for r in csv.reader(f)]
    for r in out[1:]:
        r[0] = repr(float(r[0])) if re.match(r"^[0-9.eE+-]+$", r[0]) else r[0]
        # an integer of a column with missing cells is written as 5.0
        r[1:] = [re.sub(r"^(-?[0-9]+)\.0$", r"\1", x) for x in r[1:]]
    return out


def execute(case):
    t = tv.trappy()
    t.ftrace.GenericFTrace.disable_cache = True
    name = "tracing_mark_write" if case["text"] else "ev_x"

    def load(table):
        with io.open("trace.txt", "w", encoding="utf-8", newline="") as f:
            f.write(lines(table, case["text"]))
        return getattr(t.FTrace("trace.txt", scope="custom", events=[name], normalize_time=False), name)
    probe = obs.Caught(lambda: load({"cols": [], "times": ["1.5"], "rows": [[{"k": "s", "v": "q"}]] if case["text"] else [[]]}))
    if probe.err:
        return {"err": probe.err, "steps": []}
    objs = {1: type(probe.res)(), 2: type(probe.res)()}
    steps = []
    for h in case["hist"]:
        fn = "table%d.csv" % h["f"]

        def go():
            if h["op"] == "load":
                objs[h["o"]] = load(case["raw"][h["n"] - 1])
            elif h["op"] == "write":
                objs[h["o"]].write_csv(fn)
            else:
                objs[h["o"]].read_csv(fn)
        r = obs.Caught(go)
        steps.append({"err": r.err, "msg": r.msg[:200], "held": [seen(objs[1]), seen(objs[2])], "files": [records("table%d.csv" % f) for f in (1, 2)]})
        if r.err:
            break
    return {"err": "", "steps": steps}


WORDS = ["x", "a,b", 'q"q', "two words", "a;b", "x=1", "0x", "1.2.3", "12ab", "-", "'s", "#c", "a/b:c", "[1]", u"caf\u00e9", "truely", "nano", "NULLs", "a\\b", "e5", "1,2", '"whole"', "%d", "x\tq"]
INTS = ["0", "1", "-1", "5", "42", "-77", "1024", "65535", "2147483648", "123456789012"]
BIG = ["9007199254740993", "4611686018427387904", "-9007199254740995", "72057594037927936"]


def table(rng, text, shared=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9]) or 1
    us, times = rng.choice([0, 1500000, 99999000000]), []
    for _ in range(n):
        us += rng.choice([1, 10, 333333, 1000000])
        times.append(repr(us / 1e6))
    comms = [rng.choice(["sh", "a,b", "<idle>", 'my "app"', "kworker/0:1", "x y"]) for _ in range(n)]
    if text:
        return {"cols": ["string"], "times": times, "comms": comms, "rows": [[{"k": "s", "v": rng.choice(WORDS).replace("\t", " ")}] for _ in range(n)]}
    cols = ["c%d" % i for i in range(rng.choice([0, 1, 2, 4]))]
    cols = [rng.choice(["a", "load", "cpu", "x_1", "Data", "comm", "next"]) + c for c in cols]
    rows = [[None] * len(cols) for _ in range(n)]
    for c in range(len(cols)):
        kind = rng.choice(["ints", "big", "gaps", "words", "wordgaps", "mixed"])
        for i in range(n):
            x = {"k": "i", "v": rng.choice(BIG + INTS if kind == "big" else INTS)}
            if kind in ("words", "wordgaps") or (kind == "mixed" and rng.random() < 0.5):
                x = {"k": "s", "v": rng.choice([w for w in WORDS if " " not in w and "\t" not in w] + ["two words"])}
            if kind in ("gaps", "wordgaps") and rng.random() < 0.4:
                x = {"k": "n", "v": ""}
            rows[i][c] = x
    # columns in order of appearance, none without a cell
    first = {c: min([i for i in range(n) if rows[i][c]["k"] != "n"] or [n]) for c in range(len(cols))}
    order = sorted((c for c in range(len(cols)) if first[c] < n), key=lambda c: (first[c], c))
    return {"cols": [cols[c] for c in order], "times": times, "comms": comms, "rows": [[r[c] for c in order] for r in rows], "hex": rng.random() < 0.2}


def gen(rng):
    text = rng.random() < 0.25
    raw = [table(rng, text) for _ in range(rng.choice([1, 2, 3]))]
    hist, written = [], set()
    for _ in range(rng.choice([3, 4, 6, 9])):
        op = rng.choice(["load", "write", "write", "read", "read"])
        f = rng.choice([1, 2])
        if op == "read":
            if not written:
                op = "load"
            else:
                f = rng.choice(sorted(written))
        if op == "write":
            written.add(f)
        hist.append({"op": op, "o": rng.choice([1, 2]), "f": f, "n": rng.randrange(len(raw)) + 1})
    return {"text": text, "raw": raw, "hist": hist}


def finish(c):
    c["tables"] = [whole(t, c["text"]) for t in c["raw"]]
    return c


def check(chk, prop):
    recs = chk.mc("MC_Csv", emits=True)
    lim = chk.pick(700, 6000)
    recs = recs if len(recs) <= lim else chk.rng.sample(recs, lim)
    chk.run(execute, [finish({"text": False, "raw": r["tables"], "hist": r["hist"]}) for r in recs], "Trace_Csv", label="model-behaviours")
    chk.run(execute, [finish(gen(chk.rng)) for _ in range(chk.pick(900, 9000))], "Trace_Csv", label="seeded-tables")
    chk.assumptions = ["words are not spelled like numbers, truth values or missing values, which a CSV cannot tell apart",
                       "integers of columns with missing cells fit a float exactly", "no field is called Time"]
