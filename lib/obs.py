"""Projections of trappy objects to the observations the specifications use."""
import json, warnings
import tv

SPECIAL = ("__comm", "__pid", "__cpu", "__line")


def frame_rows(df, times=None):
    """Rows of an event table: line, comm, pid, cpu, t, cols."""
    rows = []
    cols = [c for c in df.columns]
    idx = list(df.index)
    data = {c: df[c].tolist() if list(cols).count(c) == 1 else df.iloc[:, cols.index(c)].tolist() for c in cols}
    for i in range(len(df)):
        def sp(c):
            return data[c][i] if c in data else None
        line = tv.cell(sp("__line"))
        rows.append({
            "line": int(line["d"]) if line["k"] == "i" else -1,
            "comm": sp("__comm") if isinstance(sp("__comm"), str) else "?" + repr(sp("__comm")),
            "pid": tv.cell(sp("__pid")).get("d", "?"),
            "cpu": tv.cell(sp("__cpu")).get("d", "?"),
            "t": tv.secns(idx[i]),
            "_t": float(idx[i]),
            "cols": {str(c): tv.cell(data[c][i]) for c in cols
                     if c not in SPECIAL and tv.cell(data[c][i])["k"] != "n"},
        })
    return rows


def rank(events):
    """Replace raw float times by their dense rank over all rows."""
    ts = sorted({r["_t"] for rows in events.values() for r in rows})
    rk = {t: i for i, t in enumerate(ts)}
    for rows in events.values():
        for r in rows:
            r["rank"] = rk[r.pop("_t")]
    return events


def trace_events(tr, names):
    ev = {}
    for n in names:
        e = getattr(tr, n, None)
        ev[n] = frame_rows(e.data_frame) if e is not None else []
    return rank(ev)


class Caught(object):
    """Run fn recording its exception and warnings."""
    def __init__(self, fn):
        self.err, self.msg, self.res, self.exc = "", "", None, None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                self.res = fn()
            except Exception as e:
                self.err, self.msg, self.exc = type(e).__name__, str(e), e
        self.warns = [str(x.message) for x in w]


def typed(v):
    """A cell with its logical type, as text; missing values alike."""
    c = tv.cell(v)
    if c["k"] == "n":
        return "-"
    if c["k"] == "i":
        return ("f" if isinstance(v, float) else "i") + (("-" if c["neg"] else "") + c["d"])
    return c["k"] + json.dumps(c["v"])


def table(df):
    """Columns and rows of a table as text."""
    cols = [str(c) for c in df.columns]
    if len(df) == 0:
        return {"cols": cols, "rows": []}
    vals = [df.iloc[:, i].tolist() for i in range(len(cols))]
    idx = df.index.tolist()
    return {"cols": cols, "rows": ["%r: " % t + " ".join(typed(v[i]) for v in vals) for i, t in enumerate(idx)]}


def whole_trace(fn):
    """Everything observable of the trace object fn() makes."""
    r = Caught(fn)
    if r.err:
        return {"err": r.err, "base": "", "end": "", "meta": "", "names": [], "tables": {}, "lines": {}}
    t = r.res
    names = sorted(t.class_definitions)
    dfs = {n: getattr(t, n).data_frame for n in names}
    return {"err": "", "base": repr(float(t.basetime)), "end": repr(float(t.endtime)),
            "meta": json.dumps([getattr(t, "metadata", None), str(getattr(t, "_cpus", "absent")), str(getattr(t, "_version", "absent")),
                                bool(t.normalized_time), repr(float(t.get_duration()))], sort_keys=True),
            "names": names, "tables": {n: table(d) for n, d in dfs.items()},
            "lines": {n: [int(x) for x in d["__line"]] if len(d) else [] for n, d in dfs.items()}}
