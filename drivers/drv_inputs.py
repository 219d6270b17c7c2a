"""C12: what FTrace reads for a path and what it leaves behind (spec/Inputs.tla)."""
import hashlib, io, json, os, random, tempfile
import tv, obs

STUB = """#!/bin/sh
# stands for trace-cmd: the .dat files here hold the text it would report
{ for a in "$@"; do printf '%%s\\n' "$a"; done; echo ==; } >> '%(log)s'
for a in "$@"; do last="$a"; done
cat "$last"
exit %(rc)d
"""


def snapshot(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), top) + "/"] = ""
        for n in fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, top)] = hashlib.md5(open(p, "rb").read()).hexdigest() + oct(os.stat(p).st_mode)
    return out


def mro(e):
    return [c.__name__ for c in type(e).__mro__]


def execute(case):
    t = tv.trappy()
    w = case["w"]
    here = os.getcwd()
    t.FTrace.disable_cache = not case["cache"]
    data, tmp, bins = [os.path.join(here, x) for x in ("data", "tmp", "bin")]
    for d in (data, tmp, bins):
        os.mkdir(d)
    base = "trace" if w["path"] in ("dir", "none") else case["base"]
    for suf in w["files"]:
        text = u"".join(l.replace("@@", suf or "plain") + "\n" for l in case["lines"])
        raw = text.encode("utf-8") + (b"  sh-1 [000] 99.5: ev_a: src=\xff\xfe\n" if w["text"] == "binary" else b"")
        with open(os.path.join(data, base + suf), "wb") as f:
            f.write(raw)
    # directories of such names are no traces
    for suf in case["dirs"]:
        if not os.path.exists(os.path.join(data, base + suf)) and suf != w["path"]:
            os.mkdir(os.path.join(data, base + suf))
    log = os.path.join(here, "argv.log")
    if w["tool"] != "absent":
        p = os.path.join(bins, "trace-cmd")
        with open(p, "w") as f:
            f.write(STUB % {"log": log, "rc": 1 if w["tool"] == "fails" else 0})
        os.chmod(p, 0o755)
    oldpath, oldtmp, oldenv = os.environ["PATH"], tempfile.tempdir, os.environ.get("TMPDIR")
    os.environ["PATH"] = bins + os.pathsep + ("/usr/bin:/bin" if w["tool"] != "absent" else "")
    tempfile.tempdir, os.environ["TMPDIR"] = tmp, tmp
    if w["path"] == "dir":
        path = data
    elif w["path"] == "none":
        path = os.path.join(data, "nowhere")
    else:
        path = os.path.join(data, base + w["path"])
    if case["rel"]:
        path = os.path.relpath(path, here)
    regs = []
    before = snapshot(data)
    try:
        for n in case["raws"]:
            regs.append(t.register_dynamic_ftrace(n.title().replace("_", ""), n + ":", parse_raw=True))
        r = obs.Caught(lambda: t.FTrace(path, scope="custom", events=["ev_a"]))
    finally:
        for c in regs:
            t.unregister_dynamic_ftrace(c)
        os.environ["PATH"], tempfile.tempdir = oldpath, oldtmp
        if oldenv is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = oldenv
    after = snapshot(data)
    if case["cache"]:
        after = {k: v for k, v in after.items() if ".cache/" not in k}
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    calls = []
    if os.path.exists(log):
        for c in open(log).read().split("==\n")[:-1]:
            argv = c.split("\n")[:-1]
            p = os.path.realpath(argv[-1])
            argv[-1] = os.path.basename(p)[len(base):] if os.path.dirname(p) == os.path.realpath(data) else "?" + p
            calls.append(argv)
    extra = sorted(os.listdir(tmp)) + [x for x in sorted(os.listdir(here)) if x not in ("data", "tmp", "bin", "argv.log")]
    o = {"err": r.err, "classes": mro(r.exc) if r.exc else [], "calls": calls, "tmpleft": extra, "changed": changed,
         "warned": any(".dat is preferred" in x or "txt" in x for x in r.warns), "reads": [], "rows": 0, "version": "", "cpus": ""}
    if not r.err:
        df = r.res.ev_a.data_frame
        o["rows"] = len(df)
        o["reads"] = sorted({str(x) if x != "plain" else "" for x in df["src"].tolist()}) if len(df) else []
        o["version"], o["cpus"] = str(r.res._version), str(r.res._cpus)
        if r.res.metadata != {k: v for k, v in (("version", r.res._version), ("cpus", r.res._cpus)) if v is not None}:
            o["version"] = "metadata " + json.dumps(r.res.metadata)
    return o


HEADS = ["version = 6", "version=7", "cpus=8", "cpus = 4", "cpus=", "version =x", " version = 5", "cpus=16 more", "version: 4",
         "# tracer: nop", "", "CPU 1 is empty", "Xcpus=3", "versions = 9", "cpus_=3", "version\t=\t12"]


def text(rng, kind):
    n = rng.randint(1, 4)
    lines = [rng.choice(HEADS) for _ in range(rng.randint(0, 4))]
    rows = ["  sh-1 [000] %d.5: ev_a: src=@@" % (i + 1) for i in range(n)]
    out = lines[:]
    for r in rows:
        out.append(r)
        if rng.random() < 0.3:
            out.append(rng.choice(HEADS))
    if kind == "nokey":
        out.insert(rng.randint(len(lines) + 1, len(out)), "  sh-1 [000] 50.5: ev_a: no key here")
    return out, n


def case(rng, w):
    lines, n = text(rng, w["text"])
    return {"w": w, "lines": lines, "nrows": n, "cache": rng.random() < 0.2, "rel": rng.random() < 0.5,
            "dirs": [] if rng.random() < 0.6 else rng.sample([".dat", ".txt", ".raw.txt", ".raw.dat"], 2),
            "base": rng.choice(["trace", "my_trace", "a-b"]),
            "raws": rng.sample(["foo_raw", "bar_event", "zed"], rng.choice([0, 0, 1, 2]))}


def check(chk, prop):
    worlds = chk.mc("MC_Inputs", emits=True)
    reps = chk.pick(1, 6)
    cases = [case(chk.rng, w) for w in worlds for _ in range(reps)]
    lim = chk.pick(1400, 20000)
    if len(cases) > lim:
        cases = chk.rng.sample(cases, lim)
    chk.run(execute, cases, "Trace_Inputs", label="model-worlds")
    good = [w for w in worlds if w["text"] == "good" and w["tool"] == "ok" and (".dat" in w["files"] or ".txt" in w["files"]) and w["path"] != "none"]
    chk.run(execute, [case(chk.rng, chk.rng.choice(good)) for _ in range(chk.pick(300, 3000))], "Trace_Inputs", label="metadata")
    chk.assumptions = ["a stub on PATH stands for trace-cmd: it records its arguments and reports the text kept in the .dat file"]
