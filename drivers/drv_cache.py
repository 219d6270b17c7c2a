"""C07, C08: histories of openings, edits, crashes and damage against
spec/Cache.tla through Trace_Cache."""
import io, os, random, shutil, sys
import tv, obs, drv_bulk
import drv_reader as R

PATH = {"ftrace": "trace.txt", "systrace": "trace.txt"}


def opening(p):
    t = tv.trappy()
    cls = t.SysTrace if p["cls"] == "SysTrace" else t.FTrace
    regs = []
    try:
        for c, w in p.get("regs", []):
            regs.append(t.register_dynamic_ftrace(c, w))
        kw = dict(normalize_time=p.get("norm", True))
        if "window" in p:
            kw["window"] = tuple(p["window"])
        if "abs" in p:
            kw["abs_window"] = tuple(p["abs"])
        return obs.whole_trace(lambda: cls("trace.txt", scope=p.get("scope", "custom"), events=list(p["events"]), **kw))
    finally:
        for c in regs:
            t.unregister_dynamic_ftrace(c)


def put(text):
    with io.open("trace.txt", "w", encoding="utf-8", newline="") as f:
        f.write(text)


CACHE = ".trace.txt.cache"


def crash_opening(p, k):
    """Open in a child that dies at the k-th change to the cache directory."""
    pid = os.fork()
    if pid == 0:
        try:
            n = [0]
            here = os.path.abspath(CACHE)

            def hook(event, args):
                if event == "open":
                    path, mode, flags = args
                    if not isinstance(path, str) or not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                        return
                elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "shutil.rmtree", "os.truncate"):
                    path = args[0]
                else:
                    return
                if isinstance(path, str) and os.path.abspath(path).startswith(here):
                    n[0] += 1
                    if n[0] == k:
                        os._exit(0)
            sys.addaudithook(hook)
            opening(p)
        except BaseException:
            pass
        os._exit(0)
    os.waitpid(pid, 0)


def victim(which):
    """A path in the cache directory: 'meta', 'dir', an event's class name or an index."""
    if which == "dir":
        return CACHE
    if which == "meta":
        return os.path.join(CACHE, "metadata.json")
    if isinstance(which, int):
        fs = sorted(os.listdir(CACHE)) if os.path.isdir(CACHE) else []
        return os.path.join(CACHE, fs[which % len(fs)]) if fs else None
    return os.path.join(CACHE, which + ".csv")


def rm(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def damage(kind, which, frac=0.5):
    path = victim(which)
    if path is None or not (os.path.lexists(path) or kind in ("file", "todir")):
        return
    if kind == "remove":
        rm(path)
    elif kind == "empty" and os.path.isfile(path):
        open(path, "w").close()
    elif kind == "cut" and os.path.isfile(path):
        n = os.path.getsize(path)
        with open(path, "r+b") as f:
            f.truncate(min(max(n - 1, 0), int(n * frac)))
    elif kind == "todir" and os.path.isdir(CACHE):
        rm(path)
        os.mkdir(path)
    elif kind == "file" and which == "dir":
        rm(path)
        open(path, "w").write("not a directory")
    elif kind == "noread" and os.path.exists(path):
        os.chmod(path, 0)


class Nobody(object):
    """As an unprivileged user for whom the directory is read-only."""
    def __enter__(self):
        os.chmod(".", 0o755)
        for d, _, fs in os.walk(CACHE):
            pass
        self.on = os.geteuid() == 0
        if self.on:
            try:
                os.setegid(65534)
                os.seteuid(65534)
            except OSError:
                self.on = False

    def __exit__(self, *a):
        if self.on:
            os.seteuid(0)
            os.setegid(0)


def execute(case):
    t = tv.trappy()
    os.umask(0o022)
    fresh = {}
    # large files, that differ somewhere in the middle
    fill = "# nothing of the trace is in this line, which makes the file large\n" * (case.get("pad", 0) // 68)
    case = dict(case, versions={v: fill + text + fill for v, text in case["versions"].items()})
    t.ftrace.GenericFTrace.disable_cache = True
    for v, text in case["versions"].items():
        put(text)
        fresh[v] = {k: opening(p) for k, p in case["params"].items()}
    t.ftrace.GenericFTrace.disable_cache = False
    cur = case["start"]
    put(case["versions"][cur])
    steps = []
    for op in case["ops"]:
        o = {}
        if op["op"] == "open":
            if op.get("nobody"):
                with Nobody():
                    o = opening(case["params"][op["p"]])
            else:
                o = opening(case["params"][op["p"]])
        elif op["op"] == "edit":
            cur = op["v"]
            st = os.stat("trace.txt")
            put(case["versions"][cur])
            if op.get("mtime"):
                os.utime("trace.txt", (st.st_atime, st.st_mtime))
        elif op["op"] == "crash":
            crash_opening(case["params"][op["p"]], op["k"])
        elif op["op"] == "damage":
            damage(op["kind"], op["which"], op.get("frac", 0.5))
        o["input"] = io.open("trace.txt", encoding="utf-8", newline="").read() == case["versions"][cur]
        o["debris"] = sorted(set(os.listdir(".")) - {"trace.txt", CACHE})
        steps.append(o)
    # keep recordings of the model's own histories small
    return {"fresh": fresh, "steps": steps}


# -------------------------------------------------- behaviours of the model
NAMES = {"A": "ev_a", "B": "ev_b", "F": "tracing_mark_write"}
CLS = {"A": "ev_a", "B": "ev_b", "F": "TracingMarkWrite"}
MODEL = {"v1": [["A"], ["F"], ["F", "A"], ["B"]], "v2": [["A"], ["A", "B"], ["F"], ["A"]]}


def model_text(words):
    out = []
    for i, w in enumerate(words):
        txt = {"A": "ev_a: x=1 s=007", "B": "ev_b: y=NA", "F": "tracing_mark_write: hello", "AF": "tracing_mark_write: ev_a: x=3",
               "AB": "ev_a: ev_b: x=0x5"}["".join(sorted(w))]
        out.append("  sh-1 [000] %d.5: %s\n" % (i + 1, txt))
    return "".join(out)


def from_model(recs):
    for h in recs:
        params, ops = {}, []

        def par(s):
            k = "".join(s)
            params[k] = {"cls": "FTrace", "events": [NAMES[e] for e in s], "sel": [NAMES[e] for e in s]}
            return k
        for o in h:
            if o["op"] == "open":
                ops.append({"op": "open", "p": par(o["s"])})
            elif o["op"] == "edit":
                ops.append({"op": "edit", "v": o["x"]})
            elif o["op"] == "wipe":
                ops.append({"op": "damage", "kind": "remove", "which": "dir"})
            elif o["op"] in ("crash", "tear"):
                # between the writes the model names there are several system calls
                ops.append({"op": "crash", "p": par(o["s"]), "k": o["n"] + (1 if o["op"] == "tear" else 0)})
            else:
                what, how = o["op"].split("-")
                ops.append({"op": "damage", "kind": "remove" if how == "none" else "cut",
                            "which": "meta" if what == "meta" else CLS[o["s"][0]], "frac": 0.6})
        words = {v: [[NAMES[w] for w in l] for l in ls] for v, ls in MODEL.items()}
        for p in params.values():
            p["sel"] = p["events"]
        yield {"versions": {v: model_text(w) for v, w in MODEL.items()}, "params": params, "ops": ops, "start": "v1",
               "words": words}


# --------------------------------------------------------- seeded histories
STR = ["NA", "nan", "null", "None", "", "007", "00000002", "1.5", "1e5", "inf", "-", "True", "a,b", "\"q\"", "it's", "x y", u"caf\u00e9",
       "0x1f", "12", "-3", "18446744073709551616", "9223372036854775807", "#", "N/A", "back\\slash"]


def version(rng):
    st, out = [rng.choice([5, 1000000, 6550018511]), 0], []
    style = rng.choice(["us", "us", "us", "ns9", "int"])
    if style == "ns9":
        st[1] = rng.choice([0, 123, 999])
    hdr = [h for h in ["version = %d\n" % rng.randint(1, 9), "cpus=%d\n" % rng.randint(1, 64)] if rng.random() < 0.5]
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if r < 0.45:
            e = rng.choice(["ev_a", "ev_b", "ev_c"])
            pay = " ".join("%s=%s" % (k, rng.choice(STR)) for k in rng.sample(["k", "m", "val", "q", "Time"], rng.randint(1, 3)))
        elif r < 0.6:
            e = "tracing_mark_write"
            pay = rng.choice(["hello", "B|12|foo|1", "ev_a: k=1", "E", "ev_b: k=x, y=2", "C|1|n|007"])
        elif r < 0.8:
            e = rng.choice(["sched_load_avg_sg", "ext4_da_write_begin", "f2fs_sync_file_exit", "cpu_idle", "sched_switch", "clock_set_rate",
                            "sys_enter"])
            pay = R.MK[e][2](rng)
        else:
            e = rng.choice(["ev_a", "ev_b"])
            pay = rng.choice(["ev_b: k=1", "v={1 2} k=3", "v={}", "v={7}"])
        out.append(R.line(rng, st, style, e, pay, plain=True, comm=rng.choice(["sh", "12", "NA", "my app", "007", u"caf\u00e9"])) + "\n")
    body = "".join(hdr + out)
    if rng.random() < 0.15:
        body = "<!-- BEGIN TRACE -->\n  <script class=\"trace-data\" type=\"application/text\">\n" + "".join(out) + "  </script>\n" + out[0]
    return body


EVENTS = ["ev_a", "ev_b", "ev_c", "tracing_mark_write", "sched_load_avg_sg", "ext4_da_write_begin", "f2fs_sync_file_exit",
          "cpu_idle", "sched_switch", "clock_set_rate", "sys_enter"]


def param(rng):
    p = {"cls": rng.choice(["FTrace"] * 7 + ["SysTrace"]), "events": rng.sample(EVENTS, rng.choice([0, 1, 1, 2, 3, 5])),
         "norm": rng.random() < 0.7, "scope": "custom"}
    r = rng.random()
    if r < 0.12:
        p["scope"] = rng.choice(["all", "sched", "thermal"])
        p["events"] = [e for e in p["events"] if e.startswith("ev_")]
        if rng.random() < 0.5:
            p["regs"] = [["MyEvent", rng.choice(["ev_a:", "ev_b:", "ev_c:"])]]
            p["events"] = []
    if rng.random() < 0.25:
        p["window"] = rng.choice([[0, 1], [0.5, None], [0, None], [1, 3], [0, 0.000002]])
    if rng.random() < 0.15:
        p["abs"] = rng.choice([[0, 1.5], [6550.0, None], [1.0, 2.0], [0, 6551]])
    return p


def history(rng, faults):
    vs = {"v%d" % i: version(rng) for i in range(1, 3)}
    ps = {"p%d" % i: param(rng) for i in range(1, rng.choice([2, 3, 4]))}
    pk = sorted(ps)
    ops = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if not faults:
            if r < 0.15:
                ops.append({"op": "edit", "v": rng.choice(["v1", "v2"]), "mtime": rng.random() < 0.5})
            else:
                ops.append({"op": "open", "p": rng.choice(pk)})
            continue
        if r < 0.4:
            ops.append({"op": "open", "p": rng.choice(pk), "nobody": rng.random() < 0.12})
        elif r < 0.65:
            ops.append({"op": "crash", "p": rng.choice(pk), "k": rng.randint(1, 9)})
        elif r < 0.72:
            ops.append({"op": "edit", "v": rng.choice(["v1", "v2"])})
        else:
            which = rng.choice(["dir", "meta", "meta"] + [rng.randint(0, 9)] * 4)
            kind = rng.choice(["remove", "file"]) if which == "dir" else rng.choice(["remove", "empty", "cut", "cut", "cut", "todir", "noread"])
            ops.append({"op": "damage", "kind": kind, "which": which, "frac": rng.random()})
    ops.append({"op": "open", "p": rng.choice(pk), "nobody": faults and rng.random() < 0.12})
    if faults:
        ops.insert(0, {"op": "open", "p": rng.choice(pk)})
        if rng.random() < 0.5:
            ops.append({"op": "open", "p": rng.choice(pk)})
    return {"versions": vs, "params": ps, "ops": ops, "start": "v1", "pad": rng.choice([0] * 40 + [5000, 70000, 70000, 1100000])}


def damage_sweep(rng, n):
    """every file of a cache cut at many places"""
    out = []
    for _ in range(n):
        v = {"v1": version(rng)}
        p = {"p1": {"cls": "FTrace", "events": ["ev_a", "ev_b", "tracing_mark_write"]}}
        ops = [{"op": "open", "p": "p1"}]
        for w in ["meta", 0, 1, 2]:
            for fr in (0.0, rng.random(), 0.999999):
                ops += [{"op": "damage", "kind": "cut", "which": w, "frac": fr}, {"op": "open", "p": "p1"}]
        out.append({"versions": v, "params": p, "ops": ops, "start": "v1"})
    return out


def check(chk, prop):
    chk.mc("MC_Cache", cfg="MC_Cache_all.cfg", timeout=300)
    recs = chk.mc("MC_Cache", cfg="MC_Cache_deep.cfg" if chk.thorough else "MC_Cache.cfg", emits=True)
    cases = list(from_model(recs))
    lim = chk.pick(500, 3200)
    if len(cases) > lim:
        cases = chk.rng.sample(cases, lim)
    chk.run(execute, cases, "Trace_Cache", label="model-behaviours")
    n = chk.pick(1200, 12000)
    chk.run(execute, [history(chk.rng, prop == "C08") for _ in range(n)], "Trace_Cache", label="seeded-histories")
    if prop == "C08":
        chk.run(execute, damage_sweep(chk.rng, chk.pick(10, 80)), "Trace_Cache", label="damage-sweep")
    if prop == "C07":
        drv_bulk.more(chk)
    chk.assumptions = ["one process uses the cache at a time", "a parser class is identified by its name and unique word"]
