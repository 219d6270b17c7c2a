"""C37: openings of one trace at the same time, step by step, against
spec/CacheRace.tla."""
import builtins, io, json, os, signal, sys
import tv, obs
import drv_cache as K

CACHE = K.CACHE
NAMES = {"A": "ev_a", "B": "ev_b"}
MODEL = {"v1": [["A"], ["B", "A"], ["B"]], "v2": [["A", "B"], ["B"], ["A"]]}


class Opener(object):
    """A process opening the trace, which waits for us before each file it
    opens, closes after writing, makes or removes"""

    def __init__(self, p):
        up_r, self.up_w = os.pipe()
        self.dn_r, dn_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(up_r), os.close(dn_w)
                self.child(p)
            finally:
                os._exit(1)
        os.close(self.up_w), os.close(self.dn_r)
        self.up, self.dn = os.fdopen(up_r, "r"), os.fdopen(dn_w, "w")
        self.result, self.killed, self.steps = None, False, 0
        self.hear()

    # in the child
    def pause(self, label):
        os.write(self.up_w, (json.dumps({"at": label}) + "\n").encode())
        os.read(self.dn_r, 1) or os._exit(1)

    def child(self, p):
        import warnings
        warnings.simplefilter("ignore")
        here, me, busy = os.getcwd(), self, [False]

        def where(path):
            return isinstance(path, str) and os.path.abspath(path).startswith(here + os.sep)

        def hook(event, args):
            if busy[0]:
                return
            label = None
            if event == "open":
                path, mode, flags = args
                if where(path):
                    kind = "w:" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "r:"
                    label = kind + os.path.basename(path)
            elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.truncate"):
                label = {"os.mkdir": "mkdir:", "os.remove": "rm:", "os.rmdir": "rmdir:", "os.rename": "mv:", "os.truncate": "cut:"}[event] + os.path.basename(str(args[0]))
            if label:
                busy[0] = True
                me.pause(label)
                busy[0] = False
        plain = builtins.open

        class Text(io.TextIOWrapper):
            def close(self):
                if not self.closed:
                    me.pause("c:" + os.path.basename(str(self.buffer.raw.name)))
                io.TextIOWrapper.close(self)

        class Binary(io.BufferedWriter):
            def close(self):
                if not self.closed:
                    me.pause("c:" + os.path.basename(str(self.raw.name)))
                io.BufferedWriter.close(self)

        def opened(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not where(file) or not set(mode) & set("wax") or "+" in mode:
                return plain(file, mode, buffering, encoding, errors, newline, closefd, opener)
            b = Binary(io.FileIO(file, mode.replace("b", "").replace("t", "")))
            if "b" in mode:
                return b
            # the text layer waits, the one below it need not
            raw = b.detach()
            return Text(io.BufferedWriter(raw), encoding=encoding, errors=errors, newline=newline)
        builtins.open = io.open = opened
        sys.addaudithook(hook)
        self.pause("start")
        res = K.opening(p)
        busy[0] = True
        os.write(self.up_w, b"")
        with os.fdopen(self.up_w, "w") as f:
            f.write(json.dumps({"done": res}) + "\n")
        os._exit(0)

    # in the driver
    def hear(self):
        line = self.up.readline()
        msg = json.loads(line) if line.strip() else {"done": {"err": "Died", "msg": "", "base": "", "end": "", "meta": "", "names": [], "tables": {}, "lines": {}}}
        self.at = msg.get("at")
        if "done" in msg:
            self.result = msg["done"]
            self.end()

    def go(self):
        """one step; whether there was one"""
        if self.over():
            return False
        self.steps += 1
        self.dn.write("g")
        self.dn.flush()
        self.hear()
        return True

    def over(self):
        return self.killed or self.result is not None

    def kill(self):
        if not self.over():
            self.killed = True
            os.kill(self.pid, signal.SIGKILL)
            self.end()

    def end(self):
        self.up.close(), self.dn.close()
        os.waitpid(self.pid, 0)


REAL = ("r:trace.txt", "r:metadata.json", "w:", "c:", "rm:", "rmdir:", "mkdir:")
LABEL = {"sum": ["r:trace.txt"], "meta": ["r:metadata.json"], "table": ["r:*.csv"], "reread": ["r:*.csv"], "parse": ["r:trace.txt"], "check": ["r:trace.txt"],
         "drop": ["rm:", "rmdir:"], "clear": ["rm:", "rmdir:"], "mkdir": ["mkdir:"], "write": ["w:*.csv"], "close": ["c:*.csv"],
         "describe": ["r:*.csv"], "vouch": ["w:metadata.json"], "vouched": ["c:metadata.json"]}


def is_at(label, want):
    if want.endswith(":"):
        return label.startswith(want)
    if "*" in want:
        a, b = want.split("*")
        return label.startswith(a) and label.endswith(b)
    return label == want


def follow(proc, pc):
    """The step of the model, if the process is at one like it."""
    while not proc.over():
        if any(is_at(proc.at, w) for w in LABEL[pc]):
            proc.go()
            return True
        if proc.at.startswith(REAL) or proc.at.endswith(".csv"):
            return False
        proc.go()
    return False


def execute(case):
    t = tv.trappy()
    t.ftrace.GenericFTrace.disable_cache = True
    fresh = {}
    for v, text in case["versions"].items():
        K.put(text)
        fresh[v] = {k: K.opening(p) for k, p in case["params"].items()}
    t.ftrace.GenericFTrace.disable_cache = False
    cur = case["before"]
    K.put(case["versions"][cur])
    for k in case["prior"]:
        K.opening(case["params"][k])

    def replace(v):
        with io.open("next.txt", "w", encoding="utf-8", newline="") as f:
            f.write(case["versions"][v])
        os.rename("next.txt", "trace.txt")
    if case["start"] != cur:
        cur = case["start"]
        replace(cur)
    procs, seen, met = {}, {}, 0
    for op in case["sched"]:
        if op["op"] == "start":
            if op["p"] not in procs:
                procs[op["p"]] = (Opener(case["params"][op["k"]]), op["k"])
                seen[op["p"]] = {cur}
                if procs[op["p"]][0].at == "start":
                    procs[op["p"]][0].go()
                if not procs[op["p"]][0].over() and procs[op["p"]][0].at == "r:trace.txt" and op.get("sum"):
                    procs[op["p"]][0].go()
        elif op["op"] == "edit":
            if op["v"] == cur or any(op["v"] in seen[p] for p in procs if not procs[p][0].over()):
                continue            # not back again under an opening
            cur = op["v"]
            replace(cur)
            for p in procs:
                if not procs[p][0].over():
                    seen[p].add(cur)
        elif op["p"] in procs:
            q = procs[op["p"]][0]
            if op["op"] == "kill":
                q.kill()
            elif op["op"] == "step":
                met += follow(q, op["pc"])
            elif op["op"] == "go":
                for _ in range(op["n"]):
                    if not q.go():
                        break
    for p in sorted(procs, reverse=case.get("back", False)):
        while procs[p][0].go():
            pass
    left = sorted(os.listdir("."))
    later = [{"k": k, "res": K.opening(case["params"][k])} for k in case["later"]]
    return {"fresh": fresh, "input": io.open("trace.txt", encoding="utf-8", newline="").read() == case["versions"][cur],
            "debris": sorted(set(left) - {"trace.txt", CACHE}), "now": cur, "met": met,
            "procs": [{"k": procs[p][1], "killed": procs[p][0].killed, "seen": sorted(seen[p]), "res": procs[p][0].result or {"err": ""}, "steps": procs[p][0].steps}
                      for p in sorted(procs)], "later": later}


# -------------------------------------------------- behaviours of the model
def from_model(rng, recs):
    versions = {v: K.model_text(ls) for v, ls in MODEL.items()}
    words = {v: [[NAMES[w] for w in l] for l in ls] for v, ls in MODEL.items()}
    for r in recs:
        params = {}

        def par(s):
            k = "".join(s)
            params[k] = {"cls": "FTrace", "events": [NAMES[e] for e in s], "sel": [NAMES[e] for e in s], "norm": False}
            return k
        sched, start = [], r["start"]
        for o in r["h"]:
            if o["op"] == "start":
                sched.append({"op": "start", "p": o["p"], "k": par(o["s"]), "sum": True})
            elif o["op"] == "edit":
                sched.append({"op": "edit", "v": o["s"][0]})
            elif o["op"] == "kill":
                sched.append({"op": "kill", "p": o["p"]})
            else:
                sched.append({"op": "step", "p": o["p"], "pc": o["pc"]})
        if rng.random() < 0.15:
            sched.insert(rng.randrange(2, len(sched) + 1), {"op": "kill", "p": rng.choice("pq")})
        later = [par(s) for s in rng.sample([["A"], ["B"], ["A", "B"], ["B", "A"]], 3)]
        yield {"versions": versions, "words": words, "params": params, "before": "v1", "start": start, "prior": [par(r["prior"])] if r["prior"] else [],
               "sched": sched, "later": later}


def seeded(rng):
    vs = {"v%d" % i: K.version(rng) for i in (1, 2)}
    ps = {}
    edits = rng.random() < 0.4
    for i in range(1, 4):
        p = K.param(rng)
        if rng.random() < 0.6:
            p["events"] = rng.sample(["ev_a", "ev_b", "ev_c", "tracing_mark_write"], rng.choice([1, 2, 3]))
            p["scope"] = "custom"
            p.pop("regs", None)
        if edits:
            p["norm"] = False
            p.pop("window", None)
        p.pop("regs", None)
        ps["p%d" % i] = p
    pk = sorted(ps)
    a, b, c = rng.choice([("a", "b", None)] * 3 + [("a", "b", "c")])
    who = [x for x in (a, b, c) if x]
    sched = [{"op": "start", "p": x, "k": rng.choice(pk)} for x in who]
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        sched.append({"op": "go", "p": rng.choice(who), "n": rng.choice([1, 1, 2, 3, 4, 6, 9, 13, 20, 99])})
    if edits:
        for _ in range(rng.choice([1, 1, 2])):
            sched.insert(rng.randrange(1, len(sched) + 1), {"op": "edit", "v": rng.choice(["v1", "v2"])})
    if rng.random() < 0.15:
        sched.insert(rng.randrange(1, len(sched) + 1), {"op": "kill", "p": rng.choice(who)})
    if rng.random() < 0.3:
        # the later ones start later
        s = sched.pop(len(who) - 1)
        sched.insert(rng.randrange(len(who), len(sched) + 1), s)
    return {"versions": vs, "params": ps, "before": "v1", "start": rng.choice(["v1", "v1", "v1", "v2"]), "prior": [rng.choice(pk) for _ in range(rng.choice([0, 1, 1, 2]))],
            "sched": sched, "later": [rng.choice(pk) for _ in range(3)] + (["p1"] if rng.random() < 0.5 else []), "back": rng.random() < 0.5}


def sweep(rng, n):
    """one process stopped at every place while another one runs up to every place"""
    out = []
    for _ in range(n):
        c = seeded(rng)
        c["before"] = "v1"
        i, j = rng.randrange(1, 26), rng.choice([rng.randrange(1, 26), 99])
        c["sched"] = [{"op": "start", "p": "a", "k": "p1"}, {"op": "go", "p": "a", "n": i}, {"op": "start", "p": "b", "k": "p2"}, {"op": "go", "p": "b", "n": j}]
        if rng.random() < 0.3:
            for p in c["params"].values():
                p["norm"] = False
                p.pop("window", None)
            c["sched"].insert(2, {"op": "edit", "v": rng.choice(["v1", "v2"])})
            if rng.random() < 0.5:
                c["sched"].append({"op": "go", "p": "a", "n": 99})
                c["sched"].append({"op": "edit", "v": "v1"})
        c["later"] = ["p1", "p2", "p1", "p3"][:rng.choice([2, 4])]
        out.append(c)
    return out


def check(chk, prop):
    chk.mc("MC_CacheRace", timeout=600)
    chk.mc("MC_CacheRace", cfg="MC_CacheRace_kill.cfg", timeout=600)
    recs = chk.mc("MC_CacheRace", cfg="MC_CacheRace_emit.cfg", emits=True)
    lim = chk.pick(500, 5000)
    recs = recs if len(recs) <= lim else chk.rng.sample(recs, lim)
    chk.run(execute, list(from_model(chk.rng, recs)), "Trace_CacheRace", label="model-behaviours")
    chk.run(execute, [seeded(chk.rng) for _ in range(chk.pick(500, 6000))], "Trace_CacheRace", label="seeded-schedules")
    chk.run(execute, sweep(chk.rng, chk.pick(500, 6000)), "Trace_CacheRace", label="stops")
    chk.assumptions = ["the trace file is replaced at once (by renaming), and not back to an earlier version while one opening lasts", "writes to the same file by several processes do not mix into what reads as valid metadata"]
