"""Harness shared by all checks: TLC runs, recording real executions, verdicts.

Exit codes: 0 property held, 1 VIOLATION, 2 machinery failure.
"""
import contextlib, hashlib, io, json, multiprocessing, os, random, re, shutil
import signal, subprocess, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NPROC = max(2, min(8, os.cpu_count() or 2))
OUT = os.path.join(VERIF, "evidence", "replays")


def clipped(x, most):
    """x for a reader: long lists and texts are cut"""
    if isinstance(x, dict):
        return {k: clipped(v, most) for k, v in list(x.items())[:most]}
    if isinstance(x, (list, tuple)):
        return [clipped(v, most) for v in x[:most]] + (["... %d more" % (len(x) - most)] if len(x) > most else [])
    if isinstance(x, str) and len(x) > 10 * most:
        return x[:10 * most] + "... %d more" % (len(x) - 10 * most)
    return x


class Machinery(Exception):
    """The check itself failed (never a statement about the code)."""


# ------------------------------------------------------------------ TLC
EVAL_ERR = re.compile(r"Attempted to|was evaluating|not enumerable|"
                      r"CHOOSE|out of domain|outside its domain|Evaluating|"
                      r"overflow|NumberFormat", re.I)


def tlc(module, cfg=None, env=None, workers=1, timeout=840, heap="3g", extra=()):
    """Run TLC in spec/; returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s" % (heap, meta)
    cmd = ["tlc", "-nowarning", "-workers", str(workers), "-metadir", meta,
           "-config", cfg or module + ".cfg", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        out = "\n".join(l for l in out.splitlines() if not l.startswith(
            ("Parsing file", "Semantic processing", "Linting of", "Picked up", "Running breadth")))
        return p.returncode, out
    except subprocess.TimeoutExpired as exc:
        return -1, (exc.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states_of(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ------------------------------------------------------------ observation
def obs_int(n):
    n = int(n)
    a = abs(n)
    return {"k": "i", "neg": n < 0, "d": str(a), "x": "%x" % a, "o": "%o" % a, "b": "{:b}".format(a)}


def cell(v):
    """A table cell as observed: integer / string / missing / other."""
    import numpy as np
    if v is None:
        return {"k": "n"}
    if isinstance(v, (bool, np.bool_)):
        return {"k": "b", "v": str(bool(v))}
    if isinstance(v, (int, np.integer)):
        return obs_int(v)
    if isinstance(v, (float, np.floating)):
        if v != v:
            return {"k": "n"}
        if float(v).is_integer() and abs(v) < 2 ** 53:
            return obs_int(int(v))
        return {"k": "f", "v": repr(float(v))}
    if isinstance(v, str):
        return {"k": "s", "v": v}
    return {"k": "?", "v": type(v).__name__ + ":" + str(v)}


def secns(t):
    """A time in seconds as [seconds, nanoseconds]."""
    n = int(round(float(t) * 1e9))
    return [n // 10 ** 9, n % 10 ** 9]


def exc_name(e):
    return type(e).__name__


# --------------------------------------------------- running the real code
_trappy = None


def trappy():
    global _trappy
    if _trappy is None:
        os.environ["MPLBACKEND"] = "Agg"
        sys.dont_write_bytecode = True
        warnings.simplefilter("ignore")
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import trappy as t
        if not os.path.abspath(t.__file__).startswith(REPO):
            raise Machinery("trappy imported from %s" % t.__file__)
        _trappy = t
    return _trappy


HUNG = multiprocessing.get_context("fork").Value("i", 0)


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _work(args):
    fn, case, limit = args
    if HUNG.value >= 6:
        return {"__skip__": True}
    scratch = tempfile.mkdtemp(prefix="tv-case-")
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        os.chdir(scratch)
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            return fn(case)
    except CaseTimeout:
        with HUNG.get_lock():
            HUNG.value += 1
        return {"__timeout__": True}
    except Machinery:
        raise
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        import errno
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
            raise
        # the recording cannot even be projected: a verdict on the code (the
        # unchanged tree never gets here), reported like any other
        return {"__crash__": traceback.format_exc()}
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def run_real(fn, cases, limit=60, procs=None):
    """obs for every case, executed in worker processes with a scratch cwd."""
    trappy()
    ctx = multiprocessing.get_context("fork")
    procs = procs or NPROC
    with ctx.Pool(procs) as pool:
        res = pool.map(_work, [(fn, c, limit) for c in cases],
                       chunksize=max(1, min(32, len(cases) // (procs * 4) + 1)))
    return res


# ------------------------------------------------------------------ check
def plain(x):
    """What TLC's JSON reader takes: no null, no fractions."""
    if x is None:
        return "None"
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def canon(x):
    return json.dumps(x, sort_keys=True)


class Check(object):
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.level = level
        self.mc_states = self.mc_trans = self.tr_states = self.tr_trans = 0
        self.validated = 0
        self.next_id = 0
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.mcs = []
        self.groups = {}
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix="tv-%s-" % prop)
        self.notes = {}
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop] \
            if os.path.exists(kf) else []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- exhaustive model check of the specification itself
    def mc(self, module, cfg=None, workers=None, timeout=800, heap="8g", env=None, emits=False):
        """Model check; with emits, return the JSON records the model printed
        (lines PrintT("@@" \\o ToJson(..)))."""
        rc, out = tlc(module, cfg, env=dict(env or {}, TV_TIER=self.tier), workers=1 if emits else (workers or NPROC),
                      timeout=timeout, heap=heap)
        if rc != 0:
            out = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))
            raise Machinery("model check of %s (%s) failed rc=%s:\n%s" % (module, cfg, rc, out[-4000:]))
        gen, dist = states_of(out)
        self.mc_states += dist
        self.mc_trans += gen
        self.mcs.append("%s/%s: %d distinct states, %d generated" % (module, cfg or module + ".cfg", dist, gen))
        if emits:
            recs = []
            for line in out.splitlines():
                if line.startswith('"@@'):
                    recs.append(json.loads(json.loads(line)[2:]))
            return recs
        return None

    # -- validation of recorded executions
    def validate(self, module, cases, cfg=None, env=None, label=None, shards=None,
                 timeout=800, heap="3g", key=None):
        """cases: list of dicts with 'id' and 'obs' (already executed)."""
        if not cases:
            return
        label = label or module
        n = shards or min(NPROC, max(1, len(cases) // 3))
        bins = [[] for _ in range(n)]
        for i, c in enumerate(cases):
            bins[i % n].append(c)
        ids = set()
        for c in cases:
            if c["id"] in ids:
                raise Machinery("duplicate case id")
            ids.add(c["id"])
        jobs = []
        for i, b in enumerate(bins):
            tr = os.path.join(self.work, "%s-%d-%d.ndjson" % (label, self.validated, i))
            with open(tr, "w") as f:
                for c in b:
                    f.write(json.dumps(plain(c)) + "\n")
            jobs.append((b, tr, tr + ".out"))
        import concurrent.futures as cf

        def one(job):
            b, tr, outp = job
            e = dict(env or {}, TV_TRACE=tr, TV_OUT=outp, TV_PROP=self.prop)
            rc, out = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
            return rc, out

        with cf.ThreadPoolExecutor(n) as ex:
            results = list(ex.map(one, jobs))
        by = {c["id"]: c for c in cases}
        todo = []
        for (b, tr, outp), (rc, out) in zip(jobs, results):
            gen, dist = states_of(out)
            self.tr_states += dist
            self.tr_trans += gen
            if rc != 0 or not os.path.exists(outp):
                if EVAL_ERR.search(out) and "OutOfMemory" not in out and "ndDeserialize" not in out and rc != -1:
                    # some recorded observation cannot be interpreted by the
                    # specification at all: isolate it
                    todo.append((b, out))
                    continue
                raise Machinery("trace validation %s failed rc=%s:\n%s" % (module, rc, out[-4000:]))
            v = json.load(open(outp))
            if v["n"] != len(b):
                raise Machinery("trace validation consumed %s of %d cases" % (v["n"], len(b)))
            for x in v["bad"]:
                self.fail(by[x["id"]], x["clause"], module, cfg, env)
            self.validated += len(b)
        for b, out in todo:
            if len(b) == 1:
                self.fail(b[0], "uninterpretable-observation", module, cfg, env, detail=out[-1500:])
                self.validated += 1
            else:
                half = len(b) // 2
                for part in (b[:half], b[half:]):
                    self.validate(module, part, cfg, env, label + "x", shards=1, timeout=timeout, heap=heap)
        self.groups[label] = self.groups.get(label, 0) + (0 if label.endswith("x") else len(cases))
        if len(self.samples) < 4:
            c = min(cases[:50], key=lambda c: abs(len(json.dumps(c)) - 900))
            for most in (400, 60, 12, 4):
                small = clipped(c, most)
                if len(json.dumps(small, indent=1)) < 20000:
                    break
            else:
                small = json.dumps(small)[:20000]
            self.samples.append({"validated_by": module, "case": small})

    def fail(self, case, clause, module=None, cfg=None, env=None, detail=None):
        sig = {"clause": clause, "case": {k: v for k, v in case.items() if k not in ("obs", "id")}}
        for k in self.known:
            if clause in k["clauses"] and k["signature"] == case.get("sig", hashlib.sha256(canon(sig["case"]).encode()).hexdigest()[:16]):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append(dict(property=self.prop, clause=clause, module=module, cfg=cfg,
                                    env=env, case=case, detail=detail))

    def run(self, fn, cases, module, label=None, limit=60, **kw):
        """execute cases on the real code, then validate the recordings"""
        t = time.time()
        obs = run_real(fn, cases, limit)
        for i, (c, o) in enumerate(zip(cases, obs)):
            c["obs"] = o
            self.next_id += 1
            c["id"] = self.next_id
        t1 = time.time()
        hung = [c for c in cases if isinstance(c["obs"], dict) and "__timeout__" in c["obs"]]
        for c in hung:
            self.fail(c, "terminates", module)
        crashed = [c for c in cases if isinstance(c["obs"], dict) and "__crash__" in c["obs"]]
        for c in crashed:
            self.fail(c, "uninterpretable-observation", module, detail=c["obs"]["__crash__"][-1500:])
        if hung or crashed:
            cases = [c for c in cases if not (isinstance(c["obs"], dict) and
                                              ("__timeout__" in c["obs"] or "__skip__" in c["obs"] or "__crash__" in c["obs"]))]
        self.validate(module, cases, label=label, **kw)
        if os.environ.get("TV_VERBOSE"):
            print("# %s: %d cases, real %.1fs, tlc %.1fs" % (label or module, len(cases), t1 - t, time.time() - t1), file=sys.stderr)
        return cases

    # -- outcome
    def finish(self):
        os.makedirs(OUT, exist_ok=True)
        for f in os.listdir(OUT):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(OUT, f))
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        seen = {}
        for v in self.violations:
            seen.setdefault(v["clause"], []).append(v)
        n = 0
        for clause, vs in sorted(seen.items()):
            v = min(vs, key=lambda v: len(json.dumps(v["case"])))
            n += 1
            path = os.path.join(OUT, "%s-%d.json" % (self.prop, n))
            v["same_clause_failures"] = len(vs)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  clause %s (%d cases)" % (clause, len(vs)))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.mc_states + self.tr_states,
                "transitions": self.mc_trans + self.tr_trans,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or ["none"],
                "model_checked": self.mcs,
                "validated_groups": self.groups,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d model states, %d executions validated, %d violations, %.0fs" % (
            self.prop, self.tier, self.mc_states, self.validated, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def main(prop, body):
    """Run a check body(check) with the exit code discipline."""
    chk = None
    try:
        chk = Check(prop)
        body(chk)
        rc = chk.finish()
    except Machinery as e:
        print("ERROR (machinery) %s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
