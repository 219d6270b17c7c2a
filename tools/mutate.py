#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILES... [--max N] [--seed S] [--workers W]

A development tool, run by no check: plants small mutations in the functions
of FILES (paths under /repo/trappy), keeps those the stable tests do not
notice, and runs the checks of the properties which the file belongs to on
each in scratch copies.  What no check notices is to be looked at: either the
mutation changes nothing that a property promises, or a check is weak.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, time

BASE = "/tmp/mut/base"  # what is mutated: a copy of /repo
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("trappy/plotter/Constraint.py", ["C21", "C22", "C23", "C24"]), ("trappy/plotter/Utils.py", ["C25", "C22", "C21", "C23", "C18"]),
       ("trappy/plotter/ColorMap.py", ["C26", "C23"]), ("trappy/plotter/EventPlot.py", ["C25"]),
       ("trappy/plotter/IPythonConf.py", ["C32", "C33"]), ("trappy/plotter/ILine", ["C24"]), ("trappy/plotter/AbstractDataPlotter.py", ["C23", "C24", "C26", "C25"]),
       ("trappy/plotter/PlotLayout.py", ["C23"]), ("trappy/plotter/__init__.py", ["C25", "C23", "C24"]), ("trappy/plotter/", ["C23", "C24"]),
       ("trappy/stats/grammar.py", ["C19", "C20", "C26"]), ("trappy/stats/Aggregator.py", ["C17", "C18", "C16"]), ("trappy/stats/Correlator.py", ["C18"]),
       ("trappy/stats/Trigger.py", ["C16", "C17"]), ("trappy/stats/", ["C17", "C18", "C16"]), ("trappy/nbexport", ["C31"]),
       ("trappy/wa/results.py", ["C29"]), ("trappy/wa/sysfs", ["C30", "C28"]), ("trappy/utils.py", ["C15", "C18", "C13"]),
       ("trappy/base.py", ["C04", "C05", "C01", "C03", "C07", "C08", "C10", "C36", "C37"]), ("trappy/bare_trace.py", ["C13", "C06", "C03"]),
       ("trappy/systrace.py", ["C11", "C10"]), ("trappy/ftrace.py", ["C01", "C02", "C03", "C06", "C07", "C08", "C09", "C12", "C14", "C27", "C37"]),
       ("trappy/cpu_power.py", ["C27"]), ("trappy/devfreq", ["C27"]), ("trappy/thermal.py", ["C28"]), ("trappy/plot_utils.py", ["C28", "C27"]),
       ("trappy/compare_runs.py", ["C28"]), ("trappy/pid", ["C28"]), ("trappy/dynamic.py", ["C09", "C10"]), ("trappy/fallback.py", ["C10", "C02"]), ("trappy/", ["C10", "C02"])]
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+"}


def mutants(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(a, b, new):
        return (raw[:a] + new.encode() + raw[b:]).decode()

    out = []
    funcs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,))]
    nodes = set()
    for f in funcs:
        body = f.body[1:] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body
        for s in body:
            nodes.update(ast.walk(s))
        for d in f.args.defaults:
            nodes.add(d)
    docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    for n in nodes:
        if not hasattr(n, "lineno"):
            continue
        a, b = span(n)
        txt = raw[a:b].decode()
        def add(what, new, a=a, b=b):
            out.append((n.lineno, what + ": " + raw[a:b].decode()[:70].replace("\n", " ") + " -> " + new[:70].replace("\n", " "), put(a, b, new)))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            la, lb = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                add("cmp", raw[a:la].decode() + " " + o + " " + raw[lb:b].decode())
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            la, lb = span(n.left)[1], span(n.right)[0]
            add("op", raw[a:la].decode() + " " + BIN[type(n.op)] + " " + raw[lb:b].decode())
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            add("bool", (" %s " % o).join("(" + raw[slice(*span(v))].decode() + ")" for v in n.values))
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                add("drop", "(" + (" and " if o == "or" else " or ").join("(" + raw[slice(*span(v))].decode() + ")" for v in vs) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("not", raw[slice(*span(n.operand))].decode())
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if n.value is True or n.value is False:
                add("const", str(not n.value))
            elif isinstance(n.value, int):
                add("const", str(n.value + 1))
                if n.value == 1:
                    add("const", "0")
            elif isinstance(n.value, str) and n.value and not txt.startswith(('"""', "'''")) and len(n.value) < 40:
                add("str", '"XX"')
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            x, y = span(n.test)
            for v in ("True", "False") if not isinstance(n, ast.While) else ("False",):
                add("if", v, x, y)
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add("return", "return None")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                add("del", "pass")
            if isinstance(n, ast.AugAssign):
                add("aug", txt.replace("+=", "-=", 1) if "+=" in txt else txt.replace("-=", "+=", 1))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    x, y = span(k)
                    rest = raw[y:b].decode()
                    pre = raw[a:x].decode()
                    new = pre.rstrip().rstrip(",") + (rest if not pre.rstrip().endswith("(") else rest.lstrip(", \n"))
                    add("kw", new)
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "reversed", "set", "int", "str", "float", "abs") and len(n.args) == 1 and not n.keywords:
                add("unwrap", "(" + raw[slice(*span(n.args[0]))].decode() + ")")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("sort_index", "copy", "strip", "dropna", "fillna", "sort_values", "rstrip", "lstrip", "lower") and not isinstance(n, ast.Expr):
                add("unmeth", raw[slice(*span(n.func.value))].decode())
    seen, res = set(), []
    for l, w, s in sorted(out, key=lambda x: (x[0], x[1])):
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, "m", "exec")
        except SyntaxError:
            continue
        res.append((l, w, s))
    return res


RUN = r'''
import sys, os, json, pickle, hashlib
import tv
C = "/tmp/mut/mccache"
os.makedirs(C, exist_ok=True)
real = tv.Check.mc
def mc(self, module, cfg=None, **kw):
    p = os.path.join(C, "%s-%s-%s.pkl" % (module, cfg, hashlib.sha1(repr(sorted((kw.get("env") or {}).items())).encode()).hexdigest()[:8]))
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    r = real(self, module, cfg, **kw)
    pickle.dump(r, open(p + ".%d" % os.getpid(), "wb")); os.rename(p + ".%d" % os.getpid(), p)
    return r
tv.Check.mc = mc
sys.argv = ["run.py", sys.argv[1]]
exec(open(os.environ["MV"] + "/drivers/run.py").read())
'''


def main():
    args = sys.argv[1:]
    opt = {"--max": 10 ** 9, "--seed": 1, "--workers": 3}
    for k in list(opt):
        if k in args:
            i = args.index(k)
            opt[k] = int(args[i + 1])
            del args[i:i + 2]
    outp, files = args[0], args[1:]
    todo = []
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    shutil.rmtree(BASE, ignore_errors=True)
    shutil.copytree("/repo", BASE, symlinks=True)
    for f in files:
        for l, w, s in mutants(open(BASE + "/" + f).read()):
            todo.append((f, l, w, s))
    random.Random(opt["--seed"]).shuffle(todo)
    todo = [t for t in todo[:opt["--max"]] if t[:3] not in done]
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lock = threading.Lock()

    def worker(k):
        w = "/tmp/mut/w%d" % k
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copytree(BASE, w + "/repo", symlinks=True)
        subprocess.check_call(["cp", "-a", V, w + "/verif"])
        shutil.rmtree(w + "/verif/.git", ignore_errors=True)
        open(w + "/run.py", "w").write(RUN)
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        while True:
            try:
                f, l, what, s = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            p = w + "/repo/" + f
            orig = open(BASE + "/" + f).read()
            open(p, "w").write(s)
            r = {"file": f, "line": l, "what": what}
            try:
                try:
                    # quickly first
                    x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                                        "--junitxml=" + w + "/j.xml", "tests"], cwd=w + "/repo", env=env, capture_output=True, timeout=240)
                    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", w + "/o.json", "junit:" + w + "/j.xml"], capture_output=True)
                    missing = stable - set(json.load(open(w + "/o.json"))["passed"])
                except (subprocess.TimeoutExpired, OSError, ValueError):
                    missing = {"timeout"}
                if missing:
                    r["tests"] = len(missing)
                else:
                    props = next(ps for pre, ps in MAP if f.startswith(pre))
                    r["caught"], r["odd"] = None, []
                    for pr in props:
                        e = dict(env, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick", MV=w + "/verif", PYTHONPATH=w + "/verif/lib:" + w + "/verif/drivers")
                        try:
                            x = subprocess.run(["/opt/venv/bin/python", w + "/run.py", pr], cwd=w + "/verif", env=e, capture_output=True, timeout=600)
                            rc = x.returncode
                        except subprocess.TimeoutExpired:
                            rc = 99
                        if rc == 1:
                            r["caught"] = pr
                            r["clauses"] = [y.strip() for y in x.stdout.decode().split("\n") if y.startswith("  clause")][:3]
                            break
                        if rc:
                            r["odd"].append([pr, rc, (x.stderr.decode()[-300:] if rc != 99 else "")])
            finally:
                open(p, "w").write(orig)
                subprocess.run(["git", "-C", w + "/repo", "status", "--short"], capture_output=True)
            r["s"] = round(time.time() - t0)
            with lock:
                with open(outp, "a") as o:
                    o.write(json.dumps(r) + "\n")
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(opt["--workers"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    if sys.argv[1] == "--list":
        for f in sys.argv[2:]:
            for l, w, s in mutants(open("/repo/" + f).read()):
                print(f, l, w)
    else:
        main()
