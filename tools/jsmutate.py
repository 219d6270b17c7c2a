#!/usr/bin/env python3
"""jsmutate.py OUT.jsonl [--max N] [--seed S] [--workers W]

A development tool, run by no check: plants small mutations in the scripts of
trappy's plots and runs C34/C35 (with fewer cases) on each in scratch copies.
"""
import argparse, json, os, queue, random, re, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {"trappy/plotter/js/EventPlot.js": "C34", "trappy/plotter/js/ILinePlot.js": "C35"}
SWAP = [(r"<=", "<"), (r"(?<![<=])>=", ">"), (r"(?<![<\w])<(?![=<\w/])", "<="), (r"(?<![-=>])>(?![=>])", ">="), (r"===?", "!="), (r"!==?", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b(\d\d+)\b", r"(\1 + 7)"),
        (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\.start\b", ".end"), (r"\.end\b", ".start")]


def mutants(src):
    lines, comment = src.split("\n"), False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if comment or s.startswith("//") or not s:
            comment = comment and "*/" not in s
            continue
        def put(new, what):
            return i + 1, what + ": " + s[:80], "\n".join(lines[:i] + [new] + lines[i + 1:])
        if re.match(r"^[^{}]*;$", s) and not s.startswith(("var ", "return")):
            yield put(";" if not s.startswith((".", "}")) else "", "drop") if not s.startswith(".") else put("    ;", "drop")
        elif s.startswith(".") and s.endswith(")"):
            yield put("", "drop")
        elif re.match(r"^\w+: .*,$", s):
            yield put("", "drop")
        m = re.match(r"^(\s*)(\} else )?if \((.*)\)( \{)?$", l)
        if m:
            for v in ("true", "false"):
                yield put("%s%sif (%s)%s" % (m.group(1), m.group(2) or "", v, m.group(4) or ""), "if " + v)
        for a, b in SWAP:
            for k in re.finditer(a, l):
                yield put(l[:k.start()] + re.sub(a, b, k.group(0)) + l[k.end():], "%s->%s" % (k.group(0), b))


RUN = """
import sys; sys.argv = ["run", %r]
import tv, os, pickle
tv.NPROC = 2
mc = tv.Check.mc
def kept(self, module, **kw):
    p = "/tmp/jsmut/" + module
    if not os.path.exists(p):
        pickle.dump(mc(self, module, **kw), open(p + str(os.getpid()), "wb"))
        os.rename(p + str(os.getpid()), p)
    return pickle.load(open(p, "rb"))
tv.Check.mc = kept
pick = tv.Check.pick
tv.Check.pick = lambda self, q, t: max(1, int(q / 5)) if q > 20 else q
import runpy
runpy.run_path(%r, run_name="__main__")
"""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--max", type=int, default=10000); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=4)
    a = ap.parse_args()
    todo = [(f, m) for f in FILES for m in mutants(open("/repo/" + f).read())]
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.max]
    print(len(todo), "mutants")
    q, out, lock = queue.Queue(), open(a.out, "w"), threading.Lock()
    for t in todo:
        q.put(t)

    def work(n):
        base = "/tmp/jsmut/w%d" % n
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
        for d in ("bin", "lib", "drivers", "spec"):
            subprocess.check_call(["cp", "-a", V + "/" + d, base + "/" + d])
        shutil.copy(V + "/known_findings.json", base)
        while True:
            try:
                f, (line, what, src) = q.get_nowait()
            except queue.Empty:
                return
            p = base + "/repo/" + f
            keep = open(p).read()
            open(p, "w").write(src)
            r = {"file": f, "line": line, "what": what}
            if subprocess.run(["node", "--check", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                r["res"] = "syntax"
            else:
                e = dict(os.environ, VERIF_REPO=base + "/repo", PYTHONPATH=base + "/lib:" + base + "/drivers", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
                try:
                    c = subprocess.run(["/opt/venv/bin/python", "-c", RUN % (FILES[f], base + "/drivers/run.py")], cwd=base, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=400)
                    r["res"], r["cl"] = {0: "MISSED", 1: "caught"}.get(c.returncode, "odd"), re.findall(r"clause (\S+)", c.stdout)
                    if r["res"] == "odd":
                        r["tail"] = c.stdout[-500:]
                except subprocess.TimeoutExpired:
                    r["res"] = "timeout"
            open(p, "w").write(keep)
            with lock:
                out.write(json.dumps(r) + "\n"); out.flush()

    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
    for t in ts: t.start()
    for t in ts: t.join()


main()
