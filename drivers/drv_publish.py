"""C33: publishing notebooks with interactive plots against spec/Publish.tla."""
import importlib.util, io, json, os, re, sys
import tv, obs
from drv_iline import displayed
from drv_resources import WEB

_script = []


def script():
    if not _script:
        p = os.path.join(tv.REPO, "scripts", "publish_interactive_plots.py")
        spec = importlib.util.spec_from_file_location("publish_interactive_plots", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        import logging
        logging.disable(logging.CRITICAL)
        _script.append(m)
    return _script[0]


def words(line):
    return re.split("['\"]", line)


def plot(kind):
    """the HTML a notebook has of a plot"""
    import pandas as pd
    d = os.path.abspath("jupyter")
    os.environ["JUPYTER_DATA_DIR"] = d
    for k in WEB:
        os.makedirs(os.path.join(d, "nbextensions", "plotter_scripts", k), exist_ok=True)
        for f in WEB[k]:
            open(os.path.join(d, "nbextensions", "plotter_scripts", k, f), "w").write("//")
    if kind == "EventPlot":
        from trappy.plotter.EventPlot import EventPlot
        return displayed(EventPlot({"a": [[0, 1, 0]]}, ["a"], [0, 1], lane_prefix="CPU ", num_lanes=1).view)
    from trappy.plotter.ILinePlot import ILinePlot
    return displayed(ILinePlot(pd.DataFrame({"v": [1, 2]}, index=[0.0, 1.0]), column="v").view)


def build(texts, seed):
    """a notebook with the texts in its cells; the places are replaced by marks in the twin"""
    import nbformat
    v4 = nbformat.v4
    nb = v4.new_notebook(metadata={"language_info": {"name": "python"}})
    for i, t in enumerate(texts):
        where = (seed + i) % 4
        if where == 0:
            nb.cells.append(v4.new_markdown_cell(t))
        elif where == 1:
            nb.cells.append(v4.new_code_cell(t, execution_count=i))
        else:
            nb.cells.append(v4.new_code_cell("x = %d" % i, outputs=[v4.new_output("display_data", {"text/html": t, "text/plain": "<X>"})]))
        nb.cells[-1].id = "cell%d" % i
    return nb


def texts_of(nb, seed):
    """the texts of such a notebook and the rest of it"""
    out = []
    for i, c in enumerate(nb.cells):
        where = (seed + i) % 4
        if where in (0, 1):
            out.append(c.source)
            c.source = ""
        else:
            out.append(c.outputs[0].data["text/html"])
            c.outputs[0].data["text/html"] = ""
    return out, json.dumps(nb, sort_keys=True)


def execute(case):
    tv.trappy()
    import nbformat
    os.environ["JUPYTER_DATA_DIR"] = os.path.abspath("data")
    os.environ["JUPYTER_CONFIG_DIR"] = os.path.abspath("config")
    os.environ["JUPYTER_RUNTIME_DIR"] = os.path.abspath("runtime")
    r = obs.Caught(script)
    if r.err:
        return {"err": r.err, "msg": r.msg, "urls": {}, "runs": [], "was": []}
    from trappy.plotter import IPythonConf as I
    urls = {m + "/" + os.path.basename(u): u for m in I.IPLOT_RESOURCES for u in I.IPLOT_RESOURCES[m] if u.startswith("http")}
    res = {"err": "", "msg": "", "urls": urls, "runs": [], "was": []}
    os.makedirs("in")
    last = None
    for n, run in enumerate(case["todo"]):
        if run.get("again") and last:
            texts, seed = last
        else:
            texts, seed = ["\n".join(t) for t in run["texts"]], run["seed"]
            texts = [plot(t[1:]) if t.startswith("@") else t for t in texts]
        src = os.path.join("in", run["base"])
        nbformat.write(build(texts, seed), src)
        os.environ["JUPYTER_DATA_DIR"] = os.path.abspath("data")
        before, files = open(src, "rb").read(), set(os.listdir("."))
        res["was"].append({"lines": [words(l) for t in texts for l in t.split("\n")], "base": run["base"], "outfile": run["outfile"]})
        argv = sys.argv
        sys.argv = ["publish"] + (["-o", run["outfile"]] if run["outfile"] else []) + [src]
        try:
            r = obs.Caught(script().main)
        finally:
            sys.argv = argv
        o = {"err": r.err, "msg": r.msg, "lines": [], "web": [], "rest": False, "source": open(src, "rb").read() == before, "signed": False, "target": ""}
        new = sorted(set(os.listdir(".")) - files - {"data", "config", "runtime", "jupyter", "ipython"})
        if not r.err and len(new) == 1:
            o["target"] = new[0]
            nb = nbformat.read(new[0], nbformat.NO_CONVERT)
            from nbformat.sign import NotebookNotary
            with NotebookNotary(data_dir=os.environ["JUPYTER_DATA_DIR"]) as notary:
                o["signed"] = bool(notary.check_signature(nb))
            out, rest = texts_of(nb, seed)
            o["rest"] = rest == texts_of(build(texts, seed), seed)[1]
            o["lines"] = [words(l) for t in out for l in t.split("\n")]
            o["web"] = sorted({w for l in o["lines"] for w in l if re.match(r"https?://[^/\s]+/\S+$", w)})
            last = (out, seed)
            os.unlink(new[0])
        res["runs"].append(o)
    return res


BASE = "/nbextensions/plotter_scripts/"
PATHS = [BASE + p for p in ("EventPlot/d3.min", "EventPlot/d3.tip.v0.6.3", "EventPlot/EventPlot", "ILinePlot/synchronizer", "ILinePlot/dygraph-combined",
                            "ILinePlot/ILinePlot", "ILinePlot/underscore-min")]
OTHER = ["plotter_scripts/EventPlot/EventPlot", "/nbextensions/other/d3.min", "d3", "EventPlot", "x = 1", "", "caf\u00e9", "<div id=fig>", "\\n",
         "https://example.com/d3.min.js", "plotter_scripts", "/nbextensions/", "d3.v3.min", "ILinePlot", "{\"a\": 1}".replace('"', "")]


def texts(rng):
    if rng.random() < 0.15:
        return ["@" + rng.choice(["EventPlot", "ILinePlot"])]
    return ["%s%s" % (rng.choice(["", "paths: ", "  "]), ", ".join("%s%s%s" % (q, rng.choice(PATHS if rng.random() < 0.6 else OTHER), q) for q in rng.choices(["'", '"'], k=rng.randint(0, 3))))
            for _ in range(rng.randint(1, 5))]


def run(rng, ts):
    return {"texts": ts, "seed": rng.randint(0, 3), "base": rng.choice(["nb.ipynb", "My plots.ipynb", "x"]),
            "outfile": rng.choice(["", "", "out", "out.ipynb", "a.b", "x.ipynb.bak"])}


def from_model(rng, r):
    first = run(rng, [[", ".join("'%s'" % w for w in r["nb"])]] if rng.random() < 0.5 else [["'%s': 1" % w] for w in r["nb"]])
    return {"todo": [first, dict(first, again=True)] if rng.random() < 0.4 else [first]}


def gen(rng):
    todo = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        todo.append(run(rng, [texts(rng) for _ in range(rng.randint(0, 4))]))
        if rng.random() < 0.3:
            todo.append(dict(todo[-1], again=True))
    return {"todo": todo}


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Publish", emits=True)
    chk.run(execute, [from_model(rng, r) for r in rng.sample(recs, min(len(recs), chk.pick(400, 4000)))], "Trace_Publish", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(300, 4000))], "Trace_Publish", label="seeded-notebooks")
    chk.assumptions = ["requirejs appends .js to a path (its nameToUrl)", "where trappy's own scripts are published is not checked, only that they are"]
