"""C31: export of notebooks against spec/NbExport.tla."""
import copy, io, os, re
import tv, obs
from drv_iline import displayed
from drv_residency import nbdir

JS = ["plotter/js/ILinePlot.js", "plotter/js/EventPlot.js"]
PLAIN = ["exception.py", "stats/StatConf.py", "nbexport/__init__.py", "plotter/ColorMap.py"]


def plain(f):
    """nothing in it which the templates touch"""
    try:
        c = io.open(os.path.join(tv.REPO, "trappy", f)).read()
    except (IOError, UnicodeDecodeError):
        return False
    return len(c) > 50 and c.endswith("\n") and not re.search("[&<>]", c) and "TRAPPY_PUBLISH" not in c


SAFE = [f for f in PLAIN if plain(f)][:2]
FILES = JS + SAFE


def folded(lines, contents):
    """lines with the contents of a file, where they are all there, as one line"""
    out, i = [], 0
    while i < len(lines):
        for f, c in contents.items():
            if c and lines[i:i + len(c)] == c:
                out.append("@" + f)
                i += len(c)
                break
        else:
            out.append(lines[i])
            i += 1
    return out


def tag(line):
    """a line which loads a script, its attributes in the usual order"""
    m = re.match(r"<script ((?:\w+=\"[^\"]*\" ?){3})></script>$", line)
    at = dict(re.findall(r"(\w+)=\"([^\"]*)\"", m.group(1))) if m else {}
    if set(at) != {"src", "type", "charset"}:
        return line
    return '<script src="%s" type="%s" charset="%s"></script>' % (at["src"], at["type"], at["charset"])


def make_nb(nbf, nb, page):
    """the notebook of the outputs, each in some cell, and where it is"""
    v4 = nbf.v4
    book, where = v4.new_notebook(), []
    for k, o in enumerate(nb):
        text = "\n".join(o["lines"])
        if page:
            # whatever block is open must not hide the end
            text = "<i>begin-%d</i>\n%s\n%s<i>end-%d</i>" % (k, text, "/* TRAPPY_PUBLISH_REMOVE_STOP */\n" if o["shown"] else "", k)
        if o["as"] == "markdown":
            cell = v4.new_markdown_cell(text)
        elif o["as"] == "source":
            cell = v4.new_code_cell(text)
        else:
            if o["as"] == "display":
                out = v4.new_output("display_data", {"text/html": text, "text/plain": "/* TRAPPY_PUBLISH_REMOVE_LINE */\nplain"})
            elif o["as"] == "result":
                out = v4.new_output("execute_result", {"text/html": text, "text/plain": "<X>"}, execution_count=k)
            elif o["as"] == "image":
                out = v4.new_output("display_data", {"text/plain": text, "image/svg+xml": "<svg></svg>"})
            else:
                out = v4.new_output("stream", name="stdout", text=text)
            if nb[k]["join"] and book.cells and book.cells[-1].cell_type == "code" and where[-1][1] is not None:
                book.cells[-1].outputs.append(out)
                where.append((len(book.cells) - 1, len(book.cells[-1].outputs) - 1))
                continue
            cell = v4.new_code_cell("x = %d" % k, execution_count=k, metadata={"tags": ["t%d" % k]}, outputs=[out])
        book.cells.append(cell)
        where.append((len(book.cells) - 1, 0 if cell.cell_type == "code" and cell.outputs else None))
    return book, where


def taken(book, where, nb):
    """the lines of each output, taken out of the notebook"""
    outs = []
    for (c, i), o in zip(where, nb):
        cell = book.cells[c]
        if i is None:
            outs.append(cell.source.split("\n"))
            cell.source = ""
        else:
            out = cell.outputs[i]
            if out.output_type == "stream":
                outs.append(out.text.split("\n"))
                out.text = ""
            else:
                key = "text/plain" if o["as"] == "image" else "text/html"
                outs.append(out.data[key].split("\n"))
                out.data[key] = ""
    return outs


def execute(case):
    t = tv.trappy()
    import nbformat
    from trappy.nbexport import HTML
    from trappy.nbexport.exporter import TrappyPlotterPreprocessor
    base = os.path.dirname(t.__file__)
    contents = {f: io.open(os.path.join(base, f)).read().split("\n")[:-1] for f in FILES}
    page = case["how"] == "page"

    def go():
        assert "broken" not in case, case
        tool = HTML() if page else TrappyPlotterPreprocessor()
        nbs = []
        for nb in case["nbs"]:
            book, where = make_nb(nbformat, nb, page)
            orig = copy.deepcopy(book)
            if page:
                html, _ = tool.from_notebook_node(book)
                outs = []
                for k, o in enumerate(nb):
                    m = re.search(r"<i>begin-%d</i>\n(.*?)\n?<i>end-%d</i>" % (k, k), html, re.S)
                    outs.append(m.group(1).split("\n") if m and o["shown"] else o["lines"])
                    if m and m.group(1) == "":
                        outs[-1] = []
                rest = book == orig
            else:
                got, res = tool.preprocess(book, {"a": 1})
                outs = taken(got, where, nb)
                taken(orig, where, nb)
                rest = got == orig and res == {"a": 1}
                outs = [[] if x == [""] else x for x in outs]
            outs = [[tag(l) for l in x] for x in outs]
            nbs.append({"outs": [folded(x, contents) for x in outs], "rest": rest})
        return {"nbs": nbs}
    r = obs.Caught(go)
    return dict(r.res or {"nbs": []}, err=r.err, msg=r.msg[:200])


def line(rng, k, arg, n, page):
    pad = "" if page else rng.choice(["", "  ", "            "])
    if k == "text":
        if page:        # what the templates leave alone
            return rng.choice(["word %d" % n, "var a = {'x': [%d, 2]};" % n, "/* a comment */", "TRAPPY_PUBLISH %d" % n])
        return rng.choice(["", pad + "<td>%d</td>" % n, "var a = {\"x\": [%d, 2]};" % n, "/* a comment */", "TRAPPY_PUBLISH %d" % n, "<!-- %d -->" % n, "it's \u00e9 &amp; %d\t" % n]) or "t%d" % n
    m = {"start": "/* TRAPPY_PUBLISH_REMOVE_START */", "stop": "/* TRAPPY_PUBLISH_REMOVE_STOP */", "line": "/* TRAPPY_PUBLISH_REMOVE_LINE */",
         "import": "/* TRAPPY_PUBLISH_IMPORT = \"%s\" */" % arg, "lib": "<!-- TRAPPY_PUBLISH_SOURCE_LIB = \"%s\" -->" % arg}[k]
    return pad + (rng.choice(["", "req(['x'], function() { "]) if k != "lib" else "") + m


URLS = ["https://cdn/a.js", "https://cdn/b.js?x=1", "//d3.js/d3.v3.min.js"]


def shape(rng, outs):
    nb = []
    for o in outs:
        as_ = rng.choice(["display"] * 8 + ["result", "stream", "markdown", "source", "image"])
        nb.append({"as": as_, "shown": as_ == "display", "join": rng.random() < 0.3, "lines": o})
    return nb


def modelled(rng, rs):
    nbs = []
    how = rng.choice(["prep", "prep", "prep", "page"])
    fs, us = rng.sample(SAFE if how == "page" else FILES, 2), rng.sample(URLS, 2)
    args = {"A": fs[0], "B": fs[1], "u": us[0], "v": us[1], "": ""}
    for r in rs:
        outs = {}
        for i, l in enumerate(r["lines"]):
            outs.setdefault(l["out"], []).append(line(rng, l["k"], args[l["arg"]], i, how == "page"))
        nb = shape(rng, [outs[k] for k in sorted(outs)])
        nbs.append(nb)
    return {"how": how, "nbs": nbs}


def gen(rng):
    nbs = []
    how = rng.choice(["prep", "prep", "prep", "page"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        outs = []
        for _ in range(rng.choice([0, 1, 2, 4, 6])):
            n = rng.choice([1, 3, 8, 20])
            mood = rng.random()
            ks = ["text"] if mood < 0.25 else ["text"] * 5 + ["line", "import", "lib", "start", "stop"]
            outs.append([line(rng, k, rng.choice(SAFE if how == "page" else FILES) if k == "import" else rng.choice(URLS), i, how == "page") for i, k in enumerate(rng.choice(ks) for _ in range(n))])
        nbs.append(shape(rng, outs))
    return {"how": how, "nbs": nbs}


def real(rng):
    """what plots of both kinds display"""
    t = tv.trappy()
    import pandas as pd
    from trappy.plotter.EventPlot import EventPlot
    from trappy.plotter.ILinePlot import ILinePlot
    nbdir()
    def iline():
        tr = t.BareTrace(name="t")
        tr.add_parsed_event("ev", pd.DataFrame({"v": [1, 2], "p": [0, 1]}, index=pd.Index([0.5, 1.5], name="Time")))
        return displayed(lambda: ILinePlot(tr, signals=["ev:v"], **rng.choice([{}, {"pivot": "p"}])).view(test=True))
    def event():
        return displayed(lambda: EventPlot({"a": [[0.5, 1.0, 0]]}, ["a"], (0, 1), num_lanes=1).view())
    nbs = []
    for _ in range(rng.choice([1, 2, 2])):
        outs = [rng.choice([iline, event, lambda: "<p>text</p>\n<b>x</b>"])().split("\n") for _ in range(rng.choice([1, 2, 3]))]
        nbs.append([{"as": "display", "shown": True, "join": rng.random() < 0.3, "lines": o} for o in outs])
    return {"how": "prep", "nbs": nbs}


def plots(case):
    import random
    return real(random.Random(case["seed"]))


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_NbExport", emits=True)
    cases = [modelled(rng, rng.sample(recs, rng.choice([1, 1, 2, 3]))) for _ in range(chk.pick(1500, 20000))]
    chk.run(execute, cases, "Trace_NbExport", label="model-behaviours")
    cases = [gen(rng) for _ in range(chk.pick(500, 8000))]
    chk.run(execute, cases, "Trace_NbExport", label="seeded-notebooks")
    # plots which cannot even be displayed are a failure, too
    res = tv.run_real(plots, [{"seed": rng.randint(0, 1 << 30)} for _ in range(chk.pick(40, 400))])
    chk.run(execute, [r if "nbs" in r else {"how": "none", "nbs": [], "broken": str(r)[-300:]} for r in res], "Trace_NbExport", label="plots-exported")
    chk.assumptions = ["imports name files which ship with the package", "marked lines in outputs other than displayed HTML are left open"]

