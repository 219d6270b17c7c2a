"""C32: the files interactive plots load against spec/Resources.tla."""
import json, os, re, signal
import tv, obs
from drv_iline import displayed

WEB = {"EventPlot": ["d3.min.js", "d3.tip.v0.6.3.js"], "ILinePlot": ["dygraph-combined.js", "synchronizer.js", "underscore-min.js"]}
LOCAL = {"EventPlot": ["EventPlot.js", "EventPlot_help.jpg"], "ILinePlot": ["ILinePlot.js"]}
KIND = {f: m for d in (WEB, LOCAL) for m in d for f in d[m]}
DATA = "data"
CHUNK = 12000


def body(name):
    return (("/* %s */\n" % name) * 4000)[:2 * CHUNK].encode()


def own(name):
    return ("/* another %s */\n" % name).encode()


def ours(name):
    return open(os.path.join(tv.REPO, "trappy", "plotter", "css" if name.endswith("jpg") else "js", name), "rb").read()


def path(name):
    return os.path.join(DATA, "nbextensions", "plotter_scripts", KIND[name], name)


def state():
    """classes of the known files, number of others"""
    files, extra = {}, 0
    for n in KIND:
        p = path(n)
        if not os.path.lexists(p):
            files[n] = "none"
            continue
        t = open(p, "rb").read()
        good = body(n) if n in WEB[KIND[n]] else ours(n)
        files[n] = "good" if t == good else "own" if t == own(n) else "part"
    known = {os.path.normpath(path(n)) for n in KIND}
    for d, _, fs in os.walk(DATA):
        extra += sum(os.path.normpath(os.path.join(d, f)) not in known for f in fs)
    return {"files": files, "extra": extra}


class Viewer(object):
    """a process that shows a plot; its downloads wait for our answers"""

    def __init__(self, mod, race=False):
        self.race = race
        up_r, self.up_w = os.pipe()
        self.dn_r, dn_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(up_r), os.close(dn_w)
                self.child(mod)
            finally:
                os._exit(1)
        os.close(self.up_w), os.close(self.dn_r)
        self.up, self.dn = os.fdopen(up_r, "r"), os.fdopen(dn_w, "w")
        self.mod, self.last = mod, None

    # in the child
    def tell(self, **kw):
        os.write(self.up_w, (json.dumps(kw) + "\n").encode())

    def ask(self, **kw):
        self.tell(**kw)
        return os.read(self.dn_r, 100).decode().strip() or os._exit(1)

    def child(self, mod):
        import email.message, io, urllib.request, urllib.error, urllib.response
        me = self

        class Body(io.RawIOBase):
            def __init__(self, name):
                self.name_, self.left, self.first = name, body(name), True

            def readable(self):
                return True

            def read(self, n=-1):
                if self.first:
                    self.first = False
                    if 0 <= n:
                        n = min(n, CHUNK)
                        r, self.left = self.left[:n], self.left[n:]
                        return r
                if self.left is not None and not hasattr(self, "go"):
                    self.go = me.ask(k="mid", what=self.name_)
                    if self.go == "die":
                        os._exit(9)
                    if self.go == "reset":
                        raise ConnectionResetError(104, "Connection reset by peer")
                    if self.go == "cut":
                        self.left = b""
                r, self.left = (self.left, b"") if n < 0 else (self.left[:n], self.left[n:])
                return r

        class Web(urllib.request.BaseHandler):
            handler_order = 1

            def http_open(self, req):
                name = os.path.basename(req.full_url)
                a = me.ask(k="fetch", what=name)
                if a == "refused":
                    raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused"))
                h = email.message.Message()
                h["Content-Length"] = str(2 * CHUNK)
                r = urllib.response.addinfourl(Body(name), h, req.full_url, 404 if a == "404" else 200)
                r.msg = "Not Found" if a == "404" else "OK"
                return r
            https_open = http_open

        import logging
        logging.disable(logging.CRITICAL)
        if self.race:
            # another viewer makes each folder first
            mkdir = os.mkdir

            def late(p, *a, **kw):
                if "plotter_scripts" in str(p) and not os.path.isdir(p):
                    mkdir(p)
                return mkdir(p, *a, **kw)
            os.mkdir = late
        os.environ["JUPYTER_DATA_DIR"] = os.path.abspath(DATA)
        urllib.request.install_opener(urllib.request.build_opener(Web()))
        html = []

        def go():
            html.append(displayed(self.plot(mod).view))
        r = obs.Caught(go)
        text = "\n".join(html)
        asked = re.findall(r"['\"]/nbextensions/(plotter_scripts/[^'\"]+)['\"]", text)
        self.tell(k="failed" if r.err else "shown", what=r.err, shown=len(re.findall(r"<div id=|<table", text)) > 0 and 1 or 0,
                  missing=[] if r.err else [a for a in asked if not os.path.isfile(os.path.join(DATA, "nbextensions", a + ".js"))] + ([] if asked else ["nothing asked for"]))
        os._exit(0)

    def plot(self, mod):
        import pandas as pd
        if mod == "EventPlot":
            from trappy.plotter.EventPlot import EventPlot
            return EventPlot({"a": [[0, 1, 0]]}, ["a"], [0, 1], lane_prefix="CPU ", num_lanes=1)
        from trappy.plotter.ILinePlot import ILinePlot
        return ILinePlot(pd.DataFrame({"v": [1, 2]}, index=[0.0, 1.0]), column="v")

    # in the parent
    def wait(self):
        line = self.up.readline()
        self.last = dict({"what": "", "shown": 0, "missing": []}, **json.loads(line)) if line else {"k": "dead", "what": "", "shown": 0, "missing": []}
        if self.last["k"] in ("dead", "shown", "failed"):
            self.end()
        return self.last

    def send(self, text):
        self.dn.write(text + "\n")
        self.dn.flush()

    def end(self, kill=False):
        if self.pid:
            if kill:
                os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.pid = 0
            self.up.close()
            self.dn.close()


SKIP = {"k": "skip", "what": "", "shown": 0, "missing": []}


def execute(case):
    tv.trappy()
    import matplotlib
    import trappy.plotter.EventPlot, trappy.plotter.ILinePlot
    for f in case["have"]:
        os.makedirs(os.path.dirname(path(f)), exist_ok=True)
        open(path(f), "wb").write(own(f))
    res = dict(state(), ev=[], err="", msg="")
    views = {}
    try:
        for c in case["cmds"]:
            v = views.get(c["p"])
            busy = v is not None and v.last["k"] in ("fetch", "mid")
            if c["c"] == "put":
                if not any(w.last["k"] in ("fetch", "mid") for w in views.values()):
                    if c["to"] == "none":
                        if os.path.exists(path(c["f"])):
                            os.unlink(path(c["f"]))
                    else:
                        os.makedirs(os.path.dirname(path(c["f"])), exist_ok=True)
                        open(path(c["f"]), "wb").write(own(c["f"]))
                now = SKIP
            elif c["c"] == "start":
                if busy:
                    now = SKIP
                else:
                    v = views[c["p"]] = Viewer(c["m"], case.get("race", False))
                    now = v.wait()
            elif not busy or v.last["k"] != ("fetch" if c["c"] == "answer" else "mid"):
                now = SKIP
            else:
                v.send({"no": c["how"], "cut": c["how"]}.get(c["o"], c["o"]))
                now = v.wait()
            res["ev"].append(dict({"c": c["c"], "p": c["p"], "m": v.mod if v else "", "o": c.get("o", ""), "f": c.get("f", ""), "to": c.get("to", "")},
                                  **dict({k: now[k] for k in ("k", "what", "shown", "missing")}, **state())))
    finally:
        for v in views.values():
            v.end(kill=True)
    return res


HOW = {"no": ["refused", "404"], "cut": ["cut", "reset"]}


def from_log(rng, log):
    m = "EventPlot" if rng.random() < 0.7 else "ILinePlot"
    have = [] if log[0]["p"] == 0 else ["d3.min.js", "EventPlot.js", "EventPlot_help.jpg"] if m == "EventPlot" else ["dygraph-combined.js", "ILinePlot.js"]
    return {"have": have, "cmds": [cmd(rng, l["c"], l["p"], m, l["o"]) for l in log[1:]]}


def cmd(rng, c, p, m, o):
    return {"c": c, "p": p, "m": m, "o": o, "how": rng.choice(HOW[o]) if o in HOW else ""}


def gen(rng):
    """longer histories of both kinds of plot"""
    have = [f for f in sorted(KIND) if rng.random() < rng.choice([0, 0.3, 0.8])]
    cmds = []
    st = {1: "rest", 2: "rest"}
    luck = rng.choice([0.5, 0.8, 0.95])
    for _ in range(rng.choice([4, 8, 14, 24])):
        p = rng.choice([1, 1, 2])
        if rng.random() < 0.1:
            f = rng.choice(sorted(KIND))
            cmds.append({"c": "put", "p": 0, "m": "", "o": "", "how": "", "f": f, "to": rng.choice(["none", "own"])})
        elif st[p] == "rest" or rng.random() < 0.1:
            cmds.append(cmd(rng, "start", p, rng.choice(["EventPlot", "ILinePlot"]), ""))
            st[p] = "busy"
        else:
            ok = rng.random() < luck
            cmds.append(cmd(rng, "answer", p, "", "go" if ok else "no"))
            cmds.append(cmd(rng, "end", p, "", "ok" if rng.random() < luck else rng.choice(["cut", "die"])))
            if rng.random() < 0.2:
                st[p] = "rest"
    # let everybody finish
    for p in (1, 2):
        cmds += [cmd(rng, c, p, "", o) for _ in range(4) for c, o in (("answer", "go"), ("end", "ok"))]
    return {"have": have, "cmds": cmds, "race": rng.random() < 0.3}


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Resources", emits=True)
    cases = [from_log(rng, r) for r in rng.sample(recs, min(len(recs), chk.pick(500, 8000)))]
    chk.run(execute, cases, "Trace_Resources", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(250, 5000))], "Trace_Resources", label="seeded-histories")
    chk.assumptions = ["downloads are answered by a stand-in for the web (urllib's openers)", "a download without a declared length cannot be told to be incomplete"]
