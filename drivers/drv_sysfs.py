"""C30: parameters of sysfs dumps against spec/Sysfs.tla."""
import io, os
import tv, obs

ZONE = os.path.join("after", "sys", "devices", "virtual", "thermal", "thermal_zone0")


def lay(case, base):
    where = {"zone": ZONE, "other": ZONE[:-1] + "1", "before": ZONE.replace("after", "before"), "up": os.path.dirname(ZONE)}
    if case["zone"]:
        os.makedirs(os.path.join(base, ZONE))
    for f in case["files"]:
        d = os.path.join(base, where[f["dir"]])
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f["name"])
        if f["kind"] == "dir":
            os.makedirs(fn)
        elif f["kind"] == "gone":
            os.symlink("/nonexistent/x", fn)
        else:
            with io.open(fn, "w", newline="") as fh:
                fh.write(f["text"])


def tree(base):
    return sorted((d, f, io.open(os.path.join(d, f), newline="").read()) for d, _, fs in os.walk(base) for f in fs if os.path.isfile(os.path.join(d, f)))


def listed(ps):
    return [{"name": str(k), "num": isinstance(v, int) and not isinstance(v, bool), "text": str(v)} for k, v in sorted(ps.items())]


def execute(case):
    tv.trappy()
    from trappy.wa import SysfsExtractor
    from IPython.core.interactiveshell import InteractiveShell
    from IPython.utils.capture import capture_output
    from bs4 import BeautifulSoup
    InteractiveShell.instance()
    base = "run"
    os.makedirs(base)
    lay(case, base)
    before = tree(base)

    def go():
        x = SysfsExtractor(base if case["rel"] else os.path.abspath(base))
        ps = x.get_parameters()
        again = ps == x.get_parameters() == SysfsExtractor(base).get_parameters()
        with capture_output() as cap:
            x.pretty_print_in_ipython()
        shown = []
        for out in cap.outputs:
            soup = BeautifulSoup(out.data.get("text/html", ""), "html.parser")
            for tr in soup.find_all("tr"):
                cs = [c.get_text() for c in tr.find_all(["th", "td"])]
                if len(cs) >= 2:
                    shown.append({"name": cs[0], "text": cs[1].replace("\\n", "\n")})
        return {"params": listed(ps), "again": again, "shown": shown, "displays": len(cap.outputs)}
    r = obs.Caught(go)
    return dict(r.res or {"params": [], "again": True, "shown": [], "displays": 0}, err=r.err, msg=r.msg[:200], kept=before == tree(base))


TEXTS = ["0\n", "1024\n", "1024", "-1200\n", "", "\n", "power_allocator\n", "power_allocator", "step_wise\n", "2147483648\n", "123456789012345678901234\n", "007\n", "-0\n", "+5\n",
         "1\n\n", "a\nb\n", "0x10\n", "1.5\n", "-\n", "75000\nx", "enabled"]
NAMES = ["integral_cutoff", "k_d", "k_i", "k_po", "k_pu", "policy", "sustainable_power", "cdev0_weight", "cdev1_weight", "cdev2_weight", "cdev10_weight", "cdev123_weight",
         "trip_point_0_temp", "trip_point_1_temp", "trip_point_12_temp"]
OTHERS = ["mode", "temp", "type", "trip_point_0_type", "trip_point_0_hyst", "cdev0_trip_point", "cdev_weight", "k_x", "K_D", "policyx", "available_policies", "cdevx_weight", "trip_point_temp",
          "xcdev3_weight", "cdev4_weight_old", "trip_point_2_temp.bak"]


def gen(rng):
    files = []
    for n in rng.sample(NAMES, rng.choice([0, 1, 3, 7, len(NAMES)])) + rng.sample(OTHERS, rng.choice([0, 0, 2, 5])):
        kind = rng.choice(["file"] * 12 + ["dir", "gone"])
        files.append({"name": n, "text": rng.choice(TEXTS), "kind": kind, "dir": rng.choice(["zone"] * 10 + ["other", "before", "up"])})
    return {"files": files, "zone": rng.random() < 0.9, "rel": rng.random() < 0.5}


def check(chk, prop):
    rng = chk.rng
    recs = chk.mc("MC_Sysfs", emits=True)
    cases = [{"files": r["files"], "zone": rng.random() < 0.9, "rel": rng.random() < 0.5} for r in rng.sample(recs, min(len(recs), chk.pick(1200, 20000)))]
    chk.run(execute, cases, "Trace_Sysfs", label="model-behaviours")
    chk.run(execute, [gen(rng) for _ in range(chk.pick(1000, 15000))], "Trace_Sysfs", label="seeded-dumps")
    chk.assumptions = ["only files of thermal zone 0 after the run are parameters", "files named like a parameter with more around it are left open"]
