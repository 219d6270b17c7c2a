"""C01-C06, C10: openings of text traces, recorded and validated against
spec/Reader.tla + spec/Decoders.tla through Trace_Reader."""
import io, os, random
import tv, obs, drv_bulk

# ------------------------------------------------------------ real execution


PIDKEYS = ["", "4", "app", "swapper", "a", "zz"]


def execute(case):
    t = tv.trappy()
    t.FTrace.disable_cache = not case.get("cache", False)
    with io.open("trace.txt", "w", encoding="utf-8", newline="") as f:
        f.write(u"".join(l + case.get("eol", "\n") for l in case["lines"])[: None if case.get("lastnl", True) else -1])

    def win(w):
        return tuple(None if b == [] else b[0] + b[1] / 1e9 for b in w)
    kw = dict(normalize_time=case["norm"])
    if "win" in case:
        if case["win"]["rel"] != [[0, 0, 0], []]:
            kw["window"] = win(case["win"]["rel"])
        if case["win"]["abs"] != [[0, 0, 0], []]:
            kw["abs_window"] = win(case["win"]["abs"])
    regs = []
    try:
        for s in case["sel"]:
            if s["how"] == "dynamic":
                regs.append(t.register_dynamic_ftrace(s["cls"], s["word"]))
        scope = case["scope"]
        events = [s["ask"] for s in case["sel"] if s["how"] == "event"]
        names = [s["name"] for s in case["sel"]]
        r = obs.Caught(lambda: t.FTrace("trace.txt", scope=scope, events=events, **kw))
        if not r.err and case.get("cache"):
            r = obs.Caught(lambda: t.FTrace("trace.txt", scope=scope, events=events, **kw))
    finally:
        for c in regs:
            t.unregister_dynamic_ftrace(c)
    fw = sum(1 for w in r.warns if "failed to parse" in w)
    if r.err:
        named = any(l.strip() and l.split(": ")[-1].split()[-1] in r.msg for l in case["lines"] if ": " in l and l.split(": ")[-1].split())
        return {"err": r.err, "named": bool(named), "fwarn": fw, "pids": [], "events": {}, "base": [0, 0], "end": [0, 0]}
    tr = r.res
    pids = []
    if "sched_load_avg_task" in names and hasattr(tr, "sched_load_avg_task"):
        for key in PIDKEYS:
            g = obs.Caught(lambda: tr.sched_load_avg_task.get_pids(*([key] if key else [])))
            pids.append({"key": key, "err": g.err, "pids": [] if g.err else [[str(c), str(p)] for c, p in g.res]})
    return {"err": "", "named": False, "fwarn": fw, "pids": pids,
            "events": obs.trace_events(tr, names),
            "base": tv.secns(tr.basetime), "end": tv.secns(tr.endtime)}


# ---------------------------------------------------------------- generators
OPEN = {"rel": [[0, 0, 0], []], "abs": [[0, 0, 0], []]}


def ev(name, kind="kv", word=None, fb=False, how="event", ask=None, cls=None):
    return {"name": name, "word": word or name + ":", "fb": fb, "kind": kind, "how": how,
            "ask": ask or name, "cls": cls or ""}


MARK = ev("tracing_mark_write", "text", fb=True)

COMMS = ["sh", "trace-cmd", "<idle>", "<...>", "kworker/0:1-events", "Binder:12_3", "my app",
         "a-1", "x-2 [003]", "irq/45-sda-7", "[dead]", "(odd)", "a (b) c", "top-", "-", "90-9",
         "swapper/0", "GC.Thread", "a=b", "rcu_sched", "comm with  two blanks", "Chrome_IOThread", "12345",
         "nohup-99 (77)", "t:1", "ev", u"caf\u00e9"]


def stamp(rng, state, style):
    """next timestamp text"""
    mode = rng.random()
    if mode < 0.2:
        pass                                   # equal
    elif mode < 0.3:
        state[0] = max(0, state[0] - rng.choice([1, 5, 1000, 2000000]))   # back in time
    else:
        state[0] += rng.choice([1, 1, 2, 10, 999, 1000, 123456, 1000000, 7000001])
    us = state[0]
    if style == "us":
        return "%d.%06d" % (us // 1000000, us % 1000000)
    if style == "ns9":
        return "%d.%09d" % (us // 1000000, (us % 1000000) * 1000 + state[1])
    if style == "int":
        return "%d" % (us * 1000 + state[1])
    if style == "short":
        return "%d.%d" % (us // 10, us % 10)
    raise KeyError(style)


def prefix(rng, comm=None, plain=False):
    comm = comm if comm is not None else rng.choice(COMMS)
    pid = rng.choice(["0", "1", "22", "4242", "65535", "123456", "007"])
    cpu = rng.choice(["000", "001", "3", "07", "015", "127"])
    sp = rng.choice(["", " ", "   ", "\t", "          "])
    s1 = rng.choice([" ", "  ", "    "])
    tg = rng.choice(["", "", "", " (  %s)" % rng.choice(["12", "999"]), " (-----)", " (12)"])
    fl = rng.choice(["", "", " ....", " d..2", "  dNh3", " .N.1"])
    if plain:
        tg = fl = ""
    return "%s%s-%s%s%s[%s]%s" % (sp, comm, pid, tg, s1, cpu, fl)


def line(rng, st, style, event, payload, comm=None, plain=False):
    gap = rng.choice([" ", "  ", "      "])
    return "%s%s%s: %s:%s%s" % (prefix(rng, comm, plain), rng.choice([" ", "  ", "    "]),
                                stamp(rng, st, style), event, gap, payload)


JUNK = ["", " ", "CPU:0 [LOST 12 EVENTS]", "CPU 1 is empty", "cpus=8", "version = 6", "# tracer: nop", "#",
        "  sh-1 [000] 1.5: ev_a:", "  sh-1 [000] 1.5: ev_a", "  sh-1 (x) [00] nothing", "sh-1 000 12.5: ev_a: a=1",
        "sh [000] 12.5: ev_a: a=1", "  sh-1 [000] 12.5:ev_a: a=1", "sh-x [000] 12.5: ev_a: a=1",
        "sh-1 [00a] 12.5: ev_a: a=1", "  sh-12[000] 12.5: ev_a: a=1", "  sh-12 [000]12.5: ev_a: a=1",
        "  sh-1 [000] .5: ev_a: a=1", "  sh-1 [000] 1.: ev_a: a=1", "ev_a: ev_b: a=1", "  sh-1 [000]  12.5:  ev_a: a=1",
        "a=1 b=2", "    sh-12   [000] 12.5: ev-a: a=1"]


def word(rng):
    return "".join(rng.choice("abcxyz_019/.-:") for _ in range(rng.randint(1, 6)))


def simple_payload(rng):
    return " ".join("%s=%s" % (rng.choice(["a", "b", "cpu", "state"]), rng.choice(["1", "0", "77", "foo", "-3", "0x1f"]))
                    for _ in range(rng.randint(1, 3)))


KV = [ev("ev_a"), ev("ev_b"), ev("other_event"), ev("my_thing", word="my_thing:", how="dynamic", cls="MyThing")]


def base_case(rng, sel, lines, **kw):
    c = {"sel": sel, "lines": lines, "norm": rng.random() < 0.6, "scope": "custom", "win": OPEN, "cache": False,
         "eol": "\n", "lastnl": True}
    if any(s["how"] == "dynamic" for s in sel):
        c["scope"] = "all"
    c.update(kw)
    return c


def gen_lines(rng, n, evs, payload=simple_payload, junk=0.15, style=None, plain=False):
    style = style or rng.choice(["us", "us", "us", "ns9", "int", "short"])
    st = [rng.choice([0, 5, 1000000, 123456789, 99999000000]), rng.choice([0, 1, 999])]
    if style == "short":
        st[0] = rng.choice([0, 5, 1000])
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        out.append(rng.choice(["version = 6", "cpus=8", "# tracer: nop", "", "CPU 1 is empty"]))
    for _ in range(n):
        if rng.random() < junk:
            out.append(rng.choice(JUNK))
        else:
            e = rng.choice(evs + ["unselected_thing"])
            out.append(line(rng, st, style, e, payload(rng), plain=plain))
    return out


def gen_c01(rng):
    sel = rng.sample(KV[:3], rng.randint(1, 3))
    if rng.random() < 0.3:
        sel = sel + [KV[3]]
    lines = gen_lines(rng, rng.randint(1, 9), [s["name"] for s in sel], junk=0.25)
    return base_case(rng, sel, lines, eol=rng.choice(["\n", "\n", "\n", "\r\n"]), lastnl=rng.random() < 0.7)


MARKTXT = ["hello world", "B|123|foo", "ev_a happened", "ev_b: a=1", "other_event: x=2", "not an ev_a: b=3", "C|1|x|2",
           "tracing_mark_write", "E", "cpu_idle: state=1", "my_mark=3", "my_mark: a=1", "a=my_mark", "my_mark", "a=1 my_mark b=2", "n=phase two", "phase two=2", "phase three=1"]
# words need not end with a colon
WORDS = [ev("my_mark", word="my_mark", how="dynamic", cls="MyMark"), ev("phase_two", word="phase two", how="dynamic", cls="PhaseTwo")]


def gen_c02(rng):
    sel = rng.sample(KV[:3], rng.randint(0, 3))
    if rng.random() < 0.8 or not sel:
        sel = sel + [MARK]
    if rng.random() < 0.3:
        sel = sel + [KV[3]]
    if rng.random() < 0.3:
        sel = sel + rng.sample(WORDS, rng.randint(1, 2))
    rng.shuffle(sel)
    st, out = [1000000, 0], []
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.5:
            out.append(line(rng, st, "us", rng.choice(["tracing_mark_write", "print"]), rng.choice(MARKTXT), plain=True))
        elif r < 0.9:
            e = rng.choice(["ev_a", "ev_b", "other_event", "my_thing", "unselected_thing", "ev_aa", "my_ev_a"])
            out.append(line(rng, st, "us", e, rng.choice([simple_payload(rng), "note=ev_b: k=1", "t=tracing_mark_write: k=1"]),
                            comm=rng.choice(["sh", "ev_a", "ev_b:", "tracing_mark_write:x"]), plain=True))
        else:
            out.append(rng.choice(JUNK))
    if any(s["how"] == "dynamic" for s in sel):
        out = [l.replace("cpu_idle", "cpu_ide") for l in out]     # all built-in events are selected too
    c = base_case(rng, sel, out)
    # events with two owners in one line share "kv" payloads; every payload has a key
    return c


def gen_c03(rng):
    sel = rng.sample(KV[:3], rng.randint(1, 3))
    lines = gen_lines(rng, rng.randint(2, 14), [s["name"] for s in sel], junk=0.05, plain=True,
                      payload=lambda r: "a=%d" % r.randint(0, 9))
    return base_case(rng, sel, lines)


VALUES = ["0", "1", "42", "-7", "+5", "0x1f", "0XFF", "-0x10", "0o17", "0b101", "007", "010", "00", "0x", "0xg1", "1_000",
          "1__0", "_1", "1_", "0x_f", "12a", "1.5", "-", "+", "--1", "", "foo", "a=b", "=", "x=1=2", "none", "True", "nan",
          "4294967295", "18446744073709551615", "-9223372036854775808", "99999999999999999999999", "0xffffffffffffffffff",
          "deadbeef", "1e5", "{}x", "[1]", "a,b", "0b12", "0o8", "swapper/0", "NA", "inf", "\"q\"", "back\\slash"]
BIG = {"18446744073709551615", "-9223372036854775808", "99999999999999999999999", "0xffffffffffffffffff"}
KEYS = ["a", "b", "k1", "prev_comm", "pid", "x.y", "load", "A", "Time", "index", "size"]


def kv_payload(rng, keys=None, vals=None):
    keys = keys or KEYS
    parts = []
    for i in range(rng.randint(1, 5)):
        parts.append("%s=%s" % (rng.choice(keys), rng.choice(vals or VALUES)))
        while rng.random() < 0.25:
            parts.append(rng.choice(["free", "word", "7", "0x3", "a-b", "(x)", "->", "~"]).replace("=", ""))
    sep = rng.choice([" ", " ", "  ", "\t"])
    return sep.join(parts)


def gen_c04(rng):
    sel = rng.sample(KV[:2], rng.randint(1, 2))
    n = rng.randint(1, 5)
    same = rng.random() < 0.5     # every row has the same keys: big integers stay exact
    vals = VALUES if same else [v for v in VALUES if v not in BIG]
    keys = rng.sample(KEYS, rng.randint(1, 4))

    def payload(r):
        if same:
            parts = []
            for k in keys:
                parts.append("%s=%s" % (k, r.choice(vals)))
                if r.random() < 0.2:
                    parts.append(r.choice(["free", "word", "7"]))
            return " ".join(parts)
        x = r.random()
        if x < 0.06:
            return r.choice(["no keys here", "word", "two words then a=1", "{1 2}"])
        if x < 0.14:
            return r.choice(["[FAILED TO PARSE] a=1", "FAILED TO PARSE", "[FAILED TO PARSE] a=x y b=2", "a=1 FAILED TO PARSE"])
        return kv_payload(r, keys, vals)
    st, out = [1000000, 0], []
    for _ in range(n):
        out.append(line(rng, st, "us", rng.choice(["ev_a", "ev_b"]), payload(rng), plain=True, comm="sh"))
    return base_case(rng, sel, out)


def gen_c05(rng):
    sel = rng.sample(KV[:2], rng.randint(1, 2))
    st, out = [1000000, 0], []
    names = rng.sample(["load", "freq", "a_1", "X", "z9"], rng.randint(1, 3))
    for _ in range(rng.randint(1, 6)):
        parts = []
        for nme in names:
            r = rng.random()
            if r < 0.6:
                parts.append("%s={%s}" % (nme, " ".join(rng.choice(["0", "1", "7", "-2", "0x3", "foo", "12345", "a,b"])
                                                        for _ in range(rng.choice([1, 1, 2, 3, 4, 11])))))
            elif r < 0.75:
                parts.append("%s={}" % nme)
            if rng.random() < 0.5:
                parts.append("%s=%s" % (rng.choice(["k", "cpu", "s"]), rng.choice(["1", "0", "str", "}", "x}"])))
        if not parts:
            parts = ["k=1"]
        rng.random() < 0.3 and rng.shuffle(parts)
        out.append(line(rng, st, "us", rng.choice(["ev_a", "ev_b"]), " ".join(parts), plain=True, comm="sh"))
    return base_case(rng, sel, out)


def bound(rng, times):
    """<<sec, nsec, 0>> near or at one of the (exactly representable) times"""
    n = rng.choice(times) + rng.choice([0, 0, 0, -7812500, 7812500, 15625000, -1000000000])
    n = max(0, n)
    return [n // 10 ** 9, n % 10 ** 9, 0]


def gen_c06(rng):
    sel = rng.sample(KV[:3], rng.randint(1, 3))
    tick = 15625000                  # 1/64 s: exact in binary
    t = rng.choice([0, 0, 1, 64, 6400]) * tick
    t0, times, out = None, [], []
    for _ in range(rng.randint(1, 8)):
        t += rng.choice([0, 1, 1, 2, 5]) * tick
        if rng.random() < 0.07:
            t = max(0, t - tick)
        if t0 is None:
            t0 = t
        times.append(t)
        e = rng.choice([s["name"] for s in sel] * 4 + ["unselected_thing"])
        out.append("  sh-1 [000] %d.%09d: %s: a=%d s=x" % (t // 10 ** 9, t % 10 ** 9, e, rng.randint(0, 9)))
        if rng.random() < 0.05:
            out.append("junk")
    rel = [[0, 0, 0], []]
    ab = [[0, 0, 0], []]
    rt = [x - t0 for x in times if x >= t0]
    if rng.random() < 0.7:
        rel = [bound(rng, rt) if rng.random() < 0.7 else [0, 0, 0], bound(rng, rt) if rng.random() < 0.7 else []]
    if rng.random() < 0.7:
        ab = [bound(rng, times) if rng.random() < 0.7 else [0, 0, 0], bound(rng, times) if rng.random() < 0.7 else []]
    return base_case(rng, sel, out, win={"rel": rel, "abs": ab}, cache=rng.random() < 0.4)


# --------------------------------------------------------------- C10 formats
def b(name, kind, word=None, mk=None, ask=None):
    e = ev(name, kind, word=word, ask=ask)
    e["mk"] = mk
    return e


def r_int(r):
    return r.choice(["0", "1", "7", "123", "1400000", "4294967294", "-1", "-22", "65536"])


def r_comm(r):
    return r.choice(["swapper/0", "sh", "sh", "my app", "kworker/0:1", "x y z", "a-b", "4", "foo -> bar"])


CLK = lambda r: "%s state=%s cpu_id=%s" % (r.choice(["l2_clk", "bus", "gcc_a", "3", "a=b"]), r_int(r), r.choice("0127"))
MK = {
    "clock_enable": ("clk", None, CLK), "clock_disable": ("clk", None, CLK), "clock_set_rate": ("clkrate", None, CLK),
    "sys_enter": ("sysenter", "sys_enter", lambda r: "NR %s (%s)" % (r.choice(["0", "64", "192", "4095"]), ", ".join(
        r.choice(["0", "1", "a", "ff", "7764ee9000", "ffffffffffffffff", "-1", "DEADbeef", "103"]) for _ in range(6)))),
    "sys_exit": ("sysexit", "sys_exit", lambda r: "NR %s = %s" % (r.choice(["0", "64", "192", "-1"]), r.choice(
        ["0", "1", "-11", "-2", "4096", "9223372036854775807", "-9223372036854775808", "+3"]))),
    "cpu_idle": ("idle", "cpu_idle", lambda r: "state=%s cpu_id=%s" % (r.choice(["4294967295", "0", "1", "2", "4294967294", "0xffffffff"]), r.choice("01237"))),
    "ext4_da_write_begin": ("ext4", None, lambda r: "dev %s ino %s pos %s len %s flags %s" % (r.choice(["8,16", "259,14"]), r_int(r), r_int(r), r_int(r), r_int(r))),
    "ext4_da_write_end": ("ext4", None, lambda r: "dev %s ino %s pos %s len %s copied %s" % (r.choice(["8,16", "259,14"]), r_int(r), r_int(r), r_int(r), r_int(r))),
    "ext4_sync_file_enter": ("ext4", None, lambda r: "dev %s ino %s parent %s datasync %s " % ("8,16", r_int(r), r_int(r), r.choice("01"))),
    "ext4_sync_file_exit": ("ext4", None, lambda r: "dev %s ino %s ret %s" % ("8,16", r_int(r), r_int(r))),
    "f2fs_write_begin": ("f2fs", None, lambda r: "dev = (%s,%s), ino = %s, pos = %s, len = %s, flags = %s" % (r.randint(0, 300), r.randint(0, 50), r_int(r), r_int(r), r_int(r), r_int(r))),
    "f2fs_write_end": ("f2fs", None, lambda r: "dev = (%s,%s), ino = %s, pos = %s, len = %s, copied = %s" % (r.randint(0, 300), r.randint(0, 50), r_int(r), r_int(r), r_int(r), r_int(r))),
    "f2fs_sync_file_enter": ("f2fs", None, lambda r: "dev = (%s,%s), ino = %s, pino = %s, i_mode = 0x%x, i_size = %s, i_nlink = %s, i_blocks = %s, i_advise = 0x%x" % (179, 0, r_int(r), r_int(r), r.randint(0, 65535), r_int(r), r.randint(0, 3), r_int(r), r.randint(0, 255))),
    "f2fs_sync_file_exit": ("f2fsexit", None, lambda r: "dev = (%s,%s), ino = %s, checkpoint is %s, datasync = %s, ret = %s" % (179, 0, r_int(r), r.choice(["needed", "not needed"]), r.choice("01"), r_int(r))),
    "cpu_frequency": ("freq", None, lambda r: "state=%s cpu_id=%s" % (r_int(r), r.choice("0127"))),
    "cpu_capacity": ("capacity", None, lambda r: "state=%s cpu_id=%s" % (r_int(r), r.choice("0127"))),
    "sched_switch": ("switch", None, lambda r: "prev_comm=%s prev_pid=%s prev_prio=120 prev_state=%s ==> next_comm=%s next_pid=%s next_prio=%s" % (r.choice(["sh", "my app", "swapper/0"]), r_int(r), r.choice(["R", "S", "0", "1024", "R+"]), r_comm(r), r_int(r), r_int(r))),
    "sched_load_avg_sg": ("mask", None, lambda r: "cpus=%s load=%s utilization=%s" % (r.choice(["00000002", "0000000f", "2", "ff", "0x3", "00000000", "123456789", "f00", "1"]), r_int(r), r_int(r))),
    "sched_wakeup": ("kv", None, lambda r: "comm=%s pid=%s prio=%s success=1 target_cpu=%s" % (r_comm(r), r_int(r), r_int(r), r.choice(["000", "001", "3"]))),
    "sched_wakeup_new": ("kv", None, lambda r: "comm=%s pid=%s prio=%s success=1 target_cpu=%s" % (r_comm(r), r_int(r), r_int(r), r.choice(["000", "001", "3"]))),
    "sched_migrate_task": ("kv", None, lambda r: "comm=%s pid=%s prio=%s orig_cpu=%s dest_cpu=%s" % (r_comm(r), r_int(r), r_int(r), r.choice("01"), r.choice("23"))),
    "sched_load_avg_cpu": ("kv", None, lambda r: "cpu=%s load=%s utilization=%s" % (r.choice("0127"), r_int(r), r_int(r))),
    "sched_load_avg_task": ("kv", None, lambda r: "comm=%s pid=%s load=%s utilization=%s" % (r_comm(r), r.choice(["1", "22", "22", r_int(r)]), r_int(r), r_int(r))),
    "thermal_temperature": ("kv", None, lambda r: "thermal_zone=%s id=%s temp_prev=%s temp=%s" % (r.choice(["cpu-thermal", "zone a"]), r.choice("01"), r_int(r), r_int(r))),
}
# sel names follow trappy's naming: the word before the colon, camel case for dynamic ones
ATTR = {"thermal_temperature": "thermal", "sched_migrate_task": "sched_migrate_task"}


def gen_c10(rng):
    names = rng.sample(sorted(MK), rng.randint(1, 4))
    st, out = [1000000, 0], []
    sel = []
    for n in names:
        kind, w, mk = MK[n]
        sel.append(ev(ATTR.get(n, n), kind, word=w or n + ":", ask=n))
    tasks = rng.randint(3, 6) if rng.random() < 0.5 else 0     # several samples of few tasks
    if tasks and "sched_load_avg_task" not in names:
        names[0] = "sched_load_avg_task"
        sel[0] = ev("sched_load_avg_task", "kv", word="sched_load_avg_task:", ask="sched_load_avg_task")
    seq = [n for n in names for _ in range(rng.randint(1, 3))] + ["sched_load_avg_task"] * tasks
    rng.shuffle(seq)
    for n in seq:
        out.append(line(rng, st, "us", n, MK[n][2](rng), plain=True, comm="sh"))
    return base_case(rng, sel, out)


GEN = {"C01": gen_c01, "C02": gen_c02, "C03": gen_c03, "C04": gen_c04, "C05": gen_c05, "C06": gen_c06, "C10": gen_c10}
COUNT = {"C01": (700, 6000), "C02": (600, 5000), "C03": (600, 5000), "C04": (900, 8000), "C05": (700, 6000), "C06": (700, 6000),
         "C10": (700, 6000)}


EV_A = ev("ev_a")


def from_payloads(recs):
    for r in recs:
        yield base_case(random.Random(1), [EV_A], ["  sh-1 [000] %d.5: ev_a: %s" % (i + 1, p) for i, p in enumerate(r["payloads"])])


def from_windows(recs):
    for i, r in enumerate(recs):
        ls = ["  sh-1 [000] %d.%09d: ev_%s: a=%d" % (t[0], t[1], "ab"[j % 2], j) for j, t in enumerate(r["times"])]
        yield base_case(random.Random(i), [EV_A, ev("ev_b")], ls, win={"rel": r["rel"], "abs": r["abs"]})


def from_formats(recs):
    for i, r in enumerate(recs):
        e = ev(ATTR.get(r["name"], r["name"]), r["kind"], word=MK[r["name"]][1] or r["name"] + ":", ask=r["name"])
        yield base_case(random.Random(i), [e], ["  sh-1 [000] %d.5: %s: %s" % (j + 1, r["name"], p) for j, p in enumerate(r["payloads"])])


def check(chk, prop):
    gen = GEN[prop]
    special = {"C04": ("MC_Payload", from_payloads), "C05": ("MC_Array", from_payloads),
               "C06": ("MC_Window", from_windows), "C10": ("MC_Decoders", from_formats)}
    if prop in special:
        mod, mk = special[prop]
        recs = chk.mc(mod, emits=True)
        cases = list(mk(recs))
        chk.run(execute, cases if chk.thorough or len(cases) <= 900 else chk.rng.sample(cases, 900),
                "Trace_Reader", label="model-behaviours")
        n = COUNT[prop][1 if chk.thorough else 0]
        chk.run(execute, [gen(chk.rng) for _ in range(n)], "Trace_Reader", label="seeded-executions")
        if prop == "C06":
            drv_bulk.more(chk)
        chk.assumptions = ["payload characters are ASCII; array braces are balanced"]
        return
    # (1) the reader model itself, exhaustively, emitting every behaviour
    recs = chk.mc("MC_Reader", emits=True)
    head = [r for r in recs if "templates" in r][0]
    cases = []
    for r in recs:
        if "hist" not in r:
            continue
        sel = [dict(s, how="event", ask=s["name"], cls="") for s in head["sels"][r["sel"] - 1]]
        c = base_case(random.Random(len(cases)), sel, [head["templates"][i - 1] for i in r["hist"]])
        cases.append(c)
    # (2) replay the model's behaviours into the code, validate what it did
    if True:
        lim = chk.pick(900, len(cases))
        if len(cases) > lim:
            cases = chk.rng.sample(cases, lim)
        chk.run(execute, cases, "Trace_Reader", label="model-behaviours")
    # (3) seeded executions of the code
    n = COUNT[prop][1 if chk.thorough else 0]
    chk.run(execute, [gen(chk.rng) for _ in range(n)], "Trace_Reader", label="seeded-executions")
    if prop in ("C01", "C03"):
        drv_bulk.more(chk)
    chk.assumptions = ["lines are ASCII text (plus opaque letters) terminated by newlines",
                       "a header matches the documented ftrace line format; ambiguous task names resolve to the longest name"]
