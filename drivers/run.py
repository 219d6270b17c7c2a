"""run.py PROPERTY [--thorough]: dispatch to the driver that owns the property."""
import importlib, sys, traceback
import tv

OWNERS = {
    "C01": "reader", "C02": "reader", "C03": "reader", "C04": "reader", "C05": "reader",
    "C06": "reader", "C10": "reader",
    "C07": "cache", "C08": "cache", "C09": "registry", "C13": "bare", "C11": "systrace", "C16": "stats", "C17": "stats", "C14": "callbacks", "C15": "dedup", "C18": "corr", "C19": "grammar", "C20": "grammar", "C12": "inputs", "C21": "constraint", "C22": "constraint", "C23": "plots", "C24": "iline", "C25": "residency", "C26": "signals", "C27": "power", "C28": "compare", "C29": "results", "C30": "sysfs", "C31": "nbexport", "C32": "resources", "C33": "publish", "C34": "timeline", "C35": "linked", "C36": "csv", "C37": "race",
}

prop = sys.argv[1]
if prop not in OWNERS:
    print("unknown property", prop, file=sys.stderr)
    sys.exit(2)
mod = importlib.import_module("drv_" + OWNERS[prop])
tv.main(prop, lambda chk: mod.check(chk, prop))
