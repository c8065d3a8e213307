"""C26: every class that can be copied: the specifications' own copies explored, and copies at random places of
seeded scripts of every family (see _copies)."""
import concurrent.futures as cf
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import main, merge_scripts
import _copies

# family, driver, part, depth quick and thorough: instances whose actions include copies
PARTS = [("Fit", "drv_fit", "Fit", 5, 6), ("Gen", "drv_gen", "Draw", 5, 6), ("Event", "drv_event", "Ds", 5, 6), ("Event", "drv_event", "Cut", 5, 6),
         ("Param", "drv_param", "Cp", 4, 6), ("Nllh", "drv_nllh", "Bm", 5, 6)]


def f(c):
    drivers = sorted({k["drv"] for k in _copies.KINDS.values()})
    for d in drivers[:1]:
        c.driver(d)
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(lambda: [c.driver(d) for d in drivers[1:]])
        sc = [(fam, drv, part, c.model(fam + "MC", fam + "MC.cfg", workers=4, emit=True,
                                       consts={"DoEmit": "TRUE", "Ops": '{"%s"}' % part, "MaxLevel": str(t if c.thorough else q)}))
              for fam, drv, part, q, t in PARTS]
        b.result()
    for fam, drv, part, s in sc:
        s = [x for x in s if any("Copy" in o["op"] for o in x)]
        c.conform(drv, fam + "Trace", fam + "Trace.cfg", merge_scripts(s, set()), "tlc-" + fam + part)
    for kind, k in _copies.KINDS.items():
        c.conform(k["drv"], k["fam"] + "Trace", k["fam"] + "Trace.cfg", _copies.scripts(c.rng, kind, 5000 if c.thorough else 250), kind)
    c.run_known()


if __name__ == "__main__":
    main("C26", f)
