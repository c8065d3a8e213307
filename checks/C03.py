"""C03: HistSys, scripts from TLC and seeded scripts (projections)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concurrent.futures as cf
from vlib import main, merge_scripts
import _hist

Q = {"GetBin", "Integral", "Means", "Vars", "Range"}
OPS = '{"Proj"}'


def run(c):
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(c.driver, "drv_hist")
        sc = c.model("HistMC", "HistMC.cfg", workers=5, consts={"DoEmit": "TRUE", "Ops": OPS, "MaxLevel": "5" if c.thorough else "4"}, emit=True)
        b.result()
    c.conform("drv_hist", "HistTrace", "HistTrace.cfg", merge_scripts(sc, Q), "tlc")
    c.conform("drv_hist", "HistTrace", "HistTrace.cfg", _hist.projections(c.rng, 20000 if c.thorough else 900), "random")
    c.run_known()


if __name__ == "__main__":
    main("C03", run)
