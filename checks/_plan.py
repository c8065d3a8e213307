"""One family of checks: explore parts of a specification, replay what TLC prints and seeded scripts into
a driver, and have TLC judge every recorded step."""
import concurrent.futures as cf
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import main, merge_scripts


def run(pid, driver, family, parts, gens, queries, **kw):
    """family: prefix of the modules; parts: (part, depth quick, depth thorough); gens: (generator, quick, thorough)"""
    mc, tr = family + "MC", family + "Trace"

    def f(c):
        with cf.ThreadPoolExecutor(2) as ex:
            b = ex.submit(c.driver, driver)
            sc = []
            for part, q, t in parts:
                sc.append(c.model(mc, mc + ".cfg", workers=5, emit=True,
                                  consts={"DoEmit": "TRUE", "Ops": '{"%s"}' % part, "MaxLevel": str(t if c.thorough else q)}))
            b.result()
        for k, s in enumerate(sc):
            c.conform(driver, tr, tr + ".cfg", merge_scripts(s, queries), "tlc%d" % k)
        for g, q, t in gens:
            c.conform(driver, tr, tr + ".cfg", g(c.rng, t if c.thorough else q), g.__name__)
        c.run_known()
    main(pid, f, **kw)
