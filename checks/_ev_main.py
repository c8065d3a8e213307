"""The checks over EventSys differ in the part of it they explore and in the scripts they generate."""
import concurrent.futures as cf
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import main, merge_scripts
import _event

Q = {"GetEntry", "Datum", "DatumAt", "ToObs", "EvMut", "DsState", "CutNames", "Pass", "KPass", "KGet", "QLog", "Apply", "ApplyMan", "ProbEd",
     "InfoEd", "ExpResult"}
# property -> (parts of EventMC with depths quick/thorough, generators with sizes quick/thorough)
PLAN = {
    "C04": ([("Ed", 5, 7)], [(_event.dists, 1500, 30000)]),
    "C06": ([("Cut", 6, 7), ("Own", 6, 8)], [(_event.cuts, 1200, 25000), (_event.own_cuts, 600, 12000)]),
    "C07": ([("Sys", 5, 7), ("Man", 7, 9)], [(_event.systematics, 1500, 30000)]),
    "C08": ([("Ds", 6, 7)], [(_event.datasets, 1200, 25000)]),
    "C09": ([("Fill", 7, 8)], [(_event.filling, 1500, 25000)]),
    "C10": ([("Exp", 7, 8)], [(_event.counting, 1500, 25000)]),
    "C16": ([("M", 7, 10), ("Ed", 4, 5)], [(_event.managers, 1500, 30000)]),
}


def run(pid):
    def f(c):
        mcs, gens = PLAN[pid]
        with cf.ThreadPoolExecutor(2) as ex:
            b = ex.submit(c.driver, "drv_event")
            sc = []
            for part, q, t in mcs:
                sc.append(c.model("EventMC", "EventMC.cfg", workers=5, emit=True,
                                  consts={"DoEmit": "TRUE", "Ops": '{"%s"}' % part, "MaxLevel": str(t if c.thorough else q)}))
            b.result()
        for k, s in enumerate(sc):
            c.conform("drv_event", "EventTrace", "EventTrace.cfg", merge_scripts(s, Q), "tlc%d" % k)
        for g, q, t in gens:
            c.conform("drv_event", "EventTrace", "EventTrace.cfg", g(c.rng, t if c.thorough else q), g.__name__)
        c.run_known()
    main(pid, f)
