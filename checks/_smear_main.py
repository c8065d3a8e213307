"""The checks over SmearSys."""
import _plan, _smear

PLAN = {
    "C14": ([("Mat", 5, 7), ("shift", 5, 6), ("scale", 4, 6), ("scalefn", 4, 6), ("shape", 4, 6), ("renorm", 4, 6), ("conv", 4, 6)],
            [(_smear.matrices, 500, 8000), (_smear.systematics, 700, 10000)]),
    "C15": ([("Mgr", 7, 8)], [(_smear.managers, 700, 10000)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_smear", "Smear", parts, gens, _smear.Q)
