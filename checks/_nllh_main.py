"""The checks over NllhSys."""
import _plan, _nllh

PLAN = {
    "C17": ([("Norm", 8, 10), ("Sys", 7, 9)], [(_nllh.likelihoods, 800, 12000), (_nllh.histories, 150, 1000)]),
    "C18": ([("Hist", 9, 14), ("Copy", 6, 8)], [(_nllh.histories, 600, 9000)]),
    "C19": ([("Sum", 9, 12)], [(_nllh.sums, 500, 7000)]),
    "C27": ([("Bm", 6, 7), ("Bd", 5, 6)], [(_nllh.managers, 400, 8000), (_nllh.changed, 300, 5000)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_nllh", "Nllh", parts, gens, _nllh.Q)
