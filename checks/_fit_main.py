"""The checks over FitSys."""
import _plan, _fit

PLAN = {
    "C20": ([("Grid", 9, 9)], [(_fit.grids, 900, 14000)]),
    "C21": ([("Fit", 6, 7)], [(_fit.results, 900, 14000)]),
    "C28": ([("Iv", 3, 3), ("Ac", 7, 9)], [(_fit.intervals, 900, 14000), (_fit.correlations, 500, 8000)]),
    "C30": ([("En", 3, 3), ("Leap", 4, 6)], [(_fit.orbits, 1000, 14000)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_fit", "Fit", parts, gens, _fit.Q)
