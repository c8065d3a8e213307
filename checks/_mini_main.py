"""The checks over MiniSys."""
import _plan, _mini

PLAN = {"C29": ([("Set", 6, 7), ("Knob", 5, 7), ("Two", 6, 7)], [(_mini.fits, 1200, 15000)])}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_mini", "Mini", parts, gens, _mini.Q)
