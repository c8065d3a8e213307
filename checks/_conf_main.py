"""The check over ConfSys."""
import _plan, _conf

PLAN = {"C25": ([("Parse", 6, 7), ("Value", 4, 4), ("History", 8, 9)], [(_conf.files, 1200, 20000)])}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_conf", "Conf", parts, gens, _conf.Q)
