"""The checks over GenSys."""
import _plan, _gen

PLAN = {
    "C23": ([("Draw", 6, 7), ("Binned", 3, 3), ("Rand", 3, 3)], [(_gen.draws, 700, 9000), (_gen.binned, 400, 6000), (_gen.numbers, 400, 5000)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_gen", "Gen", parts, gens, _gen.Q)
