"""The checks over ParamSys."""
import _plan, _param

PLAN = {
    "C11": ([("Pm", 6, 7)], [(_param.managers, 1500, 30000)]),
    "C12": ([("Cp", 6, 7), ("Wr", 6, 7), ("Mg", 7, 8)],
            [(_param.components, 1500, 20000), (_param.wrapped, 1200, 15000), (_param.groups, 800, 10000)]),
    "C13": ([("Con", 6, 7)], [(_param.constraints, 1500, 25000)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_param", "Param", parts, gens, _param.Q)
