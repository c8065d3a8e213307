"""The checks over IoSys."""
import _plan, _files

PLAN = {
    "C24": ([("Data", 7, 9), ("Lazy", 7, 9), ("Hist", 6, 7), ("Root", 7, 8)],
            [(_files.sets, 500, 6000), (_files.lazies, 300, 5000), (_files.histograms, 300, 4000), (_files.trees, 300, 4000), (_files.big, 12, 60)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_io", "Io", parts, gens, _files.Q)
