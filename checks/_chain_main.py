"""The checks over ChainSys."""
import _plan, _chain

PLAN = {
    "C22": ([("Walk", 5, 6), ("Refuse", 3, 3), ("Sam", 7, 8)], [(_chain.accounts, 500, 8000), (_chain.scripted, 700, 9000), (_chain.metropolis, 400, 6000), (_chain.hamiltonian, 300, 4000)]),
}


def run(pid):
    parts, gens = PLAN[pid]
    _plan.run(pid, "drv_chain", "Chain", parts, gens, _chain.Q)
