"""C22: ChainSys (see _chain_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _chain_main

if __name__ == "__main__":
    _chain_main.run("C22")
