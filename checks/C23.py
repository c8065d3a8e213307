"""C23: GenSys (see _gen_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _gen_main

if __name__ == "__main__":
    _gen_main.run("C23")
