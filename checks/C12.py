"""C12: ParamSys (see _param_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _param_main

if __name__ == "__main__":
    _param_main.run("C12")
