"""C28: FitSys (see _fit_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _fit_main

if __name__ == "__main__":
    _fit_main.run("C28")
