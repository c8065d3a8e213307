"""C15: SmearSys (see _smear_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _smear_main

if __name__ == "__main__":
    _smear_main.run("C15")
