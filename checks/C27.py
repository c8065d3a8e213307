"""C27: NllhSys (see _nllh_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _nllh_main

if __name__ == "__main__":
    _nllh_main.run("C27")
