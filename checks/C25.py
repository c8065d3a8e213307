"""C25: ConfSys (see _conf_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _conf_main

if __name__ == "__main__":
    _conf_main.run("C25")
