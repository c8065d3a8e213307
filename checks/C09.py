"""C09: EventSys (see _ev_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _ev_main

if __name__ == "__main__":
    _ev_main.run("C09")
