"""C29: MiniSys (see _mini_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _mini_main

if __name__ == "__main__":
    _mini_main.run("C29")
