"""C24: IoSys (see _files_main.PLAN for the parts explored)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _files_main

if __name__ == "__main__":
    _files_main.run("C24")
