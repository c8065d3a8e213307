"""setup_cmd: compile the arithmetic override and warm the object cache (every check rebuilds what changed)."""
import os, sys, glob, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.classes()
os.makedirs(vlib.BUILD, exist_ok=True)
seen = {}
for f in sorted(glob.glob(os.path.join(vlib.VERIF, "checks", "C*.py")) + glob.glob(os.path.join(vlib.VERIF, "checks", "_*.py"))):
    for m in re.finditer(r'"(drv_\w+)"', open(f).read()):
        seen[m.group(1)] = 1
w = os.path.join(vlib.BUILD, "setup-%d" % os.getpid())
os.makedirs(w, exist_ok=True)
import shutil
sys.path.insert(0, os.path.join(vlib.VERIF, "checks"))
for d in sorted(seen):
    try:
        vlib.build_driver(d, w, vlib.ROOTSRC.get(d, ()))
        print("built", d)
    except vlib.InfraError as e:
        print("setup:", d, str(e)[:2000])
shutil.rmtree(w, ignore_errors=True)
