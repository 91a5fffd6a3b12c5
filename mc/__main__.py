import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine
prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
if tier == "replay":
    rc = engine.main(prop, "quick", replay=sys.argv[3])
else:
    rc = engine.main(prop, tier)
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)        # the worker processes have been ended: nothing is left to wait for
