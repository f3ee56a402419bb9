#!/usr/bin/env python3
import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(1, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import check
spec = importlib.util.spec_from_file_location("chk", os.path.join(HERE, "checks", pid.lower() + ".py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
check.main(m.run, pid, getattr(m, "LEVEL", "model_checking"))
