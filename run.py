#!/opt/veriftools/pyvenv/bin/python3
"""run.py CNN [--replay FILE] [--tier quick|thorough] [--n N] [--seed S]"""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.path.insert(0, os.path.join(here, "checks"))
sys.dont_write_bytecode = True
import vp
if __name__ == "__main__":
    try:
        mod = importlib.import_module(sys.argv[1].lower())
        rc = vp.main(mod, sys.argv[2:])
    except vp.HarnessError as e:
        print("ERROR:", e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
