#!/usr/bin/env python3
"""addkf.py PROP PART WHAT CASE.json: append a known finding after confirming that the case violates (development tool)"""
import importlib, json, os, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
import vp
prop, part, what, f = sys.argv[1:5]
case = json.load(open(f)) if f != "-" else json.load(sys.stdin)
mod = importlib.import_module(prop.lower())
ctx = vp.Ctx(os.environ.get("VP_CBINDGEN") or vp.build_cbindgen(), "quick", tempfile.mkdtemp())
if hasattr(mod, "prepare"):
    mod.prepare(ctx)
try:
    vp.check_fn(mod, "quick", part)(case, ctx)
except vp.Violation as e:
    print(str(e)[:1500])
    with open(V + "/known_findings.txt", "a") as fh:
        fh.write(json.dumps({"status": "known", "property": prop, "part": part, "what": what, "case": case}) + "\n")
    print("ADDED")
else:
    print("case does NOT violate")
    sys.exit(1)
