#!/usr/bin/env python3
"""records, per unit, the functions and loop shapes the contracts were written against"""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.abspath(__file__))
os.makedirs(V + "/specs/baseline", exist_ok=True)
sys.argv = ["x"]
import importlib.util
spec = importlib.util.spec_from_file_location("check", V + "/check.py"); check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
vx = check.build_vx()
for p in sorted(glob.glob(V + "/specs/*.vspec")):
    u = os.path.basename(p)[:-6]
    ast = glob.glob("/root/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0")[0]
    o = check.B + "/bl.json"
    subprocess.check_call([vx, p, "/repo", check.B + "/bl.rs", o], env=dict(os.environ, VX_AST=ast))
    m = json.load(open(o))
    d = {"fns": {f["key"]: {"kinds": f["kinds"], "contract": f["contract"], "props": f["props"]} for f in m["fns"]}}
    json.dump(d, open(V + "/specs/baseline/%s.json" % u, "w"), indent=0, sort_keys=True)
    print(u, len(d["fns"]))
