import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[]
for p in props:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,
     "evidence_file":"evidence/%s.json"%i,
     "technique":"TLA+ specification: TLC model checking of the design models, and TLC trace validation of recorded executions of the real crate against the same Step relation",
     "level":"model_checking",
     "level_note":"The specification is explored exhaustively by TLC within the bounds of its design models; the crate is bound to it by validating every event of thousands of generated and model-derived executions (API results, frames, wake-ups) at real constants. Holds for what was explored; trusts TLC, the harness's frame parser and the single-threaded simulated transport and clock."})
m={"version":1,"setup_cmd":"python3 check.py setup","checks":checks,"not_applicable":[],
 "notes":"No hooks: the checks use the public API only, with a virtual-clock stand-in for the web-time dependency patched in by the harness's own Cargo workspace."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
