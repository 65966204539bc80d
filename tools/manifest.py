import json,sys
sys.path.insert(0,"/verif")
from checks import CHECKS
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE={"*":"Decided by z3 and byte-domain reasoning for every value of the symbolic inputs, on all paths of the compiled code, within the bounds reported in the evidence. Trusted: rustc/LLVM down to IR, the executor's semantics, z3. Sampled paths are replayed natively and compared; violations are replayed before they are reported."}
m={"version":1,"setup_cmd":"python3 run.py --setup","checks":[],"not_applicable":[],"notes":"Every check rebuilds the harness with /repo's crate, executes its LLVM IR symbolically (engine/), and replays counterexamples natively. See DESIGN.md."}
for p in props:
    i=p["id"]
    if i in CHECKS:
        m["checks"].append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,
          "technique":"symbolic execution of the crate's LLVM IR with SMT (z3)","level":"model_checking","level_note":"Bounded: "+CHECKS[i]["bounds"]+" "+NOTE["*"]})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]))
