import json
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA={}
try: NA=json.load(open("/verif/tools/not_applicable.json"))
except FileNotFoundError: pass
note=json.load(open("/verif/tools/level_notes.json"))
ch=[]
for p in P:
    i=p["id"]
    if i in NA: continue
    ch.append({"property":i,"quick_cmd":f"python3-vt vp/check.py {i}","thorough_cmd":f"python3-vt vp/check.py {i} --thorough","evidence_file":f"evidence/{i}.json",
      "technique":"configuration contract (one trait/macro obligation per configuration row), decided by rustc's macro expansion and trait solver on the real crate" if i=="C15" else "contract-based deductive verification: function contracts, loop invariants and VCs generated from rustc's MIR and the inline assembly of the real code, discharged by z3",
      "level":"other" if i=="C15" else "proof","level_note":("" if i=="C15" else note["common"])+" "+note.get(i,"")})
m={"version":1,"setup_cmd":"python3-vt vp/setup.py","hooks":{"guard":"none","enable":"no hooks are needed; /repo is compiled as it is","source_commits":[]},
   "checks":ch,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
   "notes":"See DESIGN.md. /repo carries fix: commits (see known-findings.txt) and no hooks."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
