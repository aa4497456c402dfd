#!/usr/bin/env python3
# Writes MANIFEST.json from the table below
import json
T={}
def c(pid, technique, note, level="model_checking"):
    T[pid]=dict(property=pid, quick_cmd=f"bash run.sh {pid} quick", thorough_cmd=f"bash run.sh {pid} thorough",
      evidence_file=f"evidence/{pid}.json", technique=technique, level=level, level_note=note)
exec(open('/verif/tools/checks.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="verif", enable="no hooks are needed: the checks use the exported API of the package, and C24 instruments a copy of the sources with go build -overlay", source_commits=[]),
  checks=[T[p] for p in props if p in T],
  not_applicable=[dict(property=p, reason=NA.get(p,"no check has been built yet")) for p in props if p not in T])
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
