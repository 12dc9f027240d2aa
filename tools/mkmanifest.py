#!/usr/bin/env python3
# Regenerates MANIFEST.json from the checks that exist.
import json, os, subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
notes=json.load(open(os.path.join(here,'tools','notes.json')))
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(os.path.join(here,'checks',i.lower()+'.py')):
        n=notes.get(i,{})
        checks.append(dict(property=i,quick_cmd='./check '+i,thorough_cmd='VERIF_TIER=thorough ./check '+i,
            technique=n.get('technique','TLA+ specification model checked with TLC; implementation traces validated against it by TLC'),
            level='model_checking',level_note=n.get('note','Exhaustive on the specification within the bounds in DESIGN.md; the binding to the code is by sampled traces judged by TLC.')))
    else:
        na.append(dict(property=i,reason=notes.get(i,{}).get('na','Check not built yet.')))
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='none (no hooks in the source; instrumentation is applied to a scratch copy at check time)',enable='./check instruments a scratch copy of /repo with go/instrument',source_commits=[]),checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
