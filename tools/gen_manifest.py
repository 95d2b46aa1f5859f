#!/usr/bin/env python3
# regenerates MANIFEST.json from the list of claimed properties below
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
claims=json.load(open(here+'/tools/claims.json'))
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[]}
for i in ids:
    c=claims.get(i)
    if c and 'technique' in c:
        m["checks"].append({"property":i,"quick_cmd":"bash /verif/check.sh "+i,"thorough_cmd":"bash /verif/check.sh "+i,
          "technique":c['technique'],"level":"other","level_note":c['note']})
    else:
        m["not_applicable"].append({"property":i,"reason":c['na'] if c else "check not built yet"})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
