#!/usr/bin/env python3
"which of the stable tests did not pass in OUT.json"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=o['passed']; p=set(p if not isinstance(p[0],dict) else [x['name'] for x in p])
m=[t for t in b['stable'] if t not in p]
print('stable failing:',len(m)); print('\n'.join(m[:10])); sys.exit(bool(m))
