#!/usr/bin/env python3
"fixed.py PROP COMMIT KEY WHAT: note a repaired defect in known_findings.jsonl"
import json, os, sys
p, c, k, w = sys.argv[1:]
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
with open(f, 'a') as o:
    o.write(json.dumps({'property': p, 'key': k, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
