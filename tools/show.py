"show a replay file: tools/show.py FILE"
import json, sys
def short(x):
    if isinstance(x, list):
        if len(x) > 6 and all(isinstance(i, int) for i in x): return '[%d..%d #%d]' % (x[0], x[-1], len(x))
        return '[' + ', '.join(short(i) for i in x[:12]) + (', …#%d' % len(x) if len(x) > 12 else '') + ']'
    if isinstance(x, dict): return '{' + ' '.join('%s=%s' % (k, short(v)) for k, v in x.items()) + '}'
    return str(x)[:200]
d = json.load(open(sys.argv[1]))
d = d.get('data', d.get('item', d)) if 'events' not in d else d
if 'replay' in d: d = d['replay']
def find(d):
    if isinstance(d, dict):
        if 'events' in d: return d['events']
        for v in d.values():
            r = find(v)
            if r: return r
for i, e in enumerate(find(d) or [], 1): print(i, short(e))
