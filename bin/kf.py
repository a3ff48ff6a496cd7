"""usage: kf.py fixed|open PROPERTY ID KEY WHAT [COMMIT|SCENARIO]   -- maintainer tool, never called by a check"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
st, prop, fid, key, what = sys.argv[1:6]
e = {'id': fid, 'property': prop, 'key': key, 'status': st}
if st == 'fixed':
    e['what'] = 'fixed: property=%s %s %s' % (prop, sys.argv[6], what)
    e['commit'] = sys.argv[6]
else:
    e['what'] = what
    if len(sys.argv) > 6:
        e['scenario'] = sys.argv[6]
d['findings'] = [f for f in d['findings'] if f['id'] != fid] + [e]
json.dump(d, open(p, 'w'), indent=1)
