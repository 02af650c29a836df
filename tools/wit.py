#!/opt/venv/bin/python
"""print chosen witness fields of the last replay files:  wit.py C12 excess model"""
import json, glob, sys
for f in sorted(glob.glob('/verif/replay/%s-*' % sys.argv[1])):
    d = json.load(open(f))
    for v in d.get('violations', [d]):
        w = v.get('witness', {})
        print(v['mechanism'], v.get('case'), v.get('index'), v.get('detail', '')[:150], *["%s=%s" % (k, w.get(k)) for k in (sys.argv[2:] or list(w))])
