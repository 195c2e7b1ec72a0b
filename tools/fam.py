#!/usr/bin/env python3
"""Show the families of an evidence file."""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open(f'/verif/evidence/{p}.json'))
    c = e['coverage']
    for f in c.get('families', c.get('jobs', [])):
        print(p, {k: f[k] for k in f if k not in ('known', 'threads')})
