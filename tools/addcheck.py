#!/usr/bin/env python3
"""addcheck.py ID TECHNIQUE NOTE [LEVEL]: add or replace a check in checks.json"""
import json, sys
p = '/verif/tools/checks.json'
c = [x for x in json.load(open(p)) if x['id'] != sys.argv[1]]
x = {"id": sys.argv[1], "technique": sys.argv[2], "note": sys.argv[3]}
if len(sys.argv) > 4:
    x["level"] = sys.argv[4]
c.append(x)
c.sort(key=lambda x: x['id'])
open(p, 'w').write("[\n" + ",\n".join(json.dumps(x) for x in c) + "\n]\n")
