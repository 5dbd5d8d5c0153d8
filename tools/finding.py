#!/usr/bin/env python3
"""finding.py fixed <property> <commit> <text> | known <property> <key> <case regex> <text>: appends an entry."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
l = d["findings"] if isinstance(d, dict) else d
a = sys.argv[1:]
if a[0] == "fixed":
    l.append(dict(status="fixed", property=a[1], commit=a[2], what="fixed: property=%s %s %s" % (a[1], a[2], a[3])))
else:
    l.append(dict(status="known", property=a[1], key=a[2], case=a[3], what=a[4]))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
