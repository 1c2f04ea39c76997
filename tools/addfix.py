#!/usr/bin/env python3
"""addfix.py PROPERTY ID TEXT : record a repaired defect (commit = /repo HEAD) in known_findings.json"""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
import re
d = json.load(open(p)); c = sys.argv[4] if len(sys.argv) > 4 else subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
d['findings'].append(dict(property=sys.argv[1], status='fixed', id=sys.argv[2], commit=c, what=sys.argv[3]))
json.dump(d, open(p, 'w'), indent=1)
