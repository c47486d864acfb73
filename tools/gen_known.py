#!/usr/bin/env python3
"""Writes known_findings.json from tools/fixes.txt and tools/open.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
fixed = [l.strip() for l in open(os.path.join(H, 'fixes.txt')) if l.strip()]
p = os.path.join(H, 'open.json')
op = json.load(open(p)) if os.path.exists(p) else []
with open(os.path.join(H, '..', 'known_findings.json'), 'w') as f:
  json.dump(dict(open=op, fixed=fixed), f, indent=1)
  f.write('\n')
