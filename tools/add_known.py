#!/usr/bin/env python3
"""Append an entry to known_findings.jsonl:  add_known.py '<json>'  (development tool; checks never write that file)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = json.loads(sys.argv[1])
assert {'property', 'status', 'what'} <= set(e)
with open(os.path.join(V, 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps(e, sort_keys=True) + '\n')
