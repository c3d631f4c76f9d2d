#!/usr/bin/env python3
"""Adds a 'fixed' entry to known_findings.json: kf.py PROPERTY COMMIT TEXT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
prop, commit, text = sys.argv[1:4]
d['findings'].append({'property': prop, 'status': 'fixed', 'clause': '', 'key': '', 'what': f'fixed: property={prop} {commit} {text}'})
json.dump(d, open(p, 'w'), indent=1)
