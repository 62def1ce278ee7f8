#!/usr/bin/env python3
"""Prints the tables of DESIGN.md from the evidence of the last runs and from seeded/."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
print("| check | scenarios | executions | choice nodes | transitions | seconds |\n|---|---|---|---|---|---|")
for f in sorted(glob.glob(root + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    print(f"| {e['property']} | {len(c['scenarios'])} | {c['evaluations']:,} | {c['states']:,} | {c['transitions']:,} | {e['wall_s']:.0f} |")
print()
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['property'] if m.get('caught', True) else 'missed'} |")
