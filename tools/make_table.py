"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    print(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
