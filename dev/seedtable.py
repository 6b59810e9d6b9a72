"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
rows = []
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append(f"| `{os.path.basename(os.path.dirname(p))}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
t = """Each lies in `seeded/<id>/` with a demonstration. All were written from a property's text and the code; the last column names
the checks that report it (quick tier). Beside these, `dev/mutants.py` holds several hundred small mutations of
the program and the client that `dev/mutate.py` runs against the checks; misses led to most of the suites' later strengthening.

| bug | property | what it breaks | needs | caught by |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
d = open('/verif/DESIGN.md').read()
i = d.index('## Planted bugs')
open('/verif/DESIGN.md', 'w').write(d[:i] + '## Planted bugs\n\n' + t)
