"""Regenerate spec/vocabulary.json from a tree (run by hand)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa.load import Program          # noqa
from sa.units import vocabulary, load_units      # noqa

p = Program(sys.argv[1] if len(sys.argv) > 1 else '/repo', 'yargy')
load_units(p)
with open(os.path.join(HERE, 'spec', 'vocabulary.json'), 'w') as f:
    json.dump(vocabulary(p), f, indent=0)

# which obligations look inside which function, and what it says
from sa.units import body, check, load_tables, EQ    # noqa
sys.setrecursionlimit(20000)
tables = load_tables()
table = {q: {'body': body(f), 'units': []} for q, f in p.functions.items()
         if not q.startswith('spec')}
path = os.path.join(HERE, 'spec', 'baseline.json')
with open(path, 'w') as f:
    json.dump(table, f)
for unit in load_units(p):
    r = check(p, unit, *tables)
    if r.verdict == EQ:
        for q in r.inlined:
            if q in table:
                table[q]['units'].append(unit.name)
with open(path, 'w') as f:
    json.dump(table, f, indent=0, sort_keys=True)
