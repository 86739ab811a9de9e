"""Writes MANIFEST.json from properties.jsonl and the obligations found."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.load import Program     # noqa
from sa import units as U       # noqa
from sa.rules import RULES      # noqa

NA = {
    'C34': 'Running time as a function of the length of the text is a runtime '
           'quantity; no sound static bound on the number of chart states is in '
           'reach (it depends on the grammar), and a timing run would not be '
           'static analysis.',
    'C35': 'Whether the dictionary is right about Russian is a property of '
           'pymorphy data, not of the sources of this repository.',
}
TECH = 'gated value-graph comparison with a reference semantics (AST abstract interpretation, no execution)'
LEVEL_NOTE = (
    'Decides, for all arguments of the listed entry points, that the value '
    'graph of the current code (helpers inlined, loops as symbolic '
    'traversals) coincides with a reference definition; only definite '
    'differences over known symbols are reported, everything not normalised '
    'is listed as undecided in the evidence. Assumes the field types of '
    'spec/types.json and documented library behaviour. ')


def main():
    program = Program('/repo', 'yargy')
    units = U.load_units(program)
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        id = p['id']
        mine = [u for u in units if id in u.props]
        rules = [r for r in RULES if id in r.props]
        if id in NA or not (mine or rules):
            na.append({'property': id, 'reason': NA.get(id, 'no obligations yet')})
            continue
        tech = []
        if mine:
            tech.append(TECH)
        tech += sorted({r.technique for r in rules})
        checks.append({
            'property': id,
            'quick_cmd': 'python3 check.py %s' % id,
            'thorough_cmd': 'python3 check.py %s --thorough' % id,
            'technique': '; '.join(tech),
            'level': 'other',
            'level_note': LEVEL_NOTE + '%d value-graph obligations, %d rules.' % (
                len(mine), len(rules)),
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks: the analysis reads the sources. See DESIGN.md; '
                 'known findings and repairs are in KNOWN_FINDINGS.jsonl.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
