"""Decide one property from the sources of /repo.

    python3 check.py C07 [--thorough] [--root DIR]

Exit 0: every decided obligation of the property holds (known findings are
printed). Exit 1: some obligation is violated, a line `VIOLATION property=..
replay=..` names the file that describes the construct. Exit 2: the analysis
itself is broken (sources missing or not parsable).
"""

import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.load import Program, AnalysisError      # noqa
from sa import units as U                       # noqa
from sa import terms                            # noqa
from sa.rules import RULES                      # noqa


def known_findings():
    """The recorded, not repaired defects; status "fixed" suppresses nothing."""
    result = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith('{'):
                item = json.loads(line)
                if item['status'] == 'finding':
                    result.append(item)
    return result


def is_known(known, prop, name, detail):
    for item in known:
        if item['property'] == prop and item['obligation'] == name:
            # every reported line must be the recorded one
            lines = [x for x in detail.splitlines() if x.strip()]
            if lines and all(x.strip() == item['construct'] for x in lines):
                return item


def run(prop, root, tier, seed):
    start = time.time()
    program = Program(root, 'yargy')
    modules = sorted(program.modules)
    functions = len(program.functions)
    units = [u for u in U.load_units(program)]
    mine = [u for u in units if prop in u.props]
    rules = [r for r in RULES if prop in r.props]
    if not mine and not rules:
        raise AnalysisError('no obligations for %s' % prop)
    fields, returns, vocabulary = U.load_tables()
    known = known_findings()

    obligations = []        # name, verdict, where, detail
    inlined = set()
    for unit in mine:
        try:
            r = U.check(program, unit, fields, returns, vocabulary)
        except Exception as e:
            r = U.Result(unit, U.UNK, 'internal: %r' % e)
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        inlined.update(r.inlined)
        obligations.append(dict(
            name=unit.name, kind='value graph', verdict=r.verdict,
            where=where(program, r.inlined), detail=r.detail,
            doc=' '.join(unit.doc.split())))
    others = [u for u in units if prop not in u.props and
              u.name not in U.ONCE] if prop in U.EFFECTS else []
    for unit in others:
        try:
            r = U.check(program, unit, fields, returns, vocabulary)
        except Exception as e:
            r = U.Result(unit, U.UNK, 'internal: %r' % e)
        inlined.update(r.inlined)
        verdict = r.verdict
        if verdict == U.DIFF and prop not in r.flags:
            verdict = U.UNK
        obligations.append(dict(
            name=unit.name, kind='effects', verdict=verdict,
            where=where(program, r.inlined), detail=r.detail,
            doc=U.EFFECTS[prop]))
    sites = 0
    for rule in rules:
        try:
            for item in rule.check(program, prop):
                sites += 1
                obligations.append(dict(
                    name=item.name, kind=rule.name, verdict=item.verdict,
                    where=item.where, detail=item.detail, doc=rule.doc))
                inlined.update(item.functions)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            obligations.append(dict(
                name=rule.name, kind=rule.name, verdict=U.UNK, where=[],
                detail='internal: %r' % e, doc=rule.doc))

    perturbed = {}
    if tier == 'thorough':
        from sa.perturb import sensitivity
        perturbed = sensitivity(program, mine, fields, returns, vocabulary,
                                seed)

    violations, findings = [], []
    for o in obligations:
        if o['verdict'] == U.DIFF:
            item = is_known(known, prop, o['name'], o['detail'])
            if item:
                findings.append((item, o))
            else:
                violations.append(o)
    decided = [o for o in obligations if o['verdict'] != U.UNK]
    undecided = [o for o in obligations if o['verdict'] == U.UNK]

    print('%s: %d obligations, %d decided, %d undecided; %d functions of %d '
          'analysed in %d modules' % (
              prop, len(obligations), len(decided), len(undecided),
              len(inlined), functions, len(modules)))
    for o in undecided:
        print('UNDECIDED %s: %s' % (o['name'], o['detail'][:300]))
    for item, o in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, item['what']))
    replay = None
    if violations:
        replay = os.path.join(HERE, 'evidence', '%s.violation.txt' % prop)
        with open(replay, 'w') as f:
            for o in violations:
                f.write(report(prop, o))
        for o in violations:
            print(report(prop, o))
        print('VIOLATION property=%s replay=%s' % (prop, replay))

    coverage = {
        'explanation':
            'Static analysis of the current sources. Each obligation is '
            'either a pair (code entry, reference semantics) whose gated '
            'value graphs must coincide for all arguments, or an instance of '
            'a whole-program rule. "decided" are those with a definite '
            'answer; an undecided one is never reported and never counted '
            'as holding.',
        'obligations': len(obligations),
        'decided': len(decided),
        'undecided': [o['name'] for o in undecided],
        'known_findings': len(findings),
        'rules': sorted({o['kind'] for o in obligations}),
        'value_graph_obligations': len(mine),
        'effect_obligations': len(others),
        'rule_instances': sites,
        'functions_analysed': sorted(inlined),
        'functions_in_package': functions,
        'modules_parsed': modules,
        'samples': [
            '%s [%s] %s: %s' % (o['name'], o['kind'], o['verdict'], o['doc'])
            for o in obligations],
    }
    if tier == 'thorough':
        coverage['sensitivity'] = perturbed
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': coverage,
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - start, 3),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    if violations:
        return 1
    if not decided:
        print('NOT-DECIDED property=%s: the code left the subset the analysis '
              'understands, nothing was checked' % prop)
    return 0


ASSUMPTIONS = [
    'CPython semantics of the supported subset; everything else is UNDECIDED',
    'the field types of spec/types.json (what the constructors store)',
    'library primitives (re, pymorphy, intervaltree, json) are as documented',
    'user predicates and callbacks are pure functions of their arguments',
]


def where(program, names):
    result = []
    for q in names:
        f = program.functions.get(q)
        if f is not None:
            result.append('%s:%d %s' % (
                f.module.path, f.node.lineno, q.split(':')[-1]))
    return result


def report(prop, o):
    return '\n'.join([
        'property %s, obligation %s (%s)' % (prop, o['name'], o['kind']),
        '  rule: %s' % o['doc'],
        '  %s' % '\n  '.join(o['detail'].splitlines()),
        '  analysed: %s' % '\n            '.join(o['where'] or ['-']), ''])


def main(argv):
    root = '/repo'
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == '--thorough':
            tier = 'thorough'
        elif a == '--root':
            root = args.pop(0)
        else:
            prop = a
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        return run(prop, root, tier, seed)
    except (AnalysisError, SyntaxError) as e:
        print('ERROR %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
