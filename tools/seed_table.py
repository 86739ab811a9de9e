"""Which obligations catch which planted bug: applies each patch of seeded/ to
a scratch copy, runs every obligation on it and rewrites the table in DESIGN.md
(between the two markers). A tool for the author, no check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.load import Program     # noqa
from sa import units as U       # noqa
from sa.rules import RULES      # noqa

BEGIN, END = '<!-- seeds -->', '<!-- /seeds -->'


def outcome(id):
    folder = os.path.join(HERE, 'seeded', id)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    prop = meta['property']
    root = tempfile.mkdtemp(prefix='seed-')
    try:
        shutil.copytree('/repo/yargy', os.path.join(root, 'yargy'))
        subprocess.check_call(
            ['git', 'apply', '--include=yargy/*',
             os.path.join(folder, 'patch.diff')], cwd=root)
        program = Program(root, 'yargy')
        fields, returns, vocabulary = U.load_tables()
        own, other = [], set()
        for unit in U.load_units(program):
            r = U.check(program, unit, fields, returns, vocabulary)
            if r.verdict == U.DIFF and unit.name not in U.ONCE:
                props = set(unit.props) | set(r.flags)
                if prop in props:
                    own.append(unit.name)
                other |= props
        for rule in RULES:
            for p in rule.props:
                for item in rule.check(program, p):
                    if item.verdict == 'DIFF':
                        if p == prop:
                            own.append(item.name)
                        other.add(p)
        return id, prop, meta, own, sorted(other - {prop})
    finally:
        shutil.rmtree(root)


def main():
    from multiprocessing import Pool
    ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    lines = ['| planted bug | property | caught by obligation | also reported for |',
             '|---|---|---|---|']
    with Pool(7) as pool:
        done = list(pool.imap(outcome, ids))
    for id, prop, meta, own, other in done:
        shown = ', '.join(own[:4]) + (' (+%d)' % (len(own) - 4) if own[4:] else '')
        lines.append('| %s | %s | %s | %s |' % (
            id, prop, shown or '**missed**', ' '.join(other) or '-'))
    lines.append('')
    lines.append('%d of %d caught.' % (sum(bool(x[3]) for x in done), len(done)))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    a, b = text.index(BEGIN) + len(BEGIN), text.index(END)
    with open(path, 'w') as f:
        f.write(text[:a] + '\n' + '\n'.join(lines) + '\n' + text[b:])
    print('\n'.join(lines))


if __name__ == '__main__':
    main()
