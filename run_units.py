import sys, time
sys.path.insert(0, '/verif')
from sa.load import Program
from sa import units as U, terms as t
import traceback
root = '/repo'
args = sys.argv[1:]
if args and args[0] == '-r':
    root = args[1]; args = args[2:]
verbose = '-v' in args
args = [a for a in args if a != '-v']
p = Program(root, 'yargy')
us = U.load_units(p)
f, r, v = U.load_tables()
n = {}
for u in us:
    if args and not any(a in u.name or 'spec.' + a == u.module.name for a in args):
        continue
    try:
        res = U.check(p, u, f, r, v)
    except Exception:
        traceback.print_exc()
        print('CRASH', u.name); n['CRASH'] = n.get('CRASH', 0) + 1
        continue
    n[res.verdict] = n.get(res.verdict, 0) + 1
    if res.verdict != 'EQ' or verbose:
        print(res.verdict, u.name, '%.2f' % res.seconds, res.detail[:3000])
        if verbose: print('   inlined', res.inlined)
print(n)
