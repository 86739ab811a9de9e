"""Sensitivity of the obligations: small changes of the analysed functions,
made in memory on the syntax trees, and what the obligations say about them.

Nothing is executed; the same analysis runs on the changed trees. A change is
`detected` when some obligation becomes a definite difference, `undecided`
when the best answer is "cannot decide", `silent` when every obligation still
coincides (equivalent changes and blind spots).
"""

import ast
import copy
import random
import time

from . import units as U

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min'}
ATTRS = {'start': 'stop', 'stop': 'start', 'first': 'second',
         'second': 'first', 'min': 'max', 'max': 'min', 'lower': 'upper',
         'append': 'remove', 'single': 'plural', 'plural': 'single',
         'male': 'female', 'female': 'male', 'islower': 'isupper',
         'add': 'discard', 'values': 'keys', 'normalized': 'value'}


def sites(node):
    """(description, apply(copy)) for every change of a function. Targets are
    found again in the copy by their position in ast.walk."""
    found = []

    def add(label, target, change):
        found.append((label, target, change))
    order = list(ast.walk(node))
    index = {id(x): i for i, x in enumerate(order)}
    for x in order:
        if isinstance(x, ast.Compare):
            for i, op in enumerate(x.ops):
                def change(y, root, i=i, op=op):
                    y.ops[i] = SWAP[type(op)]()
                add('%s -> %s' % (type(op).__name__,
                                  SWAP[type(op)].__name__), x, change)
        elif isinstance(x, ast.BoolOp):
            def change(y, root):
                y.op = ast.Or() if isinstance(y.op, ast.And) else ast.And()
            add('and/or', x, change)
            for i in range(len(x.values)):
                def change(y, root, i=i):
                    del y.values[i]
                    if len(y.values) == 1:
                        replace(root, y, y.values[0])
                add('operand %d dropped' % i, x, change)
        elif isinstance(x, ast.Constant):
            if isinstance(x.value, bool):
                def change(y, root):
                    y.value = not y.value
                add('bool flipped', x, change)
            elif isinstance(x.value, int):
                for d in (1, -1):
                    def change(y, root, d=d):
                        y.value += d
                    add('constant %+d' % d, x, change)
            elif isinstance(x.value, str) and x.value:
                def change(y, root):
                    y.value = y.value + 'x'
                add('string changed', x, change)
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            def change(y, root):
                replace(root, y, y.operand)
            add('not removed', x, change)
        elif isinstance(x, ast.BinOp) and isinstance(
                x.op, (ast.Add, ast.Sub)):
            def change(y, root):
                y.op = ast.Sub() if isinstance(y.op, ast.Add) else ast.Add()
            add('+/-', x, change)

            def change(y, root):
                y.left, y.right = y.right, y.left
            add('operands swapped', x, change)
        elif isinstance(x, (ast.If, ast.While, ast.IfExp)):
            def change(y, root):
                y.test = ast.UnaryOp(ast.Not(), y.test)
            add('condition negated', x, change)
            if not isinstance(x, ast.While):
                for v in (True, False):
                    def change(y, root, v=v):
                        y.test = ast.Constant(v)
                    add('condition %s' % v, x, change)
        elif isinstance(x, ast.Call):
            if len(x.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in x.args):
                def change(y, root):
                    y.args.reverse()
                add('arguments swapped', x, change)
            if len(x.args) == 1 and isinstance(x.func, ast.Name) and \
                    x.func.id in ('reversed', 'sorted', 'list', 'set'):
                def change(y, root):
                    replace(root, y, y.args[0])
                add('%s() removed' % x.func.id, x, change)
            for i in range(len(x.keywords)):
                def change(y, root, i=i):
                    del y.keywords[i]
                add('keyword dropped', x, change)
            if len(x.args) > 1:
                for i in range(len(x.args)):
                    def change(y, root, i=i):
                        del y.args[i]
                    add('argument %d dropped' % i, x, change)
            if isinstance(x.func, ast.Name) and x.func.id in NAMES:
                def change(y, root):
                    y.func.id = NAMES[y.func.id]
                add('%s -> %s' % (x.func.id, NAMES[x.func.id]), x, change)
        elif isinstance(x, ast.Attribute) and x.attr in ATTRS and isinstance(
                x.ctx, ast.Load):
            def change(y, root):
                y.attr = ATTRS[y.attr]
            add('.%s -> .%s' % (x.attr, ATTRS[x.attr]), x, change)
        elif isinstance(x, ast.comprehension) and x.ifs:
            def change(y, root):
                y.ifs = []
            add('filter dropped', x, change)
        elif isinstance(x, (ast.List, ast.Tuple)) and len(x.elts) > 1 \
                and isinstance(x.ctx, ast.Load):
            for i in range(len(x.elts)):
                def change(y, root, i=i):
                    del y.elts[i]
                add('element %d dropped' % i, x, change)
        elif isinstance(x, ast.Return) and x.value is not None:
            def change(y, root):
                y.value = ast.Constant(None)
            add('returns None', x, change)
        elif isinstance(x, (ast.Break, ast.Continue)):
            def change(y, root):
                replace(root, y, ast.Pass())
            add('%s removed' % type(x).__name__.lower(), x, change)
        for field in ('body', 'orelse'):
            block = getattr(x, field, None)
            if isinstance(block, list):
                for i, s in enumerate(block):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign,
                                      ast.If, ast.For, ast.Raise,
                                      ast.Return)) \
                            and not (isinstance(s, ast.Expr) and isinstance(
                                s.value, ast.Constant)):
                        def change(y, root, i=i, field=field):
                            getattr(y, field)[i] = ast.copy_location(
                                ast.Pass(), getattr(y, field)[i])
                        add('statement dropped: %s' %
                            ast.unparse(s).split('\n')[0][:60], x, change)
                    if i and isinstance(s, (ast.Expr, ast.Assign)) and \
                            isinstance(block[i - 1], (ast.Expr, ast.Assign)):
                        def change(y, root, i=i, field=field):
                            b = getattr(y, field)
                            b[i - 1], b[i] = b[i], b[i - 1]
                        add('statements swapped', x, change)
    skip = docstrings(node)
    return [(label, index[id(x)], change, getattr(x, 'lineno', node.lineno))
            for label, x, change in found if id(x) not in skip]


def docstrings(node):
    skip = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            skip.add(id(x.value))
    for d in node.decorator_list:
        for x in ast.walk(d):
            skip.add(id(x))
    return skip


def replace(root, old, new):
    for x in ast.walk(root):
        for field, value in ast.iter_fields(x):
            if value is old:
                setattr(x, field, ast.copy_location(new, old))
                return
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if v is old:
                        value[i] = ast.copy_location(new, old)
                        return


def changed(node, site):
    label, i, change, line = site
    root = copy.deepcopy(node)
    target = list(ast.walk(root))[i]
    change(target, root)
    return ast.fix_missing_locations(root)


def verdicts(program, units, fields, returns, vocabulary, known):
    best = 'silent'
    by = []
    for unit in units:
        try:
            r = U.check(program, unit, fields, returns, vocabulary)
            v = r.verdict
        except Exception as e:
            v = U.UNK
        if v == U.DIFF and unit.name not in known:
            by.append(unit.name)
            return 'detected', by
        if v == U.UNK:
            best = 'undecided'
            by.append(unit.name)
    return best, by


def sensitivity(program, units, fields, returns, vocabulary, seed,
                limit=90.0, only=None, report=None):
    users = {}
    known = set()
    for unit in units:
        r = U.check(program, unit, fields, returns, vocabulary)
        if r.verdict == U.DIFF:
            known.add(unit.name)
        for q in r.inlined:
            users.setdefault(q, []).append(unit)
    todo = []
    for q in sorted(users):
        func = program.functions.get(q)
        if func is None or (only and not only(q)):
            continue
        for site in sites(func.node):
            todo.append((q, site))
    random.Random(seed).shuffle(todo)
    count = {'detected': 0, 'undecided': 0, 'silent': 0}
    start = time.time()
    done = 0
    for q, site in todo:
        if time.time() - start > limit:
            break
        func = program.functions[q]
        saved = func.node
        try:
            func.node = changed(saved, site)
        except Exception:
            func.node = saved
            continue
        try:
            v, by = verdicts(program, users[q], fields, returns, vocabulary,
                             known)
        finally:
            func.node = saved
        count[v] += 1
        done += 1
        if report:
            report(v, q, site, by)
    return {'changes_possible': len(todo), 'changes_analysed': done, **count}
