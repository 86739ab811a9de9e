"""Obligations: pairs of functions that must compute the same value graph.

A file of /verif/spec holds classes with two functions:

    class leftmost_match:
        props = 'C10'
        def code(self: 'Parser', text: 'str'): return self.match(text)
        def spec(self, text): ... reference semantics ...

Both are read as syntax trees and turned into value graphs (never executed):
`code` through the current sources of /repo, `spec` through its own text.
"""

import ast
import fnmatch
import hashlib
import json
import os
import signal
import time

from . import terms as t
from .terms import NONE, BOT, T, F, apply, select
from .load import Program, AnalysisError, FuncInfo, ClassInfo
from .eval import Evaluator, Unsupported
from .peel import unfolded
from .compare import Comparer, EQ, DIFF, UNK, INTERNAL

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit(object):
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.line = node.lineno
        self.opts = {}
        self.types = {}
        self.funcs = {}
        for stmt in node.body:
            if isinstance(stmt, ast.FunctionDef):
                self.funcs[stmt.name] = FuncInfo(
                    '%s:%s.%s' % (module.name, name, stmt.name),
                    module, stmt)
            elif isinstance(stmt, ast.Assign):
                self.opts[stmt.targets[0].id] = ast.literal_eval(stmt.value)
        self.props = self.opts.get('props', '').split()
        self.doc = ast.get_docstring(node) or ''


def expand(unit, module, stmt):
    """One unit per variant of a parameter's type."""
    variants = unit.opts.get('variants')
    if not variants:
        return [unit]
    (param, types), = variants.items()
    result = []
    for type in types:
        u = Unit(stmt.name, module, stmt)
        u.name = '%s[%s]' % (stmt.name, type.lstrip('='))
        u.types = {param: type}
        result.append(u)
    return result


def load_units(program, folder=None):
    if program.units and folder is None:
        return list(program.units.values())
    folder = folder or os.path.join(HERE, 'spec')
    units = []
    for file in sorted(os.listdir(folder)):
        if not file.endswith('.py') or file.startswith('_'):
            continue
        name = 'spec.' + file[:-3]
        module = program.add_module(name, os.path.join(folder, file))
        module.is_package = False
        for stmt in module.tree.body:
            if isinstance(stmt, ast.ClassDef):
                if any(isinstance(s, ast.FunctionDef) and s.name == 'code'
                       for s in stmt.body):
                    units.extend(expand(Unit(stmt.name, module, stmt),
                                        module, stmt))
        # functions with dispatch tables may use classes of the package
    program.link()
    names = {}
    for u in units:
        if u.name in names:
            raise AnalysisError('duplicate unit %s' % u.name)
        names[u.name] = u
    with open(os.path.join(folder, 'props.json')) as f:
        table = json.load(f)
    for prop, patterns in sorted(table.items()):
        if prop == '//':
            continue
        for pattern in patterns:
            found = [u for u in units if fnmatch.fnmatchcase(u.name, pattern)]
            if not found:
                raise AnalysisError('props.json: no obligation %s' % pattern)
            for u in found:
                # the exclusion: a recorded finding is reported once
                if prop not in u.props and u.name not in ONCE:
                    u.props = tuple(u.props) + (prop,)
    program.units.update(names)
    return units


# whatever an entry computes: it writes nothing but what its reference
# writes, and no order of a set or address decides it
EFFECTS = {
    'C01': 'writes no tree, token, form or fact but those it is to write',
    'C02': 'writes no rule, predicate or relation but those it is to write',
    'C03': 'keeps nothing in the parser, tokenizer or module',
    'C04': 'no order of a set and no address decides the result',
}

ONCE = ('squash_min_bounded_of_repeatable',)


def load_tables(folder=None):
    folder = folder or os.path.join(HERE, 'spec')
    with open(os.path.join(folder, 'types.json')) as f:
        raw = json.load(f)
    fields = {}
    for k, v in raw['fields'].items():
        cls, name = k.split('.')
        fields[(cls, name)] = v
    with open(os.path.join(folder, 'vocabulary.json')) as f:
        voc = json.load(f)
    return fields, raw['returns'], {k: set(v) for k, v in voc.items()}


class Result(object):
    def __init__(self, unit, verdict, detail='', inlined=(), where=''):
        self.flags = set()
        self.assumed = set()
        self.unit = unit
        self.verdict = verdict
        self.detail = detail
        self.inlined = inlined
        self.where = where
        self.seconds = 0


def evaluate(program, unit, which, fields, returns, expand=()):
    func = unit.funcs[which]
    types = {}
    opaque = [x for x in unit.opts.get('opaque', ())
              if x.lstrip('!') not in expand]
    ev = Evaluator(program, types, opaque,
                   {**fields, **{tuple(k.split('.')): v for k, v in
                                 unit.opts.get('fields', {}).items()}},
                   dict(returns, **unit.opts.get('returns', {})))
    ev.data = {tuple(k.split('.')) for k in unit.opts.get('fields', {})}
    ev.follow = unit.opts.get('live', False)
    ev.inline_eq = unit.opts.get('inline_eq', False)
    if which == 'spec':
        ev.opaque |= set(unit.opts.get('spec_opaque', ())) - set(expand)
    if 'given' in unit.funcs and which != 'given':
        t.FACTS.clear()
        learn(evaluate(program, unit, 'given', fields, returns)[1])
    args = []
    sig = unit.funcs['code'].node.args
    for a in sig.args:
        p = ('par', a.arg)
        if a.arg in unit.types:
            want = unit.types[a.arg]
            if want.startswith('='):
                types[p] = ev.resolve_type(want)
            else:
                # the class itself
                p = ('cls', ev.resolve_type(want)[1])
        elif a.annotation is not None:
            want = ast.literal_eval(a.annotation)
            if want.startswith('<'):
                # an iterator: its elements can be taken once
                types[p] = ev.resolve_type('[%s]' % want[1:-1])
                p = ev.alloc('gen', types[p], t.mkseq('gen', t.splice(p)))
            else:
                types[p] = ev.resolve_type(want)
        args.append(p)
    kw = {}
    n = len(func.node.args.args)
    ev.frames = []
    value = ev.run(func.node, args[:n], kw, func.module, None, None, func,
                   func.is_gen) if False else run_top(ev, func, args[:n])
    ev.keep_ids = False
    value = ev.freeze(ev.deref_all(value))
    exc = ev.exc
    effects = {}
    for loc, v in ev.store.items():
        base = loc[1]
        if base[0] == 'ref':
            continue
        effects[loc] = ev.freeze(v)
    return ev, value, exc, effects


def learn(tree):
    """The premises: the atoms on the way to True."""
    tree = t.truth(tree)
    while t.is_ite(tree):
        _, atom, hi, lo = tree
        if F not in (hi, lo):
            raise AnalysisError('premises')
        t.FACTS[atom] = lo == F
        tree = hi if lo == F else lo


def run_top(ev, func, args):
    from .eval import Frame
    frame = Frame(None, func.module, None)
    ev.frames.append(frame)
    return ev.run(func.node, args, {}, func.module, None, None, func,
                  func.is_gen)


class Timeout(Exception):
    pass


def expired(signum, frame):
    raise Timeout


def check(program, unit, fields, returns, vocabulary, limit=20):
    start = time.time()
    t.FACTS.clear()
    # the graphs of the current tree take milliseconds
    signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = check_(program, unit, fields, returns, vocabulary)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Timeout:
        r = Result(unit, UNK, 'no answer in %d s' % limit)
    except Unsupported as e:
        r = Result(unit, UNK, 'not analysable: %s' % e)
    except t.TooBig:
        r = Result(unit, UNK, 'value graph too big')
    except RecursionError:
        r = Result(unit, UNK, 'recursion')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        t.FACTS.clear()
    r.seconds = time.time() - start
    return r


def vanished(program, unit, vocabulary):
    """Functions the unit takes as primitive that are not there."""
    for name in list(unit.opts.get('opaque', ())) + list(
            unit.opts.get('spec_opaque', ())):
        name = name.lstrip('!')
        if name.startswith('.'):
            ok = any(name[1:] in c.members for c in program.classes.values())
        elif name.startswith('new '):
            ok = any(c.name == name[4:] for c in program.classes.values())
        elif '.' in name:
            cls, meth = name.split('.')
            ok = any(c.name == cls and meth in c.members
                     for c in program.classes.values())
        else:
            ok = any(q.split(':')[-1] == name for q in program.functions)
        if not ok:
            return name
    # a name of the package that occurs nowhere in it any more
    known = spelled(program)
    for which in ('code', 'spec'):
        for node in ast.walk(unit.funcs[which].node):
            if isinstance(node, ast.Attribute) and \
                    node.attr in vocabulary['members'] and \
                    node.attr not in known:
                return 'the name ' + node.attr


def spelled(program):
    """Every name the package mentions."""
    if program.spelled is None:
        program.spelled = set(names_of(program))
    return program.spelled


def check_(program, unit, fields, returns, vocabulary):
    gone = vanished(program, unit, vocabulary)
    if gone:
        return Result(unit, UNK, '%s is not there' % gone)
    r = decide(program, unit, fields, returns, vocabulary)
    if r.verdict == DIFF:
        for name in sorted(r.assumed):
            if not trusted(program, name, fields, returns, vocabulary):
                return Result(unit, UNK, 'if %s is what it was, %s' % (
                    name, r.detail), r.inlined)
    premise = unit.opts.get('premise')
    if r.verdict == DIFF and premise:
        return Result(unit, UNK, 'unless %s, %s' % (premise, r.detail),
                      r.inlined)
    moved = {x for x in r.unused if any(
        q.split(':')[-1] == x for q in r.inlined)}
    if r.verdict == DIFF and r.unused:
        # the code does without a function the reference calls: maybe its
        # body was moved to the caller
        try:
            again = decide(program, unit, fields, returns, vocabulary,
                           r.unused)
        except (Unsupported, t.TooBig, RecursionError):
            again = None
        if moved and (again is None or again.verdict != DIFF):
            # the recursion became a loop
            return again if again is not None else Result(
                unit, UNK, r.detail, r.inlined)
        if again is None:
            news = r.symbols[0] - r.symbols[1]
        elif again.verdict != UNK:
            return again
        elif r.loops[0] and not r.loops[1]:
            return again
        else:
            news = (r.symbols[0] - r.symbols[1]) & again.symbols[1]
        if news:
            return Result(unit, UNK, '%s is not called; %s' % (
                ', '.join(sorted(r.unused)), r.detail), r.inlined)
    return r


def body(func):
    """What a function says, whatever its comments are."""
    node = func.node
    stmts = [x for x in node.body if not (
        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    text = ast.dump(node.args) + ''.join(map(ast.dump, stmts)) + ''.join(
        map(ast.dump, node.decorator_list))
    return hashlib.md5(text.encode()).hexdigest()[:12]


def baseline():
    with open(os.path.join(HERE, 'spec', 'baseline.json')) as f:
        return json.load(f)


def trusted(program, qual, fields, returns, vocabulary):
    """An obligation takes other functions for what they are specified to
    be. One that reads differently now has to meet its own obligations before
    a caller is blamed."""
    func = program.functions.get(qual)
    if func is None or qual.startswith('spec'):
        return True
    known = program.trusted
    if qual not in known:
        table = baseline()
        if qual in table and table[qual]['body'] == body(func):
            known[qual] = True
            return True
        known[qual] = False
        names = table.get(qual, {}).get('units', ())
        if not program.units:
            program.units.update(
                {u.name: u for u in load_units(program)})
        for name in names:
            key = 'unit ' + name
            if key not in known:
                u = program.units.get(name)
                known[key] = u is not None and raw(
                    program, u, fields, returns, vocabulary) == EQ
            if not known[key]:
                return False
        known[qual] = bool(names)
    return known[qual]


def raw(program, unit, fields, returns, vocabulary):
    saved = dict(t.FACTS)
    t.FACTS.clear()
    try:
        return decide(program, unit, fields, returns, vocabulary).verdict
    except (Unsupported, t.TooBig, RecursionError):
        return UNK
    finally:
        t.FACTS.clear()
        t.FACTS.update(saved)


def loops(*terms):
    return any(y[0] == 'fold' for x in terms for y in t.subterms(x))


def symbols(*terms):
    """Names a value graph mentions."""
    r = set()
    for x in terms:
        for y in t.subterms(x):
            if y[0] in ('attr', 'mcall', 'bound'):
                r.add(str(y[2]).split('.')[-1])
            elif y[0] in ('func', 'cls', 'ext', 'builtin', 'gvar', 'new'):
                r.add(y[1])
            elif y[0] == 'isinst':
                r.add(y[2])
    return r


def decide(program, unit, fields, returns, vocabulary, expand=()):
    ev, value, exc, effects = evaluate(program, unit, 'code', fields, returns,
                                       expand)
    inlined = sorted(q for q in ev.inlined if not q.startswith('spec'))
    ev2, value2, exc2, effects2 = evaluate(program, unit, 'spec', fields,
                                           returns, expand)
    called, called2 = ({q.split(':')[-1] for q in e.hits | e.recursed}
                       for e in (ev, ev2))
    odd = {q for q in ev.recursed ^ ev2.recursed
           if q.split(':')[-1] not in called & called2}
    ann = unit.funcs['code'].node.returns
    if ann is not None and ast.literal_eval(ann) == 'bool':
        value, value2 = t.truth(value), t.truth(value2)
    # exceptions that are part of the contract
    raises = unit.opts.get('raises', '').split()
    internal = INTERNAL - set(raises)
    got = outcome(value, exc)
    want = outcome(value2, exc2, internal)
    verdict = EQ
    details = []

    def unfold(label, a, b):
        for what, x, y, path in unfolded(ev2, a, b):
            c = Comparer(ev2, vocabulary, 5000, internal, odd)
            t.reset_budget(60000)
            try:
                r = c.diff(x, y, path)
            except (t.TooBig, RecursionError):
                continue
            if r == DIFF:
                details.append(explain(
                    label + ', where ' + what + ',', c.why, x, y))
                return True
        return False

    def one(label, a, b):
        nonlocal verdict
        c = Comparer(ev2, vocabulary, internal=internal, odd=odd)
        r = c.diff(a, b)
        if r == DIFF:
            verdict = DIFF
            details.append(explain(label, c.why, a, b))
        elif r == UNK and unfold(label, a, b):
            verdict = DIFF
        elif r == UNK:
            if verdict == EQ:
                verdict = UNK
            details.append('%s: code %s, reference %s' % (
                label, cut(t.show(a)), cut(t.show(b))))
    one('result', got, want)
    only = unit.opts.get('effects')
    if only != 'ignore':
        locs = set(effects) | set(effects2)
        for loc in sorted(locs, key=repr):
            if loc[0] == 'content' and loc[1][0] == 'attr':
                slot = ('attr',) + loc[1][1:]
                mixed = [e.get(slot, e.get(loc)) for e in (effects, effects2)]
                if slot in locs and None not in mixed:
                    # changed in place by one, replaced by the other: the
                    # same elements, but who else holds the container?
                    locs -= {loc, slot}
                    c = Comparer(ev2, vocabulary, internal=internal, odd=odd)
                    r = c.diff(outcome(as_list(mixed[0]), exc),
                               outcome(as_list(mixed[1]), exc2, internal))
                    if r == DIFF:
                        verdict = DIFF
                        details.append(explain(
                            'final value of ' + t.show(loc[1]), c.why,
                            mixed[0], mixed[1]))
                    elif verdict == EQ:
                        verdict = UNK
                        details.append('%s is replaced, not changed' %
                                       t.show(loc[1]))
        for loc in sorted(locs, key=repr):
            if loc[0] != 'content' or loc[1][0] != 'idx':
                continue
            outer = ('content', loc[1][1])
            one_, two = (effects, effects2) if loc in effects else (
                effects2, effects)
            if loc in two or outer not in two:
                continue
            # an element changed in place by one and put back by the other
            sides = []
            for e, x in ((effects, exc), (effects2, exc2)):
                v = e.get(outer, outer[1])
                if loc in e:
                    ty = ev2.typeof(outer[1])
                    v = apply(lambda c, w: c if w == loc[1] else put(
                        c, loc[1][2], w, ty)
                        if c == outer[1] else ('unk', 'both'), v, e[loc])
                sides.append(outcome(plain(v), x, internal))
            locs -= {loc, outer}
            c = Comparer(ev2, vocabulary, internal=internal, odd=odd)
            r = c.diff(*sides)
            if r == DIFF:
                verdict = DIFF
                details.append(explain(
                    'final value of ' + t.show(outer[1]), c.why, *sides))
            elif verdict == EQ:
                verdict = UNK
                details.append('elements of %s are replaced, not changed' %
                               t.show(outer[1]))
        for loc in sorted(locs, key=repr):
            if loc[0] != 'attr' or loc in effects2:
                continue
            for other in sorted(locs, key=repr):
                if other[0] == 'attr' and other[2] == loc[2] and \
                        other not in effects:
                    c = Comparer(ev2, vocabulary, internal=internal, odd=odd)
                    if c.diff(loc[1], other[1]) == UNK:
                        # maybe one and the same object
                        locs -= {loc, other}
                        if verdict == EQ:
                            verdict = UNK
                            details.append('writes %s of %s' % (
                                loc[2], cut(t.show(loc[1]))))
        for loc in kept_iterators(program, got, effects, effects2):
            verdict = DIFF
            details.append(
                '%s keeps an iterator for later calls, the first use of it '
                'leaves nothing to them' % t.show(loc))
        for loc in sorted(locs, key=repr):
            d = initial(loc)
            a = effects.get(loc, d)
            b = effects2.get(loc, d)
            a = outcome(a, exc)
            b = outcome(b, exc2, internal)
            name = t.show(loc[1]) + ('.' + str(loc[2])
                                     if loc[0] == 'attr' else '')
            if loc[0] == 'attr' and (not isinstance(loc[2], str) or loc[2]
                                     not in vocabulary['attrs']):
                if a != b and verdict == EQ:
                    verdict = UNK
                    details.append('writes unknown field %s' % name)
                continue
            one('final value of ' + name, a, b)
    r = Result(unit, verdict, '\n'.join(details), inlined)
    if verdict == DIFF:
        flags(r, ev, (got, effects), (want, effects2))
    r.assumed = {q for q in ev.assumed | ev2.assumed
                 if q not in ev.inlined}
    recursed = {q.split(':')[-1] for q in ev.recursed}
    r.unused = {x for x in ev2.hits - ev.hits - ev.recursed - recursed
                if not x.startswith('new ')}
    r.loops = (loops(got, *effects.values()),
               loops(want, *effects2.values()))
    r.symbols = (symbols(got, *effects.values()),
                 symbols(want, *effects2.values()))
    return r


def kept_iterators(program, got, effects, effects2):
    """Attributes of given objects where an iterator is put that this code
    also takes from there, found from an earlier call."""
    def iterator(x):
        if x[0] == 'seq' and x[1] == 'gen':
            return True
        if x[0] == 'call' and x[1][0] == 'func':
            func = program.functions.get(x[1][1])
            return func is not None and program.makes_iterator(func)
        return False
    result = []
    for loc, value in sorted(effects.items(), key=repr):
        if loc[0] != 'attr' or loc in effects2 or loc[1][0] != 'par':
            continue
        if any(iterator(x) for x in t.leaves(value)) and any(
                y == loc for x in [got] + [
                    v for k, v in effects.items() if k != loc]
                for y in t.subterms(x)):
            result.append(loc)
    return result


OWNERS = [('yargy.tree', 'C01'), ('yargy.token', 'C01'),
          ('yargy.relations.graph', 'C01'), ('yargy.interpretation', 'C01'),
          ('yargy.span', 'C01'), ('yargy.morph', 'C01'),
          ('yargy.rule', 'C02'), ('yargy.predicates', 'C02'),
          ('yargy.relations', 'C02'), ('yargy.pipelines', 'C02')]


def flags(r, ev, code, spec):
    """What kind of fault a difference is: an order nobody controls (C04),
    a write to an object the reference leaves alone (C01, C02, C03)."""
    def arbitrary(pair):
        found = set()
        for x in (pair[0],) + tuple(pair[1].values()):
            for y in t.subterms(x):
                if y[0] == 'op' and y[1] == 'unordered':
                    found.add('unordered')
                if y[0] == 'call' and y[1][0] == 'builtin' and y[1][1] in (
                        'id', 'hash'):
                    found.add(y[1][1])
        return found
    def ordering(pair):
        return any(y[0] == 'call' and y[1] == ('builtin', 'sorted')
                   for x in (pair[0],) + tuple(pair[1].values())
                   for y in t.subterms(x))
    if arbitrary(code) - arbitrary(spec) or \
            ordering(spec) and not ordering(code):
        r.flags.add('C04')
    for loc in set(code[1]) - set(spec[1]):
        if code[1][loc] == initial(loc):
            continue
        base = loc[1]
        if loc[0] == 'content' and base[0] == 'attr':
            base = base[1]
        root = base
        while root[0] in ('attr', 'content', 'idx'):
            root = root[1]
        if root[0] == 'par' and root[1].startswith('calls of '):
            continue
        if root[0] not in ('par', 'bv', 'gvar', 'cls', 'func'):
            continue
        info = ev.class_of(base) if root[0] in ('par', 'bv') else None
        where = info[0].qual if info else ''
        if root[0] == 'cls':
            r.flags.add('C03')
            continue
        r.flags.add(next((p for m, p in OWNERS if where.startswith(m)),
                         'C03'))


def initial(loc):
    base = loc[1]
    if base[0] == 'par' and base[1].startswith('calls of '):
        return t.mkseq('list', ('pieces', ()))
    if loc[0] == 'attr':
        return ('attr', loc[1], loc[2])
    return base


def outcome(value, exc, internal=()):
    def go(e, v):
        if e == NONE:
            return v
        if e[1] in internal:
            return BOT
        return e
    return apply(go, exc, value)


def put(c, k, v, ty):
    if isinstance(ty, tuple) and ty[0] == 'list':
        return ('op', 'setitem', (c, k, v))
    return t.mkseq('dict', ('pieces', (
        ('splice', c), ('one', ('pair', k, v)))))


def plain(x):
    # elements put into a container, compared as lists
    def f(y):
        if y[0] == 'op' and y[1] == 'setitem':
            return ('op', 'setitem', y[2][:2] + (as_list(t.rebuild(
                y[2][2], f)),))
        if y[0] == 'pair':
            return ('pair', y[1], as_list(t.rebuild(y[2], f)))
    return t.rebuild(x, f)


def as_list(x):
    return apply(lambda c: ('seq', 'list', c[2]) if c[0] == 'seq' else c, x)


def cut(s, n=1500):
    return s if len(s) <= n else s[:n] + '...'


def explain(label, why, a, b):
    if not why:
        return '%s differs: code %s, reference %s' % (
            label, cut(t.show(a)), cut(t.show(b)))
    path, x, y = why
    cond = ' and '.join(
        ('' if v else 'not ') + '(' + t.show(c) + ')' for c, v in path)
    return '%s differs%s: code computes %s where %s is required' % (
        label, ' when ' + cut(cond, 600) if cond else '',
        cut(t.show(x), 600), cut(t.show(y), 600))


def names_of(program):
    for module in program.modules.values():
        if module.name.startswith('spec'):
            continue
        for node in ast.walk(module.tree):
            if isinstance(node, ast.Attribute):
                yield node.attr
            elif isinstance(node, (ast.FunctionDef, ast.ClassDef)):
                yield node.name
            elif isinstance(node, ast.keyword) and node.arg:
                yield node.arg
            elif isinstance(node, ast.Name):
                yield node.id
            elif isinstance(node, ast.arg):
                yield node.arg
            elif isinstance(node, ast.Constant) and isinstance(
                    node.value, str) and node.value.isidentifier():
                yield node.value


def members(program):
    """Names of fields and methods of the package's own classes."""
    result = set()
    for cls in program.classes.values():
        if cls.qual.startswith('spec'):
            continue
        result.update(cls.members)
        for node in ast.walk(cls.node):
            if isinstance(node, ast.Attribute) and isinstance(
                    node.ctx, ast.Store):
                result.add(node.attr)
    return {x for x in result if not x.startswith('__')}


def vocabulary(program):
    attrs, funcs, classes, globs = set(), set(), set(), set()
    attrs.update(names_of(program))
    for module in program.modules.values():
        for name, entry in module.names.items():
            if entry[0] == 'expr':
                globs.add(module.name + ':' + name)
    funcs.update(program.functions)
    classes.update(program.classes)
    return {'members': sorted(members(program)), 'attrs': sorted(attrs), 'funcs': sorted(funcs),
            'classes': sorted(classes), 'globals': sorted(globs)}
