"""Unfolding of value graphs.

Two graphs that differ as a whole can still be hard to tell apart when they
contain loops carrying state: a recurrence has many normal forms. The loops
are unfolded by their defining equations over collections of a given small
size,

    fold(step, init, [])          = init
    fold(step, init, [a, *rest])  = fold(step, step(init, a), rest)

(likewise for comprehensions, quantifiers, first/last, sums), the elements
remaining arbitrary. The unfolded graphs are loop free, their normal forms
are canonical, and a difference between them is a difference of the
functions. Unfolding never shows that two graphs coincide, it only turns
"cannot decide" into "differ".
"""

from . import terms as t
from .terms import (T, F, NONE, BOT, const, apply, select, is_ite, leaves,
                    band, bor, bnot)

STUCK = ('unk', 'unfolded too far')
SOURCES = ('par', 'attr', 'idx', 'call', 'mcall', 'content')
ITERATING = ('zip', 'reversed', 'sorted', 'itertools.product',
             'itertools.combinations', 'itertools.permutations')
ROUNDS = 7
STEPS = 20000
SIZE = 15000


#        outer, inner collections, integers (dictionaries)
CONFIGS = [(1, 1, 1), (2, 1, 2), (1, 2, 1), (2, 2, 3), (0, 0, 0), (3, 1, 2),
           (1, 3, 1), (1, 1, 1, 0)]


def unfolded(ev, a, b):
    """Unfolded pairs: (description, a, b, path)"""
    for config in CONFIGS:
        p = Peel(ev, *config)
        t.reset_budget(60000)
        try:
            r = p.run(a, b)
        except (t.TooBig, RecursionError):
            continue
        if r is None or not p.known:
            if not p.known and r is not None:
                return
            continue
        what = ', '.join(sorted(
            '%s has %d' % (t.show(s), len(r[2]))
            for s, r in p.known.items() if r[0] == 'seq'))
        yield what, r[0], r[1], tuple(p.path)


class Peel(object):
    def __init__(self, ev, sizes, nested, ints, maps=None, depth=2):
        self.ev = ev
        self.sizes = sizes        # size of the collections
        self.nested = nested
        self.ints = ints
        self.maps = maps
        self.depth = depth
        self.known = {}           # source -> sequence
        self.origin = {}          # sequence key -> source
        self.path = []            # elements of dictionaries differ
        self.fresh = 0
        self.bound = set()
        self.memo = {}
        self.steps = 0
        self.sized = {}
        self.keep = []
        self.whiles = 0

    # ------------------------------------------------------------ sources

    def is_source(self, x):
        if x[0] not in SOURCES:
            return False
        if x[0] == 'call' and x[1][0] not in ('func', 'par', 'attr',
                                              'bound'):
            return False
        if t.levels(x) or t.lvs(x):
            return False
        if any(y[0] in ('seq', 'fold', 'first', 'last', 'exists', 'sum')
               for y in t.subterms(x)):
            # the same collection may be written in another way
            return False
        ty = self.ev.typeof(x)
        if ty in ('int', 'str', 'bool'):
            return False
        if isinstance(ty, tuple) and ty[0] in ('cls', 'opt'):
            return False
        return True

    def level_of(self, x):
        return max([y[1].count('[') for y in t.subterms(x)
                    if y[0] == 'par'] or [0])

    def source(self, x):
        """The elements of an arbitrary collection, or None."""
        r = self.known.get(x)
        if r is not None:
            return self.filled(r)
        if not self.is_source(x) or x[0] == 'attr' and x[2] == '__mro__':
            return None
        level = self.level_of(x)
        n = self.sizes if level == 0 else self.nested
        if level > self.depth:
            if not self.whiles:
                return None
            n = 0
        ty = self.ev.typeof(x)
        if self.maps is not None and isinstance(ty, tuple) and \
                ty[0] == 'dict':
            n = self.maps
        name = t.show(x)
        items = []
        if isinstance(ty, tuple) and ty[0] == 'dict':
            for i in range(n):
                k = ('par', '%s.key[%d]' % (name, i))
                v = ('par', '%s.value[%d]' % (name, i))
                if ty[1]:
                    self.ev.types[v] = ty[1]
                items.append((k, v))
            r = ('seq', 'dict', tuple(('one', ('pair', k, v))
                                      for k, v in items))
            keys = [k for k, _ in items]
            for i, a in enumerate(keys):
                for b in keys[i + 1:]:
                    c = t.cmp('==', a, b)
                    if is_ite(c):
                        self.path.append((c[1], c[2] == F))
        else:
            el = ty[1] if isinstance(ty, tuple) and ty[0] == 'list' else None
            for i in range(n):
                e = ('par', '%s[%d]' % (name, i))
                if el:
                    self.ev.types[e] = el
                items.append(e)
            r = ('seq', 'list', tuple(('one', e) for e in items))
        self.known[x] = r
        self.fresh += 1
        return r

    def filled(self, r):
        """Elements that were unfolded themselves."""
        def go(v):
            if v[0] == 'pair':
                return ('pair', v[1], go(v[2]))
            s = self.known.get(v) if v[0] == 'par' else None
            return v if s is None else self.filled(s)
        if r[0] != 'seq':
            return r
        return r[:2] + (tuple((p[0], go(p[1])) for p in r[2]),)

    # ------------------------------------------------------------ driver

    def run(self, *trees):
        """Unfold until no new collection turns up."""
        member, item = set(), set()
        for x in trees:
            for y in t.subterms(x):
                if y[0] == 'cmp' and y[1] == 'in':
                    member.add(y[3])
                elif y[0] == 'idx' and y[2][0] == 'const':
                    item.add(y[1])
        self.opened = member & item
        for _ in range(ROUNDS):
            before = len(self.known)
            self.memo = {}
            r = [self.go(x, ()) for x in trees]
            if len(self.known) == before:
                return r
        return None

    def go(self, x, env):
        """env: ((level, element, position, ...), ...)"""
        k = (x, env, self.whiles > 0)
        r = self.memo.get(k)
        if r is None:
            self.steps += 1
            if self.steps > STEPS:
                raise t.TooBig
            r = self.step(x, env)
            if t.size(r, self.sized) > SIZE:
                raise t.TooBig
            self.keep.append(r)
            self.memo[k] = r
        return r

    def find(self, env, key):
        for k, v in env:
            if k == key:
                return v

    def inner(self, env, level):
        """The environment below a binder that stays."""
        return tuple((k, v) for k, v in env if k[1] < level or
                     k[0] == 'lv' and k[1] < level)

    def conc(self, x):
        """A closed leaf after its parts were unfolded."""
        r = self.known.get(x)
        if r is None and x in self.opened:
            r = self.source(x)
        if r is not None:
            return self.filled(r)
        if x[0] in ('attr', 'par', 'call', 'idx') and self.ints and \
                x in self.bound:
            return const(self.ints)
        return x

    def leafs(self, tree):
        return apply(self.conc, tree)

    def size(self, x):
        if x[0] == 'seq' and x[1] in ('set', 'dict') and all(
                p[0] == 'one' for p in x[2]):
            r = self.entries([('one', ('pair', p[1], p[1]))
                              if x[1] == 'set' else p for p in x[2]], 'keys')
            if r is not None:
                return t.length(r)
        return t.length(x)

    def step(self, x, env):
        go = self.go
        tag = x[0]
        if tag == 'ite':
            return select(self.atom(x[1], env), go(x[2], env),
                          go(x[3], env))
        if tag == 'bv':
            v = self.find(env, ('bv', x[1]))
            return x if v is None else v
        if tag == 'pos':
            v = self.find(env, ('pos', x[1]))
            return x if v is None else v
        if tag == 'lv':
            v = self.find(env, ('lv',) + x[1])
            return x if v is None else v
        if tag in ('par',):
            return self.conc(x)
        if tag in ('const', 'cls', 'func', 'ext', 'builtin', 'gvar', 'ref',
                   'back', 'bot', 'clos', 'free', 'unk', 'exc', 'mod'):
            return x
        if tag == 'attr':
            return self.leafs(t.attr(go(x[1], env), x[2]))
        if tag == 'content':
            return self.leafs(apply(
                lambda y: y if y[0] == 'seq' else ('content', y),
                go(x[1], env)))
        if tag == 'len':
            if self.whiles:
                # bounds a loop
                return apply(self.size, self.src(x[1], env))
            return apply(self.size, go(x[1], env))
        if tag == 'idx':
            return self.leafs(apply(self.index, go(x[1], env),
                                    go(x[2], env)))
        if tag == 'pair':
            return t.pair(go(x[1], env), go(x[2], env))
        if tag == 'bound':
            return apply(lambda y: ('bound', y, x[2]), go(x[1], env))
        if tag == 'call':
            if x[1] == ('builtin', 'range'):
                for a in x[2]:
                    v = go(a, env)
                    for y in leaves(v):
                        self.integer(y)
            arg = self.src if x[1][0] in ('builtin', 'ext') and \
                x[1][1] in ITERATING else go
            r = t.call(go(x[1], env), [arg(a, env) for a in x[2]],
                       [(k, go(v, env)) for k, v in x[3]])
            return self.leafs(apply(self.library, r))
        if tag == 'mcall':
            r = t.mcall(go(x[1], env), x[2], [go(a, env) for a in x[3]],
                        [(k, go(v, env)) for k, v in x[4]])
            return self.leafs(apply(self.method, r))
        if tag == 'op':
            return apply(self.operation, t.op(
                x[1], *[go(a, env) for a in x[2]]))
        if tag == 'lin':
            r = const(x[1])
            for y, c in x[2]:
                r = apply(lambda a, b, c=c: BOT if BOT in (a, b) else
                          t.mklin_scaled(a, b, c), r, go(y, env))
            return r
        if tag == 'str':
            acc = const('')
            for p in x[1]:
                if p[0] == 'lit':
                    acc = apply(lambda a, p=p: BOT if a == BOT else
                                t.mkstr(t.str_pieces(a) + (p,)), acc)
                else:
                    acc = apply(
                        lambda a, b, p=p: BOT if BOT in (a, b) else
                        t.mkstr(t.str_pieces(a) + (('fmt', p[1], b),)),
                        acc, go(p[2], env))
            return acc
        if tag in ('cmp', 'truth', 'isinst', 'exists'):
            return self.atom(x, env)
        if tag in ('first', 'last'):
            return apply(lambda s: self.pick(x, s, env), self.src(x[2], env))
        if tag == 'sum':
            return apply(lambda s: self.total(x, s, env),
                         self.src(x[2], env))
        if tag == 'seq':
            r = t.mkseq(x[1], self.pieces(x[2], env, x[1] == 'dict'))
            return apply(self.last_values, r) if x[1] == 'dict' else r
        if tag == 'pieces':
            return self.pieces(x[1], env)
        if tag == 'new':
            return t.new(x[1], [(k, go(v, env)) for k, v in x[2]])
        if tag == 'lam':
            return ('lam', x[1], x[2], go(x[3], self.inner(env, x[1])))
        if tag == 'fold':
            if x[1] == 'while':
                return self.while_(x, env)
            return apply(lambda s: self.fold(x, s, env), self.src(x[3], env))
        raise AssertionError(x)

    # ------------------------------------------------------------ pieces

    def integer(self, x):
        """An integer that bounds a loop."""
        if x[0] == 'lin':
            for y, _ in x[2]:
                self.integer(y)
        elif x[0] in ('attr', 'par') and not t.levels(x) and \
                self.ev.typeof(x) in ('int', None) and x not in self.bound:
            self.bound.add(x)
            self.known[('int', x)] = x

    def src(self, x, env):
        """A collection that is iterated."""
        r = self.go(x, env)

        def f(y):
            s = self.source(y)
            return s if s is not None else y
        return apply(f, r)

    def items(self, s):
        """Elements of a collection of known size, or None."""
        if s[0] == 'op' and s[1] == 'live':
            return None
        if s[0] == 'const' and s[1] == 'str':
            return [const(c) for c in s[2]]
        if s[0] == 'seq' and all(p[0] == 'one' for p in s[2]):
            if s[1] == 'dict':
                if not self.distinct([p[1][1] for p in s[2]]):
                    return None
                return [p[1][1] for p in s[2]]
            if s[1] == 'set' and len(s[2]) > 1:
                if all(p[1][0] == 'const' for p in s[2]):
                    return [p[1] for p in s[2]]
                return None
            return [p[1] for p in s[2]]
        if s[0] == 'call' and s[1] == ('builtin', 'range') and all(
                a[0] == 'const' for a in s[2]) and not s[3]:
            r = range(*[a[2] for a in s[2]])
            return [const(i) for i in r] if len(r) < 8 else None
        return None

    def distinct(self, keys):
        for i, a in enumerate(keys):
            for b in keys[i + 1:]:
                c = t.cmp('==', a, b)
                if c == F:
                    continue
                if is_ite(c) and (c[1], c[2] == F) in self.path:
                    continue
                return False
        return True

    def bind(self, env, level, i, e):
        env = self.inner(env, level)
        return env + ((('bv', level), e), (('pos', level), const(i)))

    def pieces(self, ps, env, pairs=False):
        r = ('pieces', ())
        for p in ps:
            if p[0] == 'one':
                r = t.concat(r, t.one(self.go(p[1], env)))
            elif p[0] == 'splice':
                v = self.leafs(self.go(p[1], env))
                if not pairs:
                    # iterating a dictionary gives its keys
                    v = apply(lambda y: ('seq', 'list', tuple(
                        ('one', q[1][1]) for q in y[2]))
                        if y[0] == 'seq' and y[1] == 'dict' and all(
                            q[0] == 'one' for q in y[2]) else y, v)
                r = t.concat(r, t.splice(v))
            else:
                r = t.concat(r, apply(lambda s, p=p: self.for_(p, s, env),
                                      self.src(p[2], env)))
        return r

    def for_(self, p, s, env):
        if s == BOT:
            return BOT
        level = p[1]
        xs = self.items(s)
        if xs is None:
            return t.mkfor(level, s, self.go(p[3], self.inner(env, level)))
        r = ('pieces', ())
        for i, e in enumerate(xs):
            r = t.concat(r, self.go(p[3], self.bind(env, level, i, e)))
        return r

    # ------------------------------------------------------------ atoms

    def atom(self, a, env):
        go = self.go
        tag = a[0]
        if tag == 'cmp':
            x, y = go(a[2], env), go(a[3], env)
            if BOT in (a[2], a[3]):
                # did the loop return?
                z = x if a[3] == BOT else y
                if STUCK in leaves(z):
                    raise t.TooBig
                return apply(lambda v: T if v == BOT else F, z)
            return t.cmp(a[1], x, y)
        if tag == 'truth':
            return t.truth(go(a[1], env))
        if tag == 'isinst':
            if t.H.isinst:
                return apply(lambda x: t.H.isinst(x, a[2]), go(a[1], env))
            return apply(lambda x: t.atom(('isinst', x, a[2])),
                         go(a[1], env))
        if tag == 'exists':
            return apply(lambda s: self.any_(a, s, env), self.src(a[2], env))
        if tag == 'lv':
            return t.truth(go(a, env))
        raise AssertionError(a)

    def any_(self, a, s, env):
        if s == BOT:
            return BOT
        level = a[1]
        xs = self.items(s)
        if xs is None and s[0] == 'seq' and s[1] == 'set' and all(
                p[0] == 'one' for p in s[2]) and not any(
                    y == ('pos', level) for y in t.subterms(a[3])):
            # in whatever order
            xs = [p[1] for p in s[2]]
        if xs is None:
            return t.exists(level, s, self.go(a[3], self.inner(env, level)))
        r = F
        for i, e in enumerate(xs):
            r = bor(r, t.truth(self.go(a[3], self.bind(env, level, i, e))))
        return r

    def pick(self, x, s, env):
        if s == BOT:
            return BOT
        kind, level = x[0], x[1]
        xs = self.items(s)
        if xs is None:
            e = self.inner(env, level)
            fn = t.first if kind == 'first' else t.last
            return fn(level, s, self.go(x[3], e), self.go(x[4], e))
        r = BOT
        order = list(enumerate(xs))
        if kind == 'first':
            order.reverse()
        for i, e in order:
            b = self.bind(env, level, i, e)
            r = select(t.truth(self.go(x[3], b)), self.go(x[4], b), r)
        return r

    def total(self, x, s, env):
        if s == BOT:
            return BOT
        level = x[1]
        xs = self.items(s)
        if xs is None:
            return apply(
                lambda y: BOT if y == BOT else ('sum', level, s, y),
                self.go(x[3], self.inner(env, level)))
        r = const(0)
        for i, e in enumerate(xs):
            r = apply(lambda a, b: BOT if BOT in (a, b) else t.lin_add(a, b),
                      r, self.go(x[3], self.bind(env, level, i, e)))
        return r

    # ------------------------------------------------------------ loops

    def states(self, env, level, values):
        return env + tuple((('lv', level, i), v)
                           for i, v in enumerate(values))

    def fold(self, x, s, env):
        if s == BOT:
            return BOT
        _, kind, level, _, exit, body, out = x
        xs = self.items(s)
        base = self.inner(env, level)
        values = [self.leafs(self.go(a, env)) for a, _ in body]
        if xs is None:
            return ('fold', kind, level, s, self.go(exit, base),
                    tuple((v, self.go(b, base))
                          for v, (_, b) in zip(values, body)),
                    self.go(out, base))
        done = F
        for i, e in enumerate(xs):
            b = self.states(self.bind(env, level, i, e), level, values)
            nexts = [self.go(n, b) for _, n in body]
            stop = t.truth(self.go(exit, b))
            values = [v if n == v else select(done, v, n)
                      for v, n in zip(values, nexts)]
            done = bor(done, stop)
            if done == T:
                break
        return self.go(out, self.states(base, level, values))

    def while_(self, x, env):
        _, kind, level, _, exit, body, out = x
        base = self.inner(env, level)
        values = [self.leafs(self.go(a, env)) for a, _ in body]
        done = F
        self.whiles += 1
        for i in range(ROUNDS):
            b = self.states(base, level, values)
            nexts = [self.go(n, b) for _, n in body]
            stop = t.truth(self.go(exit, b))
            values = [v if n == v else select(done, v, n)
                      for v, n in zip(values, nexts)]
            done = bor(done, stop)
            if done == T:
                break
        self.whiles -= 1
        r = self.go(out, self.states(base, level, values))
        return select(done, r, STUCK)

    # ------------------------------------------------------------ library

    def index(self, x, k):
        if BOT in (x, k):
            return BOT
        if x[0] == 'seq' and x[1] == 'dict':
            ps = x[2]
            if all(p[0] == 'one' for p in ps):
                r = BOT
                for p in ps:
                    r = select(t.cmp('==', p[1][1], k), p[1][2], r)
                return r
        if x[0] == 'seq' and k[0] == 'const' and isinstance(k[2], int) and \
                all(p[0] == 'one' for p in x[2]) and x[1] != 'set':
            if not -len(x[2]) <= k[2] < len(x[2]):
                return BOT
        return t.idx(x, k)

    def library(self, x):
        if x[0] != 'call' or x[1][0] not in ('builtin', 'ext'):
            return x
        name = x[1][1]
        args = x[2]
        xs = self.items(args[0]) if args else None
        if name == 'reversed' and xs is not None:
            return ('seq', 'gen', tuple(('one', e) for e in reversed(xs)))
        if name in ('list', 'tuple', 'iter', 'set', 'frozenset') and \
                len(args) == 1 and xs is not None and not x[3]:
            kind = {'iter': 'gen', 'frozenset': 'set'}.get(name, name)
            return t.mkseq(kind, ('pieces', tuple(('one', e) for e in xs)))
        if name == 'sorted' and xs is not None:
            return self.sort(x, xs)
        if name == 'itertools.combinations' and xs is not None and \
                len(args) == 2 and args[1][0] == 'const':
            from itertools import combinations
            return ('seq', 'gen', tuple(
                ('one', ('seq', 'tuple', tuple(('one', e) for e in c)))
                for c in combinations(xs, args[1][2])))
        if name == 'itertools.permutations' and xs is not None and \
                len(args) == 2 and args[1][0] == 'const':
            from itertools import permutations
            return ('seq', 'gen', tuple(
                ('one', ('seq', 'tuple', tuple(('one', e) for e in c)))
                for c in permutations(xs, args[1][2])))
        if name in ('itertools.product', 'zip') and not x[3]:
            ls = [self.items(a) for a in args]
            if all(y is not None for y in ls):
                from itertools import product
                fn = zip if name == 'zip' else product
                return ('seq', 'gen', tuple(
                    ('one', ('seq', 'tuple', tuple(('one', e) for e in c)))
                    for c in fn(*ls)))
        if name in ('max', 'min') and xs and len(args) == 1 and not x[3]:
            r = xs[0]
            for e in xs[1:]:
                c = (lambda a, b: t.cmp('<', a, b)) if name == 'max' else (
                    lambda a, b: t.cmp('<', b, a))
                r = apply(lambda a, b, c=c: select(c(a, b), b, a), r, e)
            return r
        return x

    def sort(self, x, xs):
        kw = dict(x[3])
        if len(xs) < 2:
            return ('seq', 'list', tuple(('one', e) for e in xs))
        if len(xs) > 3:
            return x
        key = kw.get('key')
        rev = kw.get('reverse', F)
        if rev not in (T, F) or set(kw) - {'key', 'reverse'}:
            return x
        if key is not None and key[0] != 'lam':
            return x

        def value(e):
            if key is None:
                return e
            return self.go(key[3], ((('bv', key[1]), e),
                                    (('pos', key[1]), const(0))))

        def less(a, b):
            a, b = value(a), value(b)
            return t.cmp('<', b, a) if rev == T else t.cmp('<', a, b)
        orders = [((), T)]
        for e in xs:
            new = []
            for done, cond in orders:
                # insert e after the elements that are not greater
                rest = cond
                for i in range(len(done), -1, -1):
                    if i == 0:
                        new.append(((e,) + done, rest))
                    else:
                        c = less(e, done[i - 1])
                        here = band(rest, bnot(c))
                        new.append((done[:i] + (e,) + done[i:], here))
                        rest = band(rest, c)
            orders = [(d, c) for d, c in new if c != F]
        r = BOT
        for d, c in orders:
            r = select(c, ('seq', 'list', tuple(('one', e) for e in d)), r)
        return r

    def method(self, x):
        if x[0] != 'mcall':
            return x
        base, name = x[1], x[2]
        if base[0] == 'seq' and base[1] == 'dict' and all(
                p[0] == 'one' for p in base[2]) and not x[3]:
            ps = [p[1] for p in base[2]]
            if name == 'keys':
                return ('seq', 'list', tuple(('one', p[1]) for p in ps))
            if name == 'values':
                return ('seq', 'list', tuple(('one', p[2]) for p in ps))
            if name == 'items':
                return ('seq', 'list', tuple(
                    ('one', ('seq', 'tuple', (('one', p[1]),
                                              ('one', p[2]))))
                    for p in ps))
        return x

    def entries(self, ps, which):
        """A dictionary made of these entries, in the order of its keys:
        an equal key replaces the value."""
        def view(k, v):
            if which == 'items':
                return ('seq', 'tuple', (('one', k), ('one', v)))
            return v if which == 'values' else k

        def put(done, rest):
            if not rest:
                return ('seq', 'list', tuple(('one', view(k, v))
                                             for k, v in done))
            (k, v), rest = rest[0], rest[1:]
            r = put(done + ((k, v),), rest)
            for i in range(len(done) - 1, -1, -1):
                r = select(t.cmp('==', done[i][0], k), put(
                    done[:i] + ((done[i][0], v),) + done[i + 1:], rest), r)
            return r
        if len(ps) > 4:
            return None
        return put((), tuple((p[1][1], p[1][2]) for p in ps))

    def last_values(self, x):
        """Keys written again."""
        if x[0] != 'seq' or any(p[0] != 'one' for p in x[2]):
            return x
        d = {}
        for p in x[2]:
            d[p[1][1]] = p[1][2]
        if len(d) == len(x[2]) or not self.distinct(list(d)):
            return x
        return ('seq', 'dict', tuple(('one', ('pair', k, v))
                                     for k, v in d.items()))

    def operation(self, x):
        if x[0] != 'op':
            return x
        name, args = x[1], x[2]
        if name in ('keys', 'values', 'items') and len(args) == 1 and \
                args[0][0] == 'seq' and all(
                    p[0] == 'one' for p in args[0][2]):
            r = self.entries(args[0][2], name)
            return x if r is None else r
        if name == 'setitem':
            c, k, v = args
            if c[0] == 'seq' and c[1] in ('list', 'tuple') and all(
                    p[0] == 'one' for p in c[2]) and k[0] == 'const' and \
                    isinstance(k[2], int):
                n = len(c[2])
                if not -n <= k[2] < n:
                    return BOT
                ps = list(c[2])
                ps[k[2]] = ('one', v)
                return ('seq', c[1], tuple(ps))
        if name == 'slice' and len(args) == 4:
            c = args[0]
            if c[0] == 'seq' and c[1] in ('list', 'tuple') and all(
                    p[0] == 'one' for p in c[2]) and all(
                        a[0] == 'const' for a in args[1:]):
                try:
                    ps = c[2][slice(*[a[2] for a in args[1:]])]
                except TypeError:
                    return x
                return ('seq', c[1], tuple(ps))
        if name == 'after_remove':
            c, v = args
            if c[0] == 'seq' and c[1] == 'list' and all(
                    p[0] == 'one' for p in c[2]):
                r = BOT
                ps = c[2]
                for i in range(len(ps) - 1, -1, -1):
                    r = select(t.cmp('==', ps[i][1], v),
                               ('seq', 'list', ps[:i] + ps[i + 1:]), r)
                return r
        return x
