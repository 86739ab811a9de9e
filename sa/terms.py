"""Value-graph terms in normal form.

A *leaf* is a tuple whose tag is not 'ite'.  A *tree* is a leaf or
('ite', atom, hi, lo): a reduced, ordered multi-terminal decision diagram over
boolean atoms.  Smart constructors lift decisions outwards, so two programs
that compute the same function of the same atoms get the same tree whatever
the order and the nesting of their tests.  Sequences (lists, tuples,
generators, sets, dicts) are kept in comprehension normal form, so loops that
append, comprehensions, generator functions, map() and filter() coincide.
"""

import sys

sys.setrecursionlimit(20000)


class TooBig(Exception):
    pass


LIMIT = [400000]
COUNT = [0]


def reset_budget(limit=400000):
    COUNT[0] = 0
    LIMIT[0] = limit


def size(x, memo=None):
    """Number of nodes of the written-out term."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(id(x))
        if r is None:
            r = 1
            for y in x:
                if isinstance(y, tuple):
                    r += go(y)
            memo[id(x)] = r
        return r
    return go(x)


def const(value):
    return ('const', type(value).__name__, value)


T = const(True)
F = const(False)
NONE = const(None)
BOT = ('bot',)        # don't care / undefined


def is_const(t):
    return t[0] == 'const'


_keys = {}
FACTS = {}     # atoms decided by the premises of an obligation


def key(atom):
    k = _keys.get(atom)
    if k is None:
        k = _keys[atom] = repr(atom)
    return k


def is_ite(t):
    return t[0] == 'ite'


def mk(atom, hi, lo):
    """ite(atom, hi, lo), keeping the diagram ordered and reduced."""
    if hi == lo:
        return hi
    if FACTS:
        known = FACTS.get(atom)
        if known is not None:
            return hi if known else lo
    a = key(atom)
    ra = key(hi[1]) if is_ite(hi) else None
    rb = key(lo[1]) if is_ite(lo) else None
    if (ra is None or a < ra) and (rb is None or a < rb):
        COUNT[0] += 1
        if COUNT[0] > LIMIT[0]:
            raise TooBig()
        return ('ite', atom, hi, lo)
    # choose the smallest atom as root
    best, batom = a, atom
    if ra is not None and ra < best:
        best, batom = ra, hi[1]
    if rb is not None and rb < best:
        best, batom = rb, lo[1]
    if best == a:
        return mk(atom, cof(hi, atom, True), cof(lo, atom, False))
    return mk(
        batom,
        mk(atom, cof(hi, batom, True), cof(lo, batom, True)),
        mk(atom, cof(hi, batom, False), cof(lo, batom, False))
    )


def cof(tree, atom, value):
    """Cofactor for an atom (anywhere in the tree)."""
    if not is_ite(tree):
        return tree
    if tree[1] == atom:
        return cof(tree[2] if value else tree[3], atom, value)
    if key(tree[1]) > key(atom):
        return tree
    hi = cof(tree[2], atom, value)
    lo = cof(tree[3], atom, value)
    if hi is tree[2] and lo is tree[3]:
        return tree
    return mk(tree[1], hi, lo)


def apply(f, *trees):
    """Apply f to the leaves of trees; f may return a tree."""
    if not any(is_ite(t) for t in trees):
        return f(*trees)
    memo = {}

    def go(ts):
        r = memo.get(ts)
        if r is not None:
            return r
        roots = [t[1] for t in ts if is_ite(t)]
        if not roots:
            r = f(*ts)
        else:
            atom = min(roots, key=key)
            hi = go(tuple(t[2] if is_ite(t) and t[1] == atom else t
                          for t in ts))
            lo = go(tuple(t[3] if is_ite(t) and t[1] == atom else t
                          for t in ts))
            r = mk(atom, hi, lo)
        memo[ts] = r
        return r

    return go(tuple(trees))


def select(cond, a, b):
    """cond is a boolean tree (leaves T/F)"""
    if cond == T:
        return a
    if cond == F:
        return b
    if a == b:
        return a

    def pick(c, x, y):
        if c == T:
            return x
        if c == F:
            return y
        if c == BOT:
            # conditions were reordered: another one may decide already
            return x if x == y else BOT
        raise AssertionError(c)
    return apply(pick, cond, a, b)


def bnot(c):
    return apply(lambda x: F if x == T else T if x == F else x, c)


def band(a, b):
    return select(a, b, F)


def bor(a, b):
    return select(a, T, b)


def atom(a):
    return mk(a, T, F)


def leaves(tree):
    seen = set()
    stack = [tree]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if is_ite(t):
            stack.append(t[2])
            stack.append(t[3])
        else:
            yield t


def atoms(tree):
    seen = set()
    found = set()
    stack = [tree]
    while stack:
        t = stack.pop()
        if t in seen or not is_ite(t):
            continue
        seen.add(t)
        found.add(t[1])
        stack.append(t[2])
        stack.append(t[3])
    return found


# ---------------------------------------------------------------- traversal

def children(t):
    """Direct subterms (trees) of a leaf or an ite."""
    tag = t[0]
    if tag == 'ite':
        return t[1:4]
    if tag in ('const', 'par', 'cls', 'func', 'ext', 'builtin', 'gvar', 'bv',
               'pos', 'lv', 'ref', 'back', 'bot', 'clos', 'free', 'unk',
               'exc', 'mod'):
        return ()
    if tag in ('attr', 'truth', 'isinst', 'len', 'content'):
        return (t[1],)
    if tag in ('idx', 'pair', 'bound'):
        return (t[1], t[2]) if tag != 'bound' else (t[1],)
    if tag == 'call':
        return (t[1],) + t[2] + tuple(v for _, v in t[3])
    if tag == 'mcall':
        return (t[1],) + t[3] + tuple(v for _, v in t[4])
    if tag == 'op':
        return t[2]
    if tag == 'cmp':
        return (t[2], t[3])
    if tag == 'lin':
        return tuple(x for x, _ in t[2])
    if tag == 'str':
        return tuple(p[2] for p in t[1] if p[0] == 'fmt')
    if tag == 'exists':
        return (t[2], t[3])
    if tag in ('first', 'last'):
        return (t[2], t[3], t[4])
    if tag == 'sum':
        return (t[2], t[3])
    if tag == 'seq':
        return pieces_children(t[2])
    if tag == 'new':
        return tuple(v for _, v in t[2])
    if tag == 'lam':
        return (t[3],)
    if tag == 'fold':
        # ('fold', kind, level, src, exit, ((init, next), ...), out)
        r = (t[3], t[4])
        for a, b in t[5]:
            r += (a, b)
        return r + (t[6],)
    if tag == 'pieces':
        return pieces_children(t[1])
    raise AssertionError(t)


def pieces_children(pieces):
    r = ()
    for p in pieces:
        if p[0] == 'for':
            r += (p[2], p[3])
        elif p[0] in ('one', 'splice'):
            r += (p[1],)
        else:
            raise AssertionError(p)
    return r


_levels = {}


def levels(t):
    """Set of binder levels occurring free-or-bound in t (approximation:
    includes bound ones, which are always deeper than the free ones)."""
    r = _levels.get(t)
    if r is None:
        if t[0] in ('bv', 'pos'):
            r = frozenset([t[1]])
        else:
            r = frozenset()
            for c in children(t):
                r |= levels(c)
        _levels[t] = r
    return r


_lvs = {}


def lvs(t):
    r = _lvs.get(t)
    if r is None:
        if t[0] == 'lv':
            r = frozenset([t])
        else:
            r = frozenset()
            for c in children(t):
                r |= lvs(c)
        _lvs[t] = r
    return r


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


# ------------------------------------------------------------- constructors

NO_TYPES = None


class Hooks(object):
    """Set by the evaluator: type-directed rewrites."""
    typeof = staticmethod(lambda t: None)
    is_optional_object = staticmethod(lambda t: False)
    isinst = None
    keyed = None
    source = None
    present = staticmethod(lambda t: False)
    static = staticmethod(lambda cls, name: None)
    method = staticmethod(lambda name: True)
    registry = staticmethod(lambda t: False)
    least = staticmethod(lambda t: None)
    function = staticmethod(lambda t: False)
    sets = set()


H = Hooks()


def attr(t, name):
    return apply(lambda x: _attr(x, name), t)


def _attr(x, name):
    if x == BOT:
        return BOT
    if x[0] == 'new':
        for k, v in x[2]:
            if k == name:
                return v
        v = H.static(x[1], name)
        if v is not None:
            return v
    return ('attr', x, name)


def idx(t, k):
    return apply(_idx, t, k)


def _idx(x, k):
    if x == BOT or k == BOT:
        return BOT
    y = x[1] if x[0] == 'content' else x
    if y[0] == 'attr' and is_idcall(k) and H.registry(y):
        # objects are kept under their identity
        return k[2][0]
    if x[0] == 'seq' and k[0] == 'const' and isinstance(k[2], int):
        if x[1] in ('list', 'tuple', 'gen'):
            p = x[2]
            if all(i[0] == 'one' for i in p) and -len(p) <= k[2] < len(p):
                return p[k[2]][1]
    if x[0] == 'seq' and x[1] == 'dict' and k[0] == 'const':
        p = x[2]
        if all(i[0] == 'one' and i[1][0] == 'pair'
               and i[1][1][0] == 'const' for i in p):
            for i in reversed(p):
                if i[1][1] == k:
                    return i[1][2]
    if k[0] == 'pos':
        pass
    if k[0] == 'lin' and x[0] != 'const':
        # x[len(x) - n] -> x[-n]
        if k[2] == ((('len', x), 1),) and k[1] < 0:
            return ('idx', x, const(k[1]))
    return ('idx', x, k)


def call(f, args, kw=()):
    names = tuple(k for k, _ in kw)
    n = len(args)

    def go(*leafs):
        if BOT in leafs:
            return BOT
        f, values = leafs[0], leafs[1:1 + n]
        if f[0] == 'builtin' and f[1] in ANY_ORDER:
            values = tuple(any_order(x) for x in values)
        if f == ('builtin', 'sorted') and n == 1 and not names and \
                values[0][0] == 'seq' and values[0][1] != 'dict' and all(
                    p[0] == 'one' and p[1][:2] == ('const', 'int')
                    for p in values[0][2]):
            ps = values[0][2]
            if values[0][1] == 'set':
                ps = set(ps)
            return ('seq', 'list', tuple(sorted(ps, key=lambda p: p[1][2])))
        return ('call', f, values, tuple(zip(names, leafs[1 + n:])))
    return apply(go, f, *(tuple(args) + tuple(v for _, v in kw)))


ANY_ORDER = {'sorted', 'any', 'all', 'sum', 'min', 'max', 'frozenset'}


def mcall(t, name, args, kw=()):
    names = tuple(k for k, _ in kw)
    n = len(args)

    def go(*leafs):
        if BOT in leafs:
            return BOT
        if name in ('startswith', 'endswith') and n == 1 and \
                leafs[1][0] == 'seq' and all(
                    p[0] == 'one' for p in leafs[1][2]):
            r = F
            for p in leafs[1][2]:
                r = bor(r, truth(('mcall', leafs[0], name, (p[1],), ())))
            return r
        if name == 'index' and n == 1 and leafs[0][0] == 'seq' and \
                leafs[0][1] in ('list', 'tuple') and 0 < len(
                    leafs[0][2]) < 4 and all(
                        p[0] == 'one' for p in leafs[0][2]):
            r = ('mcall', leafs[0], name, leafs[1:2], ())
            items = list(enumerate(leafs[0][2]))
            for i, p in reversed(items):
                r = select(cmp('==', p[1], leafs[1]), const(i), r)
            return r
        if n < 2 and not names and name in ('start', 'end', 'group') and \
                not H.method(name):
            # a regular expression match
            if name == 'group' and n == 0:
                return ('mcall', leafs[0], name, (const(0),), ())
            if name != 'group':
                return ('idx', ('mcall', leafs[0], 'span', leafs[1:1 + n],
                                ()), const(int(name == 'end')))
        return ('mcall', leafs[0], name, leafs[1:1 + n],
                tuple(zip(names, leafs[1 + n:])))
    return apply(go, t, *(tuple(args) + tuple(v for _, v in kw)))


COMMUTE = {'|set', '&', '^'}


def op(name, *args):
    def go(*leafs):
        if BOT in leafs:
            return BOT
        return _op(name, leafs)
    return apply(go, *args)


def numeric(t):
    return (t[0] in ('lin', 'len', 'pos', 'sum')
            or (t[0] == 'const' and isinstance(t[2], int)
                and not isinstance(t[2], bool))
            or (t[0] == 'const' and t[1] == 'bool')
            or H.typeof(t) == 'int')


def lin_of(t):
    if t[0] == 'lin':
        return t[1], dict(t[2])
    if t[0] == 'const' and isinstance(t[2], (int, bool)):
        return int(t[2]), {}
    return 0, {t: 1}


def mklin(c, coefs):
    coefs = {k: v for k, v in coefs.items() if v != 0}
    if not coefs:
        return const(c)
    if c == 0 and len(coefs) == 1:
        (k, v), = coefs.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(coefs.items(), key=lambda i: key(i[0]))))


def lin_add(a, b, sign=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    da = dict(da)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sign * v
    return mklin(ca + sign * cb, da)


def _op(name, args):
    if name == '+':
        a, b = args
        if a[0] == 'seq' and b[0] == 'seq':
            return mkseq(a[1], ('pieces', a[2] + b[2]))
        if a[0] == 'seq' and a[1] in ('list', 'tuple') and not numeric(b):
            return mkseq(a[1], ('pieces', a[2] + (('splice', b),)))
        if b[0] == 'seq' and b[1] in ('list', 'tuple') and not numeric(a):
            return mkseq(b[1], ('pieces', (('splice', a),) + b[2]))
        if is_str(a) or is_str(b):
            return mkstr(str_pieces(a) + str_pieces(b))
        if numeric(a) or numeric(b):
            return lin_add(a, b)
        if H.typeof(a) and isinstance(H.typeof(a), tuple) \
                and H.typeof(a)[0] == 'list':
            return mkseq('list', ('pieces', (('splice', a), ('splice', b))))
        return ('op', '+', (a, b))
    if name == '-':
        a, b = args
        if (a[0] == 'seq' and a[1] == 'set') or (b[0] == 'seq'):
            return ('op', '-', (a, b))
        return lin_add(a, b, -1)
    if name == 'neg':
        return lin_add(const(0), args[0], -1)
    if name == '*':
        a, b = args
        if a[0] == 'const' and b[0] == 'const':
            return const(a[2] * b[2])
        if b[0] == 'seq':
            a, b = b, a
        if a[0] == 'seq' and a[1] == 'list':
            if b[0] == 'const' and isinstance(b[2], int) and b[2] <= 8:
                return ('seq', 'list', a[2] * max(b[2], 0))
            return mkseq('list', mkfor_raw(b, a[2]))
        return ('op', '*', tuple(sorted((a, b), key=key)))
    if name == '%' and is_str(args[0]):
        return ('op', '%', args)
    if name == '|' and any(a[0] == 'seq' and a[1] == 'set' for a in args):
        return mkseq('set', concat(splice(args[0]), splice(args[1])))
    if name in COMMUTE:
        return ('op', name, tuple(sorted(args, key=key)))
    if all(a[0] == 'const' for a in args) and len(args) == 2:
        x, y = args[0][2], args[1][2]
        try:
            if name == '//':
                return const(x // y)
            if name == '%':
                return const(x % y)
            if name == '|' and isinstance(x, int):
                return const(x | y)
        except Exception:
            pass
    return ('op', name, args)


def mkfor_raw(count, pieces):
    """[..] * n  ==  for _ in range(n): ..."""
    return ('pieces', (('for', 10 ** 6, ('call', ('builtin', 'range'),
                                        (count,), ()),
                        ('pieces', pieces)),))


# -- strings

def is_str(t):
    return t[0] == 'str' or (t[0] == 'const' and t[1] == 'str')


def str_pieces(t):
    if t[0] == 'str':
        return t[1]
    if t[0] == 'const' and t[1] == 'str':
        return (('lit', t[2]),) if t[2] else ()
    return (('fmt', 's', t),)


def mkstr(pieces):
    out = []
    for p in pieces:
        if p[0] == 'fmt' and p[1] == 's' and is_str(p[2]):
            sub = str_pieces(p[2])
        elif p[0] == 'fmt' and p[1] in ('s', 'd') and p[2][0] == 'const' \
                and isinstance(p[2][2], int):
            sub = (('lit', str(p[2][2])),)
        else:
            sub = (p,)
        for s in sub:
            if s[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + s[1])
            elif s[0] == 'lit' and not s[1]:
                pass
            else:
                out.append(s)
    if not out:
        return const('')
    if len(out) == 1 and out[0][0] == 'lit':
        return const(out[0][1])
    return ('str', tuple(out))


# -- comparisons

def cmp(name, a, b):
    def go(x, y):
        if BOT in (x, y):
            return BOT
        return _cmp(name, x, y)
    return apply(go, a, b)


def distinct_values(a, b):
    """Provably different under == / is."""
    if a[0] == 'const' and b[0] == 'const':
        return a[2] != b[2]
    kinds = {'cls', 'func', 'builtin'}
    if a[0] in kinds and b[0] in kinds:
        return a != b
    objs = ('ref', 'new', 'seq', 'cls', 'func', 'lam')
    if (a == NONE and b[0] in objs) or (b == NONE and a[0] in objs):
        return True
    if (a == NONE and b[0] in ('lin', 'len', 'str')) \
            or (b == NONE and a[0] in ('lin', 'len', 'str')):
        return True
    return False


def is_class(x):
    return x[0] == 'call' and x[1] == ('builtin', 'type') and \
        len(x[2]) == 1 or x[0] == 'attr' and x[2] == '__class__'


def _cmp(name, a, b):
    if name == '>':
        return _cmp('<', b, a)
    if name == '>=':
        return bnot(_cmp('<', a, b))
    if name == '<=':
        return bnot(_cmp('<', b, a))
    if name == '!=':
        return bnot(_cmp('==', a, b))
    if name == 'is not':
        return bnot(_cmp('is', a, b))
    if name == 'not in':
        return bnot(_cmp('in', a, b))
    if name in ('==', 'is'):
        if a == b and a[0] not in ('unk',):
            return T
        if a[0] == 'const' and b[0] == 'const':
            return T if a[2] == b[2] else F
        if distinct_values(a, b):
            return F
        if a[0] == b[0] == 'seq' and name == '==' and \
                plain_seq(a) and plain_seq(b):
            if len(a[2]) != len(b[2]):
                return F
            r = T
            for p, q in zip(a[2], b[2]):
                r = band(r, cmp('==', p[1], q[1]))
            return r
        if is_idcall(a) and is_idcall(b):
            a, b = a[2][0], b[2][0]
            if a[0] == b[0] == 'ref':
                return T if a == b else F
            if a[0] == 'ref' and given(b) or b[0] == 'ref' and given(a):
                return F
            return _cmp('is', a, b)
        if a[0] == b[0] == 'str' and name == '==':
            # the same text around one number
            pa = [p for p in a[1] if p[0] == 'fmt']
            pb = [p for p in b[1] if p[0] == 'fmt']
            if len(pa) == len(pb) == 1 and \
                    a[1].index(pa[0]) == b[1].index(pb[0]) and \
                    [p for p in a[1] if p[0] != 'fmt'] == [
                        p for p in b[1] if p[0] != 'fmt'] and \
                    pa[0][1] == pb[0][1] == 's' and \
                    numeric(pa[0][2]) and numeric(pb[0][2]):
                return cmp('==', pa[0][2], pb[0][2])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'const' and x[1] == 'bool' and name == 'is':
                pass
        if a[0] in ('lin', 'len') or b[0] in ('lin', 'len'):
            for x, y in ((a, b), (b, a)):
                if x == const(0) and y[0] == 'len':
                    return bnot(truth(y[1]))
            d = lin_add(a, b, -1)
            if d[0] == 'const':
                return T if d[2] == 0 else F
            if d[0] == 'lin':
                c, coefs = d[1], d[2]
                if coefs[0][1] < 0:
                    c, coefs = -c, tuple((k, -v) for k, v in coefs)
                pos = mklin(0, {k: v for k, v in coefs if v > 0})
                neg = mklin(-c, {k: -v for k, v in coefs if v < 0})
                return atom(('cmp', '==') + tuple(sorted((pos, neg), key=key)))
        if name == 'is' and NONE in (a, b):
            x = a if b == NONE else b
            if H.is_optional_object(x):
                return bnot(truth(x))
            if H.present(x):
                return F
            return atom(('cmp', 'is', x, NONE))
        if name == '==' and NONE in (a, b):
            return _cmp('is', a, b)
        if name == 'is':
            x, y = H.typeof(a), H.typeof(b)
            if isinstance(x, tuple) and isinstance(y, tuple) and \
                    x[0] == y[0] == 'cls' and x[2] and y[2] and x[1] != y[1]:
                # objects of two different classes
                return F
        if name == 'is' and (a[0] in ('cls', 'func') or b[0] in
                             ('cls', 'func') or is_class(a) or is_class(b)):
            name = '=='
        x, y = sorted((a, b), key=key)
        return atom(('cmp', name, x, y))
    if name == '<':
        if a[0] == 'const' and b[0] == 'const':
            try:
                return T if a[2] < b[2] else F
            except TypeError:
                return BOT
        if a == b:
            return F
        if a[0] == b[0] == 'seq' and plain_seq(a) and plain_seq(b):
            # lexicographic
            r = T if len(a[2]) < len(b[2]) else F
            for p, q in reversed(list(zip(a[2], b[2]))):
                r = bor(cmp('<', p[1], q[1]),
                        band(cmp('==', p[1], q[1]), r))
            return r
        if numeric(a) or numeric(b):
            d = lin_add(b, a, -1)       # a < b  <=>  d > 0
            if d[0] == 'const':
                return T if d[2] > 0 else F
            c, coefs = lin_of(d)
            items = sorted(coefs.items(), key=lambda i: key(i[0]))
            if all(x[0] in ('len', 'pos') for x, _ in items):
                # never negative
                if c <= 0 and all(w < 0 for _, w in items):
                    return F
                if c > 0 and all(w > 0 for _, w in items):
                    return T
            if c == 0 and len(items) == 1 and items[0][0][0] == 'len':
                return truth(items[0][0][1]) if items[0][1] > 0 else F
            if c == 1 and len(items) == 1 and items[0][0][0] == 'len' \
                    and items[0][1] == -1:
                return bnot(truth(items[0][0][1]))
            if c == 1:
                # integers: a < b + 1  <=>  not (b < a)
                return bnot(_lt0(0, [(k, -v) for k, v in items]))
            return _lt0(c, items)
        return atom(('cmp', '<', a, b))
    if name == 'in':
        return contains(a, b)
    raise AssertionError(name)


def plain_seq(x):
    return x[1] in ('list', 'tuple') and all(p[0] == 'one' for p in x[2])


def _lt0(c, items):
    """0 < c + sum(items)"""
    pos = {k: v for k, v in items if v > 0}
    neg = {k: -v for k, v in items if v < 0}
    if c > 0:
        r, l = mklin(c, pos), mklin(0, neg)
    else:
        r, l = mklin(0, pos), mklin(-c, neg)
    return atom(('cmp', '<', l, r))


def given(x):
    """Was there before anything was made here."""
    while x[0] == 'attr':
        x = x[1]
    return x[0] in ('par', 'const', 'cls', 'func', 'builtin')


def is_idcall(t):
    return t[0] == 'call' and t[1] == ('builtin', 'id') and len(t[2]) == 1


def contains(x, coll):
    if x[0] == 'bv' and H.source and any_order(
            H.source(x[1]) or BOT) == any_order(coll):
        # what is taken from there
        return T
    if coll[0] == 'seq':
        r = F
        for p in coll[2]:
            if p[0] == 'one':
                v = p[1]
                if coll[1] in ('dict', 'ddict'):
                    v = v[1]
                r = bor(r, cmp('==', x, v))
            elif p[0] == 'splice':
                r = bor(r, contains(x, p[1]))
            else:
                _, level, src, tree = p
                d = coll[1] in ('dict', 'ddict')
                free_ = levels(x)
                if any(y >= level for y in free_):
                    # the element looked for belongs to another loop
                    by = max(free_) + 1 - level
                    tree = shift(tree, level, by)
                    level += by
                own = ('pieces', (('one', ('bv', level)),))
                if not d and set(leaves(tree)) <= {own, ('pieces', ())} \
                        and not any(y == ('pos', level) or is_idcall(y)
                                    for y in subterms(tree)):
                    # one of the source that is kept
                    kept = apply(lambda v: T if v == own else F, tree)
                    r = bor(r, band(contains(x, src), subst(
                        kept, {('bv', level): x})))
                    continue
                c = apply(lambda leaf: pieces_contain(leaf, x, d), tree)
                r = bor(r, exists(level, src, c))
        return r
    if coll[0] == 'call' and coll[1][0] == 'builtin' \
            and coll[1][1] in ('sorted', 'reversed', 'list', 'tuple', 'set') \
            and len(coll[2]) == 1:
        return contains(x, coll[2][0])
    if coll[0] == 'mcall' and coll[2] == 'keys':
        return contains(x, coll[1])
    return atom(('cmp', 'in', x, coll))


def pieces_contain(leaf, x, dict_):
    if leaf == BOT:
        return BOT
    return contains(x, ('seq', 'dict' if dict_ else 'list', leaf[1]))


def truth(t):
    return apply(_truth, t)


def _truth(t):
    tag = t[0]
    if tag == 'const':
        return T if t[2] else F
    if tag == 'bot':
        return BOT
    if tag == 'seq':
        return nonempty(t[2])
    if tag in ('new', 'ref', 'cls', 'func', 'lam', 'clos', 'bound', 'builtin'):
        return T
    if tag == 'len':
        return truth(t[1])
    if tag == 'lin':
        return bnot(_cmp('==', t, const(0)))
    if tag == 'str' and any(p[0] == 'lit' for p in t[1]):
        return T
    if tag == 'call' and t[1][0] == 'builtin' and len(t[2]) == 1:
        if t[1][1] in ('sorted', 'list', 'tuple', 'set', 'reversed', 'len',
                       'frozenset', 'dict'):
            return truth(t[2][0])
        if t[1][1] == 'id':
            return T
    if H.is_optional_object(t) and H.present(t):
        return T
    if H.function(t):
        # a function or nothing
        return bnot(_cmp('is', t, NONE))
    return atom(('truth', t))


def nonempty(pieces):
    r = F
    for p in pieces:
        if p[0] == 'one':
            return T
        if p[0] == 'splice':
            r = bor(r, truth(p[1]))
        else:
            _, level, src, tree = p
            r = bor(r, exists(
                level, src,
                apply(lambda x: BOT if x == BOT else nonempty(x[1]), tree)
            ))
    return r


def hoist(level, tree, build):
    """Move atoms which do not depend on the binder out of a binding."""
    free = [a for a in atoms(tree) if not binds(a, level)]
    if not free:
        return build(tree)
    a = min(free, key=key)
    return mk_any(a,
                  hoist(level, cof(tree, a, True), build),
                  hoist(level, cof(tree, a, False), build))


def orderly(tree):
    """Conditions on the order of the same two values, written with < in both
    directions only."""
    if not is_ite(tree):
        return tree
    ats = atoms(tree)
    less = {(a[2], a[3]) for a in ats if a[0] == 'cmp' and a[1] == '<'}
    if not less:
        return tree
    pairs = sorted({tuple(sorted(p, key=key)) for p in less})
    for x, y in pairs:
        eqs = [a for a in ats if a[0] == 'cmp' and a[1] == '=='
               and {a[2], a[3]} == {x, y}]
        if not eqs and not ((x, y) in less and (y, x) in less):
            continue
        lt, gt = ('cmp', '<', x, y), ('cmp', '<', y, x)

        def sub(tree, values):
            for a, v in values.items():
                tree = cof(tree, a, v)
            return tree
        eq = {a: False for a in eqs}
        same = {a: True for a in eqs}
        tree = mk_any(
            lt, sub(tree, {**eq, lt: True, gt: False}),
            mk_any(gt, sub(tree, {**eq, lt: False, gt: True}),
                   sub(tree, {**same, lt: False, gt: False})))
    return tree


def mk_any(atom_, hi, lo):
    return select(atom(atom_), hi, lo)


def binds(t, level):
    return any(x >= level for x in levels(t))


def exists(level, src, tree):
    """Exists an element of src (bound at level) such that tree"""
    def with_src(s):
        if s == BOT:
            return BOT
        s = any_order(s)
        while s[0] == 'seq' and s[1] in ('set', 'list', 'tuple') and \
                len(s[2]) == 1 and s[2][0][0] == 'splice':
            # the same elements, once each or in another kind of collection
            s = any_order(s[2][0][1])
        tr = specialise(tree, s, level)
        return hoist(level, tr, lambda t: _exists(level, s, t))
    return apply(with_src, src)


def _exists(level, src, tree):
    tree = orderly(tree)
    if tree == F:
        return F
    if tree == BOT:
        return BOT
    if tree == T:
        return truth(src)
    return atom(('exists', level, src, tree))


def specialise(tree, src, level):
    return tree


def first(level, src, cond, value):
    def with_src(s):
        if s == BOT:
            return BOT
        pair = apply(lambda c, v: ('pair', c, v), cond, value)
        return hoist(level, pair, lambda t: _first('first', level, s, t))
    return apply(with_src, src)


def last(level, src, cond, value):
    def with_src(s):
        if s == BOT:
            return BOT
        pair = apply(lambda c, v: ('pair', c, v), cond, value)
        return hoist(level, pair, lambda t: _first('last', level, s, t))
    return apply(with_src, src)


def _first(kind, level, src, pair):
    pair = orderly(pair)
    cond = apply(lambda p: p[1], pair)
    value = apply(lambda p: p[2] if p[1] == T else BOT, pair)
    vals = [v for v in leaves(value) if v != BOT]
    if len(vals) == 1 and not binds(vals[0], level):
        return vals[0]
    if not vals:
        return BOT
    if all(not binds(v, level) for v in vals) and False:
        pass
    return (kind, level, src, cond, dontcare(value))


def dontcare(tree):
    """Drop undefined branches: ite(c, BOT, x) -> x"""
    if not is_ite(tree):
        return tree
    hi = dontcare(tree[2])
    lo = dontcare(tree[3])
    if hi == BOT:
        return lo
    if lo == BOT:
        return hi
    return mk(tree[1], hi, lo)


def mkfor(level, src, tree):
    """tree: leaves ('pieces', (...)); returns a tree of ('pieces', ...)"""
    def with_src(s):
        if s == BOT:
            return BOT
        return hoist(level, tree, lambda t: _mkfor(level, s, t))
    return apply(with_src, src)


def _mkfor(level, src, tree):
    tree = orderly(tree)
    if tree == BOT:
        return BOT
    if tree == ('pieces', ()):
        return ('pieces', ())
    if tree == ('pieces', (('one', ('bv', level)),)):
        return ('pieces', (('splice', src),))
    return ('pieces', (('for', level, src, tree),))


def concat(*trees):
    def go(*ps):
        if BOT in ps:
            return BOT
        r = ()
        for p in ps:
            r += p[1]
        return ('pieces', r)
    return apply(go, *trees)


def one(value):
    return apply(lambda v: BOT if v == BOT else ('pieces', (('one', v),)),
                 value)


def splice(value):
    def go(v):
        if v == BOT:
            return BOT
        if v[0] == 'seq':
            return ('pieces', v[2])
        if v[0] == 'call' and v[1][0] == 'builtin' and len(v[2]) == 1 \
                and v[1][1] in ('list', 'tuple', 'iter') and not v[3]:
            return splice(v[2][0])
        return ('pieces', (('splice', v),))
    return apply(go, value)


def unordered(s):
    """The elements of a set in some order nobody knows."""
    return ('op', 'unordered', (s,))


def any_order(s):
    """The source itself where the order does not matter."""
    if s[0] == 'op' and s[1] == 'unordered':
        return s[2][0]
    if s[0] == 'seq' and any(
            p[0] != 'one' and any_order(p[-1 if p[0] == 'splice' else 2])
            != p[-1 if p[0] == 'splice' else 2] for p in s[2]):
        return ('seq', s[1], tuple(set_pieces(s[2])))
    return s


def set_pieces(ps):
    r = []
    for p in ps:
        if p[0] == 'splice':
            x = any_order(p[1])
            if x != p[1] and x[0] == 'seq' and x[1] == 'set':
                r.extend(x[2])
            else:
                r.append(('splice', x))
        elif p[0] == 'for':
            r.append(p[:2] + (any_order(p[2]),) + p[3:])
        else:
            r.append(p)
    return r


def mkseq(kind, pieces):
    def go(p):
        if p == BOT:
            return BOT
        ps = p[1]
        if kind == 'set':
            ps = tuple(sorted(set(set_pieces(ps)), key=repr))
            base = [p for p in ps if p[0] == 'splice']
            if len(base) == 1 and base[0][1] in H.sets and \
                    1 < len(ps) < 6 and not any(
                        p[0] == 'for' for p in ps):
                # a known set and values it may have
                return added(base[0][1], base, [
                    p for p in ps if p[0] == 'one'])
        if kind == 'dict':
            ps = dedupe_dict(ps)
        return ('seq', kind, ps)
    return apply(go, pieces)


def added(s, have, new):
    if not new:
        if len(have) == 1:
            return s
        return ('seq', 'set', tuple(sorted(have, key=repr)))
    x, rest = new[0], new[1:]
    return select(contains(x[1], s), added(s, have, rest),
                  added(s, have + [x], rest))


def dedupe_dict(ps):
    if all(p[0] == 'one' and p[1][0] == 'pair' and p[1][1][0] == 'const'
           for p in ps):
        d = {}
        for p in ps:
            d[p[1][1]] = p[1][2]
        return tuple(('one', ('pair', k, v)) for k, v in d.items())
    if any(p[0] == q[0] == 'one' and p[1][0] == q[1][0] == 'pair' and
           p[1][1] == q[1][1] for p, q in zip(ps, ps[1:])):
        # written twice in a row
        out = []
        for p in ps:
            if out and p[0] == out[-1][0] == 'one' and \
                    p[1][0] == out[-1][1][0] == 'pair' and \
                    p[1][1] == out[-1][1][1]:
                out.pop()
            out.append(p)
        return tuple(out)
    return ps


def pair(k, v):
    def go(x, y):
        return BOT if BOT in (x, y) else ('pair', x, y)
    return apply(go, k, v)


def distinct(kind, ps):
    """Are the written entries of a set or dictionary different for
    certain?"""
    def entry(x):
        return x[1] if kind == 'dict' and x[0] == 'pair' else x

    if len(ps) > 1 and all(p[0] == 'one' and is_idcall(entry(p[1]))
                           for p in ps):
        ks = [entry(p[1]) for p in ps]
        return all(cmp('==', a, b) == F
                   for i, a in enumerate(ks) for b in ks[:i])
    if len(ps) > 1:
        return all(p[0] == 'one' and entry(p[1])[0] in ('const', 'cls')
                   for p in ps) and len({entry(p[1]) for p in ps}) == len(ps)
    for p in ps:
        if p[0] == 'for':
            _, level, src, tree = p
            if not members_differ(src):
                return False
            for leaf in leaves(tree):
                if leaf == BOT:
                    continue
                if len(leaf[1]) > 1 or any(
                        x[0] != 'one' or entry(x[1]) not in (
                            ('bv', level), ('pos', level))
                        for x in leaf[1]):
                    return False
    return True


def members_differ(src):
    src = any_order(src)
    if src[0] == 'seq':
        return src[1] in ('set', 'dict') or src[1] == 'list' and all(
            p[0] == 'splice' for p in src[2]) and len(src[2]) == 1 and \
            members_differ(src[2][0][1])
    if src[0] == 'call' and src[1] == ('builtin', 'range'):
        return True
    if src[0] == 'call' and src[1] in (
            ('builtin', 'sorted'), ('builtin', 'set'),
            ('builtin', 'reversed'), ('builtin', 'list'),
            ('builtin', 'dict')) and len(src[2]) == 1:
        return src[1][1] in ('set', 'dict') or members_differ(src[2][0])
    return bool(H.keyed and H.keyed(src))


def length(t):
    return apply(_length, t)


def _length(t):
    if t == BOT:
        return BOT
    if t[0] == 'const' and t[1] == 'str':
        return const(len(t[2]))
    if t[0] == 'seq' and t[1] == 'set' and len(t[2]) == 2:
        # a known set and one more
        a, b = sorted(t[2], key=lambda p: p[0] != 'splice')
        if a[0] == 'splice' and b[0] == 'one' and a[1] in H.sets:
            n = ('len', a[1])
            return select(contains(b[1], a[1]), n, lin_add(n, const(1)))
    if t[0] == 'seq' and t[1] in ('set', 'dict') and \
            not distinct(t[1], t[2]):
        return ('len', t)
    if t[0] == 'seq':
        n = const(0)
        for p in t[2]:
            if p[0] == 'one':
                n = lin_add(n, const(1))
            elif p[0] == 'splice':
                n = lin_add(n, ('len', p[1]))
            else:
                _, level, src, tree = p
                if not is_ite(tree) and tree != BOT \
                        and all(x[0] == 'one' for x in tree[1]):
                    x = _length(src)
                    c, coefs = lin_of(x)
                    m = len(tree[1])
                    n = lin_add(n, mklin(c * m, {k: v * m for k, v
                                                 in coefs.items()}))
                else:
                    n = lin_add(n, ('len', ('seq', 'list', (p,))))
        return n
    if t[0] == 'call' and t[1][0] == 'builtin' and len(t[2]) == 1 \
            and t[1][1] in ('sorted', 'list', 'tuple', 'reversed'):
        return _length(t[2][0])
    if t[0] == 'call' and t[1] == ('builtin', 'range') and len(t[2]) == 1:
        return t[2][0]
    return ('len', t)


def new(cls, fields):
    names = tuple(k for k, _ in fields)

    def go(*vals):
        if BOT in vals:
            return BOT
        return ('new', cls, tuple(zip(names, vals)))
    return apply(go, *[v for _, v in fields]) if fields \
        else ('new', cls, ())


# ------------------------------------------------------------------ rebuild

def rebuild(t, f, memo=None):
    """Rebuild a tree through the smart constructors; f(leaf) may return a
    replacement for atomic terms (or None)."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = f(t)
            if r is None:
                r = step(t)
            memo[t] = r
        return r

    def gopieces(ps):
        r = ('pieces', ())
        for p in ps:
            if p[0] == 'one':
                r = concat(r, one(go(p[1])))
            elif p[0] == 'splice':
                r = concat(r, splice(go(p[1])))
            else:
                lev = go(('bv', p[1]))
                lev = lev[1] if lev[0] == 'bv' else p[1]
                r = concat(r, mkfor(lev, go(p[2]), go(p[3])))
        return r

    def level(n):
        x = go(('bv', n))
        return x[1] if x[0] == 'bv' else n

    def step(t):
        tag = t[0]
        if tag == 'ite':
            return select(go_atom(t[1]), go(t[2]), go(t[3]))
        if tag == 'attr':
            return attr(go(t[1]), t[2])
        if tag == 'content':
            return apply(lambda x: ('content', x), go(t[1]))
        if tag == 'len':
            return length(go(t[1]))
        if tag == 'idx':
            return idx(go(t[1]), go(t[2]))
        if tag == 'pair':
            return pair(go(t[1]), go(t[2]))
        if tag == 'bound':
            return apply(lambda x: ('bound', x, t[2]), go(t[1]))
        if tag == 'call':
            return call(go(t[1]), [go(a) for a in t[2]],
                        [(k, go(v)) for k, v in t[3]])
        if tag == 'mcall':
            return mcall(go(t[1]), t[2], [go(a) for a in t[3]],
                         [(k, go(v)) for k, v in t[4]])
        if tag == 'op':
            return op(t[1], *[go(a) for a in t[2]])
        if tag == 'lin':
            r = const(t[1])
            for x, c in t[2]:
                r = apply(lambda a, b, c=c: BOT if BOT in (a, b) else
                          mklin_scaled(a, b, c), r, go(x))
            return r
        if tag == 'str':
            r = ()
            acc = const('')
            for p in t[1]:
                if p[0] == 'lit':
                    acc = apply(lambda a, p=p: mkstr(str_pieces(a) + (p,)),
                                acc)
                else:
                    acc = apply(
                        lambda a, b, p=p: BOT if BOT in (a, b) else
                        mkstr(str_pieces(a) + (('fmt', p[1], b),)),
                        acc, go(p[2]))
            return acc
        if tag in ('cmp', 'truth', 'isinst', 'exists'):
            return go_atom(t)
        if tag in ('first', 'last'):
            fn = first if tag == 'first' else last
            return fn(level(t[1]), go(t[2]), go(t[3]), go(t[4]))
        if tag == 'sum':
            return ('sum', level(t[1]), go(t[2]), go(t[3]))
        if tag == 'seq':
            return mkseq(t[1], gopieces(t[2]))
        if tag == 'pieces':
            return gopieces(t[1])
        if tag == 'new':
            return new(t[1], [(k, go(v)) for k, v in t[2]])
        if tag == 'lam':
            return ('lam', level(t[1]), t[2], go(t[3]))
        if tag == 'fold':
            return ('fold', t[1], level(t[2]), go(t[3]), go(t[4]),
                    tuple((go(a), go(b)) for a, b in t[5]), go(t[6]))
        if tag == 'pos':
            x = go(('bv', t[1]))
            return ('pos', x[1]) if x[0] == 'bv' else t
        return t

    def go_atom(a):
        tag = a[0]
        if tag == 'cmp':
            return cmp(a[1], go(a[2]), go(a[3]))
        if tag == 'truth':
            return truth(go(a[1]))
        if tag == 'isinst':
            if H.isinst:
                return apply(lambda x: H.isinst(x, a[2]), go(a[1]))
            return apply(lambda x: atom(('isinst', x, a[2])), go(a[1]))
        if tag == 'exists':
            return exists(level(a[1]), go(a[2]), go(a[3]))
        if tag in ('lv',):
            return truth(go(a))
        raise AssertionError(a)

    return go(t)


def mklin_scaled(a, b, c):
    cb, db = lin_of(b)
    ca, da = lin_of(a)
    da = dict(da)
    for k, v in db.items():
        da[k] = da.get(k, 0) + c * v
    return mklin(ca + c * cb, da)


def shift(t, start, delta):
    if delta == 0:
        return t

    def f(x):
        if x[0] == 'bv':
            return ('bv', x[1] + delta) if x[1] >= start else x
        if x[0] == 'pos':
            return ('pos', x[1] + delta) if x[1] >= start else x
        if not any(l >= start for l in levels(x)) and not has_binder(x, start):
            return x
        return None
    return rebuild(t, f)


_binders = {}


def has_binder(t, start):
    return any(l >= start for l in binders(t))


def binders(t):
    r = _binders.get(t)
    if r is None:
        r = frozenset()
        tag = t[0]
        if tag in ('exists', 'first', 'last', 'sum', 'lam'):
            r |= {t[1]}
        elif tag == 'fold':
            r |= {t[2]}
        elif tag in ('seq', 'pieces'):
            for p in (t[2] if tag == 'seq' else t[1]):
                if p[0] == 'for':
                    r |= {p[1]}
        for c in children(t):
            r |= binders(c)
        _binders[t] = r
    return r


def subst(t, mapping):
    """Replace terms; mapping: term -> tree."""
    return rebuild(t, lambda x: mapping.get(x))


def show(t, depth=0):
    """Human-readable rendering for reports."""
    tag = t[0]
    if depth > 14:
        return '...'
    d = depth + 1
    if tag == 'ite':
        return '(%s if %s else %s)' % (
            show(t[2], d), show(t[1], d), show(t[3], d))
    if tag == 'const':
        return repr(t[2])
    if tag in ('par', 'free'):
        return str(t[1])
    if tag in ('cls', 'func'):
        return t[1].split(':')[-1]
    if tag in ('ext', 'builtin', 'gvar', 'mod'):
        return t[1].split(':')[-1] if isinstance(t[1], str) else str(t[1])
    if tag == 'bv':
        return 'x%d' % t[1]
    if tag == 'pos':
        return 'pos(x%d)' % t[1]
    if tag == 'lv':
        return 'acc%s' % (t[1],)
    if tag == 'attr':
        return '%s.%s' % (show(t[1], d), t[2])
    if tag == 'content':
        return show(t[1], d)
    if tag == 'idx':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if tag == 'pair':
        return '%s: %s' % (show(t[1], d), show(t[2], d))
    if tag == 'call':
        args = [show(a, d) for a in t[2]] + [
            '%s=%s' % (k, show(v, d)) for k, v in t[3]]
        return '%s(%s)' % (show(t[1], d), ', '.join(args))
    if tag == 'mcall':
        args = [show(a, d) for a in t[3]] + [
            '%s=%s' % (k, show(v, d)) for k, v in t[4]]
        return '%s.%s(%s)' % (show(t[1], d), t[2], ', '.join(args))
    if tag == 'bound':
        return '%s.%s' % (show(t[1], d), t[2].split('.')[-1] if isinstance(
            t[2], str) else '[%s]' % show(t[2], d))
    if tag == 'op':
        if len(t[2]) == 2:
            return '(%s %s %s)' % (show(t[2][0], d), t[1], show(t[2][1], d))
        return '%s(%s)' % (t[1], ', '.join(show(a, d) for a in t[2]))
    if tag == 'lin':
        parts = []
        for x, c in t[2]:
            s = show(x, d)
            parts.append(('+ ' if c > 0 else '- ')
                         + (s if abs(c) == 1 else '%d*%s' % (abs(c), s)))
        if t[1]:
            parts.append('%s %d' % ('+' if t[1] > 0 else '-', abs(t[1])))
        r = ' '.join(parts)
        return '(%s)' % (r[2:] if r.startswith('+ ') else r)
    if tag == 'len':
        return 'len(%s)' % show(t[1], d)
    if tag == 'str':
        return 'f%r' % ''.join(
            p[1] if p[0] == 'lit' else '{%s%s}' % (
                show(p[2], d), '' if p[1] == 's' else '!' + p[1])
            for p in t[1])
    if tag == 'cmp':
        return '%s %s %s' % (show(t[2], d), t[1], show(t[3], d))
    if tag == 'truth':
        return show(t[1], d)
    if tag == 'isinst':
        return 'isinstance(%s, %s)' % (show(t[1], d), t[2].split(':')[-1])
    if tag == 'exists':
        return 'any(%s for x%d in %s)' % (show(t[3], d), t[1], show(t[2], d))
    if tag in ('first', 'last'):
        return '%s(%s for x%d in %s if %s)' % (
            tag, show(t[4], d), t[1], show(t[2], d), show(t[3], d))
    if tag == 'sum':
        return 'sum(%s for x%d in %s)' % (show(t[3], d), t[1], show(t[2], d))
    if tag == 'seq':
        return '%s[%s]' % ('' if t[1] == 'list' else t[1],
                           show_pieces(t[2], d))
    if tag == 'pieces':
        return show_pieces(t[1], d)
    if tag == 'new':
        return '%s(%s)' % (t[1].split(':')[-1], ', '.join(
            '%s=%s' % (k, show(v, d)) for k, v in t[2]))
    if tag == 'lam':
        return '(lambda x%d: %s)' % (t[1], show(t[3], d))
    if tag == 'fold':
        return '%s(x%d in %s, exit=%s, state=[%s], out=%s)' % (
            t[1], t[2], show(t[3], d), show(t[4], d), '; '.join(
                '%s -> %s' % (show(a, d), show(b, d)) for a, b in t[5]),
            show(t[6], d))
    if tag == 'bot':
        return '<undefined>'
    if tag == 'exc':
        return 'raise %s' % t[1]
    if tag == 'isinst':
        return 'isinstance(%s, %s)' % (show(t[1], d), t[2])
    return repr(t)


def show_pieces(ps, d):
    r = []
    for p in ps:
        if p[0] == 'one':
            r.append(show(p[1], d))
        elif p[0] == 'splice':
            r.append('*' + show(p[1], d))
        else:
            r.append('{%s for x%d in %s}' % (show(p[3], d), p[1],
                                             show(p[2], d)))
    return ', '.join(r)
