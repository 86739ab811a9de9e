"""Agreement of two value graphs.

EQ    the normal forms coincide on every feasible path
DIFF  on some feasible path both sides are rigid terms (constants, fields of
      the same objects, constructors, ... over the known vocabulary) and they
      are not the same: the code computes something else
UNK   the normal forms differ, but one of them contains a construct whose
      normal form is not canonical: nothing is concluded

Only DIFF is ever reported.
"""

from . import terms as t
from .terms import T, F, NONE, BOT, const, is_ite, leaves, atoms

EQ, DIFF, UNK = 'EQ', 'DIFF', 'UNK'

SEQ_FUNCS = {'sorted', 'reversed', 'list', 'tuple', 'set', 'iter'}
STR_METHODS = {
    'lower', 'upper', 'title', 'capitalize', 'strip', 'isupper', 'islower',
    'istitle', 'isdigit', 'isalpha', 'swapcase', 'lstrip', 'rstrip', 'split',
    'replace', 'startswith', 'endswith', 'match', 'finditer', 'fullmatch',
    'search', 'findall', 'group', 'start', 'end', 'span',
}
PARTS = {(t.const(a), b if b == t.NONE else t.const(b), t.NONE)
         for a in (0, 1) for b in (t.NONE, 1, -1)} - {
             (t.const(0), t.NONE, t.NONE)}
ORDERS = {('builtin', 'sorted'), ('builtin', 'reversed')}
ARITH = {'%', '//', '/', '*', '|', '&', '^', '-', '+'}
INTERNAL = {'IndexError', 'KeyError', 'AttributeError', 'StopIteration'}


class Comparer(object):
    def __init__(self, ev, vocabulary, limit=60000, internal=INTERNAL,
                 odd=()):
        self.odd = odd            # recursive calls on one side only
        self.internal = internal
        self.limit = limit
        self.ev = ev
        self.v = vocabulary
        self.memo = {}
        self.unksym = {}
        self.why = None
        self.steps = 0
        self.conditions = None    # atoms of the reference
        self.over = {}            # level -> what is iterated there

    # ------------------------------------------------------------ symbols

    def foreign(self, x):
        """Does the term mention symbols outside the known vocabulary?"""
        r = self.unksym.get(x)
        if r is None:
            tag = x[0]
            r = False
            if tag in ('unk', 'clos', 'ref'):
                r = True
            elif tag == 'idx' and x[2][0] == 'const' and is_object(
                    self.ev.typeof(x[1])):
                # the fields of an object of some class, in its order
                r = True
            elif tag == 'attr' and x[2] == '__mro__':
                # what an unknown object dispatches to
                r = True
            elif tag == 'attr':
                # the field of a tuple: an object was meant
                r = not isinstance(x[2], str) or x[2] not in self.v[
                    'attrs'] or x[1][0] == 'seq'
            elif tag == 'func':
                r = x[1] not in self.v['funcs'] or x[1] in self.odd
            elif tag == 'cls':
                r = x[1] not in self.v['classes']
            elif tag == 'new':
                r = x[1] not in self.v['classes'] or any(
                    k not in self.v['attrs'] for k, _ in x[2])
            elif tag == 'gvar':
                r = x[1] not in self.v['globals']
            elif tag == 'bound':
                r = not isinstance(x[2], str) or \
                    x[2].split('.')[-1] not in self.v['attrs'] or \
                    x[1][0] == 'seq' and not hasattr(list, x[2]) and \
                    not hasattr(dict, x[2]) and not hasattr(set, x[2])
            elif tag == 'mcall':
                r = x[2] not in self.v['attrs'] and x[2] not in TEXT_METHODS
            elif tag == 'seq':
                # an iterated number: a collection was meant
                r = any(p[0] == 'splice' and t.numeric(p[1]) for p in x[2])
            elif tag == 'isinst':
                r = ':' in x[2] and x[2] not in self.v['classes']
            if not r:
                r = any(self.foreign(c) for c in t.children(x))
            self.unksym[x] = r
        return r

    def soft(self, x):
        """Not canonical: folds and the like."""
        key = ('soft', x)
        r = self.unksym.get(key)
        if r is None:
            r = x[0] in ('fold', 'unk', 'sum') or (
                x[0] == 'len' and x[1][0] == 'seq' and x[1][1] in (
                    'set', 'dict') and len(x[1][2]) > 1) or (
                x[0] == 'call' and x[1][0] == 'builtin' and x[1][1] in (
                    'max', 'min', 'sum') and any(
                        a[0] == 'seq' for a in x[2])) or (
                x[0] == 'op' and x[1].split('_')[0] in (
                    'after', 'result', 'setitem', 'starcall', 'star')
            ) or any(self.soft(c) for c in t.children(x))
            self.unksym[key] = r
        return r

    def open_(self, x):
        return self.foreign(x) or self.soft(x)

    # ------------------------------------------------------------ trees

    def diff(self, a, b, path=()):
        """a: code, b: reference"""
        if self.conditions is None:
            self.conditions = {y[1] for y in t.subterms(b) if is_ite(y)}
        if a == b or b == BOT:
            return EQ
        k = (a, b, path)
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        self.steps += 1
        if self.steps > self.limit:
            return UNK
        self.memo[k] = (UNK, None)
        saved = self.why
        self.why = None
        r = self.diff_tree(a, b, path)
        if r == DIFF and self.why is None:
            self.why = (path, a, b)
        self.memo[k] = (r, self.why)
        if r != DIFF:
            self.why = saved
        return r

    def diff_tree(self, a, b, path):
        if not is_ite(a) and not is_ite(b):
            return self.diff_leaf(a, b, path)
        only_a = atoms(a) - atoms(b)
        only_b = atoms(b) - atoms(a)
        tied = {}
        if only_a and only_b:
            for x in only_a:
                for y in only_b:
                    if not self.independent(x, y, path):
                        tied.setdefault(x, set()).add(y)
                        tied.setdefault(y, set()).add(x)
        # a condition computed by a loop on one side only may be any other
        # condition in disguise
        # or by a library function
        hidden = frozenset(
            [x for x in only_a | only_b if self.soft(x)] +
            [x for x in only_a if externals(x) - externals(b)])
        r = self.walk(a, b, path, {}, tied, hidden)
        if r == EQ and any(self.diff_atom(x, y, path) != EQ
                           for x in only_a for y in tied.get(x, ())):
            # the same only if these are the same conditions
            return UNK
        return r

    def independent(self, x, y, path):
        """Can the two atoms be varied separately?"""
        if x[0] != y[0] or x[0] in ('cmp', 'truth'):
            # two ways to look at one text
            if letters(x) & letters(y) and self.diff_atom(
                    x, y, path) != DIFF:
                return False
            if x[0] != y[0] and letters(x) & letters(y):
                return False
        if simple_atom(x) and simple_atom(y):
            return True
        if x[0] == y[0] == 'exists':
            return self.diff_exists(x, y, path) == DIFF
        cx, cy = complex_parts(x), complex_parts(y)
        if not cx or not cy:
            # a simple condition against a quantifier: dependent only if
            # one mentions the other's source
            if x[0] == 'exists' or y[0] == 'exists':
                return True
            return not (self.open_(x) and self.open_(y))
        return self.diff_atom(x, y, path) == DIFF

    def diff_exists(self, x, y, path):
        s = self.diff(x[2], y[2], path)
        if s != EQ:
            return UNK if s == UNK or self.open_(x) or self.open_(y) else DIFF
        lev = x[1]
        other = t.shift(y[3], y[1], lev - y[1]) if y[1] != lev else y[3]
        return self.diff(x[3], other, path)

    def diff_atom(self, x, y, path):
        if x == y:
            return EQ
        if x[0] != y[0]:
            return UNK if self.open_(x) or self.open_(y) else DIFF
        if x[0] == 'exists':
            return self.diff_exists(x, y, path)
        if x[0] == 'cmp':
            if x[1] != y[1]:
                return UNK if self.open_(x) or self.open_(y) else DIFF
            return self.combine(self.diff(x[2], y[2], path),
                                self.diff(x[3], y[3], path))
        if x[0] == 'isinst':
            if x[2] != y[2]:
                return DIFF
            return self.diff(x[1], y[1], path)
        return self.diff(x[1], y[1], path)

    def combine(self, *rs):
        if UNK in rs:
            return DIFF if DIFF in rs and False else (
                UNK if DIFF not in rs else UNK)
        return DIFF if DIFF in rs else EQ

    def walk(self, a, b, path, env, tied, hidden=frozenset()):
        """Joint walk of two decision diagrams over feasible paths."""
        if a == b or b == BOT:
            return EQ
        if not is_ite(a) and not is_ite(b):
            p = path + tuple(sorted(env.items(), key=repr))
            a2, b2 = self.assume(a, env), self.assume(b, env)
            if is_ite(a2) or is_ite(b2):
                if (a2, b2) == (a, b):
                    return UNK
                return self.diff(a2, b2, p)
            r = self.diff(a2, b2, p)
            if r == DIFF and not self.possible(p):
                self.why = None
                return EQ
            if r == DIFF and not self.possible(p, True):
                # equal keys are looked up alike
                self.why = None
                return UNK
            if r == DIFF and (entangled(p, self.over) or
                              twice_compared(p)):
                self.why = None
                return UNK
            return r
        roots = [x[1] for x in (a, b) if is_ite(x)]
        atom = min(roots, key=t.key)
        result = EQ
        memo_key = ('walk', a, b, path, tuple(sorted(env.items(), key=repr)))
        self.steps += 1
        if self.steps > self.limit:
            return UNK
        for value in (True, False):
            if not self.feasible(env, path, atom, value, tied):
                continue
            env2 = dict(env)
            env2[atom] = value
            a2 = t.cof(a, atom, value)
            b2 = t.cof(b, atom, value)
            r = self.walk(a2, b2, path, env2, tied, hidden)
            if r == DIFF:
                if atom in hidden or self.foreign(atom) or \
                        self.affix(atom):
                    result = UNK
                    self.why = None
                    continue
                return DIFF
            if r == UNK:
                result = UNK
        return result

    def settled(self, x):
        """A written constant."""
        return x[0] == 'const' or x[0] == 'seq' and all(
            p[0] == 'one' and p[1][0] == 'const' for p in x[2])

    def free(self, x):
        """A value the caller chooses."""
        while x[0] == 'attr' and not self.foreign(x):
            x = x[1]
        return x[0] == 'par'

    def affix(self, atom):
        """A test of a prefix where the reference asks something else
        about the same text: possibly the same question."""
        for y in t.subterms(atom):
            if y[0] == 'mcall' and y[2] in ('startswith', 'endswith'):
                for c in self.conditions or ():
                    if any(z == y[1] for z in t.subterms(c)):
                        return True
        return False

    def possible(self, path, loose=False):
        """Do the facts agree once the equalities among them are used?"""
        same = {a: v for a, v in path
                if a[0] == 'cmp' and a[1] in ('is', '==') and v and
                'const' not in (a[2][0], a[3][0])}
        if not same:
            return True
        known = {}
        for a, v in path:
            if a in same:
                continue
            r = self.assume(('ite', a, T, F), same, loose)
            if r in (T, F):
                if (r == T) != v:
                    return False
            elif is_ite(r) and r[2:] == (T, F):
                if known.setdefault(r[1], v) != v:
                    return False
        return True

    def feasible(self, env, path, atom, value, tied):
        known = dict(path)
        known.update(env)
        if atom in known:
            return known[atom] == value
        for other in tied.get(atom, ()):
            # possibly the same condition written differently: only paths
            # where they agree count
            if other in known and known[other] != value:
                return False
        for other, v in known.items():
            if contradict(self.ev, other, v, atom, value):
                return False
        if atom[0] == 'isinst' and not self.kind_exists(
                known, atom, value):
            return False
        # three-way order contradictions
        if atom[0] == 'cmp' and atom[1] in ('<', '=='):
            if not order_consistent(known, atom, value):
                return False
        if atom[0] == 'cmp' and atom[1] in ('is', '=='):
            if not equal_consistent(known, atom, value):
                return False
        val = self.assume_atom(atom, known)
        if val is not None and val != value:
            return False
        return True

    def kind_exists(self, known, atom, value):
        """Is there a class with all these ancestors and non-ancestors?"""
        p = self.ev.p
        yes, no = [], []
        for a, v in list(known.items()) + [(atom, value)]:
            if a[0] == 'isinst' and a[1] == atom[1]:
                c = p.classes.get(a[2])
                if c is None:
                    return True
                (yes if v else no).append(c)
        if not yes:
            return True
        return any(
            all(y in c.mro for y in yes) and not any(n in c.mro for n in no)
            for c in p.subclasses(yes[0]))

    def assume_atom(self, atom, known):
        r = self.assume(('ite', atom, T, F), known)
        if r == T:
            return True
        if r == F:
            return False
        return None

    def assume(self, x, env, loose=False):
        """Simplify a term under the truth values of atoms."""
        mapping = {}
        empty = set()
        for a, v in env.items():
            if a[0] == 'truth' and not v:
                empty.add(a[1])
            elif a[0] == 'cmp' and a[1] == 'in' and not v:
                ty = self.ev.typeof(a[3])
                if isinstance(ty, tuple) and ty[0] == 'dict' and \
                        isinstance(ty[1], tuple) and ty[1][0] == 'list':
                    # no entry, or a new one
                    mapping[('idx', a[3], a[2])] = ('seq', 'list', ())
            elif a[0] == 'cmp' and a[1] in ('==', 'is') and v:
                l, r = a[2], a[3]
                if l[0] == 'const' and r[0] != 'const':
                    mapping[r] = l
                elif r[0] == 'const' and l[0] != 'const':
                    mapping[l] = r
                elif loose or a[1] == 'is' or {self.ev.typeof(l), self.ev.typeof(
                        r)} in ({'int'}, {'str'}):
                    while l in mapping:
                        l = mapping[l]
                    while r in mapping:
                        r = mapping[r]
                    if l == r:
                        continue
                    l, r = sorted((l, r), key=t.key)
                    if any(y == r for y in t.subterms(l)):
                        l, r = r, l
                    if not any(y == r for y in t.subterms(l)):
                        mapping[r] = l
        if not mapping and not empty:
            return x

        def f(y):
            if y in mapping:
                while y in mapping:
                    y = mapping[y]
                return y
            if empty:
                if y[0] in ('seq', 'pieces'):
                    ps = y[2] if y[0] == 'seq' else y[1]
                    keep = tuple(p for p in ps if not (
                        p[0] == 'splice' and p[1] in empty
                        or p[0] == 'for' and p[2] in empty))
                    if keep != ps:
                        return t.rebuild(y[:-1] + (keep,), f)
                if y[0] == 'len' and y[1] in empty:
                    return const(0)
                if y[0] == 'exists' and y[2] in empty:
                    return F
                if y[0] == 'ite' and y[1][0] == 'exists' and \
                        y[1][2] in empty:
                    return t.rebuild(y[3], f)
                if y[0] == 'ite' and y[1][0] == 'truth' and \
                        y[1][1] in empty:
                    return t.rebuild(y[3], f)
                if y[0] == 'call' and y[1][0] == 'builtin' and \
                        y[1][1] in ('sorted', 'reversed') and \
                        y[2][0] in empty:
                    return ('seq', 'list', ())
            return None
        try:
            return t.rebuild(x, f)
        except (t.TooBig, AssertionError):
            return x

    # ------------------------------------------------------------ leaves

    def diff_leaf(self, a, b, path):
        if a == b or b == BOT:
            return EQ
        if a == BOT:
            # undefined (a certain failure) where the reference has a value
            return DIFF if path is not None and all(
                x in self.conditions and not self.open_(x)
                for x, _ in path) and self.conditions is not None and \
                not self.open_(b) else UNK
        if a[0] == 'exc' or b[0] == 'exc':
            return self.diff_exc(a, b, path)
        fa, fb = regexp_flags(a), regexp_flags(b)
        if fa is not None and fb is not None:
            return EQ if fa == fb else DIFF
        ta, tb = a[0], b[0]
        la, lb = ta == 'op' and a[1] == 'live', tb == 'op' and b[1] == 'live'
        if la != lb:
            # a snapshot where the growing collection must be followed
            return DIFF if lb and self.grows(b[2][0]) and \
                self.diff(a, b[2][0], path) == EQ else UNK
        if tb == 'seq' and ta == 'gvar' and a[1].startswith('shared '):
            # one collection for all instances instead of one for each
            return DIFF
        if self.settled(a) and self.free(b) and not any(
                y == b for x, _ in path for y in t.subterms(x)):
            # one and the same value whatever is given
            return DIFF
        for x, y in ((a, b), (b, a)):
            if x[0] == 'seq' and (('truth', y), False) in path and any(
                    p[0] == 'one' for p in x[2]):
                # something where nothing is
                return DIFF
        if ta == 'seq' or tb == 'seq':
            return self.diff_seq(a, b, path)
        if ta == tb:
            m = getattr(self, 'leaf_' + ta, None)
            if m:
                return m(a, b, path)
        if self.open_(a) or self.open_(b):
            return UNK
        if 'lin' in (ta, tb) or (t.numeric(a) and t.numeric(b)):
            return self.diff_lin(a, b, path)
        if 'str' in (ta, tb):
            return self.diff_str(a, b, path)
        if bool_const(a) != bool_const(b):
            # a truth value against a value of unknown type
            x = b if bool_const(a) else a
            value = (a if x is b else b)[2]
            if self.ev.typeof(x) == 'bool':
                if path is not None and (('truth', x), value) in path:
                    return EQ
                return self.rigid(a, b)
            if path is not None and (('truth', x), not value) in path:
                # the other truth value anyway
                return self.rigid(a, b)
            if x[0] in ('attr', 'call', 'mcall', 'par', 'bv', 'idx',
                        'first', 'last'):
                return UNK
            if x == NONE:
                return UNK
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1][0] == 'cls' and x[2] and all(
                    z[0] == 'attr' and z[1] == y for z in x[2]):
                # a copy
                return UNK
            if x[0] == 'op' and x[1] == 'slice' and x[2][0] == y and \
                    not self.open_(y) and x[2][1:] in PARTS:
                # a part where the whole is required
                return DIFF
        if ta == 'op' and a[1] in ('|', '|set') and b in a[2] and all(
                x == b or x[0] == 'attr' for x in a[2]) and not self.open_(a):
            # more than is required
            return DIFF
        return self.rigid(a, b)

    def grows(self, x):
        return x[0] == 'attr' and x[2] == 'states'

    def rigid(self, a, b):
        """Different rigid terms."""
        if self.open_(a) or self.open_(b):
            return UNK
        if externals(a) != externals(b):
            # another library function may do the same
            return UNK
        ok = {'const', 'par', 'attr', 'new', 'cls', 'func', 'builtin', 'ext',
              'gvar', 'bv', 'pos', 'idx', 'call', 'mcall', 'bound', 'lam',
              'len', 'first', 'last', 'content', 'seq', 'lin', 'str', 'lv'}
        if a[0] in ok and b[0] in ok:
            return DIFF
        return UNK

    def diff_exc(self, a, b, path):
        ka = a[1] if a[0] == 'exc' else None
        kb = b[1] if b[0] == 'exc' else None
        if ka in ('AttributeError', 'TypeError', 'IndexError',
                  'KeyError') and not kb:
            # a certain failure, unless the path is not a real one
            return UNK if self.open_(b) or any(
                self.open_(x) for x, _ in path) else DIFF
        if ka in self.internal or kb in self.internal or 'Mixed' in (ka, kb):
            return UNK
        return DIFF

    def leaf_const(self, a, b, path):
        return DIFF

    def leaf_par(self, a, b, path):
        return DIFF

    leaf_cls = leaf_builtin = leaf_ext = leaf_bv = leaf_pos = leaf_par

    def leaf_func(self, a, b, path):
        return UNK if self.foreign(a) or self.foreign(b) else DIFF

    leaf_gvar = leaf_func

    def leaf_lv(self, a, b, path):
        return UNK

    def leaf_attr(self, a, b, path):
        if a[2] == b[2]:
            return self.diff(a[1], b[1], path)
        return self.rigid(a, b)

    def leaf_content(self, a, b, path):
        return self.diff(a[1], b[1], path)

    def leaf_len(self, a, b, path):
        r = self.diff(a[1], b[1], path)
        return r if r != DIFF else UNK if a[1][0] == 'seq' or \
            b[1][0] == 'seq' else DIFF

    def leaf_idx(self, a, b, path):
        r1 = self.diff(a[1], b[1], path)
        r2 = self.diff(a[2], b[2], path)
        return self.combine(r1, r2)

    def leaf_pair(self, a, b, path):
        return self.either(self.diff(a[1], b[1], path),
                           self.diff(a[2], b[2], path))

    def either(self, *rs):
        """Independent components: one definite difference suffices."""
        if DIFF in rs:
            return DIFF
        return UNK if UNK in rs else EQ

    def leaf_bound(self, a, b, path):
        if a[2] != b[2]:
            return self.rigid(a, b)
        return self.diff(a[1], b[1], path)

    def leaf_call(self, a, b, path):
        if self.foreign(a[1]) or self.foreign(b[1]):
            return UNK
        if a[1] == b[1]:
            return self.diff_args(a[2], a[3], b[2], b[3], path,
                                  a[1][0] in ('func', 'cls', 'par', 'attr'))
        if a[1][0] in ('builtin', 'ext') or b[1][0] in ('builtin', 'ext'):
            fa, fb = a[1][1], b[1][1]
            if fa in SEQ_FUNCS and fb in SEQ_FUNCS:
                if len(a[2]) == 1 and len(b[2]) == 1 and \
                        self.diff(a[2][0], b[2][0], path) == EQ and \
                        {fa, fb} != {'list', 'tuple'}:
                    return self.rigid(a, b)
            if {fa, fb} <= {'id', 'hash', 'len', 'min', 'max', 'any', 'all'}:
                if self.diff_args(a[2], a[3], b[2], b[3], path,
                                  False) == EQ:
                    return DIFF
            for x, y in ((a, b), (b, a)):
                # ordered on one side only
                if x[1] in ORDERS and y[1] not in ORDERS and x[2] and \
                        self.diff(x[2][0], y, path) == EQ:
                    return DIFF
            return UNK
        if a[1][0] == b[1][0] == 'func':
            return self.rigid(a, b)
        r = self.diff(a[1], b[1], path)
        if r == EQ:
            return self.diff_args(a[2], a[3], b[2], b[3], path, True)
        return r if r == UNK else self.rigid(a, b)

    def diff_args(self, xa, ka, xb, kb, path, opaque):
        if len(xa) != len(xb) or [k for k, _ in ka] != [k for k, _ in kb]:
            da, db = dict(ka), dict(kb)
            if len(xa) == len(xb) and set(da) ^ set(db) <= {'key', 'reverse'}:
                rs = [self.diff(x, y, path) for x, y in zip(xa, xb)]
                if all(r == EQ for r in rs):
                    return DIFF
            return UNK
        rs = [self.diff(x, y, path) for x, y in zip(xa, xb)]
        rs += [self.diff(v, w, path) for (_, v), (_, w) in zip(ka, kb)]
        return self.either(*rs) if opaque else self.combine(*rs)

    def leaf_mcall(self, a, b, path):
        if self.foreign(a) or self.foreign(b):
            return UNK
        if a[2] != b[2]:
            if self.diff(a[1], b[1], path) == EQ:
                return self.rigid(a, b)
            if a[2] in STR_METHODS and b[2] in STR_METHODS:
                return self.rigid(a, b)
            return UNK
        base = self.diff(a[1], b[1], path)
        args = self.diff_args(a[3], a[4], b[3], b[4], path, True)
        return self.either(base, args)

    def leaf_op(self, a, b, path):
        if a[1] != b[1]:
            if a[1] in ARITH and b[1] in ARITH:
                return self.rigid(a, b)
            return UNK
        if len(a[2]) != len(b[2]):
            return UNK
        rs = [self.diff(x, y, path) for x, y in zip(a[2], b[2])]
        return self.combine(*rs)

    def leaf_new(self, a, b, path):
        if a[1] != b[1]:
            if self.foreign(a) or self.foreign(b):
                return UNK
            return DIFF
        da, db = dict(a[2]), dict(b[2])
        rs = [self.diff(da[k], db[k], path) for k in da if k in db]
        r = self.either(*rs) if rs else EQ
        if r == EQ and set(da) != set(db):
            return UNK
        return r

    def leaf_lam(self, a, b, path):
        if a[2] != b[2]:
            return UNK
        body = b[3]
        if a[1] != b[1]:
            body = t.shift(body, b[1], a[1] - b[1])
        return self.diff(a[3], body, path)

    def leaf_sum(self, a, b, path):
        r = self.diff(a[2], b[2], path)
        if r != EQ:
            return UNK
        r = self.diff(a[3], b[3], path)
        return r

    def leaf_first(self, a, b, path):
        s = self.diff(a[2], b[2], path)
        if s != EQ:
            return UNK if s == UNK or self.open_(a) or self.open_(b) else DIFF
        bc, bval = b[3], b[4]
        if a[1] != b[1]:
            bc = t.shift(bc, b[1], a[1] - b[1])
            bval = t.shift(bval, b[1], a[1] - b[1])
        self.over[a[1]] = a[2]
        rc = self.diff(a[3], bc, path)
        rv = self.diff(a[4], bval, path)
        if rc == EQ:
            return rv
        if rv == EQ and rc == DIFF:
            return DIFF
        return UNK

    leaf_last = leaf_first

    def leaf_fold(self, a, b, path):
        if a[1] != b[1] or self.foreign(a) or self.foreign(b):
            return UNK
        if self.diff(a[3], b[3], path) != EQ:
            return UNK
        if len(a[5]) != len(b[5]):
            return UNK
        # match the state components: same place, same initial value
        bb = b
        if a[2] != b[2]:
            bb = t.shift(b, b[2], a[2] - b[2])
            if bb[0] != 'fold' or len(bb[5]) != len(a[5]):
                return UNK
        self.over[a[2]] = a[3]
        lva = [('lv', (a[2], i)) for i in range(len(a[5]))]
        lvb = [('lv', (b[2], i)) for i in range(len(b[5]))]
        results = []
        for perm in self.match_states(a, bb, lva, lvb, path):
            r = self.diff_states(a, bb, lva, lvb, perm, path)
            if r == EQ:
                return EQ
            results.append(r)
        if results and all(r == DIFF for r in results):
            return DIFF
        self.why = None
        return UNK

    def diff_states(self, a, bb, lva, lvb, perm, path):
        ren = {lvb[j]: lva[i] for i, j in perm.items()}
        rs = []
        hidden = False
        for i, j in perm.items():
            rs.append(self.diff(a[5][i][0], bb[5][j][0], path))
            r = self.diff(a[5][i][1], t.subst(bb[5][j][1], ren), path)
            rs.append(r)
            if r != EQ and not (a[6] == lva[i] and bb[6] == lvb[j]):
                # the state may be represented in another way
                hidden = True
        rs.append(self.diff(a[4], t.subst(bb[4], ren), path))
        rs.append(self.diff(a[6], t.subst(bb[6], ren), path))
        if all(r == EQ for r in rs):
            return EQ
        if DIFF in rs and UNK not in rs and not hidden and \
                all(r == EQ for r in rs[0:2 * len(perm):2]):
            return DIFF
        return UNK

    def match_states(self, a, b, lva, lvb, path):
        """Candidate pairings of the carried values, best first."""
        n = len(a[5])
        cands = []
        for i in range(n):
            c = [j for j in range(n)
                 if self.diff(a[5][i][0], b[5][j][0], path) == EQ]
            if not c:
                return []
            same = shape(a[5][i][1])
            c.sort(key=lambda j: (shape(b[5][j][1]) != same, j != i))
            cands.append(c)
        found = []

        def pick(i, perm):
            if len(found) >= 6:
                return
            if i == n:
                found.append(dict(perm))
                return
            for j in cands[i]:
                if j not in perm.values():
                    perm[i] = j
                    pick(i + 1, perm)
                    del perm[i]
        pick(0, {})
        return found

    # ------------------------------------------------------------ strings

    def diff_str(self, a, b, path):
        pa, pb = t.str_pieces(a), t.str_pieces(b)
        if len(pa) == len(pb) and all(x[0] == y[0]
                                      for x, y in zip(pa, pb)):
            rs = []
            for x, y in zip(pa, pb):
                if x[0] == 'lit':
                    rs.append(EQ if x[1] == y[1] else DIFF)
                else:
                    if x[1] != y[1]:
                        rs.append(DIFF)
                    rs.append(self.diff(x[2], y[2], path))
            return self.either(*rs)
        return self.rigid(a, b)

    leaf_str = diff_str

    # ------------------------------------------------------------ numbers

    def diff_lin(self, a, b, path):
        d = t.lin_add(a, b, -1)
        c, coefs = t.lin_of(d)
        if not coefs:
            return EQ if c == 0 else DIFF
        if self.open_(d):
            pos = [k for k, v in coefs.items() if v == 1]
            neg = [k for k, v in coefs.items() if v == -1]
            if len(pos) == 1 and len(neg) == 1 and len(coefs) == 2:
                r = self.diff(pos[0], neg[0], path)
                if r == EQ:
                    return EQ if c == 0 else DIFF
                return r if c == 0 else UNK
            return UNK
        pos = [k for k, v in coefs.items() if v == 1]
        neg = [k for k, v in coefs.items() if v == -1]
        if len(pos) == 1 and len(neg) == 1 and len(coefs) == 2 and c == 0:
            return self.diff(pos[0], neg[0], path)
        if any(complex_term(k) for k in coefs):
            return UNK
        return DIFF

    leaf_lin = diff_lin

    # ------------------------------------------------------------ sequences

    def pieces_of(self, x):
        if x[0] == 'seq':
            return x[2]
        return (('splice', x),)

    def diff_seq(self, a, b, path):
        ka = a[1] if a[0] == 'seq' else None
        kb = b[1] if b[0] == 'seq' else None
        if a == NONE or b == NONE:
            return UNK if self.foreign(a) or self.foreign(b) else DIFF
        if a[0] in ('const', 'new') or b[0] in ('const', 'new'):
            return self.rigid(a, b)
        pa, pb = self.pieces_of(a), self.pieces_of(b)
        if 'set' in (ka, kb):
            return self.diff_set(pa, pb, path)
        if 'dict' in (ka, kb) and not (ka == kb):
            return UNK
        if ka == 'dict':
            # entries made in another order: the same unless keys coincide
            ta, tb = entry_keys(pa), entry_keys(pb)
            if ta != tb and sorted(ta) == sorted(tb):
                return UNK
            if len(set(ta)) < len(ta) or len(set(tb)) < len(tb):
                # an entry written again later
                return EQ if pa == pb else UNK
        if unsettled(pa) and not unsettled(pb) and not self.open_(b) and all(
                x[0] in ('seq', 'par', 'attr') for x in (a, b)):
            # an order nobody knows where the reference has a definite one
            return DIFF
        return self.diff_pieces(pa, pb, path)

    def piece_eq(self, p, q, path):
        if p == q:
            return EQ
        if p[0] == q[0] == 'one':
            return self.diff(p[1], q[1], path)
        if p[0] == q[0] == 'splice':
            return self.diff(p[1], q[1], path)
        if p[0] == q[0] == 'for':
            s = self.diff(p[2], q[2], path)
            if s != EQ:
                if p[1] not in t.levels(p[3]) and \
                        q[1] not in t.levels(q[3]):
                    # only the number of elements matters
                    return UNK
                if s == DIFF and q[2][0] == 'op' and q[2][1] == 'live':
                    return UNK if p[2][0] == 'op' else DIFF
                if s == DIFF and not self.soft(p[2]) and \
                        not self.soft(q[2]) and p[2][0] != 'seq' and \
                        q[2][0] != 'seq':
                    return self.rigid_for(p, q)
                return UNK
            if any(x[0] == 'truth' and x[1] == p[2] and not v
                   for x, v in path):
                return EQ           # nothing to iterate over
            mine, body = p[3], q[3]
            self.over[p[1]] = p[2]
            if p[1] != q[1]:
                body = t.shift(body, q[1], p[1] - q[1])
            mine = self.given(mine, p[1], p[2], path)
            body = self.given(body, p[1], p[2], path)
            return self.diff(mine, body, path)
        if {p[0], q[0]} == {'for', 'splice'}:
            f, s = (p, q) if p[0] == 'for' else (q, p)
            if f[2] == s[1]:
                self.over[f[1]] = f[2]
                # the elements themselves against a mapped/filtered copy
                ident = self.given(('pieces', (('one', ('bv', f[1])),)),
                                   f[1], f[2], path)
                body = self.given(f[3], f[1], f[2], path)
                return self.diff(body, ident, path) if p[0] == 'for' \
                    else self.diff(ident, body, path)
            if s[1][0] == 'call' and s[1][1][0] == 'builtin' and \
                    s[1][1][1] in ('sorted', 'reversed') and \
                    not self.open_(('pieces', (f,))) and \
                    not self.open_(s[1]):
                inner = s[1][2][0]
                if self.diff_pieces(self.pieces_of(inner), (f,), path) == EQ:
                    return DIFF
            return UNK
        return UNK

    def given(self, body, level, src, path):
        """The path may tell that no element meets some condition."""
        for x, v in path:
            if x[0] == 'exists' and not v and x[2] == src:
                cond = x[3]
                if x[1] != level:
                    cond = t.shift(cond, x[1], level - x[1])
                body = t.select(cond, ('pieces', ()), body)
        return body

    def rigid_for(self, p, q):
        if self.foreign(p[3]) or self.foreign(q[3]) or self.foreign(
                p[2]) or self.foreign(q[2]):
            return UNK
        if p[2][0] in ('attr', 'par', 'bv', 'mcall', 'call', 'idx', 'content',
                       'op') and q[2][0] in (
                'attr', 'par', 'bv', 'mcall', 'call', 'idx', 'content', 'op'):
            if p[2][0] == 'call' and q[2][0] == 'call' and (
                    p[2][1] != q[2][1]) and 'builtin' in (
                        p[2][1][0], q[2][1][0]):
                return UNK
            for x, y in ((p[2], q[2]), (q[2], p[2])):
                # the elements may be the same, taken in another way
                if x[0] == 'call' and x[1][0] in ('builtin', 'ext') and not (
                        x[1][1] in ('sorted', 'reversed') and x[2][0] == y):
                    if not (y[0] == 'call' and x[1] == y[1]) or any(
                            z[0] == 'seq' for z in t.subterms(x)) or any(
                            z[0] == 'seq' for z in t.subterms(y)):
                        return UNK
            return DIFF
        return UNK

    def diff_pieces(self, pa, pb, path):
        pa, pb = list(pa), list(pb)
        # common prefix and suffix
        while pa and pb and self.piece_eq(pa[0], pb[0], path) == EQ:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and self.piece_eq(pa[-1], pb[-1], path) == EQ:
            pa.pop()
            pb.pop()
        if not pa and not pb:
            return EQ
        rest = pa or pb
        if len(pa) == len(pb) > 1 and sorted(pa, key=repr) == sorted(
                pb, key=repr) and any(p[0] == 'one' for p in pa) and \
                not any(self.open_(('pieces', (p,))) for p in pa):
            # in another order
            return DIFF
        if not pa or not pb:
            # extra elements on one side
            for p in rest:
                if p[0] == 'one':
                    return DIFF if not self.foreign(p[1]) else UNK
            if any(self.open_(('pieces', (p,))) for p in rest):
                return UNK
            for p in rest:
                if p[0] == 'splice':
                    return DIFF
                if p[0] == 'for' and p[2][0] in ('attr', 'par', 'call',
                                                 'mcall', 'bv', 'idx'):
                    return DIFF
            return UNK
        if all(p[0] == 'one' for p in pa + pb):
            if len(pa) != len(pb):
                if any(self.open_(p[1]) for p in pa + pb):
                    return UNK
                return DIFF
            return self.either(*[self.piece_eq(p, q, path)
                                 for p, q in zip(pa, pb)])
        if len(pa) == len(pb):
            first = self.piece_eq(pa[0], pb[0], path)
            last = self.piece_eq(pa[-1], pb[-1], path)
            if len(pa) == 1:
                return first
            if pa[0][0] == pb[0][0] == 'one' and first == DIFF:
                return DIFF
            rs = [self.piece_eq(p, q, path) for p, q in zip(pa, pb)]
            if DIFF in rs and not any(
                    self.open_(('pieces', (p,))) for p in pa + pb) \
                    and UNK not in rs:
                return DIFF
            return UNK
        if any(self.open_(('pieces', (p,))) for p in pa + pb):
            return UNK
        # different number of elements around the same unknown parts
        ones_a = sum(p[0] == 'one' for p in pa)
        ones_b = sum(p[0] == 'one' for p in pb)
        many_a = [p for p in pa if p[0] != 'one']
        many_b = [p for p in pb if p[0] != 'one']
        if ones_a != ones_b and len(many_a) == len(many_b) and all(
                self.piece_eq(p, q, path) == EQ
                for p, q in zip(many_a, many_b)):
            return DIFF
        if not many_a or not many_b:
            if (not many_a and ones_b > ones_a) or (
                    not many_b and ones_a > ones_b):
                return DIFF
            many = many_a or many_b
            if all(p[0] == 'splice' and not complex_term(p[1])
                   for p in many):
                return DIFF
        return UNK

    def diff_set(self, pa, pb, path):
        pa, pb = list(pa), list(pb)
        for p in list(pa):
            for q in pb:
                if self.piece_eq(p, q, path) == EQ:
                    pa.remove(p)
                    pb.remove(q)
                    break
        if not pa and not pb:
            return EQ
        if len(pa) == 1 and len(pb) == 1:
            return self.piece_eq(pa[0], pb[0], path)
        if not pa or not pb:
            rest = pa or pb
            if any(self.open_(('pieces', (p,))) for p in rest):
                return UNK
            return DIFF if any(p[0] == 'one' for p in rest) else UNK
        return UNK

    def leaf_pieces(self, a, b, path):
        return self.diff_pieces(a[1], b[1], path)


# methods of text that say different things
TEXT_METHODS = {
    'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace',
    'isupper', 'islower', 'istitle', 'upper', 'lower', 'title', 'casefold',
    'capitalize', 'swapcase', 'isascii', 'strip', 'lstrip', 'rstrip',
    'startswith', 'endswith',
}


FLAGS = {'I': 'IGNORECASE', 'U': 'UNICODE', 'M': 'MULTILINE',
         'S': 'DOTALL', 'X': 'VERBOSE', 'A': 'ASCII', 'L': 'LOCALE'}


def is_object(ty):
    if isinstance(ty, tuple) and ty[0] == 'opt':
        ty = ty[1]
    return isinstance(ty, tuple) and ty[0] == 'cls'


def regexp_flags(x):
    """The set of flags of a regular expression (UNICODE is implied)."""
    if x[0] == 'ext' and x[1].startswith('re.'):
        name = x[1][3:]
        name = FLAGS.get(name, name)
        if name in FLAGS.values() or name == 'NOFLAG':
            return frozenset({name}) - {'UNICODE', 'NOFLAG'}
    if x[0] == 'op' and x[1] == '|':
        parts = [regexp_flags(y) for y in x[2]]
        if None not in parts:
            return frozenset().union(*parts)
    return None


def unsettled(ps):
    """Pieces visited in the order of a set."""
    return any(x[0] == 'op' and x[1] == 'unordered'
               for p in ps if p[0] != 'one'
               for x in [p[1] if p[0] == 'splice' else p[2]])


def entry_keys(pieces):
    return [repr(p[1][1]) if p[0] == 'one' and p[1][0] == 'pair' else repr(p)
            for p in pieces]


def externals(x):
    return {y[1][1] for y in t.subterms(x)
            if y[0] == 'call' and y[1][0] == 'ext'}


def bool_const(x):
    return x[0] == 'const' and x[1] == 'bool'


def complex_term(x):
    return any(y[0] in ('fold', 'exists', 'first', 'last', 'sum', 'seq')
               for y in t.subterms(x))


def letters(x):
    """Texts whose inside the condition looks at."""
    r = set()
    for y in t.subterms(x):
        if y[0] == 'mcall' and y[2] in TEXT_METHODS:
            r.add(y[1])
        elif y[0] == 'idx' or y[0] == 'op' and y[1] == 'slice':
            z = y[1] if y[0] == 'idx' else y[2][0]
            if t.H.typeof(z) in ('str', None):
                r.add(z)
    # the text itself, whatever part of it is looked at
    for y in list(r):
        while y[0] in ('mcall', 'idx') or y[0] == 'op' and y[1] == 'slice':
            y = y[2][0] if y[0] == 'op' else y[1]
            r.add(y)
    return r


def complex_parts(x):
    return complex_term(x)


def twice_compared(path):
    """Were two collections compared both as a whole and one by one?"""
    pairs = [x for x, _ in path if x[0] == 'cmp' and x[1] == '==' and
             x[2][0] == x[3][0] == 'seq']
    for x in pairs:
        whole = {y for y in t.subterms(x) if y[0] in ('par', 'bv')}
        for y, _ in path:
            if y in pairs:
                continue
            for z in t.subterms(y):
                if z[0] == 'cmp' and z[1] == '==' and whole & set(
                        t.subterms(z[2])) and whole & set(t.subterms(z[3])) \
                        and not any(u[0] == 'call' and u[1] == (
                            'builtin', 'type') for u in z[2:]):
                    return True
    return False


def entangled(path, over):
    """Does the path state several things about the members of one
    collection?  Such facts are not combined here."""
    about = []
    for x, _ in path:
        whole, parts, members = set(), set(), set()
        for y in t.subterms(x):
            if y[0] in ('exists', 'first', 'last', 'sum'):
                whole |= bases(y[2])
            elif y[0] == 'fold':
                whole |= bases(y[3])
            elif y[0] == 'cmp' and y[1] == 'in':
                # each value is a member or not, separately
                if not bases(y[2]) & bases(y[3]):
                    members |= bases(y[3])
                else:
                    whole |= bases(y[3])
            elif y[0] == 'idx':
                parts |= bases(y[1])
        for n in t.levels(x):
            if n in over:
                # about an element of a collection
                parts |= bases(over[n])
        if whole or parts or members:
            about.append((whole, parts, members))
    for i, (w1, p1, m1) in enumerate(about):
        for w2, p2, m2 in about[:i]:
            if w1 & (w2 | p2 | m2) or w2 & (p1 | m1) or p1 & m2 or p2 & m1:
                return True
    return False


def bases(x):
    """The collections a source is made of."""
    if x[0] in ('par', 'attr', 'gvar', 'mcall', 'bv') or x[0] == 'call' and \
            x[1][0] != 'builtin':
        return {x}
    if x[0] == 'const':
        return set()
    r = set()
    for c in t.children(x):
        r |= bases(c)
    return r


def simple_atom(x):
    return not complex_term(x)


def shape(x):
    """Multiset of constructors, ignoring names."""
    counts = {}
    for y in t.subterms(x):
        counts[y[0]] = counts.get(y[0], 0) + 1
    return tuple(sorted(counts.items()))


def contradict(ev, a, va, b, vb):
    """Known incompatible valuations of two atoms."""
    if a[0] == 'isinst' and b[0] == 'isinst' and a[1] == b[1]:
        ca, cb = ev.p.classes.get(a[2]), ev.p.classes.get(b[2])
        if ca and cb:
            if va and not vb and cb in ca.mro:
                return True
            if vb and not va and ca in cb.mro:
                return True
            if va and vb:
                common = [c for c in ev.p.subclasses(ca) if cb in c.mro]
                return not common
        elif va and vb and a[2] != b[2]:
            return not ({a[2], b[2]} == {'int', 'bool'})
        return False
    if a[0] == 'cmp' and b[0] == 'cmp' and a[1] in ('==', 'is') and \
            b[1] in ('==', 'is') and va and vb:
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if y[0] not in ('const', 'cls'):
                continue
            for z, w in ((b[2], b[3]), (b[3], b[2])):
                if w[0] in ('const', 'cls') and x == z and w != y:
                    return True
    if a[0] == 'truth' or b[0] == 'truth':
        (p, vp), (q, vq) = ((a, va), (b, vb)) if a[0] == 'truth' \
            else ((b, vb), (a, va))
        # an element exists only in a non-empty collection
        if q[0] == 'exists' and vq and not vp and q[2] == p[1]:
            return True
        if q[0] == 'cmp' and q[1] == 'in' and vq and not vp and \
                q[3] == p[1]:
            return True
        if q[0] == 'cmp' and q[1] in ('==', 'is') and vq and vp:
            for x, y in ((q[2], q[3]), (q[3], q[2])):
                if x == p[1] and y[0] == 'const' and not y[2]:
                    return True
        if q[0] == 'cmp' and q[1] in ('==', 'is') and vq and not vp:
            for x, y in ((q[2], q[3]), (q[3], q[2])):
                if x == p[1] and (y[0] == 'const' and y[2]):
                    return True
        if q[0] == 'isinst' and q[1] == p[1] and vq and not vp and \
                ':' in q[2]:
            return True
        # an instance of exactly this class is an instance of it
        if q[0] == 'cmp' and q[1] in ('==', 'is') and vq and not vp and \
                p[1][0] == 'call' and p[1][1] == ('builtin', 'isinstance'):
            obj, cls = p[1][2]
            kind = t.call(('builtin', 'type'), [obj])
            if {q[2], q[3]} == {kind, cls}:
                return True
    return False


def equal_consistent(known, atom, value):
    """Identity is transitive and implies equality."""
    facts = [(a, v) for a, v in known.items()
             if a[0] == 'cmp' and a[1] in ('is', '==')] + [(atom, value)]
    for op in ('is', '=='):
        root = {}

        def find(x):
            while root.get(x, x) != x:
                x = root[x]
            return x
        for a, v in facts:
            if v and (a[1] == 'is' or op == '=='):
                root[find(a[2])] = find(a[3])
        for a, v in facts:
            if not v and a[1] == op and find(a[2]) == find(a[3]):
                return False
    return True


def order_consistent(known, atom, value):
    """No contradiction among < and == facts: a system of difference
    constraints has no negative cycle."""
    facts = [(a, v) for a, v in known.items()
             if a[0] == 'cmp' and a[1] in ('<', '==')] + [(atom, value)]
    unequal = []
    ZERO = ('const', 'int', 0)
    nodes = {ZERO: 0}
    edges = {}

    def node(x):
        return nodes.setdefault(x, len(nodes))

    def edge(i, j, w):
        # x_i - x_j <= w, a pair (amount, -1 when strict)
        if (i, j) not in edges or w < edges[i, j]:
            edges[i, j] = w

    def linear(x):
        if x[0] == 'const' and x[1] == 'int':
            return x[2], {}
        if x[0] == 'lin':
            return x[1], dict(x[2])
        return 0, {x: 1}

    def whole(x):
        return x[0] in ('len', 'pos', 'lin') or t.H.typeof and \
            t.H.typeof(x) == 'int' or x[0] == 'attr' and \
            t.H.least(x) is not None

    def at_most(x, y, strict, other=False):
        """x <= y or x < y"""
        if x[0] == 'const' and x[1] != 'int' or y[0] == 'const' and \
                y[1] != 'int':
            if other:
                return
            edge(node(x), node(y), (0, -1 if strict else 0))
            return
        (c, p), (d, q) = linear(x), linear(y)
        diff = dict(p)
        for k, w in q.items():
            diff[k] = diff.get(k, 0) - w
        diff = {k: w for k, w in diff.items() if w}
        up = [k for k, w in diff.items() if w == 1]
        down = [k for k, w in diff.items() if w == -1]
        if len(up) + len(down) != len(diff) or len(up) > 1 or len(down) > 1:
            if other:
                return
            edge(node(x), node(y), (0, -1 if strict else 0))
            return
        i = node(up[0] if up else ZERO)
        j = node(down[0] if down else ZERO)
        if other:
            unequal.append((i, j, d - c))
            return
        if strict and all(whole(k) for k in diff):
            edge(i, j, (d - c - 1, 0))
        else:
            edge(i, j, (d - c, -1 if strict else 0))
    for a, v in facts:
        x, y = a[2], a[3]
        if a[1] == '<':
            if v:
                at_most(x, y, True)
            else:
                at_most(y, x, False)
        elif v:
            at_most(x, y, False)
            at_most(y, x, False)
        elif whole(x) or whole(y):
            at_most(x, y, False, True)
    # lengths are not negative
    for x, i in list(nodes.items()):
        if x[0] in ('len', 'pos'):
            edge(0, i, (0, 0))
        elif x[0] == 'attr' and t.H.least(x) is not None:
            edge(0, i, (-t.H.least(x), 0))
        elif x[0] == 'lin' and x[1] >= 0 and all(
                w > 0 and y[0] in ('len', 'pos') for y, w in x[2]):
            edge(0, i, (-x[1], 0))
    n = len(nodes)
    if n > 16:
        return True
    dist = [[None] * n for _ in range(n)]
    for (i, j), w in edges.items():
        dist[i][j] = w
    for i in range(n):
        if dist[i][i] is not None and dist[i][i] < (0, 0):
            return False
    for k in range(n):
        for i in range(n):
            u = dist[i][k]
            if u is None:
                continue
            for j in range(n):
                w = dist[k][j]
                if w is None:
                    continue
                s = (u[0] + w[0], u[1] + w[1])
                if dist[i][j] is None or s < dist[i][j]:
                    dist[i][j] = s
    for i, j, w in unequal:
        # both bounds meet
        if dist[i][j] is not None and dist[j][i] is not None and \
                dist[i][j] <= (w, 0) and dist[j][i] <= (-w, 0):
            return False
    return all(dist[i][i] is None or dist[i][i] >= (0, 0)
               for i in range(n))


