"""Gated value-graph construction.

Evaluates the syntax tree of a function over symbolic values by
if-conversion: every assignment and every side effect is gated by the
predicate under which it happens (gated single assignment), calls into the
analysed package are resolved through the class hierarchy and inlined, and
loops become comprehension, quantifier or fold terms (see terms.py).  There
is no solver, no path enumeration and no execution of the analysed code.
"""

import ast
import builtins
import string
from itertools import combinations

from . import terms as t
from .terms import (
    const, T, F, NONE, BOT, apply, select, bnot, band, bor, leaves, is_ite
)
from .load import AnalysisError, ClassInfo, FuncInfo


ADDRESSES = (('builtin', 'id'), ('builtin', 'hash'))


class Unsupported(Exception):
    pass


BUILTINS = {
    'len', 'isinstance', 'issubclass', 'type', 'id', 'hash', 'any', 'all',
    'sum', 'min', 'max', 'sorted', 'reversed', 'enumerate', 'zip', 'range',
    'list', 'tuple', 'set', 'dict', 'frozenset', 'iter', 'next', 'filter',
    'map', 'getattr', 'setattr', 'hasattr', 'super', 'bool', 'int', 'str',
    'repr', 'object', 'print', 'callable', 'abs', 'vars', 'float', 'ord',
    'chr', 'property', 'staticmethod', 'classmethod', 'iter', 'slice',
    'NotImplementedError', 'TypeError', 'ValueError', 'KeyError',
    'IndexError', 'StopIteration', 'Exception', 'AssertionError',
    'AttributeError', 'RuntimeError', 'LookupError', 'NotImplemented',
}

ALL_BUILTINS = set(dir(builtins)) | {
    '__name__', '__file__', '__doc__', '__package__', '__spec__',
    '__loader__', '__builtins__', '__class__'}

ARITY = {
    'len': (1, 1), 'isinstance': (2, 2), 'issubclass': (2, 2), 'id': (1, 1),
    'hash': (1, 1), 'any': (1, 1), 'all': (1, 1), 'sum': (1, 2),
    'sorted': (1, 1), 'reversed': (1, 1), 'enumerate': (1, 2),
    'range': (1, 3), 'list': (0, 1), 'tuple': (0, 1), 'set': (0, 1),
    'dict': (0, 1), 'frozenset': (0, 1), 'iter': (1, 2), 'next': (1, 2),
    'filter': (2, 2), 'getattr': (2, 3), 'setattr': (3, 3),
    'hasattr': (2, 2), 'bool': (0, 1), 'repr': (1, 1), 'callable': (1, 1),
    'abs': (1, 1), 'ord': (1, 1), 'chr': (1, 1),
}

UNROLL = 12

TYPE_NAMES = {'str', 'int', 'bool', 'list', 'tuple', 'dict', 'set', 'float',
              'frozenset', 'object', 'type'}

LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'add', 'update', 'discard', 'setdefault', 'popleft',
            'appendleft', 'popitem', 'difference_update',
            'intersection_update'}


class BadCall(Unsupported):
    """The arguments do not fit the parameters: a TypeError at run time."""


class Frame(object):
    def __init__(self, func, module, cls, parent=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.env = {}
        self.parent = parent       # lexical parent (closures)
        self.locals = set()
        self.dead = F
        self.ret = BOT
        self.loops = []
        self.yield_ref = None
        self.imports = {}
        self.nonlocal_names = set()
        self.depth = 0


class Loop(object):
    def __init__(self):
        self.brk = F
        self.cont = F


def neighbours(level, srcs):
    """zip(A, A[1:]), zip(A, A[1:] + [x]), zip(A, range(len(A))) are loops
    over A."""
    if len(srcs) != 2:
        return None
    a, b = srcs
    e, i = ('bv', level), ('pos', level)

    def loop(x, y, cond=T):
        return t.mkfor(level, a, select(cond, t.one(t.mkseq(
            'tuple', t.concat(t.one(x), t.one(y)))), ('pieces', ())))

    def rest(x):
        # A[1:]
        return x[0] == 'op' and x[1] == 'slice' and x[2] == (
            a, const(1), NONE, NONE)
    if a[0] in ('seq', 'const'):
        return None
    after = t.lin_add(i, const(1))
    more = t.cmp('<', after, t.length(a))
    if rest(b):
        return loop(e, t.idx(a, after), more)
    if b[0] == 'seq' and b[1] != 'set' and b[1] != 'dict':
        ps = b[2]
        if len(ps) == 2 and ps[0][0] == 'splice' and rest(ps[0][1]) and \
                ps[1][0] == 'one':
            return loop(e, select(more, t.idx(a, after), ps[1][1]))
        if len(ps) == 1 and ps[0][0] == 'for' and ps[0][2] == a and \
                ps[0][1] == level and ps[0][3][0] == 'pieces' and \
                len(ps[0][3][1]) == 1 and ps[0][3][1][0][0] == 'one':
            # the same number of elements
            return loop(e, ps[0][3][1][0][1])
    return None


class Evaluator(object):
    def __init__(self, program, types=None, opaque=(), fields=None,
                 returns=None, contract=None):
        self.p = program
        self.types = {} if types is None else types          # term -> type
        self.opaque = {x.lstrip('!') for x in opaque}
        self.hits = set()         # those that were called
        self.data = set()         # (class, name): set on the instance or class
        self.effectful = {x[1:] for x in opaque if x.startswith('!')}
        self.field_types = fields or {}
        self.return_types = returns or {}
        self.contract = contract
        self.store = {}
        self.exc = NONE
        self.guard = T
        self.frames = []
        self.stack = []
        self.recursed = set()     # calls left as they are
        self.depth = 0
        self.bvtypes = {}
        self.bvsource = {}
        self.allocs = {}
        self.next_alloc = 0
        self.closures = {}
        self.next_clos = 0
        self.writes = None
        self.notes = set()
        self.inline_eq = False
        self.keep_ids = True
        self.mark = 0
        self.seen_bv = None
        self.inlined = set()
        self.assumed = set()      # functions taken for what they were
        self.lvtypes = {}
        self.steps = 0
        self.live = False
        self.follow = False
        t.H.typeof = self.typeof
        t.H.is_optional_object = self.is_optional_object
        t.H.isinst = self.isinst_leaf
        t.H.keyed = self.is_keyed
        t.H.source = self.loop_source
        t.H.present = self.is_present
        t.H.static = self.static_value
        t.H.method = self.is_method
        t.H.registry = self.is_registry
        t.H.least = self.least
        t.H.function = self.is_function
        t.H.sets = set()
        self.keyed = set()
        t.reset_budget()

    # ------------------------------------------------------------ types

    def typeof(self, x):
        r = self.types.get(x)
        if r is not None:
            return r
        tag = x[0]
        if tag == 'const':
            return {'int': 'int', 'str': 'str', 'bool': 'bool'}.get(x[1])
        if tag == 'ref':
            return self.allocs[x[1]]['type']
        if tag == 'new':
            return ('cls', x[1], True)
        if tag == 'str':
            return 'str'
        if tag == 'lin' or tag == 'len':
            return 'int'
        if tag == 'seq':
            return ('list', None)
        if tag == 'bv':
            return self.bvtypes.get(x[1])
        if tag == 'pos':
            return 'int'
        if tag == 'lv':
            return self.lvtypes.get(x)
        if tag == 'attr':
            base = self.typeof(x[1])
            if isinstance(base, tuple) and base[0] == 'opt':
                base = base[1]
            if isinstance(base, tuple) and base[0] == 'cls':
                cls = self.p.classes.get(base[1])
                if cls:
                    for c in cls.mro:
                        r = self.field_types.get((c.name, x[2]))
                        if r is not None:
                            return self.resolve_type(r)
            r = self.field_types.get(('*', x[2]))
            return self.resolve_type(r) if r is not None else None
        if tag == 'idx':
            base = self.typeof(x[1])
            if isinstance(base, tuple) and base[0] in ('list', 'dict'):
                return base[1]
            return None
        if tag == 'content':
            return self.typeof(x[1])
        if tag == 'call':
            if x[1][0] == 'func':
                r = self.return_types.get(x[1][1].split(':')[-1])
                if r is not None:
                    return self.resolve_type(r)
            if x[1][0] == 'cls' and x[1][1] in self.p.classes:
                return ('cls', x[1][1], True)
            if x[1][0] == 'builtin' and x[1][1] in ('sorted', 'reversed',
                                                    'list', 'tuple'):
                return self.typeof(x[2][0])
            if x[1][0] == 'builtin' and x[1][1] in ('id', 'hash', 'len',
                                                    'sum', 'int'):
                return 'int'
            return None
        if tag == 'op' and x[1] == 'slice' and x[2][0][0] != 'op':
            ty = self.typeof(x[2][0])
            return ty if isinstance(ty, tuple) and ty[0] == 'list' else None
        if tag == 'mcall':
            r = self.return_types.get('.' + x[2])
            return self.resolve_type(r) if r is not None else None
        if tag in ('first', 'last'):
            ts = {self.typeof_at(v, x[1], x[2]) for v in leaves(x[4])
                  if v != BOT}
            if len(ts) == 1:
                return ts.pop()
            return None
        if tag == 'fold':
            return self.lvtypes.get(x[6])
        return None

    def typeof_at(self, v, level, src):
        saved = self.bvtypes.get(level)
        self.bvtypes[level] = self.elem_type(src)
        try:
            return self.typeof(v)
        finally:
            self.bvtypes[level] = saved

    def resolve_type(self, r):
        """'Name' -> ('cls', qual, False); '=Name' exact; ['Name'] list"""
        if isinstance(r, list):
            return ('list', self.resolve_type(r[0]) if r[0] else None)
        if isinstance(r, tuple):
            return r
        if r in ('int', 'str', 'bool', 'any'):
            return None if r == 'any' else r
        if r == 'int>0':
            return 'int'
        if r.startswith('{'):
            inner = r[1:-1]
            return ('dict', self.resolve_type(inner) if inner else None)
        if r.startswith('['):
            inner = r[1:-1]
            return ('list', self.resolve_type(inner) if inner else None)
        opt = r.startswith('?')
        if opt:
            r = r[1:]
        exact = r.startswith('=')
        if exact:
            r = r[1:]
        found = [c for c in self.p.classes.values()
                 if (c.qual == r or c.name == r)
                 and not c.qual.startswith('spec')]
        if len(found) > 1:
            # the grammar's classes, not the picture's ones
            found = [c for c in found if c.qual == r] or [
                c for c in found if not c.qual.startswith('yargy.dot:')
            ][:1] or found[:1]
        if not found:
            raise AnalysisError('type %s not found' % r)
        ty = ('cls', found[0].qual, exact)
        return ('opt', ty) if opt else ty

    def is_optional_object(self, x):
        ty = self.typeof(x)
        if isinstance(ty, tuple) and ty[0] == 'opt':
            ty = ty[1]
        return isinstance(ty, tuple) and ty[0] == 'cls' \
            and self.always_true(ty[1])

    def static_value(self, qual, name):
        """A constant of the class: the object has no such field."""
        cls = self.p.classes.get(qual)
        if cls is None:
            return None
        owner, entry = self.p.member(cls, name)
        if entry and entry[0] != 'func':
            v = self.class_expr(owner, entry[1], name)
            if v is not None and v[0] == 'const':
                return v
        return None

    def is_registry(self, x):
        info = self.class_of(x[1])
        return info is not None and self.p.registry(info[0], x[2])

    def is_method(self, name):
        return name in self.p.method_names()

    def is_present(self, x):
        """A declared field or member: never None."""
        if x[0] in ('bound', 'func', 'cls', 'new', 'ref', 'clos', 'lam',
                    'seq', 'str', 'lin', 'len'):
            return True
        if x[0] == 'idx' and x[1][0] == 'attr' and not t.levels(x) and \
                not t.lvs(x) and self.filled(x[1][2]):
            return True
        if x[0] in ('attr', 'idx', 'call', 'mcall') or \
                x[0] == 'par' and x[1].endswith(']'):
            if t.levels(x) or t.lvs(x):
                return False
            ty = self.typeof(x)
            return ty is not None and (
                not isinstance(ty, tuple) or ty[0] == 'cls')
        return False

    def least(self, x):
        types = {v for (c, n), v in self.field_types.items()
                 if n == x[2] and isinstance(v, str)}
        return 1 if types == {'int>0'} else None

    def is_function(self, x):
        """getattr(.., name, None) where only functions have such names."""
        if x[0] != 'call' or x[1] != ('builtin', 'getattr') or \
                len(x[2]) != 3 or x[2][2] != NONE:
            return False
        name = x[2][1]
        if name[0] == 'const' and name[1] == 'str':
            return self.p.only_functions(name[2], True)
        if name[0] == 'str' and name[1][0][0] == 'lit':
            return self.p.only_functions(name[1][0][1], False)
        return False

    def filled(self, name):
        """Every declared field of that name is a list of objects."""
        types = [v for (c, n), v in self.field_types.items() if n == name]
        return bool(types) and all(
            isinstance(v, list) and v[0] and v[0] != 'any' and
            not v[0].startswith('?') for v in types)

    def always_true(self, qual):
        """Objects of the class are true: only None is not."""
        cls = self.p.classes.get(qual)
        return cls is not None and not any(
            self.p.member(c, name)[1]
            for c in self.p.classes.values()
            if c is cls or cls in c.mro
            for name in ('__bool__', '__len__', '__nonzero__'))

    def elem_type(self, src):
        if src[0] == 'op' and src[1] == 'live':
            src = src[2][0]
        ty = self.typeof(src)
        if isinstance(ty, tuple) and ty[0] == 'list':
            return ty[1]
        return None

    def class_of(self, x):
        """(ClassInfo, exact) or None"""
        ty = self.typeof(x)
        if isinstance(ty, tuple) and ty[0] == 'opt':
            ty = ty[1]
        if isinstance(ty, tuple) and ty[0] == 'cls':
            cls = self.p.classes.get(ty[1])
            if cls:
                return cls, ty[2]
        return None

    def is_keyed(self, x):
        """No two equal elements when iterated: a dictionary."""
        ty = self.typeof(x)
        return x in self.keyed or isinstance(ty, tuple) and ty[0] == 'dict'

    def isinst_leaf(self, x, qual):
        if x == BOT:
            return BOT
        if qual in TYPE_NAMES:
            if qual == 'object':
                return T
            if x[0] == 'const':
                name = x[1]
                return T if (name == qual or (name == 'bool' and
                                              qual == 'int')) else F
            if x[0] == 'str':
                return T if qual == 'str' else F
            if x[0] in ('lin', 'len'):
                return T if qual == 'int' else F
            if x[0] == 'seq':
                k = {'list': 'list', 'tuple': 'tuple', 'set': 'set',
                     'dict': 'dict', 'gen': 'generator'}.get(x[1])
                return T if k == qual else F
            if x[0] == 'ref':
                info = self.allocs[x[1]]
                if info['kind'] == 'obj':
                    return F
                return T if info['kind'] == qual else F
            ty = self.typeof(x)
            if ty in ('int', 'str', 'bool'):
                return T if ty == qual else F
            if isinstance(ty, tuple) and ty[0] == 'cls':
                return F
            return t.atom(('isinst', x, qual))
        if x[0] in ('const', 'str', 'lin', 'seq', 'cls', 'func', 'lam',
                    'builtin', 'len', 'clos', 'bound'):
            return F
        if x[0] == 'ref' and self.allocs[x[1]]['kind'] != 'obj':
            return F
        target = self.p.classes.get(qual)
        ty = self.typeof(x)
        if isinstance(ty, tuple) and ty[0] == 'cls' and target:
            cls = self.p.classes.get(ty[1])
            if target in cls.mro:
                return T
            if ty[2]:
                return F
            common = [c for c in self.p.subclasses(cls) if target in c.mro]
            if not common:
                return F
        elif ty in ('int', 'str', 'bool'):
            return F
        elif isinstance(ty, tuple) and ty[0] == 'opt' and target:
            cls = self.p.classes.get(ty[1][1])
            if target in cls.mro:
                return t.truth(x)
        elif isinstance(ty, tuple) and ty[0] in ('list', 'dict') and target:
            return F
        return t.atom(('isinst', x, qual))

    # ------------------------------------------------------------ control

    @property
    def frame(self):
        return self.frames[-1]

    def active(self):
        f = self.frame
        a = self.guard
        if f.dead != F:
            a = band(a, bnot(f.dead))
        for loop in f.loops:
            if loop.brk != F:
                a = band(a, bnot(loop.brk))
            if loop.cont != F:
                a = band(a, bnot(loop.cont))
        if self.exc != NONE:
            a = band(a, self.no_exc())
        return a

    def no_exc(self):
        return apply(lambda x: T if x == NONE else F, self.exc)

    def raise_(self, name, guard=None):
        a = self.active() if guard is None else band(self.active(), guard)
        if a == F:
            return
        self.exc = select(a, ('exc', name), self.exc)

    def guarded(self, cond, fn):
        """Run fn under guard & cond; returns its value (BOT if skipped)."""
        if is_ite(cond):
            # undefined where the program point is not reached
            cond = apply(lambda x: F if x == BOT else x, cond)
        if cond in (F, BOT):
            return BOT
        saved = self.guard
        self.guard = band(saved, cond)
        try:
            if self.guard == F:
                return BOT
            return fn()
        finally:
            self.guard = saved

    def for_leaves(self, tree, fn):
        """Case split on the leaves of a tree, with gated effects."""
        if not is_ite(tree):
            return fn(tree)
        a = self.active()
        relevant = set()
        if a != T:
            live = apply(lambda c, x: x if c == T else BOT, a, tree)
            relevant = set(leaves(live))
        result = BOT
        done = set()
        for leaf in sorted(leaves(tree), key=repr):
            if leaf in done:
                continue
            done.add(leaf)
            if a != T and leaf not in relevant:
                continue
            g = apply(lambda x: T if x == leaf else F, tree)
            v = self.guarded(g, lambda: fn(leaf))
            result = select(g, v, result)
        return result

    # ------------------------------------------------------------ store

    def alloc(self, kind, type_=None, content=None):
        self.next_alloc += 1
        ref = ('ref', self.next_alloc)
        self.allocs[self.next_alloc] = {'kind': kind, 'type': type_}
        if content is not None:
            self.store[('content', ref)] = content
        return ref

    def new_seq(self, kind, pieces, elem=None):
        ty = ('list', elem) if kind != 'dict' else ('dict', elem)
        return self.alloc(kind, ty, t.mkseq(kind, pieces))

    def read(self, loc):
        v = self.store.get(loc)
        if v is not None:
            return v
        if loc[0] == 'attr':
            return ('attr', loc[1], loc[2])
        return loc[1]

    def write(self, loc, value):
        a = self.active()
        if a == F:
            return
        old = self.store.get(loc)
        if a == T:
            new = value
        else:
            if old is None:
                old = self.default(loc)
            new = select(a, value, old)
        if self.writes is not None:
            self.writes.add(('store', loc))
        self.store[loc] = new

    def default(self, loc):
        base = loc[1]
        if base[0] == 'par' and base[1].startswith('calls of '):
            return t.mkseq('list', ('pieces', ()))
        if base[0] == 'ref':
            return BOT
        return self.read(loc)

    def content(self, leaf):
        """The sequence value of a container leaf."""
        if leaf[0] == 'ref':
            v = self.store.get(('content', leaf))
            return v if v is not None else leaf
        v = self.store.get(('content', leaf))
        return v if v is not None else leaf

    def deref(self, tree):
        """Replace container refs by their contents (one level)."""
        def go(x):
            if x[0] == 'ref':
                if self.allocs[x[1]]['kind'] != 'obj':
                    return self.content(x)
                return x
            return self.content(x)
        return apply(go, tree)

    def deref_all(self, tree):
        return tree

    def freeze(self, tree, stack=(), mark=None):
        """Replace refs by the values they hold now (only the refs
        allocated after mark, if given)."""
        memo = {}
        mark = self.mark if mark is None else mark

        def f(x):
            if x[0] == 'ref':
                if x[1] <= mark:
                    return x
                return self.freeze_ref(x, stack, mark)
            if x[0] == 'clos':
                return self.freeze_closure(x)
            if self.keep_ids and t.is_idcall(x) and x[2][0][0] == 'ref':
                # an address is not a value
                return x
            if x[0] == 'bound':
                if x[1][0] != 'ref':
                    return None
                return ('bound', self.freeze(x[1], stack, mark), x[2])
            if x[0] in ('content',):
                return None
            if not has_ref(x):
                return x
            return None
        return t.rebuild(tree, f, memo)

    def freeze_ref(self, ref, stack, mark=0):
        if ref in stack:
            return ('back', len(stack) - stack.index(ref))
        stack = stack + (ref,)
        info = self.allocs[ref[1]]
        if info['kind'] == 'obj':
            fields = []
            for loc in sorted((l for l in self.store
                               if l[0] == 'attr' and l[1] == ref),
                              key=repr):
                fields.append((loc[2], self.freeze(self.store[loc], stack,
                                                   mark)))
            return t.new(info['type'][1], fields)
        v = self.store.get(('content', ref))
        if v is None:
            return BOT
        return self.freeze(v, stack, mark)

    def freeze_closure(self, clos):
        info = self.closures[clos[1]]
        node = info['node']
        args = node.args
        n = len(args.args)
        if args.vararg or args.kwarg or args.kwonlyargs or n == 0 or n > 3:
            self.notes.add('closure')
            return ('unk', 'closure')
        level = self.depth
        saved = self.save()
        try:
            self.depth += n
            params = [('bv', level + i) for i in range(n)]
            for i in range(n):
                self.bvtypes.pop(level + i, None)
            v = self.call_closure(clos, params, {})
            v = self.freeze(v)
        finally:
            self.restore(saved)
        return ('lam', level, n, v)

    def save(self):
        return (dict(self.store), self.exc, self.guard, self.depth,
                [dict(f.env) for f in self.frames],
                [(f.dead, f.ret, [(l.brk, l.cont) for l in f.loops])
                 for f in self.frames], dict(self.bvtypes),
                dict(self.bvsource))

    def restore(self, saved):
        (self.store, self.exc, self.guard, self.depth, envs, ctl,
         self.bvtypes, self.bvsource) = (
            dict(saved[0]), saved[1], saved[2], saved[3], saved[4], saved[5],
            dict(saved[6]), dict(saved[7]))
        for f, env, (dead, ret, loops) in zip(self.frames, envs, ctl):
            f.env = dict(env)
            f.dead, f.ret = dead, ret
            for l, (b, c) in zip(f.loops, loops):
                l.brk, l.cont = b, c

    # ------------------------------------------------------------ names

    def lookup(self, name, node=None):
        frame = self.frame
        f = frame
        while f is not None:
            if name in f.env:
                return f.env[name]
            if name in f.imports:
                return self.entry(f.imports[name], f.module, name)
            f = f.parent
        entry = self.p.lookup(frame.module, name)
        if entry:
            return self.entry(entry, frame.module, name)
        if name in BUILTINS:
            return ('builtin', name)
        own = []
        f = frame
        while f is not None:
            own.append(f.func.node if f.func else frame.module.tree)
            f = f.parent
        if name in ALL_BUILTINS or \
                self.p.may_bind(frame.module, name, own):
            raise Unsupported('name %s' % name)
        self.raise_('NameError')
        return BOT

    def entry(self, entry, module, name):
        kind = entry[0]
        if kind == 'from':
            e = self.p.lookup_from(entry[1], entry[2])
            if not e:
                raise Unsupported('import %s.%s' % entry[1:])
            return self.entry(e, module, name)
        if kind == 'cls':
            return ('cls', entry[1].qual)
        if kind == 'func':
            return ('func', entry[1].qual)
        if kind == 'ext':
            return ('ext', entry[1])
        if kind == 'mod':
            return ('mod', entry[1].name)
        if kind == 'expr':
            node, mod, nm = entry[1], entry[2], entry[3]
            try:
                value = ast.literal_eval(node)
                if isinstance(value, (str, int, bool, type(None), float)):
                    return const(value)
            except (ValueError, SyntaxError):
                pass
            if isinstance(node, ast.Lambda):
                return self.make_closure(node, None, mod, None)
            if isinstance(node, ast.BinOp):
                v = self.const_expr(node, mod)
                if v is not None:
                    return v
            if is_literal(node) and self.p.is_table(mod, nm):
                frames = self.frames
                self.frames = [Frame(None, mod, None)]
                try:
                    return self.expr(node)
                finally:
                    self.frames = frames
            return ('gvar', mod.name + ':' + nm)
        raise Unsupported('entry %r' % (entry,))

    def const_expr(self, node, mod):
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, ast.Name):
            e = self.p.lookup(mod, node.id)
            if e and e[0] == 'expr':
                v = self.entry(e, mod, node.id)
                return v if v[0] == 'const' else None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a = self.const_expr(node.left, mod)
            b = self.const_expr(node.right, mod)
            if a and b:
                try:
                    return const(a[2] + b[2])
                except TypeError:
                    return None
        return None

    def assign_name(self, name, value):
        f = self.frame
        if name in f.nonlocal_names:
            g = f.parent
            while g is not None and name not in g.env:
                g = g.parent
            if g is None:
                raise Unsupported('nonlocal %s' % name)
            target = g
        else:
            target = f
        a = self.active()
        if a == F:
            return
        if a == T:
            new = value
        else:
            old = target.env.get(name, BOT)
            if old == BOT and self.depth == target.depth:
                new = value
            else:
                new = select(a, value, old)
        if self.writes is not None:
            self.writes.add(('env', id(target), name))
        target.env[name] = new

    # ------------------------------------------------------------ statements

    def block(self, stmts):
        for stmt in stmts:
            if self.active() == F:
                return
            self.steps += 1
            if self.steps > 60000:
                raise Unsupported('too many steps')
            self.stmt(stmt)

    def stmt(self, s):
        m = getattr(self, 'stmt_' + type(s).__name__, None)
        if not m:
            raise Unsupported('%s at line %s' % (type(s).__name__, s.lineno))
        m(s)

    def stmt_Pass(self, s):
        pass

    def stmt_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value)

    def stmt_Import(self, s):
        for alias in s.names:
            self.frame.imports[alias.asname or alias.name.split('.')[0]] = (
                'ext', alias.name)

    def stmt_ImportFrom(self, s):
        names, star = {}, []
        self.p.collect_from(self.frame.module, s, names, star)
        self.frame.imports.update(names)
        for name in names:
            # the import rebinds the local name
            if self.active() == T:
                self.frame.env.pop(name, None)
            elif name in self.frame.env:
                self.assign_name(name, self.entry(
                    names[name], self.frame.module, name))

    def stmt_FunctionDef(self, s):
        value = self.make_closure(s, self.frame, self.frame.module,
                                  self.frame.cls)
        for dec in reversed(s.decorator_list):
            d = self.expr(dec)
            value = self.decorate(d, value)
        self.assign_name(s.name, value)

    def decorate(self, d, value):
        if d[0] == 'call' and d[1] == ('ext', 'functools.wraps'):
            return value
        if d == ('ext', 'functools.wraps'):
            return value
        if d == ('ext', 'functools.lru_cache') or (
                d[0] == 'call' and d[1] == ('ext', 'functools.lru_cache')):
            # transparent for the value
            return value
        if d[0] in ('ext', 'call'):
            raise Unsupported('decorator %s' % t.show(d))
        return self.call(d, [value], {})

    def stmt_Nonlocal(self, s):
        self.frame.nonlocal_names.update(s.names)

    def stmt_Return(self, s):
        value = self.expr(s.value) if s.value is not None else NONE
        a = self.active()
        f = self.frame
        f.ret = select(a, value, f.ret)
        f.dead = bor(f.dead, a)

    def stmt_Assign(self, s):
        value = self.one_shot(self.expr(s.value))
        for target in s.targets:
            self.assign(target, value)

    def one_shot(self, value):
        """A bound iterator keeps the record of what was taken from it."""
        if is_ite(value) or value[0] != 'seq' or value[1] != 'gen' or \
                self.depth:
            return value
        return self.alloc('gen', ('list', None), value)

    def consume(self, ref, partial=False):
        """Everything (or an unknown part) was taken from an iterator."""
        if self.allocs[ref[1]]['kind'] == 'gen' and not self.depth:
            self.write(('content', ref), ('unk', 'rest of an iterator')
                       if partial else ('seq', 'gen', ()))

    def stmt_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.one_shot(self.expr(s.value)))

    def stmt_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        old = self.expr(load)
        value = self.expr(s.value)
        opname = BINOPS.get(type(s.op))
        if not opname:
            raise Unsupported('augassign')
        if opname in ('+', '|') and old != BOT and all(
                self.changed_in_place(x, value) for x in leaves(old)
                if x != BOT):
            self.for_leaves(old, lambda x: self.extend(x, value))
            # the name, attribute or item still refers to it
            return
        if opname in ('+', '|') and any(
                self.changed_in_place(x, value) for x in leaves(old)
                if x != BOT):
            raise Unsupported('augmented assignment of something')
        self.assign(s.target, self.binop(opname, old, value))

    def changed_in_place(self, x, value):
        """Does x += value change the object x?"""
        if x[0] == 'ref':
            return self.allocs[x[1]]['kind'] in ('list', 'set', 'dict')
        if x[0] in ('par', 'attr', 'idx', 'bv', 'call', 'mcall', 'lv'):
            ty = self.typeof(x)
            if isinstance(ty, tuple):
                return ty[0] in ('list', 'dict')
            if ty is None:
                return any(y[0] == 'seq' and y[1] in ('list', 'gen', 'set')
                           or y[0] == 'ref' and self.allocs[y[1]]['kind'] in (
                               'list', 'gen', 'set')
                           for y in leaves(value))
        return False

    def assign(self, target, value):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, value)
        elif isinstance(target, ast.Attribute):
            obj = self.expr(target.value)
            self.set_attr(obj, target.attr, value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                raise Unsupported('starred target')
            items = self.unpack(value, len(target.elts))
            for e, v in zip(target.elts, items):
                self.assign(e, v)
        elif isinstance(target, ast.Subscript):
            obj = self.expr(target.value)
            if isinstance(target.slice, ast.Slice):
                s = target.slice
                if s.step is not None:
                    raise Unsupported('slice assignment')
                lo = self.expr(s.lower) if s.lower else NONE
                hi = self.expr(s.upper) if s.upper else NONE
                self.for_leaves(
                    obj, lambda o: self.set_slice(o, lo, hi, value))
                return
            k = self.expr(target.slice)
            self.for_leaves(obj, lambda o: self.set_item(o, k, value))
        else:
            raise Unsupported('target')

    def set_attr(self, obj, name, value):
        def go(leaf):
            self.write(('attr', leaf, name), value)
            return NONE
        self.for_leaves(obj, go)

    def set_item(self, leaf, k, value):
        k = self.freeze(k)
        loc = ('content', leaf)
        cur = self.content(leaf)
        if cur == ('seq', 'ddict', ()) and leaf[0] == 'ref' and \
                not is_ite(k) and (k[0] == 'const' or t.is_idcall(k) and
                                   k[2][0][0] in ('ref', 'par')):
            # an ordinary dictionary of lists so far
            cur = ('seq', 'dict', ())
        if not (leaf[0] == 'ref'):
            value_ = self.freeze(value)
        else:
            value_ = value

        def go(c, k):
            if c[0] == 'seq' and c[1] == 'dict':
                i = self.known_entry(c, k)
                if i is not None and i >= 0:
                    ps = list(c[2])
                    return apply(lambda v: ('seq', 'dict', tuple(
                        ps[:i] + [('one', ('pair', ps[i][1][1], v))]
                        + ps[i + 1:])), value_)
                pieces = ('pieces', c[2])
            elif c[0] == 'seq':
                if k[0] == 'const' and isinstance(k[2], int) and all(
                        p[0] == 'one' for p in c[2]) \
                        and -len(c[2]) <= k[2] < len(c[2]):
                    ps = list(c[2])
                    return apply(lambda v: ('seq', c[1], tuple(
                        ps[:k[2] % len(ps)] + [('one', v)]
                        + ps[k[2] % len(ps) + 1:])), value_)
                return t.op('setitem', c, k, value_)
            elif isinstance(self.typeof(leaf), tuple) and self.typeof(
                    leaf)[0] == 'list':
                return t.op('setitem', c, k, value_)
            else:
                pieces = ('pieces', (('splice', c),))
            return t.mkseq('dict', t.concat(pieces,
                                            t.one(t.pair(k, value_))))
        if cur[0] == 'seq' and cur[1] == 'list' and k[0] == 'const' and \
                isinstance(k[2], int) and all(
                    p[0] == 'one' for p in cur[2]) and not \
                -len(cur[2]) <= k[2] < len(cur[2]):
            self.raise_('IndexError')
        self.write(loc, apply(go, cur, k))
        return NONE

    def set_slice(self, leaf, lo, hi, value):
        """x[lo:hi] = value"""
        pieces = self.iter_pieces(value)
        if leaf[0] != 'ref':
            pieces = self.freeze(pieces)
        if not self.is_container(leaf):
            raise Unsupported('slice assignment')

        def part(lo, hi):
            r = self.deref(self.slice(leaf, lo, hi, NONE))
            return t.splice(r)
        empty = ('pieces', ())
        head = empty if lo in (NONE, const(0)) else part(NONE, lo)
        if hi == NONE:
            tail = empty
        elif hi == const(0) and lo in (NONE, const(0)):
            tail = part(NONE, NONE)
        else:
            tail = part(hi, NONE)
        kind = self.allocs[leaf[1]]['kind'] if leaf[0] == 'ref' else 'list'
        self.write(('content', leaf), t.mkseq(
            kind, t.concat(head, pieces, tail)))
        return NONE

    def unpack(self, value, n):
        """Trees of the n components."""
        def comp(leaf, i):
            if leaf == BOT:
                return BOT
            leaf = self.content(leaf) if leaf[0] == 'ref' and \
                self.allocs[leaf[1]]['kind'] != 'obj' else leaf
            if is_ite(leaf):
                return apply(lambda x: comp(x, i), leaf)
            if leaf[0] == 'seq':
                ps = leaf[2]
                if all(p[0] == 'one' for p in ps) and len(ps) == n:
                    return ps[i][1]
                if len(ps) == 1 and ps[0][0] == 'splice':
                    return comp(ps[0][1], i)
                return t.idx(self.freeze(leaf), const(i))
            info = self.class_of(leaf)
            if info:
                names = self.record_attributes(*info)
                if names and len(names) == n:
                    return self.get_attr_leaf(leaf, names[i])
            return t.idx(self.freeze(leaf), const(i))
        return [apply(lambda x, i=i: comp(x, i), value) for i in range(n)]

    def record_attributes(self, cls, exact):
        owner, entry = self.p.member(cls, '__attributes__')
        it_owner, it_entry = self.p.member(cls, '__iter__')
        if not entry or entry[0] != 'expr':
            return None
        if it_owner is None or it_owner.name != 'Record':
            return None
        try:
            names = list(ast.literal_eval(entry[1]))
        except ValueError:
            return None
        if not exact and any(
                self.p.member(c, '__attributes__')[1] != entry and
                ast.dump(self.p.member(c, '__attributes__')[1][1]) !=
                ast.dump(entry[1]) for c in self.concrete(cls)):
            # depends on the class of the object
            return None
        return names

    def stmt_If(self, s):
        cond = self.truth(self.expr(s.test))
        self.guarded(cond, lambda: self.block(s.body))
        if s.orelse:
            self.guarded(bnot(cond), lambda: self.block(s.orelse))

    def stmt_Raise(self, s):
        if s.exc is None:
            self.raise_('reraise')
            return
        node = s.exc
        if isinstance(node, ast.Call):
            node = node.func        # the message is not compared
        value = None
        if node is not s.exc:
            self.message(s.exc)
        if isinstance(node, ast.Name):
            v = self.lookup(node.id)
            if v[0] in ('builtin', 'cls', 'ext'):
                value = v
        if value is None:
            value = self.expr(s.exc)
        cond = self.active()
        if is_ite(value):
            self.exc = select(cond, apply(
                lambda x: BOT if x == BOT else ('exc', self.exc_name(x)),
                value), self.exc)
        else:
            self.raise_(self.exc_name(value))

    def message(self, call):
        """Arguments of an exception: only whether they can be computed."""
        saved = self.save()
        before = self.exc
        try:
            for a in call.args:
                self.expr(a)
            exc = self.exc
        except (Unsupported, t.TooBig):
            exc = before
        self.restore(saved)
        self.exc = exc

    def exc_name(self, x):
        """The kind of a raised object; a class derived from a built-in
        exception counts as that exception."""
        if x[0] == 'call':
            x = x[1]
        if x[0] == 'builtin' and x[1][:1].isupper():
            return x[1]
        if x[0] == 'ext':
            return x[1].split('.')[-1]
        if x[0] == 'cls':
            for cls in self.p.classes[x[1]].mro:
                for b in cls.bases:
                    if not isinstance(b, ClassInfo):
                        return b[1].split('.')[-1]
        raise Unsupported('raise of %s' % t.show(x)[:40])

    def stmt_Assert(self, s):
        cond = self.truth(self.expr(s.test))
        self.raise_('AssertionError', bnot(cond))

    def stmt_Break(self, s):
        loop = self.frame.loops[-1]
        a = self.active()
        loop.brk = bor(loop.brk, a)

    def stmt_Continue(self, s):
        loop = self.frame.loops[-1]
        a = self.active()
        loop.cont = bor(loop.cont, a)

    def stmt_Delete(self, s):
        for target in s.targets:
            if isinstance(target, ast.Name):
                continue
            raise Unsupported('del')

    def stmt_Global(self, s):
        raise Unsupported('global')

    def stmt_For(self, s):
        source = self.expr(s.iter)
        loop = Loop()
        self.frame.loops.append(loop)

        def body(value):
            self.assign(s.target, value)
            self.block(s.body)
            loop.cont = F
        saved = self.live
        self.live = self.follow and not any(
            (x[0] == 'ref' and self.allocs[x[1]]['kind'] in (
                'list', 'tuple', 'set', 'dict'))
            or (x[0] == 'seq' and x[1] in ('list', 'tuple', 'set', 'dict'))
            for x in leaves(source))
        try:
            self.iterate(source, body, leaves_early(s))
        finally:
            self.live = saved
            self.frame.loops.pop()
        if s.orelse:
            self.guarded(bnot(loop.brk), lambda: self.block(s.orelse))

    def stmt_While(self, s):
        loop = Loop()
        self.frame.loops.append(loop)
        try:
            self.while_loop(s, loop)
        finally:
            self.frame.loops.pop()
        if s.orelse:
            self.guarded(bnot(loop.brk), lambda: self.block(s.orelse))

    def stmt_Try(self, s):
        # try/finally without handlers behaves as a block here
        if s.handlers:
            raise Unsupported('try/except')
        self.block(s.body)
        self.block(s.finalbody)

    # ------------------------------------------------------------ iteration

    def iterate(self, source, body, partial=False):
        """Run body for each element of source (break/continue are handled
        by the enclosing Loop record)."""
        pieces = self.iter_pieces(source, partial)
        self.run_pieces_tree(pieces, body)

    def run_pieces_tree(self, tree, body):
        self.for_leaves(tree, lambda p: self.run_pieces(p[1], body)
                        if p != BOT else NONE)

    def run_pieces(self, pieces, body):
        for p in pieces:
            if self.active() == F:
                return NONE
            if p[0] == 'one':
                self.reset_continue()
                body(p[1])
                self.reset_continue()
            elif p[0] == 'splice':
                level = self.depth
                src = p[1]
                self.opaque_loop(src, lambda: body(('bv', level)))
            else:
                _, l0, src, tree = p
                level = self.depth
                shifted = t.shift(tree, l0, level - l0)
                self.opaque_loop(
                    src, lambda: self.run_pieces_tree(shifted, body))
        return NONE

    def reset_continue(self):
        if self.frame.loops:
            self.frame.loops[-1].cont = F

    def iter_pieces(self, source, partial=False):
        """Tree of ('pieces', ...) for iterating over source."""
        def go(leaf):
            if leaf == BOT:
                return BOT
            if leaf[0] == 'ref':
                kind = self.allocs[leaf[1]]['kind']
                if kind == 'obj':
                    return self.iter_object(leaf)
                c = self.content(leaf)
                self.consume(leaf, partial)
                return apply(lambda x: pieces_of(x), c)
            c = self.content(leaf)
            if c != leaf:
                return apply(lambda x: pieces_of(x), c)
            return pieces_of(leaf)

        def pieces_of(c):
            if c == BOT:
                return BOT
            if c[0] == 'seq':
                if c[1] == 'dict':
                    if not t.distinct('dict', c[2]):
                        return t.splice(('op', 'keys', (self.freeze(c),)))
                    return dict_keys(c)
                if c[1] == 'ddict':
                    return t.splice(('op', 'keys', (self.freeze(c),)))
                if c[1] in ('set', 'frozenset') and (
                        len(c[2]) > 1 or c[2] and c[2][0][0] != 'one'):
                    return t.splice(t.unordered(c))
                return ('pieces', c[2])
            if c[0] == 'const' and c[1] == 'str':
                return ('pieces', tuple(('one', const(ch)) for ch in c[2]))
            if c[0] == 'call' and c[1] == ('builtin', 'range') and \
                    len(c[2]) == 1 and c[2][0][0] == 'const' and \
                    c[2][0][2] <= 8:
                return ('pieces', tuple(('one', const(i))
                                        for i in range(c[2][0][2])))
            if c[0] == 'attr' and c[2] == '__mro__' and c[1][0] == 'cls':
                cls = self.p.classes[c[1][1]]
                return ('pieces', tuple(
                    [('one', ('cls', k.qual)) for k in cls.mro]
                    + [('one', ('builtin', 'object'))]))
            info = self.class_of(c)
            if info:
                return self.iter_object(c)
            return t.splice(c)
        return self.for_leaves(source, go) if is_ite(source) else go(source)

    def iter_object(self, leaf):
        info = self.class_of(leaf)
        cls, exact = info
        func = self.virtual(leaf, '__iter__')
        if func is None:
            return t.splice(self.freeze(leaf))
        if func.cls.name == 'Record':
            names = self.record_attributes(cls, exact)
            if names is not None:
                return t.concat(*(
                    [('pieces', ())]
                    + [t.one(self.get_attr_leaf(leaf, n)) for n in names]))
        value = self.call_func(func, [leaf], {})
        if any(x[0] == 'seq' and x[1] != 'gen' or x[0] == 'ref' and
               self.allocs[x[1]]['kind'] != 'gen' for x in leaves(value)):
            self.live = False
        return self.iter_pieces(value)

    def opaque_loop(self, src, run):
        """One symbolic iteration over an unknown sequence."""
        frame = self.frame
        src = self.freeze(src)
        if is_ite(src):
            return self.for_leaves(src, lambda s: self.opaque_loop(s, run))
        if src == BOT:
            return NONE
        level = self.depth
        loop = frame.loops[-1] if frame.loops else None
        written = set()
        entry = self.save()
        entry_mark = self.next_alloc
        saved_writes = self.writes

        live, self.live = self.live, False
        forced = self.forced(self.active())

        def once(placeholders):
            self.restore(entry)
            self.writes = set()
            self.depth = level + 1
            self.bvtypes[level] = self.elem_type(src)
            self.bvsource[level] = src
            for w, ph in placeholders.items():
                self.put(w, ph)
            # inside the loop everything is relative to one iteration
            self.guard = T
            outer = (frame.dead, frame.ret, self.exc,
                     [(l.brk, l.cont) for l in frame.loops])
            frame.dead, frame.ret, self.exc = F, BOT, NONE
            for l in frame.loops:
                l.brk, l.cont = F, F
            run()
            got = self.writes
            self.writes = None
            nexts = {}

            def under(x):
                for a, v in forced:
                    x = t.cof(x, a, v)
                return x
            for w in got:
                v = self.get(w)
                nexts[w] = self.freeze_local(under(v), entry_mark)
            ctl = {
                'dead': under(frame.dead),
                'ret': self.freeze_local(under(frame.ret), entry_mark),
                'exc': under(self.exc),
                'brk': [under(l.brk) for l in frame.loops],
            }
            return got, nexts, ctl

        inits = {}
        seen = {}
        for attempt in range(6):
            placeholders = {}
            for i, w in enumerate(sorted(written, key=repr)):
                self.restore(entry)
                init = self.here(self.get(w))
                inits[w] = init
                if init == BOT:
                    continue
                lv = ('lv', (level, i, 'raw'))
                self.lvtypes[lv] = self.carried_type(init, seen.get(w), level)
                placeholders[w] = self.placeholder(w, init, lv)
            got, nexts, ctl = once(placeholders)
            seen = nexts
            self.seen_bv = self.bvtypes.get(level)
            local = {w for w in got if self.is_local(w, entry)}
            got = got - local
            if got <= written:
                break
            extra = got - written
            written |= got
        else:
            raise Unsupported('loop does not stabilise: %r' % (
                sorted(extra, key=repr)[:3],))
        self.restore(entry)
        self.writes = saved_writes
        if live and any(w[0] == 'store' and w[1][1][0] == 'par' and
                        w[1][1][1].startswith('calls of ') for w in written):
            # the collection may grow while it is visited
            if src[0] == 'attr':
                src = ('op', 'live', (src,))
        self.live = live
        self.finish_loop('for', src, level, written, inits, placeholders,
                         nexts, ctl, T)
        return NONE

    def forced(self, a):
        """Conditions known at this point."""
        r = []
        for x in t.atoms(a):
            for v in (True, False):
                if t.cof(a, x, v) == F:
                    r.append((x, not v))
        return sorted(r, key=repr)

    def here(self, tree):
        """The value at this point, if the guard leaves only one."""
        if not is_ite(tree):
            return tree
        a = self.active()
        if a in (T, F):
            return tree
        live = set(leaves(apply(lambda c, x: x if c == T else BOT, a, tree)))
        live.discard(BOT)
        return live.pop() if len(live) == 1 else tree

    def carried_type(self, init, nxt, level):
        """Type of a loop-carried value from its initial and next values."""
        if nxt is not None and self.seen_bv is not None:
            saved = self.bvtypes.get(level)
            self.bvtypes[level] = self.seen_bv
            try:
                return self.carried_type_(init, nxt)
            finally:
                self.bvtypes[level] = saved
        return self.carried_type_(init, nxt)

    def carried_type_(self, init, nxt):
        a = self.type_of_tree(init)
        if nxt is None:
            return a
        none = any(x == NONE for x in list(leaves(init)) + list(leaves(nxt)))
        ts = set()
        for x in list(leaves(init)) + list(leaves(nxt)):
            if x in (BOT, NONE) or x[0] == 'lv':
                continue
            ty = self.typeof(x)
            if isinstance(ty, tuple) and ty[0] == 'opt':
                none = True
                ty = ty[1]
            ts.add(ty)
        if len(ts) != 1:
            return None
        ty = ts.pop()
        if none:
            return ('opt', ty) if isinstance(ty, tuple) and \
                ty[0] == 'cls' else None
        return ty

    def type_of_tree(self, tree):
        ts = set()
        for x in leaves(tree):
            if x in (BOT, NONE):
                continue
            ts.add(self.typeof(x))
        if len(ts) == 1:
            return ts.pop()
        return None

    def is_local(self, w, entry):
        """Location of an object allocated inside the iteration."""
        if w[0] == 'env':
            return w[1] not in self.live_frames()
        if w[0] == 'store':
            base = w[1][1]
            if base[0] == 'ref':
                return not any(l[1] == base for l in entry[0]) \
                    and base[1] not in self.known_refs(entry)
            return False
        return False

    def live_frames(self):
        ids = set()
        for f in self.frames:
            while f is not None:
                ids.add(id(f))
                f = f.parent
        return ids

    def known_refs(self, entry):
        return entry_allocs(entry)

    def placeholder(self, w, init, lv):
        """Symbolic value of a loop-carried location."""
        if w[0] == 'store' and w[1][1][0] == 'par' and \
                w[1][1][1].startswith('calls of ') and init[0] == 'par':
            return ('seq', 'list', (('splice', lv),))
        if w[0] == 'store' and w[1][0] == 'content':
            kinds = {x[1] for x in leaves(init) if x[0] == 'seq'}
            if len(kinds) == 1 and all(x[0] == 'seq' for x in leaves(init)):
                return ('seq', kinds.pop(), (('splice', lv),))
            if not kinds:
                return lv
            return lv
        return lv

    def get(self, w):
        if w[0] == 'store':
            v = self.store.get(w[1])
            return v if v is not None else self.default(w[1])
        for f in self.frames:
            if id(f) == w[1]:
                return f.env.get(w[2], BOT)
        g = self.frame
        while g is not None:
            if id(g) == w[1]:
                return g.env.get(w[2], BOT)
            g = g.parent
        return BOT

    def put(self, w, v):
        if w[0] == 'store':
            self.store[w[1]] = v
            return
        for f in self.frames:
            if id(f) == w[1]:
                f.env[w[2]] = v
                return
        g = self.frame
        while g is not None:
            if id(g) == w[1]:
                g.env[w[2]] = v
                return
            g = g.parent

    def freeze_local(self, v, mark):
        """Freeze refs allocated inside the iteration."""
        return self.freeze(v, (), mark)

    def gate_put(self, w, v):
        """Assign at the current program point, gated."""
        a = self.active()
        if a == F:
            return
        old = self.get(w)
        if old == BOT and w[0] == 'env':
            new = select(a, v, BOT) if a != T else v
        else:
            new = v if a == T else select(a, v, old)
        if self.writes is not None:
            self.writes.add(w)
        self.put(w, new)

    def finish_loop(self, kind, src, level, written, inits, placeholders,
                    nexts, ctl, running):
        frame = self.frame
        # refs allocated before the loop stay, newer ones are frozen
        limit = self.alloc_limit
        ws = sorted(written, key=repr)
        lv_of = {}
        for i, w in enumerate(ws):
            lv_of[w] = ('lv', (level, i, 'raw'))
        nexts = {w: nexts.get(w, placeholders.get(w, BOT)) for w in ws}

        exits = ctl['dead']
        for b in ctl['brk']:
            exits = bor(exits, b)
        raises = apply(lambda x: F if x == NONE else T, ctl['exc'])

        # unchanged locations
        changed = True
        unchanged = {}
        pending = list(ws)
        while changed:
            changed = False
            for w in list(pending):
                if w in placeholders and nexts[w] == placeholders[w]:
                    pending.remove(w)
                    unchanged[lv_of[w]] = inits[w]
                    changed = True
            if changed and unchanged:
                live = {k: v for k, v in unchanged.items()}
                for w in pending:
                    nexts[w] = t.subst(nexts[w], live)
                exits = t.subst(exits, live)
                raises = t.subst(raises, live)
                ctl['ret'] = t.subst(ctl['ret'], live)
                ctl['exc'] = t.subst(ctl['exc'], live)
                ctl['brk'] = [t.subst(b, live) for b in ctl['brk']]
                ctl['dead'] = t.subst(ctl['dead'], live)
                for w in pending:
                    pass

        def free(tree):
            return not any(True for _ in t.lvs(tree))

        if kind == 'for' and exits != F and not free(exits):
            pass
        # unconditional counters are functions of the position
        if kind == 'for':
            steady = {}
            for w in pending:
                if w not in placeholders or w[0] != 'env':
                    continue
                d = t.lin_add(nexts[w], lv_of[w], -1) \
                    if not is_ite(nexts[w]) and t.numeric(nexts[w]) else None
                if d is not None and d[0] == 'const' and \
                        d[1] == 'int' and d != const(0) and \
                        not is_ite(inits[w]) and t.numeric(inits[w]):
                    steady[lv_of[w]] = t.lin_add(
                        inits[w], t.mklin(0, {('pos', level): d[2]}))
            if steady:
                own = {lv_of[w]: w for w in pending}
                for w in pending:
                    keep = lv_of[w] in steady
                    nexts[w] = nexts[w] if keep else t.subst(nexts[w], steady)
                exits = t.subst(exits, steady)
                raises = t.subst(raises, steady)
                for k in ('ret', 'exc', 'dead'):
                    ctl[k] = t.subst(ctl[k], steady)
                ctl['brk'] = [t.subst(b, steady) for b in ctl['brk']]
        finals = {}
        group = []
        if kind == 'for' and exits == F:
            for w in pending:
                v = self.summarise(w, lv_of[w], inits[w], nexts[w], src,
                                   level, w in placeholders)
                if v is None:
                    group.append(w)
                else:
                    finals[w] = v
            exc_guard = F
        elif kind == 'for' and free(exits) and self.first_pattern(
                pending, lv_of, nexts, placeholders, exits):
            found = t.exists(level, src, exits)
            for w in pending:
                v = self.first_value(w, lv_of[w], inits[w], nexts[w], src,
                                     level, exits, found)
                if v is None:
                    raise Unsupported('loop exit effect')
                finals[w] = v
            a = self.active()
            ret = ctl['ret']
            if ctl['dead'] != F:
                g = t.exists(level, src, exits)
                # the exiting element returns or breaks
                isret = self.first_bool(level, src, exits, ctl['dead'])
                rv = t.first(level, src, exits,
                             select(ctl['dead'], ret, BOT))
                ga = band(band(a, g), isret)
                frame.ret = select(ga, rv, frame.ret)
                self.after = [('dead', ga)]
            else:
                self.after = []
            for l, b in zip(frame.loops, ctl['brk']):
                if b != F:
                    g = band(found, self.first_bool(level, src, exits, b))
                    self.after.append((l, band(a, g)))
            self.apply_finals(finals)
            self.raise_in_loop(level, src, raises, ctl)
            for target, g in self.after:
                if target == 'dead':
                    frame.dead = bor(frame.dead, g)
                else:
                    target.brk = bor(target.brk, g)
            return
        else:
            group = list(pending)

        if group or (exits != F):
            if kind == 'for' and exits == F:
                # locations read by the group's transitions must be in it
                pass
            self.fold(kind, src, level, group, lv_of, inits, nexts, exits,
                      ctl, finals, raises, running)
        else:
            self.apply_finals(finals)
            if free(raises):
                self.raise_in_loop(level, src, raises, ctl)
            else:
                raise Unsupported('raise depends on loop state')

    def first_bool(self, level, src, exits, cond):
        if cond == exits:
            return T
        c = t.first(level, src, exits, cond)
        return t.truth(c) if c not in (T, F) else c

    def raise_in_loop(self, level, src, raises, ctl):
        if raises == F:
            return
        g = t.exists(level, src, raises) if src is not None else raises
        names = {x for x in leaves(ctl['exc']) if x[0] == 'exc'}
        a = band(self.active(), g)
        if len(names) == 1:
            e = names.pop()
        else:
            e = ('exc', 'Mixed')
        self.exc = select(a, e, self.exc)

    def apply_finals(self, finals):
        for w, v in finals.items():
            self.gate_put(w, v)

    def first_pattern(self, pending, lv_of, nexts, placeholders, exits):
        for w in pending:
            if w not in placeholders:
                # assigned in the loop only
                continue
            ph = placeholders[w]
            rest = select(exits, ph, nexts[w])
            if rest != ph and (t.lvs(nexts[w]) or BOT in leaves(nexts[w])):
                return False
        return True

    def first_value(self, w, lv, init, nxt, src, level, exits, found):
        val = select(exits, nxt, BOT)
        vals = [x for x in leaves(val) if x != BOT]
        if w[0] == 'env' and not t.lvs(nxt) and BOT not in leaves(nxt):
            # assigned by every iteration
            other = select(t.truth(src), t.last(level, src, T, nxt), init)
            return select(found, t.first(level, src, exits, val), other)
        if w[0] == 'store' and w[1][0] == 'content' or any(
                x[0] == 'seq' and x[2][:1] == (('splice', lv),)
                for x in vals):
            if vals and all(x[0] == 'seq' and x[2][:1] == (('splice', lv),)
                            for x in vals):
                kind = vals[0][1]
                lens = {len(x[2]) for x in vals}
                tails = apply(lambda x: BOT if x == BOT else
                              ('pieces', x[2][1:]), val)
                if t.lvs(tails):
                    return None
                base = apply(lambda x: BOT if x == BOT else
                             ('pieces', x[2]) if x[0] == 'seq' else
                             ('pieces', (('splice', x),)), init)
                # guard inside the exiting element
                res = ('pieces', ())
                n = max(lens) - 1
                for i in range(n):
                    has = apply(lambda p, i=i: BOT if p == BOT else
                                (T if len(p[1]) > i else F), tails)
                    item = apply(lambda p, i=i: p[1][i][1] if p != BOT and
                                 len(p[1]) > i and p[1][i][0] == 'one'
                                 else BOT, tails)
                    if any(p != BOT and len(p[1]) > i and
                           p[1][i][0] != 'one' for p in leaves(tails)):
                        return None
                    hasg = self.first_bool(level, src, exits,
                                           t.dontcare(has))
                    v = t.first(level, src, exits, item)
                    res = select(hasg, t.concat(res, t.one(v)), res)
                return select(found, t.mkseq(kind, t.concat(base, res)),
                              init)
            return None
        if t.lvs(val) - set():
            if all((lv in t.lvs(x)) is False for x in vals):
                pass
            # value keeps the old one on some exits
            keep = apply(lambda x: T if x == lv else F, val)
            if any(x != lv and t.lvs(x) for x in vals):
                return None
            v2 = apply(lambda x: BOT if x == lv else x, val)
            c = band(exits, bnot(apply(
                lambda x: T if x == T else F, keep)))
            g = band(found, self.first_bool(level, src, exits, c))
            return select(g, t.first(level, src, exits, v2), init)
        return select(found, t.first(level, src, exits, val), init)

    def summarise(self, w, lv, init, nxt, src, level, had):
        """Closed form of a loop-carried location, or None."""
        ls = [x for x in leaves(nxt)]
        if any(a for a in t.atoms(nxt) if t.lvs(a)):
            return None
        # appended container
        def own(x):
            return ('splice', lv) in (x[2] if x[1] == 'set' else x[2][:1])
        if all(x[0] == 'seq' and own(x)
               or x == lv for x in ls) and any(x != lv for x in ls):
            rest = apply(lambda x: ('pieces', ()) if x == lv else
                         ('pieces', tuple(p for p in x[2]
                                          if p != ('splice', lv))), nxt)
            if t.lvs(rest):
                return None
            kinds = {x[1] for x in ls if x != lv}
            kind = kinds.pop()
            base = apply(lambda x: BOT if x == BOT else
                         ('pieces', x[2]) if x[0] == 'seq' else
                         ('pieces', (('splice', x),)), init)
            return t.mkseq(kind, t.concat(base, t.mkfor(level, src, rest)))
        # counters and sums
        if had and all(x == lv or (x[0] == 'lin' and dict(x[2]).get(lv) == 1)
                       for x in ls):
            inc = apply(lambda x: t.lin_add(x, lv, -1), nxt)
            if not t.lvs(inc):
                return apply(lambda a, s: t.lin_add(a, s), init,
                             self.sum_term(level, src, inc))
        # last assignment wins
        others = [x for x in ls if x != lv and x != BOT]
        if any(t.lvs(x) for x in others):
            return None
        cond = apply(lambda x: F if x in (lv, BOT) else T, nxt)
        val = apply(lambda x: BOT if x == lv else x, nxt)
        g = t.exists(level, src, cond)
        return select(g, t.last(level, src, cond, val), init)

    def sum_term(self, level, src, inc):
        if inc == const(0):
            return inc
        if inc == const(1):
            return t.length(src)
        return ('sum', level, src, inc)

    def fold(self, kind, src, level, group, lv_of, inits, nexts, exits, ctl,
             finals, raises, running):
        frame = self.frame
        if t.lvs(raises):
            # exceptions depending on loop state: part of the fold
            pass
        states = {}
        for w in list(group) + list(finals):
            nx = nexts[w]
            states[lv_of[w]] = (self.freeze_state(inits[w]),
                                self.freeze_state(nx))
        exits_f = self.freeze_state(exits)
        has_ret = ctl['dead'] != F
        if has_ret:
            rlv = ('lv', (level, 'ret', 'raw'))
            states[rlv] = (('bot',), self.freeze_state(
                select(ctl['dead'], ctl['ret'], BOT)))
        if kind == 'for' and exits == F:
            live = {}
            needed = True
        # drop states that nothing reads back and that do not feed outputs:
        # closures are computed per output
        color = {}
        for lv, (a, b) in states.items():
            color[lv] = digest(repr(a))
        for _ in range(4):
            nxt = {}
            for lv, (a, b) in states.items():
                m = {o: ('free', 'c' + color[o]) for o in states}
                m[lv] = ('free', 'self')
                nxt[lv] = digest(repr(a) + repr(t.subst(b, m)))
            color = nxt

        def closure(roots):
            seen = set()
            todo = list(roots)
            while todo:
                x = todo.pop()
                if x in seen or x not in states:
                    continue
                seen.add(x)
                todo.extend(t.lvs(states[x][1]))
            return seen
        exit_lvs = {x for x in t.lvs(exits_f) if x in states}

        def term(root):
            members = sorted(closure({root} | exit_lvs),
                             key=lambda x: (color[x], repr(x)))
            ren = {lv: ('lv', (level, i)) for i, lv in enumerate(members)}
            body = []
            for lv in members:
                a, b = states[lv]
                body.append((a, t.subst(b, ren)))
            out = t.subst(root, ren)
            self.lvtypes[out] = self.lvtypes.get(root)
            return ('fold', kind, level, src if src is not None else NONE,
                    t.subst(exits_f, ren), tuple(body), out)

        for w in group:
            v = term(lv_of[w])
            init = inits[w]
            if w[0] == 'store' and w[1][0] == 'content' and any(
                    x[0] == 'seq' for x in leaves(nexts[w])):
                k = [x[1] for x in leaves(nexts[w]) if x[0] == 'seq'][0]
                v = ('seq', k, (('splice', v),))
            finals[w] = v
        a = self.active()
        after = []
        if has_ret:
            vals = {x for x in leaves(states[rlv][1]) if x != BOT}
            if len(vals) == 1 and not any(
                    t.lvs(x) or t.levels(x) for x in vals):
                rv = vals.pop()
            else:
                rv = term(rlv)
            dlv = ('lv', (level, 'dead', 'raw'))
            states[dlv] = (F, self.freeze_state(ctl['dead']))
            color[dlv] = digest(repr(states[dlv]))
            g = band(a, t.truth(term(dlv)))
            frame.ret = select(g, rv, frame.ret)
            after.append(('dead', g))
        for l, b in zip(frame.loops, ctl['brk']):
            if b != F and kind == 'for':
                blv = ('lv', (level, 'brk', 'raw'))
                states[blv] = (F, self.freeze_state(b))
                color[blv] = digest(repr(states[blv]))
                after.append((l, band(a, t.truth(term(blv)))))
        self.apply_finals(finals)
        if raises != F:
            names = {x for x in leaves(ctl['exc']) if x[0] == 'exc'}
            rl = ('lv', (level, 'exc', 'raw'))
            states[rl] = (F, select(t.truth(rl), T,
                                    self.freeze_state(raises)))
            color[rl] = digest(repr(states[rl]))
            ga = band(self.active(), t.truth(term(rl)))
            self.exc = select(ga, names.pop() if len(names) == 1
                              else ('exc', 'Mixed'), self.exc)
        for target, g in after:
            if target == 'dead':
                frame.dead = bor(frame.dead, g)
            else:
                target.brk = bor(target.brk, g)

    def freeze_state(self, tree):
        return self.freeze(tree)

    @property
    def alloc_limit(self):
        return self.next_alloc

    def unrolled(self, s, loop):
        """A loop whose condition is known at every step."""
        if isinstance(s.test, ast.Constant):
            return False
        entry = self.save()
        writes = None if self.writes is None else set(self.writes)
        try:
            for _ in range(UNROLL):
                cond = self.truth(self.expr(s.test))
                if cond == F:
                    return True
                if cond != T:
                    break
                self.block(s.body)
                loop.cont = F
                if self.active() == F:
                    return True
        except Unsupported:
            pass
        self.restore(entry)
        self.writes = writes
        return False

    def while_loop(self, s, loop):
        if self.unrolled(s, loop):
            return
        frame = self.frame
        level = self.depth
        entry = self.save()
        entry_mark = self.next_alloc
        saved_writes = self.writes
        written = set()
        inits = {}

        def once(placeholders):
            self.restore(entry)
            self.writes = set()
            self.depth = level + 1
            for w, ph in placeholders.items():
                self.put(w, ph)
            self.guard = T
            frame.dead, frame.ret, self.exc = F, BOT, NONE
            for l in frame.loops:
                l.brk, l.cont = F, F
            cond = self.truth(self.expr(s.test))

            def go():
                self.block(s.body)
            self.guarded(cond, go)
            loop.cont = F
            got = self.writes
            self.writes = None
            nexts = {w: self.freeze_local(self.get(w), entry_mark) for w in got}
            ctl = {
                'dead': frame.dead,
                'ret': self.freeze_local(frame.ret, entry_mark),
                'exc': self.exc, 'brk': [l.brk for l in frame.loops],
            }
            return got, nexts, ctl, cond

        seen = {}
        for attempt in range(6):
            placeholders = {}
            for i, w in enumerate(sorted(written, key=repr)):
                self.restore(entry)
                init = self.here(self.get(w))
                inits[w] = init
                if init == BOT:
                    continue
                lv = ('lv', (level, i, 'raw'))
                self.lvtypes[lv] = self.carried_type(init, seen.get(w), level)
                placeholders[w] = self.placeholder(w, init, lv)
            got, nexts, ctl, cond = once(placeholders)
            seen = nexts
            self.seen_bv = self.bvtypes.get(level)
            got = {w for w in got if not self.is_local(w, entry)}
            if got <= written:
                break
            extra = got - written
            written |= got
        else:
            raise Unsupported('loop does not stabilise: %r' % (
                sorted(extra, key=repr)[:3],))
        ws = sorted(written, key=repr)
        lv_of = {w: ('lv', (level, i, 'raw')) for i, w in enumerate(ws)}
        # index loops over a sequence are for loops
        idx = self.index_loop(cond, ws, lv_of, inits, nexts)
        if idx:
            w, src = idx
            self.restore(entry)
            self.writes = saved_writes

            def run():
                self.put(w, ('pos', level))
                self.block(s.body)
                loop.cont = F
                # the index itself is not carried
                self.writes.discard(w)
            saved = self.live
            self.live = self.follow
            self.opaque_loop(src, run)
            self.live = saved
            self.gate_put(w, t.length(src))
            return
        self.restore(entry)
        self.writes = saved_writes
        if cond == T and ctl['brk'] == [F] * len(ctl['brk']) \
                and ctl['dead'] == F:
            raise Unsupported('endless loop')
        # running while cond holds: exit = not cond or break
        own = ctl['brk'][-1]
        exits = bor(bnot(cond), own)
        ctl = dict(ctl)
        ctl['brk'] = ctl['brk'][:-1] + [F]
        outer_exits = ctl['dead']
        for b in ctl['brk']:
            outer_exits = bor(outer_exits, b)
        exits = bor(exits, outer_exits)
        pend = {}
        pending = []
        for w in ws:
            if w in placeholders and nexts.get(w) == placeholders[w]:
                pend[lv_of[w]] = inits[w]
            else:
                pending.append(w)
        sub = (lambda x: t.subst(x, pend)) if pend else (lambda x: x)
        nexts = {w: sub(nexts.get(w, BOT)) for w in pending}
        for k in ('dead', 'ret', 'exc'):
            ctl[k] = sub(ctl[k])
        ctl['brk'] = [sub(b) for b in ctl['brk']]
        exits = sub(exits)
        raises = apply(lambda x: F if x == NONE else T, ctl['exc'])
        self.fold('while', None, level, pending, lv_of, inits, nexts, exits,
                  ctl, {}, raises, cond)

    def index_loop(self, cond, ws, lv_of, inits, nexts):
        if not (is_ite(cond) and cond[2] == T and cond[3] == F):
            return None
        a = cond[1]
        if a[0] != 'cmp' or a[1] != '<':
            return None
        for w in ws:
            lv = lv_of[w]
            if w[0] == 'env' and a[2] == lv and a[3][0] == 'len' \
                    and inits.get(w) == const(0) \
                    and nexts.get(w) is not None \
                    and not t.lvs(a[3]):
                nx = nexts[w]
                if is_ite(nx):
                    nx = t.cof(nx, a, True)
                if nx == t.lin_add(lv, const(1)):
                    return w, a[3][1]
        return None

    # ------------------------------------------------------------ expressions

    def expr(self, e):
        m = getattr(self, 'expr_' + type(e).__name__, None)
        if not m:
            raise Unsupported('%s' % type(e).__name__)
        return m(e)

    def truth(self, tree):
        def go(x):
            if x[0] == 'ref':
                if self.allocs[x[1]]['kind'] == 'obj':
                    return self.truth_object(x)
                return self.truth(self.freeze(self.content(x)))
            if x[0] in ('clos', 'bound'):
                return T
            c = self.content(x)
            if c != x:
                return self.truth(self.freeze(c))
            return t.truth(self.freeze(x))
        return apply(go, tree)

    def truth_object(self, ref):
        cls = self.p.classes[self.allocs[ref[1]]['type'][1]]
        for name in ('__bool__', '__len__'):
            owner, entry = self.p.member(cls, name)
            if entry:
                raise Unsupported('truth of object')
        return T

    def expr_Constant(self, e):
        if e.value is Ellipsis:
            raise Unsupported('...')
        return const(e.value)

    def expr_Name(self, e):
        return self.lookup(e.id, e)

    def expr_Attribute(self, e):
        if e.attr == '__class__':
            obj = self.expr(e.value)
            return self.class_term(obj)
        obj = self.expr(e.value)
        return self.get_attr(obj, e.attr)

    def class_term(self, obj):
        def go(leaf):
            if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] == 'obj':
                return ('cls', self.allocs[leaf[1]]['type'][1])
            info = self.class_of(leaf)
            if info and info[1]:
                return ('cls', info[0].qual)
            if leaf[0] == 'const':
                return ('builtin', leaf[1])
            if leaf[0] == 'seq' and leaf[1] in ('list', 'tuple', 'dict',
                                                'set'):
                return ('builtin', leaf[1])
            if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] in (
                    'list', 'dict', 'set'):
                return ('builtin', self.allocs[leaf[1]]['kind'])
            if leaf[0] == 'str':
                return ('builtin', 'str')
            if leaf[0] == 'cls':
                return ('builtin', 'type')
            return t.call(('builtin', 'type'), [self.freeze(leaf)])
        return apply(go, obj)

    def get_attr(self, obj, name):
        return self.for_leaves(obj, lambda x: self.get_attr_leaf(x, name))

    def instance_fields(self, cls):
        cache = self.p.__dict__.setdefault('_fields', {})
        r = cache.get(cls.qual)
        if r is None:
            r = set()
            for c in cls.mro:
                for kind, entry in c.members.values():
                    if kind != 'func':
                        continue
                    for node in ast.walk(entry.node):
                        if isinstance(node, ast.Attribute) and isinstance(
                                node.ctx, ast.Store) and isinstance(
                                node.value, ast.Name) and \
                                node.value.id == 'self':
                            r.add(node.attr)
            cache[cls.qual] = r
        return r

    def exists_somewhere(self, cls, name):
        """Can an instance of cls have the attribute?"""
        if name.startswith('__'):
            return True
        stored = self.p.__dict__.get('_stored')
        if stored is None:
            stored = set()
            for m in self.p.modules.values():
                if m.name.startswith('spec'):
                    continue
                for node in ast.walk(m.tree):
                    if isinstance(node, ast.Attribute) and isinstance(
                            node.ctx, ast.Store):
                        stored.add(node.attr)
            self.p._stored = stored
        if name in stored:
            return True
        if any(c.name == 'Fact' for c in cls.mro):
            return True
        return any(self.p.member(c, name)[0] is not None
                   for c in self.p.subclasses(cls))

    def get_attr_leaf(self, leaf, name):
        tag = leaf[0]
        if leaf == BOT:
            return BOT
        if tag == 'mod':
            entry = self.p.lookup(self.p.modules[leaf[1]], name)
            if not entry:
                raise Unsupported('module attribute %s' % name)
            return self.entry(entry, self.p.modules[leaf[1]], name)
        if tag == 'ext':
            return ('ext', leaf[1] + '.' + name)
        if tag == 'builtin' and name == '__name__':
            return const(leaf[1])
        if tag == 'cls':
            if name == '__name__':
                return const(leaf[1].split(':')[-1])
            if name == '__mro__':
                return ('attr', leaf, '__mro__')
            cls = self.p.classes[leaf[1]]
            return self.class_attr(cls, name, leaf)
        if tag == 'ref':
            info = self.allocs[leaf[1]]
            if info['kind'] == 'obj':
                loc = ('attr', leaf, name)
                if loc in self.store:
                    return self.store[loc]
                if name == '__dict__':
                    raise Unsupported('__dict__')
                cls = self.p.classes[info['type'][1]]
                return self.object_attr(cls, name, leaf)
            return ('bound', leaf, name)
        if tag == 'super':
            pass
        if tag == 'bound' and isinstance(leaf[2], tuple):
            # an item of a defaultdict
            return ('bound', leaf, name)
        if tag in ('func', 'clos', 'bound'):
            if name == '__name__':
                return t.attr(self.freeze(leaf), name)
            raise Unsupported('function attribute %s' % name)
        if tag == 'seq' or (tag == 'const' and leaf[1] == 'str') \
                or tag == 'str':
            return ('bound', leaf, name)
        if tag == 'const':
            if leaf == NONE:
                self.raise_('AttributeError')
            return BOT
        loc = ('attr', leaf, name)
        if loc in self.store:
            return self.store[loc]
        if tag == 'new':
            v = t.attr(leaf, name)
            if v[0] != 'attr' or is_ite(v):
                return v
        info = self.class_of(leaf)
        if info:
            cls, exact = info
            found = self.virtual_member(cls, exact, name)
            if found is not None:
                owner, (kind, entry) = found
                if kind == 'func':
                    if entry.is_property:
                        return self.call_func(entry, [leaf], {})
                    if entry.is_static:
                        return ('func', entry.qual)
                    if entry.decorators:
                        return self.decorated(entry, leaf)
                    return ('bound', leaf, entry.qual)
                v = self.class_expr(owner, entry)
                if v is not None:
                    if v[0] == 'func':
                        return ('bound', leaf, v[1])
                    return v
            if self.is_method_name(cls, name):
                return ('bound', leaf, '.' + name)
            if not self.exists_somewhere(cls, name):
                self.raise_('AttributeError')
                return BOT
        return t.attr(self.freeze(leaf), name)

    def is_method_name(self, cls, name):
        for c in self.p.subclasses(cls):
            owner, entry = self.p.member(c, name)
            if entry and entry[0] == 'func' and not entry[1].is_property:
                return True
        return False

    def virtual_member(self, cls, exact, name):
        """The unique member an attribute access can resolve to."""
        if any((c.name, name) in self.data for c in cls.mro):
            return None
        if name in self.instance_fields(cls):
            return None
        classes = [cls] if exact else self.concrete(cls)
        found = set()
        result = None
        for c in classes:
            if name in self.instance_fields(c):
                return None
            owner, entry = self.p.member(c, name)
            if owner is None:
                return None
            found.add((owner.qual, name))
            result = owner, entry
        if len(found) == 1:
            return result
        return None

    def concrete(self, cls):
        return self.p.subclasses(cls)

    def virtual(self, leaf, name):
        info = self.class_of(leaf)
        if not info:
            return None
        found = self.virtual_member(info[0], info[1], name)
        if found and found[1][0] == 'func':
            return found[1][1]
        if found:
            v = self.class_expr(found[0], found[1][1])
            if v and v[0] == 'func':
                return self.p.functions[v[1]]
        return None

    def object_attr(self, cls, name, leaf):
        owner, entry = self.p.member(cls, name)
        if entry is None:
            if name in self.instance_fields(cls):
                return BOT
            self.raise_('AttributeError')
            return BOT
        kind, entry = entry
        if kind == 'func':
            if entry.is_property:
                return self.call_func(entry, [leaf], {})
            if entry.is_static:
                return ('func', entry.qual)
            if entry.decorators:
                return self.decorated(entry, leaf)
            return ('bound', leaf, entry.qual)
        v = self.class_expr(owner, entry, name)
        if v is None:
            raise Unsupported('class attribute %s' % name)
        if v[0] in ('func',):
            return ('bound', leaf, v[1])
        return v

    def decorated(self, func, leaf):
        """A decorated method: apply the decorators to the plain function."""
        value = ('func', func.qual)
        self.plain = getattr(self, 'plain', set())
        frame = Frame(func, func.module, func.cls)
        self.frames.append(frame)
        try:
            clos = self.make_closure(func.node, None, func.module, func.cls)
            self.closures[clos[1]]['qual'] = func.qual
            value = clos
            for dec in reversed(func.decorators):
                if isinstance(dec, ast.Name) and dec.id in (
                        'abstractmethod',):
                    continue
                d = self.expr(dec)
                value = self.decorate(d, value)
        finally:
            self.frames.pop()
        if leaf is None:
            return value
        if value[0] == 'clos':
            return ('partial', value, leaf) if False else \
                self.bind_closure(value, leaf)
        raise Unsupported('decorated method')

    def bind_closure(self, clos, leaf):
        self.next_clos += 1
        info = dict(self.closures[clos[1]])
        info['bound'] = leaf
        self.closures[self.next_clos] = info
        return ('clos', self.next_clos)

    def class_attr(self, cls, name, leaf):
        owner, entry = self.p.member(cls, name)
        if entry is None and name == '__init__' and all(
                isinstance(b, ClassInfo) or b == ('ext', 'object')
                for c in cls.mro for b in c.bases):
            return ('builtin', 'object_init')
        if entry is None:
            raise Unsupported('class attribute %s.%s' % (cls.name, name))
        kind, entry = entry
        if kind == 'func':
            if entry.decorators and not entry.is_property \
                    and not entry.is_static and not entry.is_classmethod:
                return self.decorated(entry, None)
            return ('func', entry.qual)
        v = self.class_expr(owner, entry, name)
        if v is None:
            raise Unsupported('class attribute %s' % name)
        return v

    def class_expr(self, owner, node, name=None):
        """Value of a class-level assignment."""
        if name and is_container(node) and self.p.mutated(name):
            # one object for all instances
            return ('gvar', 'shared %s.%s' % (owner.qual, name))
        try:
            value = ast.literal_eval(node)
            if value in ({}, set()) and is_container(node):
                return ('seq', type(value).__name__, ())
            if isinstance(value, (str, int, bool, type(None))):
                return const(value)
            if isinstance(value, (list, tuple)):
                kind = type(value).__name__
                return ('seq', kind, tuple(('one', const(v)) for v in value)) \
                    if all(isinstance(v, (str, int)) for v in value) else None
            return None
        except (ValueError, SyntaxError):
            pass
        if isinstance(node, ast.Name):
            if node.id in owner.members:
                kind, entry = owner.members[node.id]
                if kind == 'func':
                    return ('func', entry.qual)
                return self.class_expr(owner, entry)
            entry = self.p.lookup(owner.module, node.id)
            if entry:
                return self.entry(entry, owner.module, node.id)
            if node.id in BUILTINS:
                return ('builtin', node.id)
            return None
        if isinstance(node, ast.Attribute):
            saved = self.frames
            self.frames = [Frame(None, owner.module, owner)]
            try:
                return self.expr(node)
            except Unsupported:
                return None
            finally:
                self.frames = saved
        if isinstance(node, ast.Lambda):
            return self.make_closure(node, None, owner.module, owner)
        if isinstance(node, ast.Call):
            # lru_cache(n)(f): transparent for the value
            f = node.func
            if isinstance(f, ast.Call) and len(node.args) == 1:
                name = f.func.id if isinstance(f.func, ast.Name) else \
                    f.func.attr if isinstance(f.func, ast.Attribute) else ''
                if name == 'lru_cache':
                    inner = node.args[0]
                    saved = self.frames
                    self.frames = [Frame(None, owner.module, owner)]
                    try:
                        return self.expr(inner)
                    finally:
                        self.frames = saved
        if is_literal(node):
            name = next((k for k, (kind, x) in owner.members.items()
                         if x is node), None)
            if name and self.p.is_class_table(owner, name):
                saved = self.frames
                self.frames = [Frame(None, owner.module, owner)]
                try:
                    return self.expr(node)
                finally:
                    self.frames = saved
        return ('gvar', owner.qual + '.' + ast.unparse(node))

    def expr_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def rest(values):
            value = self.expr(values[0])
            if len(values) == 1:
                return value
            c = self.truth(value)
            go = c if is_and else bnot(c)
            if go == F:
                return value
            other = self.guarded(go, lambda: rest(values[1:]))
            if other == BOT and self.active() == F:
                return value
            # truthiness of the left value is known on its own side
            return select(go, other, value)
        return rest(e.values)

    def expr_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if v[0] == 'const':
                return const(-v[2])
            return t.op('neg', self.freeze(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary')

    def expr_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        name = BINOPS.get(type(e.op))
        if not name:
            raise Unsupported('binop')
        return self.binop(name, a, b)

    def binop(self, name, a, b):
        a = self.freeze(self.deref(a))
        b = self.freeze(self.deref(b))
        if name == '%' and a[0] == 'const' and a[1] == 'str':
            return self.for_leaves(b, lambda x: BOT if x == BOT
                                   else self.percent(a[2], x))
        if name == '*':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'seq' and x[1] == 'list' and \
                        not (y[0] == 'const'):
                    ps = t.shift(('pieces', x[2]), 0, 0)
                    r = t.mkfor(self.depth,
                                t.call(('builtin', 'range'), [y]), ps)
                    return self.wrap(t.mkseq('list', r))
        if name == '|' and ('set' in (self.kind_of(a), self.kind_of(b))
                            or True):
            if a[0] == 'seq' and a[1] == 'set' or b[0] == 'seq' and \
                    b[1] == 'set':
                r = t.mkseq('set', t.concat(t.splice(a), t.splice(b)))
                return self.wrap(r)
        if name in ('-', '&') and 'set' in (self.kind_of(a),
                                            self.kind_of(b)):
            return self.wrap(self.sifted(a, b, name == '&'))
        r = t.op(name, a, b)
        return self.wrap(r)

    def sifted(self, a, b, inside):
        """The elements of a set that are (or are not) in another."""
        def keep(x, one):
            c = apply(lambda v, s: t.cmp('in', v, s), x, b)
            return select(c if inside else bnot(c), one, ('pieces', ()))

        def go(p):
            if p == BOT:
                return BOT
            r = ('pieces', ())
            for x in p[1]:
                if x[0] == 'one':
                    r = t.concat(r, keep(x[1], t.one(x[1])))
                elif x[0] == 'splice':
                    level = self.depth
                    bv = ('bv', level)
                    r = t.concat(r, t.mkfor(level, x[1],
                                            keep(bv, t.one(bv))))
                else:
                    r = t.concat(r, t.mkfor(x[1], x[2], apply(go, x[3])))
            return r
        return t.mkseq('set', apply(go, apply(
            lambda x: ('pieces', x[2]) if x[0] == 'seq' and x[1] == 'set'
            else t.splice(x), a)))

    def kind_of(self, x):
        return x[1] if x[0] == 'seq' else None

    def wrap(self, tree):
        """Fresh container results become refs (they may be mutated)."""
        if not is_ite(tree) and tree[0] == 'seq' and tree[1] in (
                'list', 'set', 'dict'):
            return self.alloc(tree[1], ('list', None), tree)
        return tree

    def percent(self, fmt, arg):
        pieces = []
        i = 0
        args = None
        if arg[0] == 'seq' and arg[1] == 'tuple':
            args = [p[1] for p in arg[2]]
        else:
            args = [arg]
        lit = ''
        acc = const('')
        parts = []
        while i < len(fmt):
            c = fmt[i]
            if c == '%':
                spec = fmt[i + 1]
                if spec == '%':
                    lit += '%'
                elif spec in 'sdr':
                    parts.append(('lit', lit))
                    lit = ''
                    if not args:
                        raise Unsupported('format')
                    v = args.pop(0)
                    if spec == 'd' and self.typeof(v) == 'int':
                        spec = 's'
                    parts.append(('fmt', spec, v))
                else:
                    raise Unsupported('format')
                i += 2
            else:
                lit += c
                i += 1
        parts.append(('lit', lit))
        return self.build_str(parts)

    def build_str(self, parts):
        acc = const('')
        for p in parts:
            if p[0] == 'lit':
                acc = apply(lambda a, p=p: BOT if a == BOT else
                            t.mkstr(t.str_pieces(a) + (p,)), acc)
            else:
                v = p[2]
                if p[1] in ('s', 'r'):
                    v = self.for_leaves(v, lambda x, c=p[1]: self.text(x, c))
                v = self.freeze(v)
                acc = apply(lambda a, b, p=p: BOT if BOT in (a, b) else
                            t.mkstr(t.str_pieces(a) + (('fmt', p[1], b),)),
                            acc, v)
        return acc

    def text(self, leaf, conv):
        """An object of the package says how it is written."""
        m = self.virtual(leaf, '__str__' if conv == 's' else '__repr__')
        if m and m.qual not in self.stack:
            r = self.call_func(m, [leaf], {})
            if self.typeof(r) == 'str' or conv == 's':
                return r
        return leaf

    def expr_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(('lit', v.value))
            else:
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                conv = 's'
                if v.conversion == ord('r'):
                    conv = 'r'
                parts.append(('fmt', conv, self.expr(v.value)))
        return self.build_str(parts)

    def format_(self, fmt, args, kw):
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(('lit', lit))
            if field is None:
                continue
            if spec:
                raise Unsupported('format spec')
            first, rest = _split_field(field)
            if first == '':
                first = auto
                auto += 1
            if isinstance(first, int):
                if first >= len(args):
                    self.raise_('IndexError')
                    return BOT
                v = args[first]
            else:
                if first not in kw:
                    self.raise_('KeyError')
                    return BOT
                v = kw[first]
            for is_attr, name in rest:
                if is_attr:
                    v = self.get_attr(v, name)
                else:
                    v = t.idx(self.freeze(v), const(name))
            parts.append(('fmt', conv or 's', v))
        return self.build_str(parts)

    def expr_Compare(self, e):
        left = self.expr(e.left)

        def chain(left, ops, rights):
            right = self.expr(rights[0])
            r = self.compare(ops[0], left, right)
            if len(ops) == 1:
                return r
            more = self.guarded(r, lambda: chain(right, ops[1:], rights[1:]))
            return select(r, more, F)
        return chain(left, e.ops, e.comparators)

    def compare(self, op, a, b):
        name = CMPOPS[type(op)]
        if name in ('is', 'is not', '==', '!='):
            # identity of known fresh objects
            def ident(x, y):
                if x[0] == 'ref' and y[0] == 'ref':
                    return T if x == y else F
                for u, v in ((x, y), (y, x)):
                    if u[0] == 'ref' and t.given(v):
                        return F
                info, other = self.class_of(x), self.class_of(y)
                if info and other and info[1] and other[1] and \
                        info[0] is not other[0]:
                    return F
                return t.cmp('is', self.freeze(self.deref(x)),
                             self.freeze(self.deref(y)))
            if name in ('is', 'is not') and any(
                    x[0] == 'ref' for y in (a, b) for x in leaves(y)):
                r = apply(ident, a, b)
                return r if name == 'is' else bnot(r)
        if name in ('==', '!=', '<', '<=', '>', '>='):
            r = self.rich_compare(name, a, b)
            if r is not None:
                return r
        if name in ('in', 'not in'):
            def member(y):
                info = self.class_of(y)
                func = self.virtual(y, '__contains__') if info else None
                if func is not None and func.qual not in self.stack:
                    return self.truth(self.call_func(func, [y, a], {}))
                if info and self.is_method_name(info[0], '__contains__'):
                    raise Unsupported('virtual __contains__')
                return t.cmp('in', self.freeze(self.deref(a)),
                             self.freeze(self.deref(y)))
            if any(self.class_of(y) for y in leaves(b) if y != BOT):
                r = apply(member, b)
                return r if name == 'in' else bnot(r)
        fa = self.freeze(self.deref(a))
        fb = self.freeze(self.deref(b))
        return t.cmp(name, fa, fb)

    def rich_compare(self, name, a, b):
        """Operators defined by package classes."""
        if is_ite(a) or is_ite(b):
            if name in ('<', '<=', '>', '>='):
                def go(x, y):
                    r = self.rich_compare(name, x, y)
                    return r if r is not None else t.cmp(
                        name, self.freeze(self.deref(x)),
                        self.freeze(self.deref(y)))
                if any(self.class_of(x) for x in leaves(a)):
                    return apply(go, a, b)
            return None
        if name in ('==', '!='):
            func = self.virtual(a, '__eq__') if self.inline_eq else None
            if func is None or func.qual in self.stack:
                return None
            r = self.truth(self.call_func(func, [a, b], {}))
            return r if name == '==' else bnot(r)
        if name == '>':
            return self.rich_compare('<', b, a) if self.virtual(
                a, '__gt__') is None and self.class_of(a) else None
        if name != '<':
            return None
        func = self.virtual(a, '__lt__')
        if func is None:
            return None
        if func.qual in self.stack:
            return None
        return self.truth(self.call_func(func, [a, b], {}))

    def expr_IfExp(self, e):
        c = self.truth(self.expr(e.test))
        a = self.guarded(c, lambda: self.expr(e.body))
        b = self.guarded(bnot(c), lambda: self.expr(e.orelse))
        return select(c, a, b)

    def expr_Tuple(self, e):
        return t.mkseq('tuple', self.literal(e.elts))

    def expr_List(self, e):
        return self.new_seq('list', self.literal(e.elts))

    def expr_Set(self, e):
        return self.new_seq('set', self.literal(e.elts))

    def literal(self, elts):
        r = ('pieces', ())
        for x in elts:
            if isinstance(x, ast.Starred):
                r = t.concat(r, self.iter_pieces(self.expr(x.value)))
            else:
                r = t.concat(r, t.one(self.expr(x)))
        return r

    def expr_Dict(self, e):
        r = ('pieces', ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.freeze(self.deref(self.expr(v)))
                r = t.concat(r, t.splice(d))
            else:
                r = t.concat(r, t.one(t.pair(self.freeze(self.expr(k)),
                                             self.expr(v))))
        return self.new_seq('dict', r)

    def expr_Starred(self, e):
        raise Unsupported('starred')

    def comprehension(self, e, kind, add):
        acc = self.new_seq(kind, ('pieces', ()))
        frame = self.frame
        inner = Frame(frame.func, frame.module, frame.cls, parent=frame)
        inner.depth = -1
        first = self.expr(e.generators[0].iter)
        outer_active = self.active()
        saved = self.guard
        self.guard = outer_active
        self.frames.append(inner)
        try:
            def gen(i, source=None):
                g = e.generators[i]
                if g.is_async:
                    raise Unsupported('async')
                src = source if source is not None else self.expr(g.iter)
                loop = Loop()
                inner.loops.append(loop)

                def body(value):
                    self.assign(g.target, value)

                    def conds(ifs):
                        if not ifs:
                            if i + 1 < len(e.generators):
                                gen(i + 1)
                            else:
                                add(acc)
                            return NONE
                        c = self.truth(self.expr(ifs[0]))
                        return self.guarded(c, lambda: conds(ifs[1:]))
                    conds(list(g.ifs))
                try:
                    self.iterate(src, body)
                finally:
                    inner.loops.pop()
            gen(0, first)
        finally:
            self.frames.pop()
            self.guard = saved
        return acc

    def append(self, leaf, value):
        """Add one element to a container leaf."""
        value = self.freeze_if_inner(value)
        cur = self.content(leaf)

        def go(c):
            if c == BOT:
                return BOT
            if c[0] == 'seq':
                kind, base = c[1], ('pieces', c[2])
            else:
                kind, base = 'list', ('pieces', (('splice', c),))
            return t.mkseq(kind, t.concat(base, t.one(value)))
        self.write(('content', leaf), apply(go, cur))
        return NONE

    def freeze_if_inner(self, value):
        # elements stored inside a symbolic iteration are values of that
        # iteration: refs allocated in it must not escape
        if self.depth > 0:
            return self.freeze(value)
        return value

    def add_set(self, leaf, value):
        cur = self.content(leaf)
        value = self.freeze(value)

        def go(c, v):
            if c[0] == 'seq':
                base = ('pieces', c[2])
            else:
                # only a set has such a method; what it has stays
                if c[0] in ('par', 'attr', 'idx', 'gvar'):
                    t.H.sets.add(c)
                base = ('pieces', (('splice', c),))
            return t.mkseq('set', t.concat(base, t.one(v)))
        self.write(('content', leaf), apply(go, cur, value))
        return NONE

    def extend(self, leaf, source, kind=None):
        pieces = self.iter_pieces(source)
        if self.depth > 0:
            pieces = self.freeze(pieces)
        cur = self.content(leaf)

        def go(c, p):
            if c[0] == 'seq':
                k, base = c[1], ('pieces', c[2])
            else:
                k, base = kind or 'list', ('pieces', (('splice', c),))
            return t.mkseq(k, t.concat(base, p))
        self.write(('content', leaf), apply(go, cur, pieces))
        return NONE

    def expr_ListComp(self, e):
        return self.comprehension(
            e, 'list', lambda acc: self.append(acc, self.expr(e.elt)))

    def expr_GeneratorExp(self, e):
        acc = self.comprehension(
            e, 'list', lambda acc: self.append(acc, self.expr(e.elt)))
        self.allocs[acc[1]]['kind'] = 'gen'
        self.store[('content', acc)] = apply(
            lambda c: ('seq', 'gen', c[2]) if c[0] == 'seq' else c,
            self.store[('content', acc)])
        return acc

    def expr_SetComp(self, e):
        return self.comprehension(
            e, 'set', lambda acc: self.add_set(acc, self.expr(e.elt)))

    def expr_DictComp(self, e):
        return self.comprehension(
            e, 'dict', lambda acc: self.set_item(
                acc, self.expr(e.key), self.freeze_if_inner(
                    self.expr(e.value))))

    def expr_Lambda(self, e):
        return self.make_closure(e, self.frame, self.frame.module,
                                 self.frame.cls)

    def make_closure(self, node, frame, module, cls):
        self.next_clos += 1
        self.closures[self.next_clos] = {
            'node': node, 'frame': frame, 'module': module, 'cls': cls,
        }
        return ('clos', self.next_clos)

    def expr_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign_name(e.target.id, v)
        return v

    def expr_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else NONE
        self.append(self.frame_yield(), v)
        return NONE

    def expr_YieldFrom(self, e):
        v = self.expr(e.value)
        self.extend(self.frame_yield(), v)
        return NONE

    def frame_yield(self):
        f = self.frame
        return f.yield_ref

    def expr_Subscript(self, e):
        obj = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.expr(e.slice.lower) if e.slice.lower else NONE
            hi = self.expr(e.slice.upper) if e.slice.upper else NONE
            st = self.expr(e.slice.step) if e.slice.step else NONE
            return self.for_leaves(
                obj, lambda o: self.slice(o, lo, hi, st))
        k = self.expr(e.slice)
        return self.for_leaves(obj, lambda o: self.get_item(o, k))

    def slice(self, leaf, lo, hi, st):
        c = self.deref(leaf)

        def go(c, lo, hi, st):
            if c[0] == 'seq' and all(p[0] == 'one' for p in c[2]) and all(
                    x[0] == 'const' for x in (lo, hi, st)):
                items = list(c[2])[slice(lo[2], hi[2], st[2])]
                return ('seq', c[1], tuple(items))
            if c[0] == 'const' and c[1] == 'str' and all(
                    x[0] == 'const' for x in (lo, hi, st)):
                return const(c[2][slice(lo[2], hi[2], st[2])])
            if lo == NONE and hi == NONE and st == NONE:
                if c[0] == 'seq':
                    return c
                return t.mkseq('list', t.splice(c))
            if (lo == NONE or lo == const(0)) and hi == NONE \
                    and st == const(-1):
                return t.call(('builtin', 'reversed'), [self.freeze(c)])
            if lo == NONE:
                lo = const(0)
            return t.op('slice', self.freeze(c), lo, hi, st)
        r = apply(go, c, self.freeze(lo), self.freeze(hi), self.freeze(st))
        return self.wrap(r)

    def get_item(self, leaf, k):
        if leaf == BOT:
            return BOT
        if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] == 'obj' or \
                (leaf[0] != 'ref' and self.class_of(leaf)):
            func = self.virtual(leaf, '__getitem__')
            if func:
                return self.call_func(func, [leaf, k], {})
        if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] == 'ddict':
            return self.dd_get(leaf, k)
        c = self.content(leaf)
        k = self.freeze(k)

        def go(c, k):
            return self.index_leaf(c, k)
        return self.settle(apply(go, c, k), 'IndexError')

    def settle(self, tree, name):
        """Raise where the tree says so."""
        mark = ('exc', name)
        if tree == mark:
            self.raise_(name)
            return BOT
        if not is_ite(tree) or mark not in leaves(tree):
            return tree
        self.raise_(name, apply(lambda x: T if x == mark else F, tree))
        return apply(lambda x: BOT if x == mark else x, tree)

    def current(self, src, c, level):
        """The element of c at the position of the loop over src."""
        if src == c:
            return ('bv', level)
        plain = lambda x: x[2][0][1] if (   # noqa
            x[0] == 'seq' and x[1] != 'dict' and len(x[2]) == 1
            and x[2][0][0] == 'splice') else x
        if plain(src) == plain(c):
            return ('bv', level)
        if c[0] == 'seq' and c[1] != 'dict' and len(c[2]) == 1 and \
                c[2][0][0] == 'for':
            _, l0, over, tree = c[2][0]
            if plain(over) == plain(src) and tree[0] == 'pieces' and \
                    len(tree[1]) == 1 and tree[1][0][0] == 'one':
                # element of a mapped sequence
                return t.shift(tree[1][0][1], l0, level - l0)
        return None

    def index_leaf(self, c, k):
        if BOT in (c, k):
            return BOT
        if k[0] == 'pos' and self.bvsource.get(k[1]) is not None:
            r = self.current(self.bvsource[k[1]], self.freeze(c), k[1])
            if r is not None:
                return r
        if c[0] == 'seq' and c[1] == 'dict':
            r = None
            rest = list(c[2])
            acc = []
            while rest:
                p = rest.pop()
                if p[0] == 'one' and p[1][0] == 'pair':
                    acc.append((t.cmp('==', k, p[1][1]), p[1][2]))
                elif p[0] == 'splice':
                    r = t.idx(p[1], k)
                    break
                else:
                    r = t.idx(self.freeze(('seq', 'dict',
                                           tuple(rest) + (p,))), k)
                    break
            else:
                r = BOT
            for g, v in reversed(acc):
                r = select(g, v, r)
            return r
        if c[0] == 'seq' and c[1] in ('list', 'tuple', 'gen') and \
                k[0] == 'const' and isinstance(k[2], int):
            ps = c[2]
            if all(p[0] == 'one' for p in ps):
                if -len(ps) <= k[2] < len(ps):
                    return ps[k[2]][1]
                return ('exc', 'IndexError')
            # leading / trailing known elements
            if k[2] < 0:
                tail = []
                for p in reversed(ps):
                    if p[0] != 'one':
                        break
                    tail.append(p[1])
                if -k[2] <= len(tail):
                    return tail[-k[2] - 1]
                if len(ps) == 1 and ps[0][0] == 'splice':
                    return t.idx(ps[0][1], k)
            else:
                head = []
                for p in ps:
                    if p[0] != 'one':
                        break
                    head.append(p[1])
                if k[2] < len(head):
                    return head[k[2]]
                if len(ps) == 1 and ps[0][0] == 'splice':
                    return t.idx(ps[0][1], k)
        return t.idx(self.freeze(c), k)

    def dd_get(self, leaf, k):
        c = self.content(leaf)
        known = not is_ite(k) and (k[0] == 'const' or t.is_idcall(k) and
                                   k[2][0][0] in ('ref', 'par'))
        if c == ('seq', 'ddict', ()) and known:
            c = ('seq', 'dict', ())
        if any(x[:2] == ('seq', 'dict') for x in leaves(c)):
            # an ordinary dictionary of lists
            i = self.known_entry(c, k) if known else None
            if i is None:
                raise Unsupported('defaultdict')
            if i >= 0:
                return c[2][i][1][2]
            item = self.new_seq('list', ('pieces', ()))
            self.write(('content', leaf), t.mkseq('dict', t.concat(
                ('pieces', c[2]), t.one(t.pair(k, item)))))
            return item
        return ('bound', leaf, ('ddget', k))

    def known_entry(self, c, k):
        """Where a dictionary has the key, -1 if nowhere, None if that is
        not known."""
        if c[0] != 'seq' or is_ite(k) or any(
                p[0] != 'one' or p[1][0] != 'pair' for p in c[2]):
            return None
        r = [t.cmp('==', k, p[1][1]) for p in c[2]]
        if any(x not in (T, F) for x in r):
            return None
        return r.index(T) if T in r else -1

    # ------------------------------------------------------------ calls

    def expr_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in self.frame.env:
            return self.make_super(e)
        args = []
        kw = {}
        if isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, ast.Call) and isinstance(
                e.func.value.func, ast.Name) and \
                e.func.value.func.id == 'super':
            func = self.super_method(e.func.value, e.func.attr)
        else:
            func = self.expr(e.func)
        for a in e.args:
            if isinstance(a, ast.Starred):
                pieces = self.iter_pieces(self.expr(a.value))
                args.append(('*', pieces))
            else:
                args.append(self.expr(a))
        for k in e.keywords:
            if k.arg is None:
                kw['**'] = self.expr(k.value)
            else:
                kw[k.arg] = self.expr(k.value)
        return self.call(func, args, kw)

    def make_super(self, e):
        raise Unsupported('bare super object')

    def super_method(self, e, name):
        frame = self.frame
        f = frame
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            raise Unsupported('super outside class')
        if e.args:
            cterm = self.expr(e.args[0])
            if cterm[0] != 'cls':
                raise Unsupported('super class')
            start = self.p.classes[cterm[1]]
            selfterm = self.expr(e.args[1])
        else:
            start = f.cls
            g = frame
            while g is not None and 'self' not in g.env:
                g = g.parent
            if g is None:
                raise Unsupported('super self')
            selfterm = g.env['self']
        if is_ite(selfterm):
            raise Unsupported('super self')
        info = self.class_of(selfterm)
        if not info:
            raise Unsupported('super type')
        mro = info[0].mro
        if start not in mro:
            raise Unsupported('super mro')
        for c in mro[mro.index(start) + 1:]:
            if name in c.members:
                kind, entry = c.members[name]
                if kind == 'func':
                    return ('bound', selfterm, entry.qual)
                raise Unsupported('super attr')
        if name == '__init__':
            return ('builtin', 'object_init')
        raise Unsupported('super %s' % name)

    def call(self, func, args, kw):
        return self.for_leaves(func, lambda f: self.call_leaf(f, args, kw))

    def call_leaf(self, f, args, kw):
        tag = f[0]
        if f == BOT:
            return BOT
        if tag == 'func':
            func = self.p.functions[f[1]]
            return self.call_func(func, args, kw)
        if tag == 'bound':
            return self.call_bound(f, args, kw)
        if tag == 'clos':
            return self.call_closure(f, args, kw)
        if tag == 'cls':
            return self.construct(f, args, kw)
        if tag == 'builtin':
            return self.call_builtin(f[1], args, kw)
        if tag == 'ext':
            return self.call_ext(f, args, kw)
        if tag == 'attr' and self.class_of(f[1]) is None and isinstance(
                f[2], str):
            # a method of a container, string or unknown object
            return self.call_method(f[1], f[2], args, kw)
        if tag == 'lam':
            n = f[2]
            if len(args) == n and not kw and not any(
                    isinstance(a, tuple) and a[0] == '*' for a in args):
                return t.subst(f[3], {('bv', f[1] + i): self.freeze(a)
                                      for i, a in enumerate(args)})
        # callable object
        info = self.class_of(f) if tag != 'lam' else None
        if info:
            m = self.virtual(f, '__call__')
            if m and m.qual not in self.opaque:
                return self.call_func(m, [f] + list(args), kw)
            if m is None and tag != 'ref':
                return self.opaque_call(self.freeze(f), args, kw)
            if m and m.qual in self.opaque:
                self.hits.add(m.qual)
                return self.opaque_call(('func', m.qual), [f] + list(args),
                                        kw)
        return self.opaque_call(self.freeze(f), args, kw)

    def spread_args(self, args, n, defaults, kw):
        """f(*x) where f takes a fixed number of arguments."""
        if defaults or not args or [a[0] for a in args].index('*') != len(
                args) - 1:
            return args
        p = args[-1][1]
        if is_ite(p) or len(p[1]) != 1 or p[1][0][0] != 'splice':
            return args
        n -= len(args) - 1 + len(kw)
        return list(args[:-1]) + [
            t.idx(p[1][0][1], const(i)) for i in range(n)]

    def flat_args(self, args):
        """Arguments as terms; raises if a star argument is symbolic."""
        out = []
        for a in args:
            if a[0] == '*':
                p = a[1]
                if is_ite(p) or any(x[0] != 'one' for x in p[1]):
                    raise Unsupported('symbolic *args')
                out.extend(x[1] for x in p[1])
            else:
                out.append(a)
        return out

    def opaque_call(self, f, args, kw):
        flat = []
        for a in args:
            if a[0] == '*':
                flat.append(t.mkseq('gen', self.freeze(a[1])))
                f = ('op', 'starcall', (f,))
            else:
                flat.append(self.freeze(self.snapshot(a)))
        kws = sorted((k, self.freeze(self.snapshot(v)))
                     for k, v in kw.items())
        r = t.call(f, flat, kws)
        return r

    def log(self, name, term):
        """Record an effectful call in the trace of the function."""
        loc = ('content', ('par', 'calls of ' + name))
        if loc not in self.store:
            self.store[loc] = t.mkseq('list', ('pieces', ()))
        cur = self.store[loc]
        self.write(loc, apply(
            lambda c: t.mkseq('list', t.concat(('pieces', c[2]), t.one(term)))
            if c[0] == 'seq' else ('unk', 'trace'), cur))

    def snapshot(self, a):
        return apply(lambda x: self.content(x) if x[0] != 'ref' else x, a)

    def call_func(self, func, args, kw):
        qual = func.qual
        name = qual.split(':')[-1]
        hook = self.contract(self, func, args, kw) if self.contract else None
        if hook is not None:
            return hook
        if qual in self.opaque or name in self.opaque or \
                self.stack.count(qual) > 0 or len(self.stack) > 60:
            self.assumed.add(qual)
            self.hits |= {qual, name} & self.opaque
            if not self.hits & {qual, name}:
                self.recursed.add(qual)
            names = [p.arg for p in func.node.args.args]
            try:
                bound = self.bind(func.node.args, args, kw, func.module, None)
            except BadCall:
                self.raise_('TypeError')
                return BOT
            except Unsupported:
                bound = None
            if bound is not None:
                for n in names:
                    if self.p.only_kinds(func, n):
                        bound[n] = self.sorted_kinds(bound[n])
            if bound is not None and not func.node.args.kwarg:
                flat = [bound[n] for n in names]
                if func.node.args.vararg:
                    flat.append(bound[func.node.args.vararg.arg])
                self.notes.add('call ' + name)
                r = self.opaque_call(('func', qual), flat, {})
            else:
                r = self.opaque_call(('func', qual), args, kw)
            if qual in self.effectful or name in self.effectful:
                self.log(name, r)
                if args and args[0][0] != '*' and self.p.fluent(func):
                    return args[0]
            return r
        if func.decorators and not func.is_property and not func.is_static \
                and not func.is_classmethod:
            return self.call(self.decorated(func, None), args, kw)
        if len(func.decorators) > 1:
            raise Unsupported('decorators of %s' % name)
        self.inlined.add(qual)
        self.stack.append(qual)
        before, count = dict(self.store), self.next_alloc
        try:
            r = self.run(func.node, args, kw, func.module, func.cls, None,
                         func, func.is_gen)
        finally:
            self.stack.pop()
        if qual in self.recursed and any(
                self.store[k] != before.get(k) for k in self.store
                if not self.made_since(k, count)):
            # what the call left as it is does is not known
            raise Unsupported('recursive %s changes something' % name)
        return r

    def made_since(self, loc, count):
        x = loc[1]
        return isinstance(x, tuple) and x[0] == 'ref' and x[1] > count

    def call_closure(self, f, args, kw):
        info = self.closures[f[1]]
        node = info['node']
        if 'bound' in info:
            args = [info['bound']] + list(args)
        key = 'clos:%d' % id(node)
        if self.stack.count(key) > 1:
            raise Unsupported('recursive closure')
        self.stack.append(key)
        try:
            if isinstance(node, ast.Lambda):
                return self.run(node, args, kw, info['module'], info['cls'],
                                info['frame'], None, False)
            from .load import has_yield
            if 'qual' in info:
                self.inlined.add(info['qual'])
            return self.run(node, args, kw, info['module'], info['cls'],
                            info['frame'], None, has_yield(node))
        finally:
            self.stack.pop()

    def bind(self, spec, args, kw, module, parent):
        params = [a.arg for a in spec.posonlyargs + spec.args]
        env = {}
        kw = dict(kw)
        star = [a for a in args if a[0] == '*']
        if star and not spec.vararg:
            args = self.spread_args(args, len(params), spec.defaults, kw)
            args = self.flat_args(args)
            star = []
        if star:
            # positional parameters first
            flat = []
            rest = ('pieces', ())
            seen = False
            for a in args:
                if a[0] == '*':
                    p = a[1]
                    if not seen and not is_ite(p) and all(
                            x[0] == 'one' for x in p[1]):
                        flat.extend(x[1] for x in p[1])
                        continue
                    seen = True
                    rest = t.concat(rest, p)
                elif not seen:
                    flat.append(a)
                else:
                    rest = t.concat(rest, t.one(a))
            if len(flat) < len(params):
                if seen:
                    raise Unsupported('symbolic *args')
            extra = flat[len(params):]
            env.update(zip(params, flat))
            pieces = t.concat(*([('pieces', ())]
                                + [t.one(x) for x in extra] + [rest]))
            env[spec.vararg.arg] = t.mkseq('tuple', pieces)
        else:
            args = list(args)
            env.update(zip(params, args))
            extra = args[len(params):]
            if spec.vararg:
                env[spec.vararg.arg] = t.mkseq('tuple', t.concat(*(
                    [('pieces', ())] + [t.one(x) for x in extra])))
            elif extra:
                raise BadCall('too many arguments')
        star_kw = kw.pop('**', None)
        for k in list(kw):
            if k in params and k not in env:
                env[k] = kw.pop(k)
        kwonly = [a.arg for a in spec.kwonlyargs]
        for k in list(kw):
            if k in kwonly:
                env[k] = kw.pop(k)
        if star_kw is not None and not spec.kwarg:
            raise Unsupported('**kwargs')
        if spec.kwarg:
            r = ('pieces', ())
            for k, v in kw.items():
                r = t.concat(r, t.one(t.pair(const(k), v)))
            if star_kw is not None:
                r = t.concat(r, t.splice(self.freeze(self.deref(star_kw))))
            env[spec.kwarg.arg] = self.new_seq('dict', r)
        elif kw:
            raise BadCall('unexpected keyword %s' % sorted(kw))
        # defaults
        defaults = spec.defaults
        pos = params[len(params) - len(defaults):]
        missing = []
        for name, node in zip(pos, defaults):
            if name not in env:
                missing.append((name, node))
        for a, node in zip(spec.kwonlyargs, spec.kw_defaults):
            if a.arg not in env and node is not None:
                missing.append((a.arg, node))
        if missing:
            saved = self.frames
            self.frames = [Frame(None, module, None, parent)]
            try:
                for name, node in missing:
                    env[name] = self.default_value(node)
            finally:
                self.frames = saved
        for name in params + kwonly:
            if name not in env:
                raise BadCall('missing argument %s' % name)
        return env

    def default_value(self, node):
        saved = (self.guard, self.exc)
        self.guard, self.exc = T, NONE
        try:
            return self.expr(node)
        finally:
            self.guard, self.exc = saved

    def run(self, node, args, kw, module, cls, parent, func, is_gen):
        try:
            env = self.bind(node.args, args, kw, module, parent)
        except BadCall:
            self.raise_('TypeError')
            return BOT
        frame = Frame(func, module, cls, parent)
        frame.env = env
        frame.depth = self.depth
        outer = self.active() if self.frames else self.guard
        saved = self.guard
        self.guard = outer
        self.frames.append(frame)
        try:
            if is_gen:
                frame.yield_ref = self.new_seq('gen', ('pieces', ()))
                self.allocs[frame.yield_ref[1]]['kind'] = 'gen'
            if isinstance(node, ast.Lambda):
                return self.expr(node.body)
            self.block(node.body)
            if is_gen:
                return frame.yield_ref
            if frame.dead == F:
                return NONE
            if frame.dead == outer or frame.dead == T:
                return frame.ret
            return select(frame.dead, frame.ret, NONE)
        finally:
            self.frames.pop()
            self.guard = saved

    def construct(self, f, args, kw):
        cls = self.p.classes[f[1]]
        if 'new ' + cls.qual.split(':')[-1] in self.opaque:
            self.hits.add('new ' + cls.qual.split(':')[-1])
            return self.opaque_construct(cls, f, args, kw)
        if any(not isinstance(b, ClassInfo) and b[1] not in ('object',)
               for c in cls.mro for b in c.bases):
            return self.opaque_call(f, args, kw)
        owner, entry = self.p.member(cls, '__new__')
        if entry:
            raise Unsupported('__new__')
        ref = self.alloc('obj', ('cls', cls.qual, True))
        owner, entry = self.p.member(cls, '__init__')
        if entry is None:
            if args or kw:
                self.raise_('TypeError')
            return ref
        if entry[0] != 'func':
            raise Unsupported('__init__')
        self.call_func(entry[1], [ref] + list(args), kw)
        return ref

    def opaque_construct(self, cls, f, args, kw):
        owner, entry = self.p.member(cls, '__init__')
        if entry and entry[0] == 'func':
            self.assumed.add(entry[1].qual)
            spec = entry[1].node.args
            if not spec.vararg and not spec.kwarg:
                try:
                    env = self.bind(spec, [NONE] + list(args), kw,
                                    entry[1].module, None)
                except BadCall:
                    self.raise_('TypeError')
                    return BOT
                args = [env[a.arg] for a in spec.args[1:]]
                kw = {}
        return self.opaque_call(f, args, kw)

    def call_bound(self, f, args, kw):
        _, leaf, name = f
        if isinstance(name, str) and ':' in name:
            func = self.p.functions[name]
            if func.is_classmethod:
                return self.call_func(func, [self.class_term(leaf)]
                                      + list(args), kw)
            return self.call_func(func, [leaf] + list(args), kw)
        if isinstance(name, str) and name.startswith('.'):
            r = self.opaque_method(leaf, name[1:], args, kw)
            if name in self.effectful:
                self.log(name, r)
            return r
        return self.call_method(leaf, name, args, kw)

    def sorted_kinds(self, v):
        """The order of the classes does not matter to isinstance."""
        def go(x):
            c = self.content(x) if x[0] == 'ref' else x
            if not is_ite(c) and c[0] == 'seq' and all(
                    p[0] == 'one' and p[1][0] == 'cls' for p in c[2]):
                return ('seq', 'tuple', tuple(sorted(c[2], key=repr)))
            return x
        return apply(go, v)

    def opaque_method(self, leaf, name, args, kw):
        self.hits |= {'.' + str(name)} & self.opaque
        flat = []
        for a in args:
            if a[0] == '*':
                flat.append(('op', 'star', (t.mkseq(
                    'gen', self.freeze(a[1])),)))
            else:
                flat.append(self.freeze(self.snapshot(a)))
        kws = sorted((k, self.freeze(self.snapshot(v)))
                     for k, v in kw.items())
        info = self.class_of(leaf)
        self.assumed |= self.p.methods_named(str(name))
        for q in self.p.methods_named(str(name)):
            func = self.p.functions[q]
            params = [a.arg for a in func.node.args.args][1:]
            flat = [self.sorted_kinds(v) if i < len(params) and
                    self.p.only_kinds(func, params[i]) else v
                    for i, v in enumerate(flat)]
            kws = [(k, self.sorted_kinds(v) if self.p.only_kinds(func, k)
                    else v) for k, v in kws]
        if info:
            # positional form of keyword arguments, when all the
            # implementations agree on the signature
            sigs = set()
            for c in self.p.subclasses(info[0]):
                owner, entry = self.p.member(c, name)
                if entry and entry[0] == 'func':
                    sigs.add(tuple(a.arg for a in entry[1].node.args.args))
            if len(sigs) == 1 and kws:
                params = list(sigs.pop())[1:]
                d = dict(kws)
                while len(flat) < len(params) and params[len(flat)] in d:
                    flat.append(d.pop(params[len(flat)]))
                kws = sorted(d.items())
        return t.mcall(self.freeze(self.snapshot(leaf)), name, flat, kws)

    def call_method(self, leaf, name, args, kw):
        """Methods of built-in containers, strings and unknown objects."""
        if isinstance(name, tuple) and name[0] == 'ddget':
            raise Unsupported('defaultdict item')
        if leaf[0] == 'bound' and isinstance(leaf[2], tuple):
            # d[k].append(v) on a defaultdict
            _, d, (_, k) = leaf
            if name == 'append' and len(args) == 1:
                cur = self.content(d)
                v = self.freeze_if_inner(args[0])

                def go(c):
                    return t.mkseq('ddict', t.concat(
                        ('pieces', c[2]),
                        t.one(t.pair(self.freeze(k), v))))
                self.write(('content', d), apply(go, cur))
                return NONE
            raise Unsupported('defaultdict')
        fn = getattr(self, 'method_' + name, None)
        if fn:
            r = fn(leaf, args, kw)
            if r is not None:
                return r
        return self.opaque_method(leaf, name, args, kw)

    def is_container(self, leaf):
        return (leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] != 'obj') \
            or leaf[0] == 'seq' or self.class_of(leaf) is None

    def method_append(self, leaf, args, kw):
        if len(args) == 1 and not kw:
            return self.append(leaf, args[0])

    def method_add(self, leaf, args, kw):
        if len(args) == 1 and not kw:
            return self.add_set(leaf, args[0])

    def method_extend(self, leaf, args, kw):
        if len(args) == 1:
            return self.extend(leaf, args[0])

    def method_update(self, leaf, args, kw):
        if len(args) == 1 and not kw:
            c = self.content(leaf)
            if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] == 'set':
                return self.extend(leaf, args[0], 'set')
            a = args[0]
            fa = self.freeze(self.deref(a))
            if not is_ite(fa) and fa[0] == 'seq' and fa[1] == 'dict':
                cur = self.content(leaf)

                def go(c):
                    base = ('pieces', c[2]) if c[0] == 'seq' else (
                        'pieces', (('splice', c),))
                    return t.mkseq('dict', t.concat(base,
                                                    ('pieces', fa[2])))
                self.write(('content', leaf), apply(go, cur))
                return NONE
            if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] == 'dict':
                self.write(('content', leaf), t.mkseq('dict', t.concat(
                    t.splice(self.content(leaf)), t.splice(fa))))
                return NONE
            return self.extend(leaf, a, 'set')
        raise Unsupported('update')

    def method_insert(self, leaf, args, kw):
        if len(args) == 2 and args[0] == const(0):
            cur = self.content(leaf)
            v = self.freeze_if_inner(args[1])

            def go(c):
                k, base = (c[1], ('pieces', c[2])) if c[0] == 'seq' else (
                    'list', ('pieces', (('splice', c),)))
                return t.mkseq(k, t.concat(t.one(v), base))
            self.write(('content', leaf), apply(go, cur))
            return NONE
        return self.mutate(leaf, 'insert', args)

    def mutate(self, leaf, name, args):
        """A mutator without a closed form: new content is a term."""
        cur = self.freeze(self.content(leaf))
        flat = [self.freeze(a) for a in self.flat_args(args)]
        self.write(('content', leaf), t.op('after_' + name, cur, *flat))
        return t.op('result_' + name, cur, *flat)

    def method_pop(self, leaf, args, kw):
        args = self.flat_args(args)
        cur = self.content(leaf)
        kind = self.allocs[leaf[1]]['kind'] if leaf[0] == 'ref' else None
        if kw or len(args) > 1 or kind == 'dict':
            return self.mutate(leaf, 'pop', args)
        k = args[0] if args else const(-1)
        if k not in (const(0), const(-1)):
            return self.mutate(leaf, 'pop', args)
        item = self.settle(apply(lambda c: self.index_leaf(c, k), cur),
                           'IndexError')

        def go(c):
            if c[0] == 'seq' and all(p[0] == 'one' for p in c[2]) and c[2]:
                return ('seq', c[1], c[2][1:] if k == const(0)
                        else c[2][:-1])
            if c[0] == 'seq' and len(c[2]) == 1 and \
                    c[2][0][0] == 'splice':
                c = c[2][0][1]
            elif c[0] == 'seq' and c[2] and k == const(0) and \
                    c[2][0][0] == 'one':
                return ('seq', c[1], c[2][1:])
            elif c[0] == 'seq' and c[2] and k == const(-1) and \
                    c[2][-1][0] == 'one':
                return ('seq', c[1], c[2][:-1])
            if k == const(0):
                r = t.op('slice', self.freeze(c), const(1), NONE, NONE)
            else:
                r = t.op('slice', self.freeze(c), const(0), const(-1), NONE)
            return t.mkseq('list', t.splice(r))
        self.write(('content', leaf), apply(go, cur))
        return item

    def method_popleft(self, leaf, args, kw):
        return self.method_pop(leaf, [const(0)], kw)

    def method_sort(self, leaf, args, kw):
        if args:
            return None
        cur = self.content(leaf)
        r = self.sorted_(cur, kw)
        self.write(('content', leaf), t.mkseq('list', t.splice(r)))
        return NONE

    def method_reverse(self, leaf, args, kw):
        cur = self.content(leaf)
        self.write(('content', leaf),
                   t.mkseq('list', t.splice(self.reversed_(cur))))
        return NONE

    def method_remove(self, leaf, args, kw):
        if self.is_container(leaf):
            return self.mutate(leaf, 'remove', args)

    def method_clear(self, leaf, args, kw):
        if leaf[0] == 'ref':
            k = self.allocs[leaf[1]]['kind']
            self.write(('content', leaf), ('seq', k, ()))
            return NONE
        return self.mutate(leaf, 'clear', args)

    def method_discard(self, leaf, args, kw):
        return self.mutate(leaf, 'discard', args)

    def method_setdefault(self, leaf, args, kw):
        args = self.flat_args(args)
        kind = self.allocs[leaf[1]]['kind'] if leaf[0] == 'ref' else None
        if kind in ('dict', 'ddict') and len(args) == 2 and \
                args[1][0] == 'ref' and \
                self.content(args[1]) == ('seq', 'list', ()):
            c = self.content(leaf)
            if all(x[0] == 'seq' and (x[1] == 'ddict' or not x[2] or all(
                    p[0] == 'splice' and p[1][0] == 'lv' for p in x[2]))
                    for x in leaves(c)):
                self.allocs[leaf[1]]['kind'] = 'ddict'
                self.store[('content', leaf)] = apply(
                    lambda x: ('seq', 'ddict', x[2]), c)
                return self.dd_get(leaf, args[0])
        if kw or self.class_of(leaf) or kind == 'ddict' or not 1 <= len(
                args) <= 2 or any(
                    x[0] in ('ref', 'clos', 'bound') for x in leaves(
                        args[-1])):
            raise Unsupported('setdefault')
        # a key that is there keeps its value
        value = self.method_get(leaf, args, {})
        if any(x[0] in ('ref', 'clos', 'bound') for x in leaves(value)):
            raise Unsupported('setdefault')
        c = self.content(leaf)
        has = apply(lambda x, k: t.cmp('in', k, self.freeze(x)), c,
                    self.freeze(args[0]))
        self.guarded(bnot(has), lambda: self.set_item(
            leaf, args[0], args[1] if len(args) > 1 else NONE))
        return value

    def method_copy(self, leaf, args, kw):
        if self.is_container(leaf):
            c = self.content(leaf)
            return self.wrap_copy(c)

    def wrap_copy(self, c):
        kinds = {x[1] for x in leaves(c) if x[0] == 'seq'}
        if len(kinds) == 1:
            k = kinds.pop()
            return self.alloc(k, ('list', None), c)
        return self.alloc('list', ('list', None),
                          t.mkseq('list', t.splice(c)))

    def method_items(self, leaf, args, kw):
        return self.dict_view(leaf, 'items')

    def method_values(self, leaf, args, kw):
        return self.dict_view(leaf, 'values')

    def method_keys(self, leaf, args, kw):
        return self.dict_view(leaf, 'keys')

    def dict_view(self, leaf, which):
        if self.class_of(leaf):
            return None
        c = self.content(leaf)
        level = self.depth

        def view(k, v):
            if which == 'items':
                return t.mkseq('tuple', t.concat(t.one(k), t.one(v)))
            return v if which == 'values' else k

        def conv(p):
            r = ('pieces', ())
            for x in p[1]:
                if x[0] == 'one':
                    r = t.concat(r, t.one(view(x[1][1], x[1][2])))
                elif x[0] == 'splice':
                    r = t.concat(r, over(x[1]))
                else:
                    r = t.concat(r, t.mkfor(x[1], x[2], apply(conv, x[3])))
            return r

        def over(d):
            if which == 'keys':
                return t.splice(d)
            bv = ('bv', level)
            self.keyed.add(d)
            return t.mkfor(level, d, t.one(view(bv, t.idx(d, bv))))

        def go(c):
            if c == BOT:
                return BOT
            if c[0] == 'seq' and c[1] == 'dict':
                if not t.distinct('dict', c[2]):
                    return t.mkseq('gen', t.splice(
                        ('op', which, (self.freeze(c),))))
                return t.mkseq('gen', conv(('pieces', c[2])))
            return t.mkseq('gen', over(self.freeze(c)))
        return apply(go, c)

    def method_get(self, leaf, args, kw):
        if self.class_of(leaf) or kw:
            return None
        args = self.flat_args(args)
        default = args[1] if len(args) > 1 else NONE
        k = self.freeze(args[0])
        c = self.content(leaf)
        has = apply(lambda x, k: t.cmp('in', k, self.freeze(x)), c, k)
        value = apply(lambda x, k: self.index_leaf(x, k), c, k)
        return select(has, value, default)

    def method_index(self, leaf, args, kw):
        return None

    def method_join(self, leaf, args, kw):
        if len(args) == 1:
            pieces = self.freeze(self.iter_pieces(args[0]))

            def go(s, p):
                if BOT in (s, p):
                    return BOT
                if all(x[0] == 'one' for x in p[1]):
                    out = ()
                    for i, x in enumerate(p[1]):
                        if i and s != const(''):
                            out += t.str_pieces(s)
                        out += t.str_pieces(x[1])
                    return t.mkstr(out)
                return ('mcall', s, 'join', (('seq', 'gen', p[1]),), ())
            return apply(go, self.freeze(leaf), pieces)

    def method_format(self, leaf, args, kw):
        if leaf[0] == 'const' and leaf[1] == 'str' and '**' not in kw:
            return self.format_(leaf[2], self.flat_args(args), kw)

    def method_lower(self, leaf, args, kw):
        if leaf[0] == 'const' and not args:
            return const(leaf[2].lower())

    def method_union(self, leaf, args, kw):
        if self.class_of(leaf):
            return None
        r = t.splice(self.freeze(self.deref(leaf)))
        for a in self.flat_args(args):
            r = t.concat(r, self.freeze(self.iter_pieces(a)))
        return self.alloc('set', ('list', None), t.mkseq('set', r))

    def set_method(self, leaf, args, kw):
        if self.class_of(leaf) or kw or len(args) != 1 or \
                args[0][0] == '*':
            return None
        return self.freeze(self.deref(leaf))

    def loop_source(self, level):
        """What the loop around this place iterates over."""
        if level < self.depth:
            return self.bvsource.get(level)

    def method_issuperset(self, leaf, args, kw):
        s = self.set_method(leaf, args, kw)
        if s is not None:
            return bnot(self.quantify(self.flat_args(args)[0], True,
                                      lambda v: t.cmp('in', v, s)))

    def method_isdisjoint(self, leaf, args, kw):
        s = self.set_method(leaf, args, kw)
        if s is not None:
            return bnot(self.quantify(self.flat_args(args)[0], False,
                                      lambda v: t.cmp('in', v, s)))

    def method_issubset(self, leaf, args, kw):
        s = self.set_method(leaf, args, kw)
        if s is not None:
            other = self.freeze(self.deref(self.flat_args(args)[0]))
            return bnot(self.quantify(leaf, True, lambda v: apply(
                lambda o: t.cmp('in', v, o), other)))

    def method_difference(self, leaf, args, kw):
        s = self.set_method(leaf, args, kw)
        if s is not None:
            return self.wrap(self.sifted(s, self.freeze(self.deref(
                self.flat_args(args)[0])), False))

    def method_intersection(self, leaf, args, kw):
        s = self.set_method(leaf, args, kw)
        if s is not None:
            return self.wrap(self.sifted(s, self.freeze(self.deref(
                self.flat_args(args)[0])), True))

    # ------------------------------------------------------------ builtins

    def call_builtin(self, name, args, kw):
        fn = getattr(self, 'builtin_' + name, None)
        if name in ARITY and all(a[0] != '*' for a in args) and not kw:
            low, high = ARITY[name]
            if not low <= len(args) <= high:
                self.raise_('TypeError')
                return BOT
        if fn:
            r = fn(args, kw)
            if r is not None:
                return r
        return self.opaque_call(('builtin', name), args, kw)

    def builtin_object_init(self, args, kw):
        return NONE

    def builtin_len(self, args, kw):
        a, = self.flat_args(args)

        def go(leaf):
            info = self.class_of(leaf)
            if info:
                m = self.virtual(leaf, '__len__')
                if m:
                    return self.call_func(m, [leaf], {})
            return t.length(self.freeze(self.deref(leaf)))
        return self.for_leaves(a, go)

    def builtin_isinstance(self, args, kw):
        obj, classes = self.flat_args(args)
        quals = self.class_list(classes)

        def go(leaf):
            r = F
            for q in quals:
                x = leaf
                if not isinstance(q, str):
                    r = bor(r, t.truth(t.call(
                        ('builtin', 'isinstance'),
                        [self.freeze(leaf), q])))
                    continue
                if leaf[0] in ('clos', 'bound'):
                    return F
                if leaf[0] == 'ref' and self.allocs[leaf[1]]['kind'] == \
                        'obj':
                    cls = self.p.classes[self.allocs[leaf[1]]['type'][1]]
                    target = self.p.classes.get(q)
                    r = bor(r, T if target in cls.mro or q == 'object'
                            else F)
                    continue
                r = bor(r, self.isinst_leaf(
                    self.freeze(leaf) if leaf[0] != 'ref' else leaf, q))
            return r
        return apply(go, obj)

    def class_list(self, tree):
        tree = self.deref(tree)
        if is_ite(tree):
            raise Unsupported('class tuple')
        if tree[0] == 'cls':
            return [tree[1]]
        if tree[0] in ('builtin', 'ext'):
            return [tree[1]]
        if tree[0] == 'seq':
            r = []
            for p in tree[2]:
                if p[0] != 'one':
                    raise Unsupported('class tuple')
                r.extend(self.class_list(p[1]))
            return r
        return [self.freeze(tree)]

    def builtin_issubclass(self, args, kw):
        a, classes = self.flat_args(args)
        if is_ite(a) or is_ite(classes):
            return None
        if a[0] == 'cls' and self.deref(classes)[0] in ('cls', 'seq'):
            cls = self.p.classes[a[1]]
            quals = self.class_list(classes)
            return T if any(self.p.classes.get(q) in cls.mro
                            for q in quals) else F
        return t.truth(t.call(('builtin', 'issubclass'),
                              [self.freeze(a), self.freeze(classes)]))

    def builtin_type(self, args, kw):
        args = self.flat_args(args)
        if len(args) == 1:
            return self.class_term(args[0])

    def builtin_id(self, args, kw):
        a, = self.flat_args(args)

        def go(x):
            if x[0] == 'ref':
                return ('call', ('builtin', 'id'), (x,), ())
            return t.call(('builtin', 'id'), [self.freeze(x)])
        return apply(go, a)

    def builtin_hash(self, args, kw):
        a, = self.flat_args(args)

        def go(leaf):
            m = self.virtual(leaf, '__hash__')
            if m and m.qual not in self.opaque:
                return self.call_func(m, [leaf], {})
            return t.call(('builtin', 'hash'), [self.freeze(leaf)])
        return self.for_leaves(a, go)

    def seq_pieces(self, a, partial=False):
        return self.freeze(self.iter_pieces(a, partial))

    def builtin_any(self, args, kw):
        a, = self.flat_args(args)
        return self.quantify(a, False)

    def builtin_all(self, args, kw):
        a, = self.flat_args(args)
        return bnot(self.quantify(a, True))

    def quantify(self, source, negate, test=None):
        """Exists an element that is true (or false, if negate)."""
        def one(v):
            c = apply(test, v) if test else self.truth(v)
            return bnot(c) if negate else c

        def go(p):
            if p == BOT:
                return BOT
            r = F
            for x in p[1]:
                if x[0] == 'one':
                    r = bor(r, one(x[1]))
                elif x[0] == 'splice':
                    level = self.depth
                    self.bvtypes[level] = self.elem_type(x[1])
                    r = bor(r, t.exists(level, x[1], one(('bv', level))))
                else:
                    saved = self.bvtypes.get(x[1])
                    self.bvtypes[x[1]] = self.elem_type(x[2])
                    r = bor(r, t.exists(x[1], x[2], apply(go, x[3])))
                    self.bvtypes[x[1]] = saved
            return r
        return apply(go, self.seq_pieces(source, True))

    def builtin_sum(self, args, kw):
        args = self.flat_args(args)
        pieces = self.seq_pieces(args[0])
        start = args[1] if len(args) > 1 else const(0)

        def go(p):
            if p == BOT:
                return BOT
            r = start
            for x in p[1]:
                if x[0] == 'one':
                    r = t.op('+', r, x[1])
                elif x[0] == 'splice':
                    r = t.lin_add(r, ('sum', self.depth, x[1],
                                      ('bv', self.depth)))
                else:
                    body = apply(lambda q: sum_leaf(q), x[3])
                    r = t.lin_add(r, ('sum', x[1], x[2], body))
            return r

        def sum_leaf(q):
            if q == BOT:
                return BOT
            r = const(0)
            for y in q[1]:
                if y[0] != 'one':
                    raise Unsupported('sum')
                r = t.lin_add(r, y[1])
            return r
        return apply(go, pieces)

    # the order of addresses is nobody's order
    def builtin_sorted(self, args, kw):
        a, = self.flat_args(args)
        return self.sorted_(a, kw)

    def sorted_(self, a, kw):
        pieces = self.seq_pieces(a)
        kws = []
        for k, v in sorted(kw.items()):
            if k == 'reverse':
                v = t.truth(self.freeze(v))
                if v == F:
                    continue
            if k == 'key':
                if v == NONE:
                    continue
                v = self.function_term(v)
            kws.append((k, self.freeze(v)))
        by_address = any(
            k == 'key' and (v in ADDRESSES or v[0] == 'lam' and v[3] == t.call(
                ADDRESSES[0], [('bv', v[1])])) for k, v in kws)

        def go(p):
            if p != BOT and not p[1]:
                return ('seq', 'list', ())
            if p != BOT and by_address:
                return ('seq', 'list', (
                    ('splice', t.unordered(t.mkseq('gen', p))),))
            if p != BOT and not kws and all(
                    x[0] == 'one' and x[1][0] == 'const'
                    and x[1][1] == 'int' for x in p[1]):
                return ('seq', 'list', tuple(sorted(
                    p[1], key=lambda x: x[1][2])))
            return t.call(('builtin', 'sorted'), [t.mkseq('gen', p)], kws)
        return apply(go, pieces)

    def function_term(self, v):
        """A function value as a lambda term."""
        if v[0] == 'clos':
            return self.freeze(v)
        if v[0] in ('func', 'bound') and not is_ite(v):
            level = self.depth
            saved = self.save()
            try:
                self.depth += 1
                self.bvtypes.pop(level, None)
                r = self.freeze(self.call(v, [('bv', level)], {}))
            except Unsupported:
                return self.freeze(v)
            finally:
                self.restore(saved)
            return ('lam', level, 1, r)
        if v[0] == 'call' and v[1] == ('ext', 'operator.attrgetter') and \
                len(v[2]) == 1:
            level = self.depth
            return ('lam', level, 1, t.attr(('bv', level), v[2][0][2]))
        if v[0] == 'call' and v[1] == ('ext', 'operator.itemgetter') and \
                len(v[2]) == 1:
            level = self.depth
            return ('lam', level, 1, t.idx(('bv', level), v[2][0]))
        return v

    def reversed_(self, a):
        c = self.deref(a)

        def go(c):
            if c == BOT:
                return BOT
            if c[0] == 'seq' and all(p[0] == 'one' for p in c[2]):
                return ('seq', 'gen', tuple(reversed(c[2])))
            if c[0] == 'seq' and len(c[2]) == 1 and c[2][0][0] == 'splice':
                c = c[2][0][1]
            return t.call(('builtin', 'reversed'), [self.freeze(c)])
        return apply(go, c)

    def builtin_reversed(self, args, kw):
        a, = self.flat_args(args)
        return self.reversed_(a)

    def builtin_enumerate(self, args, kw):
        args = self.flat_args(args)
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        if is_ite(start):
            raise Unsupported('enumerate')
        pieces = self.iter_pieces(args[0])
        level = self.depth

        def tup(i, v):
            n = i if i == unknown else t.op('+', i, start)
            return t.mkseq('tuple', t.concat(t.one(n), t.one(v)))

        unknown = ('unk', 'position')

        def go(p):
            if p == BOT:
                return BOT
            r = ('pieces', ())
            base = const(0)
            for x in p[1]:
                if x[0] == 'one':
                    r = t.concat(r, t.one(tup(base, x[1])))
                    size = const(1)
                elif x[0] == 'splice':
                    src = self.freeze(x[1])
                    here = ('pos', level)
                    if base != const(0):
                        here = t.op('+', here, base) if base != unknown \
                            else unknown
                    r = t.concat(r, t.mkfor(level, src, t.one(
                        tup(here, ('bv', level)))))
                    size = t.length(src)
                else:
                    _, l0, src, tree = x
                    plain = all(y == BOT or len(y[1]) == 1 and
                                y[1][0][0] == 'one' for y in leaves(tree))
                    if plain and base != unknown:
                        here = t.op('+', ('pos', l0), base)
                        size = t.length(src)
                    else:
                        # filtered: the position is not a simple function
                        here = size = unknown
                    r = t.concat(r, t.mkfor(l0, src, self.map_pieces(
                        tree, lambda v, here=here: tup(here, v), l0 + 1)))
                base = unknown if unknown in (base, size) or is_ite(size) \
                    else t.op('+', base, size)
            return r
        return t.mkseq('gen', apply(go, pieces))

    def map_pieces(self, tree, f, level):
        """f applied to every element, at any depth."""
        def go(p):
            if p == BOT:
                return BOT
            r = ('pieces', ())
            for x in p[1]:
                if x[0] == 'one':
                    r = t.concat(r, t.one(f(x[1])))
                elif x[0] == 'for':
                    r = t.concat(r, t.mkfor(x[1], x[2],
                                            self.map_pieces(x[3], f, x[1] + 1)))
                else:
                    r = t.concat(r, t.mkfor(level, self.freeze(x[1]),
                                            t.one(f(('bv', level)))))
            return r
        return apply(go, tree)

    def builtin_zip(self, args, kw):
        args = self.flat_args(args)
        ps = [self.iter_pieces(a, True) for a in args]
        level = self.depth

        def go(*ps):
            if BOT in ps:
                return BOT
            if all(x[0] == 'one' for p in ps for x in p[1]):
                r = ('pieces', ())
                for items in zip(*[p[1] for p in ps]):
                    r = t.concat(r, t.one(t.mkseq('tuple', t.concat(
                        *[t.one(x[1]) for x in items]))))
                return r
            if any(not p[1] for p in ps):
                return ('pieces', ())
            srcs = []
            for p in ps:
                s = self.freeze(t.mkseq('gen', p))
                if len(p[1]) == 1 and p[1][0][0] == 'splice':
                    s = self.freeze(p[1][0][1])
                srcs.append(s)

            def build(*srcs):
                r = neighbours(level, srcs)
                if r is not None:
                    return r
                src = ('call', ('builtin', 'zip'), tuple(srcs), ())
                items = [t.one(t.idx(('bv', level), const(i)))
                         for i in range(len(srcs))]
                return ('pieces', (('for', level, src, t.one(
                    t.mkseq('tuple', t.concat(*items)))),))
            return apply(build, *srcs)
        return t.mkseq('gen', apply(go, *ps))

    def builtin_range(self, args, kw):
        args = [self.freeze(a) for a in self.flat_args(args)]
        if args and all(a[0] == 'const' and a[1] == 'int' for a in args):
            try:
                values = range(*[a[2] for a in args])
            except (TypeError, ValueError):
                raise Unsupported('range')
            if len(values) <= UNROLL:
                return ('seq', 'gen', tuple(
                    ('one', const(i)) for i in values))
        if len(args) == 2 and args[0] == const(0):
            args = args[1:]
        if len(args) == 1:
            def go(n):
                if n[0] == 'len':
                    level = self.depth
                    return ('seq', 'gen', (
                        ('for', level, n[1],
                         ('pieces', (('one', ('pos', level)),))),))
                return t.call(('builtin', 'range'), [n])
            return apply(go, args[0])
        return t.call(('builtin', 'range'), args)

    def paired(self, pieces):
        """Entries of a dictionary from tuples of two, or None"""
        def body(x):
            if x == BOT:
                return x
            if x[0] == 'ite':
                a, b = body(x[2]), body(x[3])
                return a and b and t.mk(x[1], a, b)
            return self.paired(x[1])

        r = ()
        for p in pieces:
            if p[0] == 'one' and p[1][0] == 'seq' and p[1][1] in (
                    'tuple', 'list') and len(p[1][2]) == 2 and \
                    t.plain_seq(p[1]):
                r += (('one', ('pair', p[1][2][0][1], p[1][2][1][1])),)
            elif p[0] == 'for':
                b = body(p[3])
                if b is None:
                    return None
                r += (p[:3] + (b,),)
            else:
                return None
        return ('pieces', r)

    def make_seq(self, kind, args):
        args = self.flat_args(args)
        if not args:
            return self.new_seq(kind, ('pieces', ()))
        a = args[0]
        if kind == 'dict':
            c = self.freeze(self.deref(a))

            def go(c):
                if c[0] == 'seq' and c[1] in ('dict', 'ddict'):
                    return c
                r = self.paired(c[2]) if c[0] == 'seq' else None
                return t.mkseq('dict', r or t.splice(c))
            return self.alloc('dict', ('dict', None), apply(go, c))
        elem = None
        ty = self.type_of_tree(a)
        if isinstance(ty, tuple) and ty[0] == 'list':
            elem = ty[1]
        r = self.new_seq(kind, self.iter_pieces(a), elem)
        return r

    def builtin_list(self, args, kw):
        return self.make_seq('list', args)

    def builtin_tuple(self, args, kw):
        args = self.flat_args(args)
        if not args:
            return ('seq', 'tuple', ())
        return t.mkseq('tuple', self.iter_pieces(args[0]))

    def builtin_set(self, args, kw):
        return self.make_seq('set', args)

    def builtin_frozenset(self, args, kw):
        return self.make_seq('set', args)

    def builtin_dict(self, args, kw):
        if kw:
            r = ('pieces', ())
            if args:
                raise Unsupported('dict')
            for k, v in kw.items():
                r = t.concat(r, t.one(t.pair(const(k), v)))
            return self.new_seq('dict', r)
        return self.make_seq('dict', args)

    def builtin_iter(self, args, kw):
        a, = self.flat_args(args)
        copy = all(
            (x[0] == 'ref' and self.allocs[x[1]]['kind'] in ('list', 'tuple'))
            or (x[0] == 'seq' and x[1] in ('list', 'tuple'))
            for x in leaves(a))
        return t.mkseq('list' if copy else 'gen', self.iter_pieces(a))

    def take(self, a):
        """The pieces of an iterator, whose first element is taken."""
        def rest(c):
            if c[0] == 'seq' and all(x[0] == 'one' for x in c[2]):
                return ('seq', 'gen', c[2][1:])
            return ('unk', 'rest of an iterator')
        if is_ite(a) or a[0] != 'ref' or self.allocs[a[1]]['kind'] != 'gen' \
                or self.depth:
            return self.seq_pieces(a, True)
        c = self.content(a)
        pieces = self.seq_pieces(a, True)
        self.write(('content', a), apply(rest, c))
        return pieces

    def builtin_next(self, args, kw):
        args = self.flat_args(args)
        pieces = self.take(args[0])
        if len(args) > 1:
            default = args[1]
        else:
            default = ('exc', 'StopIteration')

        def go(p):
            if p == BOT:
                return BOT
            r = default
            for x in reversed(p[1]):
                if x[0] == 'one':
                    r = x[1]
                elif x[0] == 'splice':
                    g = t.truth(x[1])
                    v = t.idx(x[1], const(0))
                    v = t.first(self.depth, x[1], T, ('bv', self.depth))
                    r = select(g, v, r)
                else:
                    _, l, src, tree = x
                    cond = apply(lambda q: t.nonempty(q[1]), tree)
                    if any(len(q[1]) > 1 or any(y[0] != 'one'
                                                for y in q[1])
                           for q in leaves(tree)):
                        raise Unsupported('next')
                    val = apply(lambda q: q[1][0][1] if q[1] else BOT, tree)
                    g = t.exists(l, src, cond)
                    v = t.first(l, src, cond, val)
                    r = select(g, v, r)
            return r
        return self.settle(apply(go, pieces), 'StopIteration')

    def builtin_filter(self, args, kw):
        f, source = self.flat_args(args)
        acc = self.new_seq('gen', ('pieces', ()))
        self.allocs[acc[1]]['kind'] = 'gen'

        def body(value):
            c = self.truth(value) if f == NONE else self.truth(
                self.call(f, [value], {}))
            self.guarded(c, lambda: self.append(acc, value))
        self.plain_loop(source, body)
        return acc

    def builtin_map(self, args, kw):
        args = self.flat_args(args)
        if len(args) != 2:
            raise Unsupported('map')
        f, source = args
        acc = self.new_seq('gen', ('pieces', ()))
        self.allocs[acc[1]]['kind'] = 'gen'
        self.plain_loop(source, lambda v: self.append(
            acc, self.call(f, [v], {})))
        return acc

    def plain_loop(self, source, body):
        loop = Loop()
        self.frame.loops.append(loop)
        try:
            self.iterate(source, body)
        finally:
            self.frame.loops.pop()

    def builtin_getattr(self, args, kw):
        args = self.flat_args(args)
        obj, name = args[0], args[1]
        if len(args) == 3:
            if is_ite(obj) or name[0] != 'const':
                return None
            info = self.class_of(obj)
            if info and info[1]:
                owner, entry = self.p.member(info[0], name[2])
                if entry is None and name[2] not in self.instance_fields(
                        info[0]):
                    return args[2]
                return self.get_attr(obj, name[2])
            return None

        def go(o, n):
            if n[0] == 'const' and n[1] == 'str':
                return self.get_attr_leaf(o, n[2])
            return t.call(('builtin', 'getattr'), [self.freeze(o), n])
        return self.for_leaves(name, lambda n: self.for_leaves(
            obj, lambda o: go(o, n)))

    def builtin_hasattr(self, args, kw):
        obj, name = self.flat_args(args)
        if name[0] != 'const':
            return None

        def go(o):
            info = self.class_of(o)
            if info and info[1]:
                owner, entry = self.p.member(info[0], name[2])
                return const(entry is not None or name[
                    2] in self.instance_fields(info[0]))
            return t.call(('builtin', 'hasattr'), [self.freeze(o), name])
        return self.for_leaves(obj, go)

    def builtin_setattr(self, args, kw):
        obj, name, value = self.flat_args(args)

        def go(o):
            if name[0] == 'const':
                self.write(('attr', o, name[2]), value)
            else:
                self.log('setattr', t.call(('builtin', 'setattr'), [
                    self.freeze(o), self.freeze(name),
                    self.freeze(self.snapshot(value))]))
            return NONE
        self.for_leaves(obj, go)
        return NONE

    def builtin_bool(self, args, kw):
        a, = self.flat_args(args)
        return self.truth(a)

    def builtin_str(self, args, kw):
        args = self.flat_args(args)
        if len(args) != 1:
            return None
        a = args[0]

        def go(leaf):
            m = self.virtual(leaf, '__str__')
            if m:
                return self.call_func(m, [leaf], {})
            return self.build_str([('fmt', 's', leaf)])
        return self.for_leaves(a, go)

    def builtin_repr(self, args, kw):
        a, = self.flat_args(args)

        def go(leaf):
            m = self.virtual(leaf, '__repr__')
            if m and m.qual not in self.stack:
                return self.call_func(m, [leaf], {})
            return self.build_str([('fmt', 'r', leaf)])
        return self.for_leaves(a, go)

    def builtin_int(self, args, kw):
        return None

    def builtin_print(self, args, kw):
        return NONE

    def call_ext(self, f, args, kw):
        name = f[1]
        if name in ('functools.wraps',):
            return ('ext', 'functools.wraps')
        if name == 'collections.defaultdict':
            ref = self.alloc('ddict', ('dict', None), ('seq', 'ddict', ()))
            flat = self.flat_args(args)
            if flat != [('builtin', 'list')]:
                raise Unsupported('defaultdict')
            return ref
        if name.startswith('re.') and len(args) >= 2 and name[3:] in (
                'finditer', 'match', 'fullmatch', 'search', 'findall',
                'split') and not is_ite(args[0]) and args[0][0] not in (
                    'const', 'str', '*'):
            # the method of the compiled pattern
            return self.opaque_method(args[0], name[3:], args[1:], kw)
        if name == 'inspect.isclass' and len(args) == 1 and not kw:
            return self.builtin_isinstance(
                [args[0], ('builtin', 'type')], {})
        if name == 'collections.OrderedDict' and not kw:
            return self.make_seq('dict', args)
        if name == 'collections.deque':
            return self.make_seq('list', args)
        if name == 'itertools.chain':
            r = ('pieces', ())
            for a in self.flat_args(args):
                r = t.concat(r, self.iter_pieces(a))
            return t.mkseq('gen', r)
        if name == 'itertools.chain.from_iterable':
            acc = self.new_seq('gen', ('pieces', ()))
            self.allocs[acc[1]]['kind'] = 'gen'
            self.plain_loop(self.flat_args(args)[0],
                            lambda v: self.extend(acc, v))
            return acc
        if name in ('itertools.combinations',):
            flat = self.flat_args(args)
            if len(flat) == 2 and flat[1] in (const(1), const(2), const(3)) \
                    and not kw and not is_ite(flat[0]) \
                    and flat[0][0] in ('ref', 'seq'):
                c = self.content(flat[0]) if flat[0][0] == 'ref' else flat[0]
                if c[0] == 'seq' and c[1] in ('list', 'tuple') and \
                        len(c[2]) <= 6 and all(
                            p[0] == 'one' for p in c[2]):
                    return t.mkseq('gen', ('pieces', tuple(
                        ('one', ('seq', 'tuple', group))
                        for group in combinations(c[2], flat[1][2]))))
            flat = [self.freeze(self.deref(a)) for a in self.flat_args(args)]
            return t.call(f, flat)
        if name == 'itertools.product' and len(args) == 2 and not kw:
            first, second = self.flat_args(args)
            if not any(x[0] == 'ref' and self.allocs[x[1]]['kind'] in (
                    'gen', 'obj') for x in leaves(second)):
                acc = self.new_seq('gen', ('pieces', ()))
                self.allocs[acc[1]]['kind'] = 'gen'
                self.plain_loop(first, lambda a: self.plain_loop(
                    second, lambda b: self.append(acc, t.mkseq(
                        'tuple', ('pieces', (('one', a), ('one', b)))))))
                return acc
        if name in ('copy.copy',):
            a, = self.flat_args(args)
            return self.wrap_copy(self.deref(a))
        return self.opaque_call(f, args, kw)


_REF = {}


def has_ref(x):
    r = _REF.get(x)
    if r is None:
        if x[0] in ('ref', 'clos'):
            r = True
        else:
            r = any(has_ref(c) for c in t.children(x))
        _REF[x] = r
    return r


def entry_allocs(entry):
    r = set()
    for loc, v in entry[0].items():
        if loc[1][0] == 'ref':
            r.add(loc[1][1])
        stack = [v]
    for env in entry[4]:
        for v in env.values():
            for x in t.subterms(v) if v[0] != '*' else ():
                if x[0] == 'ref':
                    r.add(x[1])
    return r


def is_literal(node):
    """A container written out with constants and names."""
    def plain(x):
        if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
            return all(plain(y) for y in x.elts)
        if isinstance(x, ast.Dict):
            return all(y is not None and plain(y) for y in x.keys) and \
                all(plain(y) for y in x.values)
        return isinstance(x, (ast.Constant, ast.Name))
    return not isinstance(node, (ast.Constant, ast.Name)) and plain(node)


def is_container(node):
    """An expression making a new mutable container."""
    if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                         ast.DictComp, ast.SetComp)):
        return True
    if isinstance(node, ast.Call):
        f = node.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(
            f, ast.Attribute) else ''
        return name in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict',
                        'Counter', 'deque')
    return False


def dict_keys(c):
    def conv(p):
        r = ('pieces', ())
        for x in p[1]:
            if x[0] == 'one':
                r = t.concat(r, t.one(x[1][1]))
            elif x[0] == 'splice':
                r = t.concat(r, t.splice(x[1]))
            else:
                r = t.concat(r, t.mkfor(x[1], x[2], apply(conv, x[3])))
        return r
    return conv(('pieces', c[2]))


def digest(s):
    import hashlib
    return hashlib.md5(s.encode('utf8')).hexdigest()[:12]


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return first, list(rest)


def leaves_early(loop):
    """Whether a loop may stop before its iterator is exhausted."""
    return any(isinstance(x, (ast.Break, ast.Return, ast.Raise))
               for s in loop.body for x in ast.walk(s))


def _as_load(node):
    import copy
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return node


BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Mod: '%', ast.BitOr: '|',
    ast.BitAnd: '&', ast.BitXor: '^', ast.FloorDiv: '//', ast.Div: '/',
    ast.Pow: '**',
}
CMPOPS = {
    ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
    ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
    ast.NotIn: 'not in',
}
