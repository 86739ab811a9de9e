"""Source model of a Python package: modules, classes, MRO, name resolution.

Nothing is imported or executed: everything is read from the syntax trees of
the package's current source files.
"""

import ast
import os


class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, parse error)."""


class ModuleInfo(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.names = {}      # name -> definition entry
        self.star = []       # modules imported by *
        self.parent = None   # fallback namespace (spec modules)
        self.all = None
        self.bound = None    # names bound at top level, see bound_names


class ClassInfo(object):
    def __init__(self, qual, module, node):
        self.qual = qual
        self.module = module
        self.node = node
        self.name = node.name
        self.members = {}    # name -> ('func', FuncInfo) | ('expr', node)
        self.bases = []      # ClassInfo or ('ext', dotted)
        self.mro = None

    def __repr__(self):
        return '<class %s>' % self.qual


class FuncInfo(object):
    def __init__(self, qual, module, node, cls=None):
        self.qual = qual
        self.module = module
        self.node = node
        self.cls = cls
        self.name = node.name
        self.file = module.path
        self.is_gen = has_yield(node)
        self.decorators = list(node.decorator_list)

    @property
    def is_property(self):
        return any(
            isinstance(d, ast.Name) and d.id in ('property', 'cached_property')
            for d in self.decorators
        )

    @property
    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                   for d in self.decorators)

    @property
    def is_classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod'
                   for d in self.decorators)

    def __repr__(self):
        return '<func %s>' % self.qual


def has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        item = stack.pop()
        if isinstance(item, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(item, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                             ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(item))
    return False


def bound_names(root, toplevel):
    """Names stored anywhere under root; at top level the bodies of functions
    and classes are left out (their names are their own)."""
    names = set()
    todo = [root]
    while todo:
        node = todo.pop()
        inner = False
        if isinstance(node, ast.Name):
            if not isinstance(node.ctx, ast.Load):
                names.add(node.id)
        elif isinstance(node, (ast.FunctionDef, ast.ClassDef,
                               ast.AsyncFunctionDef)):
            if node is not root:
                names.add(node.name)
                inner = toplevel
        elif isinstance(node, ast.arg):
            names.add(node.arg)
        elif isinstance(node, ast.alias):
            names.add((node.asname or node.name).split('.')[0])
        elif isinstance(node, ast.ExceptHandler) and node.name:
            names.add(node.name)
        elif isinstance(node, (ast.MatchAs, ast.MatchStar)) and node.name:
            names.add(node.name)
        elif isinstance(node, ast.MatchMapping) and node.rest:
            names.add(node.rest)
        if inner:
            for sub in ast.walk(node):
                if isinstance(sub, ast.Global):
                    names.update(sub.names)
        else:
            todo.extend(ast.iter_child_nodes(node))
    return names


MUTATORS = {'append', 'add', 'extend', 'insert', 'update', 'pop', 'popitem',
            'remove', 'discard', 'clear', 'setdefault', 'sort', 'reverse',
            'appendleft', 'popleft'}


def mutates(node, name):
    def named(x):
        while isinstance(x, ast.Subscript):
            x = x.value
        return isinstance(x, ast.Attribute) and x.attr == name
    if isinstance(node, ast.Call):
        return isinstance(node.func, ast.Attribute) and \
            node.func.attr in MUTATORS and named(node.func.value)
    if isinstance(node, (ast.Assign, ast.Delete)):
        return any(isinstance(x, ast.Subscript) and named(x)
                   for y in node.targets for x in ast.walk(y))
    if isinstance(node, ast.AugAssign):
        return named(node.target)
    return False


LOOKS = {'get', 'items', 'keys', 'values', 'index', 'count', 'copy',
         'issubset', 'issuperset', 'union', 'intersection', 'difference',
         'isdisjoint'}
LOOK_CALLS = {'len', 'sorted', 'enumerate', 'zip', 'list', 'tuple', 'set',
              'dict', 'any', 'all', 'reversed', 'max', 'min', 'sum',
              'frozenset', 'map', 'filter'}


def looks_only(parent, child):
    """Whether a name used in this place is not changed or kept there."""
    if isinstance(parent, (ast.For, ast.comprehension)):
        return parent.iter is child
    if isinstance(parent, ast.Compare):
        return all(isinstance(op, (ast.In, ast.NotIn)) for op in parent.ops)
    if isinstance(parent, ast.Subscript):
        return parent.value is child and isinstance(parent.ctx, ast.Load)
    if isinstance(parent, ast.Attribute):
        return parent.attr in LOOKS
    if isinstance(parent, ast.Call):
        return isinstance(parent.func, ast.Name) and \
            parent.func.id in LOOK_CALLS and child in parent.args
    return isinstance(parent, ast.Starred)


class Program(object):
    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.mutations = {}
        self.tables = {}     # see is_table
        self.methods_ = None
        self.registries = {}
        self.modules = {}
        self.spelled = None  # see units.vanished
        self.kinds = {}      # see only_kinds
        self.trusted = {}    # see units.trusted
        self.units = {}
        self.classes = {}
        self.functions = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError('no package %s in %s' % (package, root))
        for folder, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for file in sorted(files):
                if file.endswith('.py'):
                    path = os.path.join(folder, file)
                    rel = os.path.relpath(path, root)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel = rel[:-1]
                    self.add_module('.'.join(rel), path)
        self.link()

    def add_module(self, name, path, source=None):
        if source is None:
            with open(path, encoding='utf8') as f:
                source = f.read()
        try:
            tree = ast.parse(source, path)
        except SyntaxError as error:
            raise AnalysisError('cannot parse %s: %s' % (path, error))
        module = ModuleInfo(name, path, tree)
        module.is_package = path.endswith('__init__.py')
        self.modules[name] = module
        self.collect(module)
        return module

    def collect(self, module):
        for stmt in self.toplevel(module.tree.body):
            if isinstance(stmt, ast.ClassDef):
                cls = ClassInfo(module.name + ':' + stmt.name, module, stmt)
                self.classes[cls.qual] = cls
                module.names[stmt.name] = ('cls', cls)
                self.collect_class(module, cls)
            elif isinstance(stmt, ast.FunctionDef):
                func = FuncInfo(module.name + ':' + stmt.name, module, stmt)
                self.functions[func.qual] = func
                module.names[stmt.name] = ('func', func)
            elif isinstance(stmt, ast.Import):
                for alias in stmt.names:
                    if alias.asname:
                        module.names[alias.asname] = ('ext', alias.name)
                    else:
                        top = alias.name.split('.')[0]
                        module.names[top] = ('ext', top)
            elif isinstance(stmt, ast.ImportFrom):
                self.collect_from(module, stmt, module.names, module.star)
            elif isinstance(stmt, ast.Assign):
                for target in stmt.targets:
                    if isinstance(target, ast.Name):
                        module.names[target.id] = ('expr', stmt.value)
                        if target.id == '__all__':
                            try:
                                module.all = list(ast.literal_eval(stmt.value))
                            except ValueError:
                                pass
            elif isinstance(stmt, ast.AnnAssign) and stmt.value is not None:
                if isinstance(stmt.target, ast.Name):
                    module.names[stmt.target.id] = ('expr', stmt.value)

    def toplevel(self, body):
        for stmt in body:
            if isinstance(stmt, ast.If):
                for item in self.toplevel(stmt.body + stmt.orelse):
                    yield item
            elif isinstance(stmt, ast.Try):
                for item in self.toplevel(stmt.body):
                    yield item
            else:
                yield stmt

    def collect_class(self, module, cls):
        for stmt in cls.node.body:
            if isinstance(stmt, ast.FunctionDef):
                func = FuncInfo(cls.qual + '.' + stmt.name, module, stmt, cls)
                self.functions[func.qual] = func
                cls.members[stmt.name] = ('func', func)
            elif isinstance(stmt, ast.Assign):
                for target in stmt.targets:
                    if isinstance(target, ast.Name):
                        cls.members[target.id] = ('expr', stmt.value)
            elif isinstance(stmt, ast.AnnAssign) and stmt.value is not None:
                if isinstance(stmt.target, ast.Name):
                    cls.members[stmt.target.id] = ('expr', stmt.value)

    def resolve_module(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split('.')
        if not module.is_package:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        if name:
            parts = parts + name.split('.')
        return '.'.join(parts)

    def collect_from(self, module, stmt, names, star):
        source = self.resolve_module(module, stmt.level, stmt.module)
        for alias in stmt.names:
            if alias.name == '*':
                star.append(source)
            else:
                names[alias.asname or alias.name] = (
                    'from', source, alias.name
                )

    def lookup(self, module, name, seen=()):
        """Resolve a global name to ('cls', C) | ('func', F) | ('ext', dotted)
        | ('mod', M) | ('expr', node, module) | None."""
        key = (module.name, name)
        if key in seen:
            return None
        seen = seen + (key,)
        if name in module.names:
            entry = module.names[name]
            if entry[0] == 'from':
                _, source, attr = entry
                return self.lookup_from(source, attr, seen)
            if entry[0] == 'expr':
                node = entry[1]
                # aliases of resolvable names
                target = self.resolve_alias(module, node, seen)
                if target:
                    return target
                return ('expr', node, module, name)
            return entry
        for source in module.star:
            other = self.modules.get(source)
            if other and (other.all is None or name in other.all):
                entry = self.lookup(other, name, seen)
                if entry:
                    return entry
        if module.parent:
            return self.lookup(module.parent, name, seen)
        return None

    def resolve_alias(self, module, node, seen=()):
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id, seen)
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            base = self.lookup(module, node.value.id, seen)
            if base and base[0] == 'mod':
                return self.lookup(base[1], node.attr, seen)
        return None

    def is_table(self, module, name):
        """Whether a container bound by a module is bound once and only
        looked at: iterated, searched, indexed."""
        key = (module.name, name)
        r = self.tables.get(key)
        if r is None:
            r = self.tables[key] = self.only_read(module, name)
        return r

    def only_read(self, module, name):
        if module.bound is None:
            module.bound = bound_names(module.tree, True)
        count = 0
        for node in ast.walk(module.tree):
            if isinstance(node, ast.Name) and node.id == name and \
                    not isinstance(node.ctx, ast.Load):
                count += 1
            elif isinstance(node, ast.Global) and name in node.names:
                return False
        if count != 1:
            return False
        for other in self.modules.values():
            for parent in ast.walk(other.tree):
                for child in ast.iter_child_nodes(parent):
                    if isinstance(child, ast.Attribute) and \
                            child.attr == name:
                        return False
                    if isinstance(child, ast.alias) and child.asname and \
                            child.name == name:
                        return False
                    if isinstance(child, ast.Name) and child.id == name and \
                            isinstance(child.ctx, ast.Load) and \
                            not looks_only(parent, child):
                        return False
        return True

    def is_class_table(self, owner, name):
        """The same for a container bound in the body of a class."""
        key = (owner.qual, name)
        r = self.tables.get(key)
        if r is None:
            r = self.tables[key] = self.class_only_read(owner, name)
        return r

    def class_only_read(self, owner, name):
        if sum(isinstance(y, ast.Name) and y.id == name
               for x in owner.node.body if isinstance(x, ast.Assign)
               for y in x.targets) != 1:
            return False
        for cls in self.classes.values():
            if name in cls.members and cls is not owner:
                return False
        for other in self.modules.values():
            for parent in ast.walk(other.tree):
                for child in ast.iter_child_nodes(parent):
                    if isinstance(child, ast.Attribute) and \
                            child.attr == name and (
                                not isinstance(child.ctx, ast.Load) or
                                not looks_only(parent, child)):
                        return False
                    if isinstance(child, ast.Constant) and \
                            child.value == name:
                        return False
        return True

    def may_bind(self, module, name, functions):
        """Whether the module, or one of the given functions of it, might
        give the name a value in a way that was not followed."""
        for source in module.star:
            if source not in self.modules or \
                    self.may_bind(self.modules[source], name, ()):
                return True
        if module.bound is None:
            module.bound = bound_names(module.tree, True)
        if name in module.bound:
            return True
        return any(name in bound_names(node, False) for node in functions)

    def lookup_from(self, source, attr, seen=()):
        other = self.modules.get(source)
        if other:
            entry = self.lookup(other, attr, seen)
            if entry:
                return entry
            sub = self.modules.get(source + '.' + attr)
            if sub:
                return ('mod', sub)
            return None
        if source + '.' + attr in self.modules:
            return ('mod', self.modules[source + '.' + attr])
        return ('ext', source + '.' + attr)

    def link(self):
        for cls in self.classes.values():
            cls.bases = []
            for base in cls.node.bases:
                entry = self.resolve_alias(cls.module, base)
                if entry and entry[0] == 'cls':
                    cls.bases.append(entry[1])
                else:
                    cls.bases.append(('ext', ast.unparse(base)))
        for cls in self.classes.values():
            cls.mro = None
        for cls in self.classes.values():
            self.mro(cls)

    def mro(self, cls, stack=()):
        if cls.mro is not None:
            return cls.mro
        if cls in stack:
            raise AnalysisError('cyclic bases: %s' % cls.qual)
        seqs = []
        for base in cls.bases:
            if isinstance(base, ClassInfo):
                seqs.append(list(self.mro(base, stack + (cls,))))
        seqs.append([b for b in cls.bases if isinstance(b, ClassInfo)])
        result = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for seq in seqs:
                head = seq[0]
                if not any(head in s[1:] for s in seqs):
                    break
            else:
                raise AnalysisError('inconsistent MRO: %s' % cls.qual)
            result.append(head)
            seqs = [[x for x in s if x is not head] for s in seqs]
        cls.mro = result
        return result

    def cls(self, qual):
        cls = self.classes.get(qual)
        if not cls:
            # moved between modules: unique by name
            name = qual.split(':')[-1]
            found = [c for c in self.classes.values() if c.name == name
                     and not c.qual.startswith('spec')]
            if len(found) == 1:
                return found[0]
            raise AnalysisError('anchor class %s not found' % qual)
        return cls

    def member(self, cls, name):
        """(owner, entry) for attribute lookup through the MRO"""
        for owner in cls.mro:
            if name in owner.members:
                return owner, owner.members[name]
        return None, None

    def mutated(self, name):
        """Is a collection kept under this attribute name changed in place
        anywhere?"""
        r = self.mutations.get(name)
        if r is None:
            r = self.mutations[name] = any(
                mutates(node, name) for module in self.modules.values()
                if not module.name.startswith('spec')
                for node in ast.walk(module.tree))
        return r

    def registry(self, cls, name):
        """Does a dictionary kept under this attribute hold nothing but
        objects under their own id()?"""
        r = self.registries.get((cls.qual, name))
        if r is None:
            family = {c.name for c in self.classes.values()
                      if c in cls.mro or cls in c.mro}
            found = []
            for module in self.modules.values():
                if module.name.startswith('spec'):
                    continue
                for node in ast.walk(module.tree):
                    if isinstance(node, ast.ClassDef):
                        for f in node.body:
                            if isinstance(f, ast.FunctionDef) and \
                                    node.name in family:
                                found.extend(kept(f, name, True))
                    if isinstance(node, ast.FunctionDef):
                        found.extend(kept(node, name, False))
            r = self.registries[cls.qual, name] = bool(found) and all(found)
        return r

    def only_kinds(self, func, param):
        """The parameter is only what objects are tested against."""
        key = func.qual, param
        if key not in self.kinds:
            node = func.node
            allowed = set()
            for x in ast.walk(node):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Name) and x.func.id in (
                            'isinstance', 'issubclass') and len(x.args) == 2:
                    allowed.add(id(x.args[1]))
                elif isinstance(x, (ast.If, ast.IfExp)):
                    allowed.add(id(x.test))
                elif isinstance(x, ast.UnaryOp) and isinstance(
                        x.op, ast.Not):
                    allowed.add(id(x.operand))
                elif isinstance(x, ast.BoolOp):
                    allowed.update(map(id, x.values[:-1]))
                elif isinstance(x, ast.Compare) and isinstance(
                        x.ops[0], (ast.Is, ast.IsNot)):
                    allowed.add(id(x.left))
            uses = [x for x in ast.walk(node)
                    if isinstance(x, ast.Name) and x.id == param]
            self.kinds[key] = any(
                a.arg == param for a in node.args.args) and bool(uses) and \
                any(id(x) in allowed for x in uses) and all(
                    id(x) in allowed and isinstance(x.ctx, ast.Load)
                    for x in uses)
        return self.kinds[key]

    def only_functions(self, name, whole):
        """Attributes of that name, or prefix, are functions."""
        key = name, whole
        if key not in self.kinds:
            self.kinds[key] = self.only_functions_(name, whole)
        return self.kinds[key]

    def only_functions_(self, name, whole):
        def fits(x):
            return x == name if whole else x.startswith(name)
        for module in self.modules.values():
            for x in ast.walk(module.tree):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, (ast.Store, ast.Del)) and fits(x.attr):
                    return False
        for cls in self.classes.values():
            for key, entry in cls.members.items():
                if fits(key) and not (
                        entry[0] == 'func' and not entry[1].is_property or
                        entry[0] == 'expr' and isinstance(
                            entry[1], ast.Name) and cls.members.get(
                                entry[1].id, ('',))[0] == 'func'):
                    return False
        return True

    def makes_iterator(self, func, seen=()):
        """Every call gives a new one-shot iterator."""
        if func.is_gen:
            return True
        if func.qual in seen:
            return False
        found = [x.value for x in own_nodes(func.node)
                 if isinstance(x, ast.Return)]
        if not found:
            return False
        for x in found:
            if isinstance(x, ast.GeneratorExp):
                continue
            target = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                entry = self.lookup(func.module, x.func.id)
                target = entry[1] if entry and entry[0] == 'func' else None
            elif isinstance(x, ast.Call) and func.cls is not None and \
                    isinstance(x.func, ast.Attribute) and \
                    isinstance(x.func.value, ast.Name) and \
                    x.func.value.id == 'self':
                _, entry = self.member(func.cls, x.func.attr)
                target = entry[1] if entry and entry[0] == 'func' else None
            if target is None or not self.makes_iterator(
                    target, seen + (func.qual,)):
                return False
        return True

    def fluent(self, func):
        """A method that always returns its object."""
        args = func.node.args.args
        if func.cls is None or not args or func.is_gen or \
                func.is_static or func.is_classmethod:
            return False

        def own(node):
            for x in ast.iter_child_nodes(node):
                if not isinstance(x, (ast.FunctionDef, ast.Lambda,
                                      ast.ClassDef)):
                    yield x
                    yield from own(x)
        me = args[0].arg
        last = func.node.body[-1]
        return isinstance(last, ast.Return) and all(
            isinstance(x.value, ast.Name) and x.value.id == me
            for x in own(func.node) if isinstance(x, ast.Return)
        ) and not any(isinstance(x, ast.Name) and x.id == me and
                      not isinstance(x.ctx, ast.Load)
                      for x in own(func.node))

    def methods_named(self, name):
        return {q for q, f in self.functions.items()
                if f.cls is not None and f.node.name == name}

    def method_names(self):
        if self.methods_ is None:
            self.methods_ = {
                name for c in self.classes.values()
                for name, (kind, f) in c.members.items()
                if kind == 'func' and not f.is_property}
        return self.methods_

    def func(self, qual):
        """Resolve 'module:func' or 'module:Class.method' (through MRO)."""
        module, rest = qual.split(':')
        if '.' in rest:
            clsname, meth = rest.split('.')
            cls = self.cls(module + ':' + clsname)
            owner, entry = self.member(cls, meth)
            if entry and entry[0] == 'func':
                return entry[1]
            raise AnalysisError('anchor method %s not found' % qual)
        if qual in self.functions:
            return self.functions[qual]
        mod = self.modules.get(module)
        if mod:
            entry = self.lookup(mod, rest)
            if entry and entry[0] == 'func':
                return entry[1]
        found = [f for f in self.functions.values()
                 if f.name == rest and f.cls is None
                 and not f.qual.startswith('spec')]
        if len(found) == 1:
            return found[0]
        raise AnalysisError('anchor function %s not found' % qual)

    def subclasses(self, cls):
        return [c for c in self.classes.values() if cls in c.mro]


def kept(func, name, own):
    """For every change of the dictionary X.name in a function: is it
    X.name[id(v)] = v?"""
    ids = {}
    counts = {}
    for x in ast.walk(func):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            counts[x.id] = counts.get(x.id, 0) + 1
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name):
            ids[x.targets[0].id] = x.value

    def is_id(key, value):
        if isinstance(key, ast.Name) and counts.get(key.id) == 1:
            key = ids.get(key.id)
        return (isinstance(key, ast.Call) and isinstance(key.func, ast.Name)
                and key.func.id == 'id' and len(key.args) == 1
                and isinstance(key.args[0], ast.Name)
                and isinstance(value, ast.Name)
                and key.args[0].id == value.id
                and counts.get(value.id, 0) == 0)

    def is_it(x):
        return isinstance(x, ast.Attribute) and x.attr == name and own == (
            isinstance(x.value, ast.Name) and x.value.id == 'self')
    for x in ast.walk(func):
        if isinstance(x, ast.Assign):
            for target in x.targets:
                if isinstance(target, ast.Subscript) and is_it(target.value):
                    yield is_id(target.slice, x.value)
                elif is_it(target) and not (
                        isinstance(x.value, ast.Dict) and not x.value.keys):
                    yield False
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and (
                is_it(x.target) or isinstance(x.target, ast.Subscript)
                and is_it(x.target.value)):
            yield False
        elif isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute) and is_it(x.func.value) and \
                x.func.attr in MUTATORS:
            yield False


def own_nodes(node):
    """Nodes of a function without those of functions in it."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))
