"""Rules decided from the constants of the package."""

import ast
import re
import unicodedata    # noqa (documents where the categories come from)
import warnings
from itertools import product

try:
    from re import _parser as sre_parse
    from re import _constants as sre_constants
    from re import _casefix as sre_cases
    EXTRA_CASES = sre_cases._EXTRA_CASES
except ImportError:
    import sre_parse
    import sre_constants
    import sre_compile
    EXTRA_CASES = {}
    for group in sre_compile._equivalences:
        for i in group:
            EXTRA_CASES[i] = tuple(j for j in group if i != j)

EQ, DIFF, UNK = 'EQ', 'DIFF', 'UNK'
SIZE = 0x110000


class Item(object):
    def __init__(self, name, verdict, where, detail, functions=()):
        self.name = name
        self.verdict = verdict
        self.where = where
        self.detail = detail
        self.functions = functions


class NotConstant(Exception):
    pass


# ------------------------------------------------------------- constants


class Constants(object):
    """Values of module level names that are plain constants."""

    def __init__(self, program, module):
        self.p = program
        self.module = module
        self.depth = 0

    def value(self, e, module=None):
        module = module or self.module
        self.depth += 1
        if self.depth > 2000:
            raise NotConstant('too deep')
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.List, ast.Tuple)):
            r = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r.extend(self.value(x.value, module))
                else:
                    r.append(self.value(x, module))
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.value(e.left, module), self.value(e.right, module)
            if type(a) is not type(b):
                raise NotConstant(ast.dump(e)[:80])
            return a + b
        if isinstance(e, ast.JoinedStr):
            r = ''
            for x in e.values:
                if isinstance(x, ast.Constant):
                    r += x.value
                elif x.format_spec is None and x.conversion == -1:
                    v = self.value(x.value, module)
                    if not isinstance(v, str):
                        raise NotConstant('format')
                    r += v
                else:
                    raise NotConstant('format')
            return r
        if isinstance(e, ast.Name):
            return self.name(e.id, module)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ('list', 'tuple') and len(e.args) == 1 and \
                    not e.keywords:
                return list(self.value(e.args[0], module))
            entry = self.p.lookup(module, e.func.id)
            if entry and entry[0] == 'cls':
                fields = {}
                names = self.parameters(entry[1])
                for i, a in enumerate(e.args):
                    if isinstance(a, ast.Starred) or i >= len(names):
                        raise NotConstant('arguments')
                    fields[names[i]] = self.value(a, module)
                for k in e.keywords:
                    if k.arg is None:
                        raise NotConstant('arguments')
                    fields[k.arg] = self.value(k.value, module)
                return entry[1].name, fields
        raise NotConstant(ast.unparse(e)[:80])

    def parameters(self, cls):
        init = None
        for c in cls.mro:
            if '__init__' in c.members:
                init = c
                break
        if init is None:
            raise NotConstant('constructor of %s' % cls.name)
        for node in init.node.body:
            if isinstance(node, ast.FunctionDef) and node.name == '__init__':
                return [a.arg for a in node.args.args[1:]]
        raise NotConstant('constructor of %s' % cls.name)

    def name(self, name, module):
        entry = self.p.lookup(module, name)
        if entry is None or entry[0] != 'expr':
            raise NotConstant(name)
        home, name = entry[2], entry[3]
        found = [n for n in home.tree.body if isinstance(n, ast.Assign)
                 and any(isinstance(x, ast.Name) and x.id == name
                         for t in n.targets for x in ast.walk(t))]
        if len(found) != 1 or not isinstance(found[0].targets[0], ast.Name) \
                or len(found[0].targets) != 1:
            raise NotConstant(name)
        # nobody changes it while the module is loaded
        for n in home.tree.body:
            if n is found[0] or isinstance(n, (
                    ast.FunctionDef, ast.ClassDef, ast.Import,
                    ast.ImportFrom)):
                continue
            if not isinstance(n, ast.Assign) and any(
                    isinstance(x, ast.Name) and x.id == name
                    for x in ast.walk(n)):
                raise NotConstant(name)
        return self.value(found[0].value, home)


# ------------------------------------------------------- sets of characters


def lower(c):
    s = chr(c).lower()
    return ord(s) if len(s) == 1 else ord(s[0]) if c == 0x130 else c


LOWER = None


def lowers():
    global LOWER
    if LOWER is None:
        LOWER = [lower(c) for c in range(SIZE)]
    return LOWER


def category(name):
    name = str(name)
    test = {
        'CATEGORY_DIGIT': lambda s: s.isdecimal(),
        'CATEGORY_SPACE': lambda s: s.isspace(),
        'CATEGORY_WORD': lambda s: s.isalnum() or s == '_',
    }
    if name.replace('_NOT_', '_') not in test:
        raise NotConstant(name)
    f = test[name.replace('_NOT_', '_')]
    negate = '_NOT_' in name
    return lambda c: f(chr(c)) != negate


def char_set(items):
    """Characters matched by a class, ignoring case, as a bytearray."""
    low = lowers()
    listed = set()
    tests = []
    negate = False
    for op, av in items:
        op = str(op)
        if op == 'NEGATE':
            negate = True
        elif op == 'LITERAL':
            add_char(listed, av)
        elif op == 'RANGE':
            for c in range(av[0], av[1] + 1):
                add_char(listed, c)
        elif op == 'CATEGORY':
            tests.append(category(av))
        else:
            raise NotConstant(op)
    r = bytearray(SIZE)
    for c in range(SIZE):
        x = low[c]
        hit = x in listed or any(f(x) for f in tests)
        if hit != negate:
            r[c] = 1
    return r


def add_char(listed, c):
    x = lowers()[c]
    listed.add(x)
    listed.update(EXTRA_CASES.get(x, ()))


CACHE = {}


def simple_pattern(pattern):
    """(characters, repeated) of a pattern matching one class of characters
    once or as long as possible."""
    if pattern in CACHE:
        return CACHE[pattern]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tree = sre_parse.parse(pattern, re.IGNORECASE | re.UNICODE)
        except re.error as e:
            raise NotConstant('%s: %s' % (pattern, e))
    tree = list(tree)

    def unwrap(items):
        while len(items) == 1 and str(items[0][0]) == 'SUBPATTERN' and \
                not items[0][1][1] and not items[0][1][2]:
            items = list(items[0][1][3])
        return items
    tree = unwrap(tree)
    repeated = False
    if len(tree) == 1 and str(tree[0][0]) == 'MAX_REPEAT':
        least, most, body = tree[0][1]
        if least != 1 or (most is not sre_constants.MAXREPEAT and most != 1):
            raise NotConstant('%s: bounds of repetition' % pattern)
        repeated = most is sre_constants.MAXREPEAT
        tree = unwrap(list(body))
    if len(tree) != 1:
        raise NotConstant('%s: more than a class of characters' % pattern)
    op, av = tree[0]
    op = str(op)
    if op == 'IN':
        items = av
    elif op in ('LITERAL',):
        items = [(op, av)]
    elif op == 'NOT_LITERAL':
        items = [('NEGATE', None), ('LITERAL', av)]
    elif op == 'ANY':
        items = [('NEGATE', None), ('LITERAL', 10)]
    elif op == 'BRANCH':
        items = []
        for branch in av[1]:
            branch = unwrap(list(branch))
            if len(branch) != 1 or str(branch[0][0]) not in (
                    'IN', 'LITERAL'):
                raise NotConstant('%s: alternatives' % pattern)
            o, v = branch[0]
            if str(o) == 'IN':
                if any(str(x) == 'NEGATE' for x, _ in v):
                    raise NotConstant('%s: alternatives' % pattern)
                items.extend(v)
            else:
                items.append((o, v))
    else:
        raise NotConstant('%s: %s' % (pattern, op))
    CACHE[pattern] = char_set(items), repeated
    return CACHE[pattern]


class Partition(object):
    """What becomes of every character: no token, or a token of some type,
    alone or with the run of characters after it."""

    def __init__(self, rules):
        self.rules = [(type,) + simple_pattern(pattern)
                      for type, pattern in rules]
        self.first = bytearray(SIZE)
        for i, (type, chars, _) in reversed(list(enumerate(self.rules, 1))):
            for c in range(SIZE):
                if chars[c]:
                    self.first[c] = i

    def of(self, c):
        i = self.first[c]
        return self.rules[i - 1] if i else (None, None, False)


class Matcher(object):
    """Where a match of a parsed pattern may stop, the preferred stop first:
    what the pattern means, for patterns that are more than a class."""

    def __init__(self, pattern):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                self.tree = list(sre_parse.parse(
                    pattern, re.IGNORECASE | re.UNICODE))
            except re.error as e:
                raise NotConstant('%s: %s' % (pattern, e))
        self.sets = {}
        self.literals = set()
        self.prepare(self.tree)

    def prepare(self, items):
        for op, av in items:
            op = str(op)
            if op == 'IN':
                self.sets[id(av)] = char_set(av)
                for o, v in av:
                    if str(o) == 'LITERAL':
                        self.literals.add(v)
                    elif str(o) == 'RANGE':
                        self.literals.update(v)
            elif op in ('LITERAL', 'NOT_LITERAL'):
                self.sets[op, av] = char_set(
                    [('NEGATE', None)] * (op == 'NOT_LITERAL') +
                    [('LITERAL', av)])
                self.literals.add(av)
            elif op == 'SUBPATTERN':
                if av[1] or av[2]:
                    raise NotConstant('flags inside a pattern')
                self.prepare(av[3])
            elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
                self.prepare(av[2])
            elif op == 'BRANCH':
                for x in av[1]:
                    self.prepare(x)
            elif op in ('ASSERT', 'ASSERT_NOT') and av[0] == 1:
                self.prepare(av[1])
            elif op != 'ANY':
                raise NotConstant(op)

    def stops(self, items, text, i):
        if not items:
            yield i
            return
        (op, av), rest = items[0], list(items[1:])
        op = str(op)
        if op in ('IN', 'LITERAL', 'NOT_LITERAL', 'ANY'):
            if i < len(text) and (
                    text[i] != '\n' if op == 'ANY' else
                    self.sets[id(av) if op == 'IN' else (op, av)][
                        ord(text[i])]):
                yield from self.stops(rest, text, i + 1)
        elif op == 'SUBPATTERN':
            for j in self.stops(list(av[3]), text, i):
                yield from self.stops(rest, text, j)
        elif op == 'BRANCH':
            for x in av[1]:
                yield from self.stops(list(x) + rest, text, i)
        elif op in ('ASSERT', 'ASSERT_NOT'):
            found = next(self.stops(list(av[1]), text, i), None) is not None
            if found == (op == 'ASSERT'):
                yield from self.stops(rest, text, i)
        else:
            least, most, body = av
            yield from self.repeat(op == 'MAX_REPEAT', least, most,
                                   list(body), rest, text, i)

    def repeat(self, greedy, least, most, body, rest, text, i):
        def more():
            if most is sre_constants.MAXREPEAT or most > 0:
                for j in self.stops(body, text, i):
                    if j > i:
                        yield from self.repeat(
                            greedy, max(least - 1, 0),
                            most if most is sre_constants.MAXREPEAT
                            else most - 1, body, rest, text, j)
        if least > 0:
            yield from more()
        elif greedy:
            yield from more()
            yield from self.stops(rest, text, i)
        else:
            yield from self.stops(rest, text, i)
            yield from more()


def tokens(rules, text):
    r = []
    i = 0
    while i < len(text):
        for type, matcher in rules:
            j = next(matcher.stops(matcher.tree, text, i), None)
            if j is not None:
                break
        else:
            i += 1
            continue
        if j == i:
            raise NotConstant('an empty token')
        r.append((type, text[i:j]))
        i = j
    return r


LETTERS = 'аё' 'a' '1' ' ' '\n' '\r' '-' '.' '€'


def compare_texts(rules, reference):
    """A short text split in another way by the rules of the code."""
    odd = []
    for type, pattern in rules:
        try:
            simple_pattern(pattern)
        except NotConstant:
            odd.append(pattern)
    extra = {c for x in odd for c in Matcher(x).literals}
    rules = [(type, Matcher(pattern)) for type, pattern in rules]
    reference = [(type, Matcher(pattern)) for type, pattern in reference]
    letters = LETTERS + ''.join(sorted(
        chr(c) for c in extra if chr(c) not in LETTERS)[:4])
    for size in (1, 2, 3):
        for text in product(letters, repeat=size):
            text = ''.join(text)
            got, want = tokens(rules, text), tokens(reference, text)
            if got != want:
                return text, got, want


def describe(entry):
    type, _, repeated = entry
    if type is None:
        return 'no token'
    return 'a token %s%s' % (type, ' of the whole run' if repeated else
                             ' of one character')


def compare_partitions(code, reference):
    """First character treated differently, or None."""
    checked = {}
    for c in range(SIZE):
        pair = code.first[c], reference.first[c]
        if pair in checked:
            continue
        a, b = code.of(c), reference.of(c)
        if a[0] != b[0] or a[2] != b[2]:
            return c, describe(a), describe(b)
        if a[2] and a[1] != b[1]:
            d = next(x for x in range(SIZE) if a[1][x] != b[1][x])
            return d, '%s in a run of %s' % (
                'goes on' if a[1][d] else 'does not go on', a[0]), \
                'it %s' % ('goes on' if b[1][d] else 'does not')
        checked[pair] = True
    return None


class TokenClasses(object):
    """Every character but white space belongs to exactly one kind of token
    of the default rules: Russian letters, Latin letters and digits in runs,
    line ends in runs, punctuation and anything else one by one."""

    name = 'token classes'
    technique = 'partition of all characters computed from the constant ' \
        'patterns (parsed, not executed) against the documented classes'
    props = ('C05',)
    reference = [
        ('RU', '[а-яё]+'), ('LATIN', '[a-z]+'), ('INT', r'\d+'),
        ('PUNCT', r'[-\\/!#$%&()\[\]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”]'),
        ('EOL', r'[\n\r]+'), ('OTHER', r'\S'),
    ]

    @property
    def doc(self):
        return ' '.join(self.__doc__.split())

    def check(self, program, prop):
        module = program.modules.get('yargy.tokenizer')
        where = ['yargy/tokenizer.py RULES']
        if module is None:
            return [Item('default_rules', UNK, where, 'no tokenizer module')]
        where = ['%s RULES' % module.path]
        try:
            value = Constants(program, module).name('RULES', module)
            rules = []
            for x in value:
                if not (isinstance(x, tuple) and x[0] == 'TokenRule' and
                        set(x[1]) == {'type', 'pattern'}):
                    raise NotConstant('a rule that is not a TokenRule')
                rules.append((x[1]['type'], x[1]['pattern']))
            try:
                code = Partition(rules)
            except NotConstant:
                diff = compare_texts(rules, self.reference)
                if not diff:
                    raise
                return [Item('default_rules', DIFF, where, 'RULES: the text '
                             '%r is split into %s where %s is required' %
                             diff)]
        except NotConstant as e:
            return [Item('default_rules', UNK, where,
                         'not a constant the analysis knows: %s' % e)]
        diff = compare_partitions(code, Partition(self.reference))
        if diff is None:
            return [Item('default_rules', EQ, where,
                         '%d characters in %d rules' % (SIZE, len(rules)))]
        c, got, want = diff
        return [Item('default_rules', DIFF, where, 'RULES: character %r '
                     '(U+%04X) gives %s where %s is required' % (
                         chr(c), c, got, want))]


RULES = [TokenClasses()]
