"""Agreement relations and the graph of related words."""

from itertools import combinations

from yargy.relations.constructors import (
    Main, Relation, RelationsComposition, AndRelation, OrRelation,
    NotRelation, is_relation
)
from yargy.relations.bank import (
    gender_relation, number_relation, case_relation, gnc_relation
)
from yargy.relations.graph import Edge, RelationsGraph, TokenRelationsGraph
from yargy.rule.constructors import Rule
from yargy.predicates.constructors import Predicate
from yargy.morph import Gender, Number, Case, Grams, Form
from yargy.token import MorphToken


class gender_of_reading:
    """The categories of a reading are the grammemes of the dictionary."""
    props = 'C21 C28'

    def code(grams: '=Grams'):
        return tuple(grams.gender)

    def spec(grams):
        v = grams.values
        return ('masc' in v, 'femn' in v, 'neut' in v,
                'Ms-f' in v or 'ms-f' in v, 'GNdr' in v)


class number_of_reading:
    """The categories of a reading are the grammemes of the dictionary."""
    props = 'C21 C28'

    def code(grams: '=Grams'):
        return tuple(grams.number)

    def spec(grams):
        v = grams.values
        return 'sing' in v, 'plur' in v, 'Sgtm' in v, 'Pltm' in v


class case_of_reading:
    """The categories of a reading are the grammemes of the dictionary."""
    props = 'C21 C28'

    def code(grams: '=Grams'):
        mask, fixed = grams.case
        return mask, fixed

    def spec(grams):
        v = grams.values
        return (['nomn' in v, 'gent' in v, 'datv' in v, 'accs' in v,
                 'ablt' in v, 'loct' in v, 'voct' in v], 'Fixd' in v)


class fields_of_categories:
    """The categories are available under their names."""
    props = 'C21 C28 C29'

    def code(grams: '=Grams'):
        g, n, c = grams.gender, grams.number, grams.case
        return (g.male, g.female, g.neutral, g.bi, g.general,
                n.single, n.plural, n.only_single, n.only_plural, c.fixed)

    def spec(grams):
        v = grams.values
        return ('masc' in v, 'femn' in v, 'neut' in v,
                'Ms-f' in v or 'ms-f' in v, 'GNdr' in v,
                'sing' in v, 'plur' in v, 'Sgtm' in v, 'Pltm' in v,
                'Fixd' in v)


class gender_agreement:
    """Two plurals agree; otherwise the same gender, common gender with male
    or female, or a reading without gender of its own."""
    props = 'C21'

    def code(self: '=gender_relation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        v, w = a.grams.values, b.grams.values
        if 'plur' in v and 'plur' in w:
            return True
        if 'masc' in v and 'masc' in w:
            return True
        if 'femn' in v and 'femn' in w:
            return True
        if 'neut' in v and 'neut' in w:
            return True
        if ('Ms-f' in v or 'ms-f' in v) and ('masc' in w or 'femn' in w):
            return True
        if ('Ms-f' in w or 'ms-f' in w) and ('masc' in v or 'femn' in v):
            return True
        return 'GNdr' in v or 'GNdr' in w


class number_agreement:
    """The same number, with words that have one number only."""
    props = 'C21'

    def code(self: '=number_relation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        v, w = a.grams.values, b.grams.values
        return (('sing' in v and 'sing' in w)
                or ('plur' in v and 'plur' in w)
                or ('Sgtm' in v and 'sing' in w)
                or ('Pltm' in v and 'plur' in w)
                or ('Sgtm' in w and 'sing' in v)
                or ('Pltm' in w and 'plur' in v))


class case_agreement:
    """The same cases, or an indeclinable word."""
    props = 'C21'

    def code(self: '=case_relation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        v, w = a.grams.values, b.grams.values
        same = ['nomn' in v, 'gent' in v, 'datv' in v, 'accs' in v,
                'ablt' in v, 'loct' in v, 'voct' in v] == [
                'nomn' in w, 'gent' in w, 'datv' in w, 'accs' in w,
                'ablt' in w, 'loct' in w, 'voct' in w]
        return same or 'Fixd' in v or 'Fixd' in w


class gnc_agreement:
    """Gender, number and case."""
    props = 'C21'
    opaque = ['gender_relation.__call__', 'number_relation.__call__',
              'case_relation.__call__']
    returns = {'gender_relation.__call__': 'bool',
               'number_relation.__call__': 'bool',
               'case_relation.__call__': 'bool'}

    def code(self: '=gnc_relation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        return (gender_relation.__call__(self, a, b)
                and number_relation.__call__(self, a, b)
                and case_relation.__call__(self, a, b))


class and_relation:
    props = 'C21'

    def code(self: '=AndRelation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        for x in self.relations:
            if not x(a, b):
                return False
        return True


class or_relation:
    props = 'C21'

    def code(self: '=OrRelation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        for x in self.relations:
            if x(a, b):
                return True
        return False


class not_relation:
    props = 'C21'

    def code(self: '=NotRelation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        return not self.relation(a, b)


class parts_of_relation:
    """The parts are kept; anything but a relation is refused."""
    props = 'C21 C30'
    variants = {'cls': ['AndRelation', 'OrRelation']}

    def code(cls, items: '[any]'):
        return cls(items).relations

    def spec(cls, items):
        for x in items:
            if not isinstance(x, Relation):
                raise TypeError
        return list(items)


class part_of_not_relation:
    props = 'C21 C30'

    def code(item):
        return NotRelation(item).relation

    def spec(item):
        if not isinstance(item, Relation):
            raise TypeError
        return item


class is_a_relation:
    props = 'C30'

    def code(item) -> 'bool':
        return is_relation(item)

    def spec(item):
        return isinstance(item, Relation)


class marked_term:
    """main() marks a rule or a predicate."""
    props = 'C23 C30'

    def code(term):
        return Main(term).term

    def spec(term):
        if not isinstance(term, (Rule, Predicate)):
            raise TypeError
        return term


# -------------------------------------------------------------------- graph

class added_word:
    """The words of a relation are collected in text order, with all their
    readings, once per word."""
    props = 'C22'

    def code(self: '=TokenRelationsGraph', relation: 'Relation',
             token: 'Token'):
        self.add(relation, token)

    def spec(self, relation, token):
        self.relations[id(relation)] = relation
        self.relation_items[id(relation)].append(token)
        self.tokens[id(token)] = token
        if id(token) not in self.token_forms and \
                isinstance(token, MorphToken):
            for form in token.forms:
                self.token_forms[id(token)].append(form)


class compared_pairs:
    """Every two words of a relation are compared."""
    props = 'C22'

    def code(self: '=TokenRelationsGraph'):
        return [(x.relation, x.first, x.second) for x in self.edges]

    def spec(self):
        result = []
        for key, items in self.relation_items.items():
            for first, second in combinations(items, 2):
                result.append((self.relations[key], first, second))
        return result


class checked_edges:
    """For each pair the readings that agree with some reading of the other
    word stay, in order."""
    props = 'C22 C21 C18'

    def code(self: '=TokenRelationsGraph'):
        self.check_edges()

    def spec(self):
        for edge in self.edges:
            relation, first, second = edge
            a, b = [], []
            forms, others = (self.token_forms[id(first)],
                             self.token_forms[id(second)])
            for x in forms:
                for y in others:
                    if relation(x, y):
                        if x not in a:
                            a.append(x)
                        if y not in b:
                            b.append(y)
            self.token_forms[id(first)] = a
            self.token_forms[id(second)] = [y for y in others if y in b]
    opaque = ['RelationsGraph.edges']
    returns = {'RelationsGraph.edges': '[Edge]'}


class sizes_of_readings:
    props = 'C22'
    premise = 'the sizes are compared in another way'

    def code(self: '=TokenRelationsGraph'):
        return [x for x in self.sizes]

    def spec(self):
        return [len(self.token_forms[x]) for x in self.tokens]


class constrained_word:
    """A related word is narrowed to its agreed readings; others stay."""
    props = 'C22 C18'
    opaque = ['.constrained']

    def code(self: '=TokenRelationsGraph', token: '=MorphToken'):
        return self.constrain(token)

    def spec(self, token):
        if id(token) in self.tokens:
            return self.tokens[id(token)].constrained(
                self.token_forms[id(token)])
        return token
    fields = {'TokenRelationsGraph.tokens': '{MorphToken}',
              'TokenRelationsGraph.token_forms': '{[Form]}'}


class validated_readings:
    """Narrowing is repeated until nothing changes; a word without readings
    makes the match invalid."""
    props = 'C22 C33'
    opaque = ['!TokenRelationsGraph.check_edges', 'TokenRelationsGraph.sizes']
    fields = {'TokenRelationsGraph.tokens': '{MorphToken}',
              'TokenRelationsGraph.token_forms': '{[Form]}'}

    def code(self: '=TokenRelationsGraph') -> 'bool':
        return self.validate()

    def spec(self):
        sizes = None
        while sizes != self.sizes:
            sizes = self.sizes
            self.check_edges()
        for x in self.tokens:
            if not self.token_forms[x]:
                return False
        return True


class empty_graph:
    """Without relations everything is valid."""
    props = 'C22'

    def code():
        x = TokenRelationsGraph()
        return x.tokens, x.relations

    def spec():
        return {}, {}


class narrowed_pair:
    """Two related words of two readings each: a reading stays when it agrees
    with some reading of the other word."""
    props = 'C22 C21'

    def given(r, span, w, x, y, u, v):
        return not x == y and not y == x and not u == v and not v == u

    def code(r: 'Relation', span: '=Span', w: 'str', x: '=Form', y: '=Form',
             u: '=Form', v: '=Form'):
        a = MorphToken(w, span, 'RU', [x, y])
        b = MorphToken(w, span, 'RU', [u, v])
        g = TokenRelationsGraph()
        g.add(r, a)
        g.add(r, b)
        g.check_edges()
        return (g.token_forms[id(a)], g.token_forms[id(b)],
                a.forms, b.forms)

    def spec(r, span, w, x, y, u, v):
        # the words themselves keep all of theirs
        return ([i for i in [x, y] if r(i, u) or r(i, v)],
                [i for i in [u, v] if r(x, i) or r(y, i)],
                [x, y], [u, v])


class case_agreement_apart:
    """Of readings in several cases all have to be the same."""
    props = 'C21'

    def given(self, a, b):
        v, w = a.grams.values, b.grams.values
        return not ('datv' in v or 'ablt' in v or 'voct' in v
                    or 'loct' in v or 'Fixd' in v
                    or 'datv' in w or 'ablt' in w or 'voct' in w
                    or 'loct' in w or 'Fixd' in w)

    def code(self: '=case_relation', a: '=Form', b: '=Form') -> 'bool':
        return self(a, b)

    def spec(self, a, b):
        v, w = a.grams.values, b.grams.values
        return (('nomn' in v) == ('nomn' in w)
                and ('gent' in v) == ('gent' in w)
                and ('accs' in v) == ('accs' in w))


class Pairs(Relation):
    """Agreement of listed readings."""
    def __init__(self, pairs):
        self.pairs = pairs

    def __call__(self, form, other):
        return (form, other) in self.pairs


class narrowed_until_stable:
    """Readings dropped for one pair of words are taken back from the pairs
    compared before, however many rounds that takes."""
    props = 'C22'

    def code(span: '=Span'):
        def related(pairs):
            words = [
                MorphToken(word, span, 'RU', [word + i for i in '123'])
                for word in 'abc']
            r = Pairs(pairs)
            g = TokenRelationsGraph()
            for word in words:
                g.add(r, word)
            valid = g.validate()
            return valid, [g.constrain(word).forms for word in words]
        return (
            related([('a1', 'b3'), ('a1', 'c1'), ('a2', 'b1'), ('a2', 'c2'),
                     ('a3', 'b2'), ('a3', 'c2'), ('a3', 'c3'), ('b1', 'c1'),
                     ('b3', 'c3')]),
            related([('a1', 'b3'), ('a1', 'c1'), ('a2', 'b1'), ('a2', 'c2'),
                     ('a3', 'b2'), ('a3', 'c3'), ('b1', 'c3'), ('b2', 'c1'),
                     ('b3', 'c1')]))

    def spec(span):
        return ((False, [[], [], []]), (True, [['a1'], ['b3'], ['c1']]))
