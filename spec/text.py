"""Tokenizers, taggers, morphology, records, drawings, checks, api."""

import re

from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, RULES
from yargy.tagger import Tagger, PassTagger, TaggersComposition
from yargy.morph import (
    MorphAnalyzer, CachedMorphAnalyzer, Form, Grams, prepare_form,
    Gender, Number, Case
)
from yargy.record import Record
from yargy.check import (
    assert_type, assert_subclass, assert_equals, assert_greater_equals,
    assert_not_empty
)
from yargy.token import (
    Token, MorphToken, TagToken, MorphTagToken, inflect_token, normalize_token
)
from yargy.span import Span
from yargy.dot import Graph, style, DotTransformator
from yargy.api import rule, and_, or_, not_, prepare_production_item
from yargy.predicates.constructors import (
    Predicate, AndPredicate, OrPredicate, NotPredicate
)
from yargy.predicates.bank import (
    eq, TypePredicate, GramPredicate, CustomPredicate, DictionaryPredicate
)
from yargy.pipelines import Key, PipelineProduction
from yargy.relations.constructors import (
    Relation, AndRelation, OrRelation, NotRelation, Main
)
from yargy.rule.constructors import (
    Rule, OrRule, Production, OptionalRule, RepeatableRule,
    RepeatableOptionalRule, MinBoundedRule, MaxBoundedRule,
    MinMaxBoundedRule, NamedRule, InterpretationRule, RelationRule,
    PipelineRule
)
from yargy.rule.bnf import BNFRule
from yargy.parser import Match
from yargy.tree.constructors import Tree, Node, Leaf


# ---------------------------------------------------------------- tokenizer

class tokens_of_text:
    """One token per occurrence: the text, span and type of what matched."""
    props = 'C05'
    fields = {'Tokenizer.mapping': '{str}', 'Tokenizer.regexp': 'any'}

    def code(self: '=Tokenizer', text: 'str'):
        return [(x.value, x.span.start, x.span.stop, x.type)
                for x in self(text)]

    def spec(self, text):
        result = []
        for match in re.finditer(self.regexp, text):
            start, stop = match.span()
            result.append((match.group(0), start, stop,
                           self.mapping[match.lastgroup]))
        return result


class compiled_rules:
    """The alternatives are in the order of the rules, each with its own
    name; every name has the type of its rule."""
    props = 'C05 C06'

    def code(self: '=Tokenizer', rules: '[TokenRule]'):
        return self.compile(rules)

    def spec(self, rules):
        mapping = {}
        for rule in rules:
            mapping['rule_{id}'.format(id=id(rule))] = rule.type
        pattern = '|'.join([
            '(?P<{name}>{pattern})'.format(
                name='rule_{id}'.format(id=id(rule)), pattern=rule.pattern)
            for rule in rules])
        return (re.compile(pattern, re.UNICODE | re.IGNORECASE), mapping,
                {rule.type for rule in rules})


class compiled_once:
    """A tokenizer keeps its rules, the compiled pattern and the types."""
    props = 'C05 C06 C30'
    opaque = ['Tokenizer.compile']

    def code(self: '=Tokenizer', rules: '[any]'):
        self.reset(rules)

    def spec(self, rules):
        for rule in rules:
            if not isinstance(rule, TokenRule):
                raise TypeError
        self.rules = rules
        regexp, mapping, types = self.compile(rules)
        self.regexp = regexp
        self.mapping = mapping
        self.types = types


class default_tokenizer:
    """Without rules the tokenizer has the default ones."""
    props = 'C05 C06'
    opaque = ['Tokenizer.compile']

    def code(rules: '[TokenRule]'):
        return Tokenizer(rules).rules, Tokenizer().rules

    def spec(rules):
        for rule in RULES:
            if not isinstance(rule, TokenRule):
                raise TypeError()
        return rules, RULES


class default_morph_tokenizer:
    """Morphological tokenizers take rules and analyser, by default the
    standard ones."""
    props = 'C05 C06 C28'
    opaque = ['Tokenizer.compile', 'new CachedMorphAnalyzer']

    def code(rules: '[TokenRule]', morph: '?=MorphAnalyzer'):
        x = MorphTokenizer(rules, morph)
        y = MorphTokenizer()
        return x.rules, x.morph, y.rules, y.morph

    def spec(rules, morph):
        for rule in RULES:
            if not isinstance(rule, TokenRule):
                raise TypeError()
        return (rules, morph or CachedMorphAnalyzer(), RULES,
                CachedMorphAnalyzer())


class added_rules:
    """New rules come first, the old ones stay in order; the old list is not
    changed."""
    props = 'C06'
    opaque = ['!Tokenizer.reset']

    def code(self: '=Tokenizer', a, b):
        return self.add_rules(a, b)

    def spec(self, a, b):
        self.reset([a, b] + self.rules)
        return self


class removed_types:
    """Exactly the rules of the named types are removed; unknown types are
    refused."""
    props = 'C06'
    opaque = ['!Tokenizer.reset']

    def code(self: '=Tokenizer', a: 'str', b: 'str'):
        return self.remove_types(a, b)

    def spec(self, a, b):
        if a not in self.types:
            raise ValueError
        if b not in self.types:
            raise ValueError
        self.reset([x for x in self.rules if x.type != a and x.type != b])
        return self


class known_type:
    props = 'C06 C19'

    def code(self: '=Tokenizer', type: 'str'):
        return self.check_type(type)

    def spec(self, type):
        if type not in self.types:
            raise ValueError


class split_text:
    props = 'C05 C20'
    opaque = ['.__call__']
    returns = {'Tokenizer.__call__': '[Token]'}

    def code(self: '=Tokenizer', text: 'str'):
        return self.split(text)

    def spec(self, text):
        return [x.value for x in self(text)]


class morph_tokens_of_text:
    """Russian words get all their readings, the rest stays."""
    props = 'C05 C28'
    opaque = ['Tokenizer.__call__']
    returns = {'Tokenizer.__call__': '[Token]'}
    fields = {'MorphTokenizer.morph': 'any'}

    def code(self: '=MorphTokenizer', text: 'str'):
        return list(self(text))

    def spec(self, text):
        result = []
        for token in Tokenizer.__call__(self, text):
            if token.type == 'RU':
                token = MorphToken(token.value, token.span, token.type,
                                   self.morph(token.value))
            result.append(token)
        return result


# ------------------------------------------------------------------ taggers

class no_tags:
    """Without a tagger tokens stay as they are."""
    props = 'C32'

    def code(self: '=PassTagger', tokens: '[Token]'):
        return list(self(tokens))

    def spec(self, tokens):
        return list(tokens)


class taggers_in_order:
    """Every tagger gets the tokens of the previous one."""
    props = 'C32'
    opaque = ['.__call__']

    def code(self: '=TaggersComposition', tokens):
        return self(tokens)

    def spec(self, tokens):
        for tagger in self.taggers:
            tokens = tagger(tokens)
        return tokens


class tags_of_tagger:
    props = 'C19 C32'
    fields = {'Tagger.tags': '[str]'}
    variants = {'self': ['=Tagger', '=PassTagger']}

    def code(self, tag: 'str') -> 'bool':
        return self.check_tag(tag)

    def spec(self, tag):
        return tag in self.tags


class tags_of_taggers:
    """A tag is known if any of the taggers knows it."""
    props = 'C19 C32'
    opaque = ['Tagger.check_tag']

    def code(self: '=TaggersComposition', tag: 'str') -> 'bool':
        return self.check_tag(tag)

    def spec(self, tag):
        for x in self.taggers:
            if x.check_tag(tag):
                return True
        return False


# --------------------------------------------------------------- morphology

class readings_of_word:
    """All readings of the dictionary, in its order."""
    props = 'C28'
    fields = {'MorphAnalyzer.raw': 'any'}
    variants = {'self': ['=MorphAnalyzer', '=CachedMorphAnalyzer']}

    def code(self, word: 'str'):
        return [(x.normalized, x.grams.values, x.raw) for x in self(word)]

    def spec(self, word):
        return [(x.normal_form, x.tag.grammemes, x)
                for x in self.raw.parse(word)]


class normal_forms_of_word:
    props = 'C28 C20 C17'
    fields = {'MorphAnalyzer.raw': 'any'}
    variants = {'self': ['=MorphAnalyzer', '=CachedMorphAnalyzer']}

    def code(self, word: 'str'):
        return self.normalized(word)

    def spec(self, word):
        return {x.normal_form for x in self.raw.parse(word)}


class known_grammeme:
    props = 'C19 C28'
    variants = {'self': ['=MorphAnalyzer', '=CachedMorphAnalyzer']}

    def code(self, gram: 'str'):
        return self.check_gram(gram)

    def spec(self, gram):
        if not self.raw.TagClass.grammeme_is_known(gram):
            raise ValueError


class inflected_form:
    """The inflected word, or the normal form when there is none."""
    props = 'C25 C28'

    def code(self: '=Form', grams):
        return self.inflect(grams)

    def spec(self, grams):
        record = self.raw.inflect(grams)
        if not record:
            return self.normalized
        return record.word


class inflected_by_default:
    props = 'C25 C28'

    def code(self: '=Form'):
        return self.inflect()

    def spec(self):
        record = self.raw.inflect({'nomn', 'sing'})
        if not record:
            return self.normalized
        return record.word


class inflected_word:
    """The first reading is inflected; other tokens are in lower case."""
    props = 'C25 C28 C27'
    variants = {'token': ['=Token', '=MorphToken', '=TagToken',
                          '=MorphTagToken']}
    opaque = ['Form.inflect']

    def code(token, grams):
        x = inflect_token(token, grams)
        return type(x), x.value, x.span, x.type

    def spec(token, grams):
        if isinstance(token, MorphToken):
            return Token, token.forms[0].inflect(grams), token.span, token.type
        return Token, token.value.lower(), token.span, token.type


class normalised_word:
    props = 'C25 C28 C27'
    variants = {'token': ['=Token', '=MorphToken', '=TagToken',
                          '=MorphTagToken']}

    def code(token):
        x = normalize_token(token)
        return type(x), x.value, x.span, x.type

    def spec(token):
        if isinstance(token, MorphToken):
            return Token, token.forms[0].normalized, token.span, token.type
        return Token, token.value.lower(), token.span, token.type


class grammeme_of_reading:
    props = 'C28 C17'

    def code(self: '=Grams', value) -> 'bool':
        return value in self

    def spec(self, value):
        return value in self.values


# ------------------------------------------------------------------ records

class values_of_record:
    """The values of the declared fields, in order."""
    props = 'C29'
    fields = {'Record.__attributes__': '[str]'}

    def code(self: 'Record'):
        return list(Record.__iter__(self))

    def spec(self):
        return [getattr(self, name) for name in self.__attributes__]


class equal_records:
    """Equal declared fields, all of them."""
    props = 'C29'

    def code(self: '=Token', other: '=Token') -> 'bool':
        return Record.__eq__(self, other)

    def spec(self, other):
        return self.value == other.value and self.span == other.span and \
            self.type == other.type


class equal_edges:
    props = 'C29 C22'

    def code(self: '=yargy.relations.graph:Edge',
             other: '=yargy.relations.graph:Edge') -> 'bool':
        return Record.__eq__(self, other)

    def spec(self, other):
        return self.relation == other.relation and \
            self.first == other.first and self.second == other.second


class equal_values:
    """Objects of one class are equal exactly when all fields are."""
    props = 'C29'
    variants = {'self': [
        '=MorphToken', '=TagToken', '=MorphTagToken', '=Form', '=Grams',
        '=TokenRule', '=Match', '=Tree', '=Node', '=Leaf', '=Production',
        '=Gender', '=Number', '=Case', '=Rule', '=OrRule', '=OptionalRule',
        '=RepeatableRule', '=RepeatableOptionalRule', '=MinBoundedRule',
        '=MaxBoundedRule', '=MinMaxBoundedRule', '=NamedRule',
        '=InterpretationRule', '=RelationRule', '=PipelineRule', '=BNFRule',
        '=eq', '=AndPredicate', '=OrPredicate', '=NotPredicate',
        '=AndRelation', '=OrRelation', '=NotRelation', '=Main', '=Key',
        '=PipelineProduction', '=TypePredicate', '=GramPredicate',
        '=CustomPredicate', '=DictionaryPredicate']}

    def given(self, other):
        return type(self) == type(other)       # noqa

    def code(self, other) -> 'bool':
        return self.__eq__(other)

    def spec(self, other):
        names = {
            MorphToken: ['value', 'span', 'type', 'forms'],
            TagToken: ['value', 'span', 'type', 'tag'],
            MorphTagToken: ['value', 'span', 'type', 'tag', 'forms'],
            Form: ['normalized', 'grams'],
            Grams: ['values'],
            TokenRule: ['type', 'pattern'],
            Match: ['tokens', 'span'],
            Tree: ['root', 'range'],
            Node: ['rule', 'production', 'rank', 'children'],
            Leaf: ['predicate', 'token'],
            Production: ['terms', 'main'],
            Gender: ['male', 'female', 'neutral', 'bi', 'general'],
            Number: ['single', 'plural', 'only_single', 'only_plural'],
            Case: ['mask', 'fixed'],
            Rule: ['productions'],
            OrRule: ['rules'],
            OptionalRule: ['rule', 'reverse'],
            RepeatableRule: ['rule', 'reverse'],
            RepeatableOptionalRule: [
                'rule', 'reverse_repeatable', 'reverse_optional'],
            MinBoundedRule: ['rule', 'min', 'reverse'],
            MaxBoundedRule: ['rule', 'max', 'reverse'],
            MinMaxBoundedRule: ['rule', 'min', 'max', 'reverse'],
            NamedRule: ['rule', 'name'],
            InterpretationRule: ['rule', 'interpretator'],
            RelationRule: ['rule', 'relation'],
            PipelineRule: ['pipeline'],
            BNFRule: ['productions', 'name', 'interpretator', 'relation'],
            eq: ['value'],
            TypePredicate: ['value'],
            GramPredicate: ['value'],
            DictionaryPredicate: ['value'],
            CustomPredicate: ['function', 'types'],
            AndPredicate: ['predicates'],
            OrPredicate: ['predicates'],
            NotPredicate: ['predicate'],
            AndRelation: ['relations'],
            OrRelation: ['relations'],
            NotRelation: ['relation'],
            Main: ['term'],
            Key: ['value', 'terms'],
            PipelineProduction: ['value', 'terms'],
        }[type(self)]
        return all(
            getattr(self, name) == getattr(other, name) for name in names)


class unequal_classes:
    """Records of different classes differ, whatever their fields are."""
    props = 'C29'

    def given(self, other):
        return type(self) != type(other)       # noqa

    def code(self: 'Record', other) -> 'bool':
        return Record.__eq__(self, other)

    def spec(self, other):
        return False


class hash_of_record:
    """The hash is that of the values."""
    props = 'C29'

    def code(self: '=Span') -> 'int':
        return Record.__hash__(self)

    def spec(self):
        return hash((self.start, self.stop))


class hash_of_token:
    props = 'C29'
    variants = {'self': ['=Token', '=MorphToken']}

    def code(self):
        return hash(self)

    def spec(self):
        if isinstance(self, MorphToken):
            return hash((self.value, self.span, self.type, self.forms))
        return hash((self.value, self.span, self.type))


class unequal_records:
    props = 'C29'
    opaque = ['Record.__eq__']

    def code(self: '=Token', other) -> 'bool':
        return self.__ne__(other)

    def spec(self, other):
        return not self == other


# ------------------------------------------------------------------- checks

class check_of_type:
    props = 'C30'

    def code(item, type):
        return assert_type(item, type)

    def spec(item, type):
        if not isinstance(item, type):
            raise TypeError


class check_of_subclass:
    props = 'C30'

    def code(item, cls):
        return assert_subclass(item, cls)

    def spec(item, cls):
        if not issubclass(item, cls):
            raise TypeError


class check_of_values:
    props = 'C30 C11'

    def code(a, b, c: 'int', d: 'int', e: '[any]'):
        assert_equals(a, b)
        assert_greater_equals(c, d)
        assert_not_empty(e)

    def spec(a, b, c, d, e):
        if a != b:
            raise ValueError
        if c < d:
            raise ValueError
        if len(e) == 0:
            raise ValueError


# ---------------------------------------------------------------------- api

class term_of_rule:
    """Anything but a rule, predicate or main() is compared literally."""
    props = 'C30'

    def code(item):
        x = prepare_production_item(item)
        return x

    def spec(item):
        if isinstance(item, (Predicate, Rule, Main)):
            return item
        return eq(item)


class rule_of_terms:
    """rule() has one production of the terms in order."""
    props = 'C30 C10'
    opaque = ['prepare_production_item', 'new Production', 'new Rule']

    def code(items: '[any]'):
        return rule(*items)

    def spec(items):
        return Rule([Production([prepare_production_item(x)
                                 for x in items])])


class conjunction:
    """and_ of predicates or of relations."""
    props = 'C30 C16'
    opaque = ['new AndPredicate', 'new AndRelation']

    def code(items: '[any]'):
        return and_(*items)

    def spec(items):
        if all(isinstance(x, Predicate) for x in items):
            return AndPredicate(items)
        if all(isinstance(x, Relation) for x in items):
            return AndRelation(items)
        raise TypeError


class disjunction:
    """or_ of predicates, of relations or of rules."""
    props = 'C30 C16 C10'
    opaque = ['new OrPredicate', 'new OrRelation', 'new OrRule']

    def code(items: '[any]'):
        return or_(*items)

    def spec(items):
        if all(isinstance(x, Predicate) for x in items):
            return OrPredicate(items)
        if all(isinstance(x, Relation) for x in items):
            return OrRelation(items)
        if all(isinstance(x, Rule) for x in items):
            return OrRule(items)
        raise TypeError


class negation:
    """not_ of a predicate or of a relation."""
    props = 'C30 C16'
    opaque = ['new NotPredicate', 'new NotRelation']

    def code(item):
        return not_(item)

    def spec(item):
        if isinstance(item, Predicate):
            return NotPredicate(item)
        if isinstance(item, Relation):
            return NotRelation(item)
        raise TypeError


# ----------------------------------------------------------------- drawings

class quoted_label:
    """Backslashes, quotes and line ends are escaped."""
    props = 'C31'

    def code(self: '=style', value: 'str'):
        return self.quote(value)

    def spec(self, value):
        value = str(value)
        value = value.replace('\\', '\\\\')
        value = value.replace('"', '\\"')
        value = value.replace('\n', '\\n')
        value = value.replace('\r', '\\r')
        return '"' + value + '"'


class drawn_node:
    props = 'C31'

    def code(self: '=Graph', item, style):
        self.add_node(item, style)

    def spec(self, item, style):
        from yargy.dot import Node
        self.nodes.append(Node(item, style))


class drawn_edge:
    props = 'C31'

    def code(self: '=Graph', a, b, style):
        self.add_edge(a, b, style)

    def spec(self, a, b, style):
        from yargy.dot import Edge
        self.edges.append(Edge(a, b, style))


class drawn_item:
    """A node for the item and an edge to every child."""
    props = 'C31'
    opaque = ['!Graph.add_node', '!Graph.add_edge']
    fields = {'DotTransformator.graph': '=Graph'}
    variants = {'self': ['=DotTransformator']}

    def code(self, item, style):
        self.style(item, style)

    def spec(self, item, style):
        self.graph.add_node(item, style)
        for child in item.children:
            self.graph.add_edge(item, child)


class drawn_graph:
    """Every item of the walk is drawn."""
    props = 'C31'
    opaque = ['!Visitor.visit']
    fields = {'DotTransformator.graph': '=Graph'}
    variants = {'self': ['=DotTransformator']}

    def code(self, root: 'Rule'):
        return self(root)

    def spec(self, root):
        for item in root.walk():
            self.visit(item)
        return self.graph


class number_of_item:
    """Every item has a number of its own."""
    props = 'C31'
    fields = {'Graph.ids': '{int}'}

    def code(self: '=Graph', item):
        return self.id(item)

    def spec(self, item):
        if id(item) not in self.ids:
            self.ids[id(item)] = len(self.ids)
        return self.ids[id(item)]
