"""What constructors store: the premise of all the field types."""

from collections import defaultdict

from yargy.check import assert_type, assert_equals
from yargy.span import Span
from yargy.token import (
    Token, MorphToken, TagToken, MorphTagToken, get_tokens_span
)
from yargy.tokenizer import TokenRule, Tokenizer, MorphTokenizer
from yargy.tagger import Tagger, PassTagger, TaggersComposition
from yargy.morph import (
    Gender, Number, Case, Grams, Form, MorphAnalyzer, CachedMorphAnalyzer,
    PymorphyAnalyzer
)
from yargy.parser import State, Column, Chart, Match, Context
from yargy.tree import Node, Leaf, Tree
from yargy.pipelines import (
    Key, PipelineProduction, Pipeline, PipelineScheme, PipelineBNFRule,
    CaselessPipeline
)
from yargy.predicates.bank import (
    custom, CustomPredicate, caseless, in_caseless, eq
)
from yargy.predicates.constructors import (
    AndPredicate, OrPredicate, NotPredicate, ParameterPredicate, Predicate
)
from yargy.relations.constructors import (
    Main, AndRelation, OrRelation, NotRelation, Relation
)
from yargy.relations.graph import RelationsGraph, TokenRelationsGraph
from yargy.relations.graph import Edge as RelationEdge
from yargy.rule.bnf import BNF, BNFRule, BNFTransformator
from yargy.rule.constructors import (
    prepare_terms,
    Production, Rule, OrRule, ForwardRule, PipelineRule
)
from yargy.rule.transformators import RuleTransformator, ActivateTransformator
from yargy.interpretation.attribute import (
    AttributeScheme, RepeatableAttributeScheme, Attribute,
    RepeatableAttribute, InflectedAttribute, NormalizedAttribute,
    ConstAttribute, FunctionAttribute, FunctionFunctionAttribute,
    InflectedFunctionAttribute, NormalizedFunctionAttribute
)
from yargy.interpretation.interpretator import (
    InterpretatorInput, Chain, FactResult, AttributeResult, NormalizerResult,
    FactInterpretator, AttributeInterpretator, NormalizerInterpretator,
    AttributeNormalizerInterpretator
)
from yargy.interpretation.normalizer import (
    InflectedNormalizer, ConstNormalizer, FunctionNormalizer,
    FunctionFunctionNormalizer, MorphFunctionNormalizer
)
from yargy.dot import style, Graph, DotTransformator
from yargy.dot import Node as DotNode
from yargy.dot import Edge as DotEdge
from yargy.tree.transformators import (
    RelationsTransformator, ApplyRelationsTransformator, DotTreeTransformator
)


# ----------------------------------------------------------------- tokens


class span_stores:
    props = 'C05 C27 C29'

    def code(start: 'int', stop: 'int'):
        x = Span(start, stop)
        return x.start, x.stop

    def spec(start, stop):
        return start, stop


class token_stores:
    props = 'C05 C32 C18'

    def code(value: 'str', span: '=Span', type: 'str'):
        x = Token(value, span, type)
        return x.value, x.span, x.type

    def spec(value, span, type):
        return value, span, type


class morph_token_stores:
    props = 'C05 C18 C32 C28'

    def code(value: 'str', span: '=Span', type: 'str', forms: '[Form]'):
        x = MorphToken(value, span, type, forms)
        return x.value, x.span, x.type, x.forms

    def spec(value, span, type, forms):
        return value, span, type, forms


class tag_token_stores:
    props = 'C32 C05'

    def code(value: 'str', span: '=Span', type: 'str', tag: 'any'):
        x = TagToken(value, span, type, tag)
        return x.value, x.span, x.type, x.tag

    def spec(value, span, type, tag):
        return value, span, type, tag


class morph_tag_token_stores:
    props = 'C32 C18 C05'

    def code(value: 'str', span: '=Span', type: 'str', tag: 'any',
             forms: '[Form]'):
        x = MorphTagToken(value, span, type, tag, forms)
        return x.value, x.span, x.type, x.tag, x.forms

    def spec(value, span, type, tag, forms):
        return value, span, type, tag, forms


class token_rule_stores:
    props = 'C05 C06'

    def code(type: 'str', pattern: 'str'):
        x = TokenRule(type, pattern)
        return x.type, x.pattern

    def spec(type, pattern):
        return type, pattern


class taggers_stored:
    props = 'C32'

    def code(taggers: '[Tagger]'):
        return TaggersComposition(taggers).taggers

    def spec(taggers):
        return taggers


# ------------------------------------------------------------- morphology


class gender_stores:
    props = 'C21'

    def code(grams: '{str}'):
        x = Gender(grams)
        return x.male, x.female, x.neutral, x.bi, x.general

    def spec(grams):
        return (
            'masc' in grams, 'femn' in grams, 'neut' in grams,
            'Ms-f' in grams or 'ms-f' in grams, 'GNdr' in grams
        )


class number_stores:
    props = 'C21'

    def code(grams: '{str}'):
        x = Number(grams)
        return x.single, x.plural, x.only_single, x.only_plural

    def spec(grams):
        return (
            'sing' in grams, 'plur' in grams, 'Sgtm' in grams,
            'Pltm' in grams
        )


class case_stores:
    props = 'C21'

    def code(grams: '{str}'):
        x = Case(grams)
        return x.mask, x.fixed

    def spec(grams):
        return [
            'nomn' in grams, 'gent' in grams, 'datv' in grams,
            'accs' in grams, 'ablt' in grams, 'loct' in grams,
            'voct' in grams
        ], 'Fixd' in grams


class grams_store:
    props = 'C21 C28'

    def code(values: '{str}'):
        return Grams(values).values

    def spec(values):
        return values


class form_stores:
    props = 'C18 C28'

    def code(normalized: 'str', grams: '=Grams', raw: 'any'):
        x = Form(normalized, grams, raw)
        return x.normalized, x.grams, x.raw

    def spec(normalized, grams, raw):
        return normalized, grams, raw


class analyzer_stores:
    props = 'C28'

    def code(raw: 'any'):
        return MorphAnalyzer(raw).raw

    def spec(raw):
        return raw if raw else PymorphyAnalyzer()


class analyzer_by_default:
    props = 'C28'

    def code():
        return MorphAnalyzer().raw, CachedMorphAnalyzer().raw

    def spec():
        return PymorphyAnalyzer(), PymorphyAnalyzer()


# ---------------------------------------------------------------- parsing


class state_stores:
    props = 'C07'

    def code(rule: 'BNFRule', production: 'Production', dot_index: 'int',
             start_column: '=Column', stop_column: '=Column', node: 'Node'):
        x = State(rule, production, dot_index, start_column, stop_column,
                  node)
        return (x.rule, x.production, x.dot_index, x.start_column,
                x.stop_column, x.node)

    def spec(rule, production, dot_index, start_column, stop_column, node):
        return (rule, production, dot_index, start_column, stop_column, node)


class column_starts_empty:
    props = 'C07 C03'

    def code(index: 'int', token: '?Token'):
        x = Column(index, token)
        return x.index, x.token, x.states, x.hashes, x.states_index

    def spec(index, token):
        return index, token, [], set(), defaultdict(list)


class chart_of_an_iterator:
    """The tokens may come one by one."""
    props = 'C07 C03'

    def code(tokens: '<Token>'):
        x = Chart(tokens)
        return x.tokens, [(c.index, c.token) for c in x.columns]

    def spec(tokens):
        tokens = list(tokens)
        return tokens, [(0, None)] + [
            (i, x) for i, x in enumerate(tokens, 1)
        ]


class context_stores:
    props = 'C16 C19'

    def code(tokenizer: 'Tokenizer', tagger: '?Tagger'):
        x = Context(tokenizer, tagger)
        return x.tokenizer, x.tagger

    def spec(tokenizer, tagger):
        return tokenizer, tagger


class context_without_tagger:
    props = 'C16 C19'

    def code(tokenizer: 'Tokenizer'):
        x = Context(tokenizer)
        return x.tokenizer, x.tagger

    def spec(tokenizer):
        return tokenizer, None


class match_stores:
    props = 'C08 C09 C01'
    opaque = ['Tree.walk', 'get_tokens_span']
    returns = {'Tree.walk': ['Node']}

    def code(tree: 'Tree'):
        x = Match(tree)
        return x.tree, x.tokens, x.span

    def spec(tree):
        tokens = [x.token for x in tree.walk(types=Leaf)]
        return tree, tokens, get_tokens_span(tokens)


class node_stores:
    props = 'C07 C23'

    def code(rule: 'BNFRule', production: 'Production', rank: 'int',
             children: '[Node]'):
        x = Node(rule, production, rank, children)
        return x.rule, x.production, x.rank, x.children, x.size

    def spec(rule, production, rank, children):
        return rule, production, rank, children, sum(
            x.size for x in children)


class leaf_stores:
    props = 'C07 C18'

    def code(predicate: 'Predicate', token: 'Token'):
        x = Leaf(predicate, token)
        return x.predicate, x.token

    def spec(predicate, token):
        return predicate, token


class tree_stores:
    props = 'C01 C09'

    def code(root: 'Node', range: 'any'):
        x = Tree(root, range)
        return x.root, x.range

    def spec(root, range):
        return root, range


# -------------------------------------------------------------- pipelines


class key_stores:
    props = 'C20'

    def code(value: 'str', terms: 'any'):
        x = Key(value, terms)
        return x.value, x.terms

    def spec(value, terms):
        return value, terms


class pipeline_production_stores:
    props = 'C20 C25'
    opaque = ['prepare_terms']

    def code(value: 'str', terms: '[any]'):
        x = PipelineProduction(value, terms)
        return x.value, x.terms, x.main

    def spec(value, terms):
        x = Production(terms)
        return value, x.terms, x.main


class pipeline_of_an_iterator:
    props = 'C20 C03'

    def code(keys: '<Key>'):
        x = CaselessPipeline(keys)
        return list(x.keys), list(x.keys)

    def spec(keys):
        keys = list(keys)
        return keys, keys


class pipeline_scheme_of_an_iterator:
    props = 'C20 C30'

    def code(lines: '<any>'):
        x = PipelineScheme(lines)
        return list(x.lines), list(x.lines)

    def spec(lines):
        lines = list(lines)
        for x in lines:
            if not isinstance(x, str):
                raise TypeError
        return lines, lines


# ------------------------------------------------------------- predicates


class custom_stores:
    """One type is a list of one."""
    props = 'C17 C19'

    def code(function: 'any', types: 'any'):
        x = custom(function, types)
        return x.function, x.types

    def spec(function, types):
        if types is None:
            pass
        elif isinstance(types, tuple):
            pass
        elif isinstance(types, list):
            pass
        else:
            types = [types]
        return function, types


class custom_without_types:
    props = 'C17 C19'

    def code(function: 'any'):
        x = custom(function)
        return x.function, x.types

    def spec(function):
        return function, None


class custom_predicate_stores:
    props = 'C17'

    def code(function: 'any', types: 'any'):
        x = CustomPredicate(function, types)
        return x.function, x.types

    def spec(function, types):
        return function, types


class parameter_stores:
    props = 'C17'

    def code(value: 'any'):
        return eq(value).value

    def spec(value):
        return value


class caseless_stores:
    props = 'C17'

    def code(value: 'str'):
        return caseless(value).value

    def spec(value):
        return value.lower()


class in_caseless_stores:
    props = 'C17'

    def code(value: '<str>'):
        return in_caseless(value).value

    def spec(value):
        return {x.lower() for x in value}


class predicates_of_an_iterator:
    props = 'C16 C30'
    variants = {'kind': ['AndPredicate', 'OrPredicate']}

    def code(kind, predicates: '<any>'):
        x = kind(predicates)
        return list(x.predicates), list(x.predicates)

    def spec(kind, predicates):
        predicates = list(predicates)
        for x in predicates:
            if not isinstance(x, Predicate):
                raise TypeError
        return predicates, predicates


class not_predicate_stores:
    props = 'C16 C30'

    def code(predicate: 'any'):
        return NotPredicate(predicate).predicate

    def spec(predicate):
        if not isinstance(predicate, Predicate):
            raise TypeError
        return predicate


# -------------------------------------------------------------- relations


class relations_of_an_iterator:
    props = 'C21 C30'
    variants = {'kind': ['AndRelation', 'OrRelation']}

    def code(kind, relations: '<any>'):
        x = kind(relations)
        return list(x.relations), list(x.relations)

    def spec(kind, relations):
        relations = list(relations)
        for x in relations:
            if not isinstance(x, Relation):
                raise TypeError
        return relations, relations


class not_relation_stores:
    props = 'C21 C30'

    def code(relation: 'any'):
        return NotRelation(relation).relation

    def spec(relation):
        if not isinstance(relation, Relation):
            raise TypeError
        return relation


class relation_edge_stores:
    props = 'C22'

    def code(relation: 'Relation', first: 'any', second: 'any'):
        x = RelationEdge(relation, first, second)
        return x.relation, x.first, x.second

    def spec(relation, first, second):
        return relation, first, second


class relations_graph_starts_empty:
    props = 'C22 C03'

    def code():
        x = RelationsGraph()
        return x.relations, x.relation_items

    def spec():
        return {}, defaultdict(list)


class token_relations_graph_starts_empty:
    props = 'C22 C03'

    def code():
        x = TokenRelationsGraph()
        return x.relations, x.relation_items, x.tokens, x.token_forms

    def spec():
        return {}, defaultdict(list), {}, defaultdict(list)


class relations_transformator_starts_empty:
    props = 'C22 C03'

    def code():
        x = RelationsTransformator().relations
        return x.relations, x.relation_items, x.tokens, x.token_forms

    def spec():
        return {}, defaultdict(list), {}, defaultdict(list)


class relations_to_apply:
    props = 'C22'

    def code(relations: '=TokenRelationsGraph'):
        return ApplyRelationsTransformator(relations).relations

    def spec(relations):
        return relations


# ------------------------------------------------------------------ rules


class production_main_by_default:
    props = 'C23'
    opaque = ['prepare_terms']

    def code(terms: '[any]'):
        x = Production(terms)
        return x.terms, x.main

    def spec(terms):
        prepared, marked = prepare_terms(terms)
        return prepared, marked


class rule_of_an_iterator:
    props = 'C30 C02'

    def code(productions: '<any>'):
        x = Rule(productions)
        return list(x.productions), list(x.productions)

    def spec(productions):
        productions = list(productions)
        for x in productions:
            if not isinstance(x, Production):
                raise TypeError
        return productions, productions


class or_rule_of_an_iterator:
    props = 'C30 C02'

    def code(rules: '<any>'):
        x = OrRule(rules)
        return list(x.rules), list(x.rules)

    def spec(rules):
        rules = list(rules)
        for x in rules:
            if not isinstance(x, Rule):
                raise TypeError
        return rules, rules


class grammar_rule_stores:
    props = 'C13 C14'

    def code(productions: '[Production]', name: 'any', interpretator: 'any',
             relation: 'any'):
        x = BNFRule(productions, name, interpretator, relation)
        return x.productions, x.name, x.interpretator, x.relation

    def spec(productions, name, interpretator, relation):
        return productions, name, interpretator, relation


class grammar_rule_by_default:
    props = 'C13 C14'

    def code(productions: '[Production]'):
        x = BNFRule(productions)
        return x.productions, x.name, x.interpretator, x.relation

    def spec(productions):
        return productions, None, None, None


class forward_starts_undefined:
    props = 'C15'

    def code():
        return ForwardRule().rule

    def spec():
        return None


class pipeline_rule_stores:
    props = 'C20'

    def code(pipeline: 'Pipeline'):
        return PipelineRule(pipeline).pipeline

    def spec(pipeline):
        return pipeline


class transformation_starts_fresh:
    props = 'C02 C03 C13'

    def code():
        return RuleTransformator().visited

    def spec():
        return {}


class grammar_transformation_starts_fresh:
    props = 'C14 C03'

    def code():
        x = BNFTransformator()
        return x.visited, x.parents

    def spec():
        return {}, {}


class activation_starts_fresh:
    props = 'C16 C03 C19'

    def code(context: '=Context'):
        x = ActivateTransformator(context)
        return x.visited, x.context

    def spec(context):
        return {}, context


# --------------------------------------------------------- interpretation


class attribute_scheme_stores:
    props = 'C24'

    def code(name: 'str', default: 'any'):
        x = AttributeScheme(name, default)
        return x.name, x.default

    def spec(name, default):
        return name, default


class attribute_scheme_default:
    props = 'C24'

    def code(name: 'str'):
        x = AttributeScheme(name)
        return x.name, x.default

    def spec(name):
        return name, None


class repeatable_scheme_stores:
    props = 'C24 C30'

    def code(attribute: '=AttributeScheme'):
        return RepeatableAttributeScheme(attribute).name

    def spec(attribute):
        if attribute.default != None:
            raise ValueError
        return attribute.name


class attribute_stores:
    props = 'C24'

    def code(fact: 'any', name: 'str', default: 'any'):
        x = Attribute(fact, name, default)
        return x.fact, x.name, x.default

    def spec(fact, name, default):
        return fact, name, default


class repeatable_attribute_stores:
    props = 'C24'

    def code(fact: 'any', name: 'str'):
        x = RepeatableAttribute(fact, name)
        return x.fact, x.name

    def spec(fact, name):
        return fact, name


class normalised_attributes_store:
    props = 'C25'

    def code(attribute: 'AttributeBase', grams: '{str}', value: 'any',
             function: 'any', second: 'any'):
        a = InflectedAttribute(attribute, grams)
        b = NormalizedAttribute(attribute)
        c = ConstAttribute(attribute, value)
        d = FunctionAttribute(attribute, function)
        e = FunctionFunctionAttribute(attribute, function, second)
        f = InflectedFunctionAttribute(attribute, grams, function)
        g = NormalizedFunctionAttribute(attribute, function)
        return [
            (a.attribute, a.grams), b.attribute, (c.attribute, c.value),
            (d.attribute, d.function), (e.attribute, e.first, e.second),
            (f.attribute, f.grams, f.function), (g.attribute, g.function)
        ]

    def spec(attribute, grams, value, function, second):
        return [
            (attribute, grams), attribute, (attribute, value),
            (attribute, function), (attribute, function, second),
            (attribute, grams, function), (attribute, function)
        ]


class input_stores:
    props = 'C24 C25'

    def code(items: '<any>', key: 'any'):
        x = InterpretatorInput(items, key)
        return x.items, x.key

    def spec(items, key):
        return list(items), key


class input_without_key:
    props = 'C24 C25'

    def code(items: '<any>'):
        x = InterpretatorInput(items)
        return x.items, x.key

    def spec(items):
        return list(items), None


class results_store:
    props = 'C24 C25 C26'

    def code(tokens: '[Token]', key: 'any', fact: '=InterpretatorFact',
             value: 'any', attribute: 'AttributeBase',
             input: '=InterpretatorInput'):
        a = Chain(tokens, key)
        b = FactResult(fact)
        c = AttributeResult(value, attribute)
        d = NormalizerResult(value, input)
        return [
            (a.tokens, a.key), b.fact, (c.value, c.attribute),
            (d.value, d.input)
        ]

    def spec(tokens, key, fact, value, attribute, input):
        return [(tokens, key), fact, (value, attribute), (value, input)]


class interpretators_store:
    props = 'C24 C25'

    def code(attribute: 'AttributeBase', normalizer: 'Normalizer'):
        a = AttributeInterpretator(attribute)
        b = NormalizerInterpretator(normalizer)
        c = AttributeNormalizerInterpretator(attribute, normalizer)
        return [a.attribute, b.normalizer, c.attribute, c.normalizer]

    def spec(attribute, normalizer):
        return [attribute, normalizer, attribute, normalizer]


class normalizers_store:
    props = 'C25'

    def code(grams: '{str}', value: 'any', first: 'any', second: 'any',
             morph: 'Normalizer'):
        a = InflectedNormalizer(grams)
        b = ConstNormalizer(value)
        c = FunctionNormalizer(first)
        d = FunctionFunctionNormalizer(first, second)
        e = MorphFunctionNormalizer(morph, first)
        return [
            a.grams, b.value, c.function, (d.first, d.second),
            (e.morph, e.function)
        ]

    def spec(grams, value, first, second, morph):
        return [grams, value, first, (first, second), (morph, first)]


# ---------------------------------------------------------------- drawing


class dot_nodes_store:
    props = 'C31'

    def code(item: 'any', style: '=style', target: 'any'):
        a = DotNode(item, style)
        b = DotEdge(item, target, style)
        return (a.item, a.style), (b.source, b.target, b.style)

    def spec(item, style, target):
        return (item, style), (item, target, style)


class dot_style_stores:
    props = 'C31'

    def code(label: 'any', shape: 'any'):
        return style(label=label, shape=shape).attributes

    def spec(label, shape):
        return {'label': label, 'shape': shape}


class drawing_starts_empty:
    props = 'C31 C03'

    def code():
        x = DotTransformator().graph
        return x.nodes, x.edges, x.ids

    def spec():
        return [], [], {}


class tree_drawing_starts_empty:
    props = 'C31 C03'

    def code():
        x = DotTreeTransformator()
        return (x.graph.nodes, x.graph.edges, x.graph.ids,
                x.relations.relations, x.relations.relation_items)

    def spec():
        return [], [], {}, {}, defaultdict(list)
