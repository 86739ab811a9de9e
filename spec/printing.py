"""Labels, textual grammars and drawings."""

from itertools import combinations

from yargy.dot import (
    Graph, style, DotTransformator, BLUE, ORANGE, GREEN, RED, PURPLE, DARKGRAY
)
from yargy.parser import Chart, Column, State
from yargy.rule.bnf import BNF, BNFRule
from yargy.rule.constructors import (
    Production, EmptyProduction, Rule, OrRule, OptionalRule, RepeatableRule,
    RepeatableOptionalRule, MinBoundedRule, MaxBoundedRule, MinMaxBoundedRule,
    NamedRule, InterpretationRule, RelationRule, ForwardRule, EmptyRule,
    PipelineRule
)
from yargy.rule.transformators import DotRuleTransformator
from yargy.tree.constructors import Tree, Node, Leaf, dfs_tree, bfs_tree
from yargy.tree.transformators import DotTreeTransformator
from yargy.relations.graph import RelationsGraph, Edge
from yargy.relations.constructors import (
    Relation, AndRelation, OrRelation, NotRelation
)
from yargy.predicates.constructors import (
    Predicate, AndPredicate, OrPredicate, NotPredicate
)
from yargy.predicates.bank import (
    eq, in_, in_caseless, dictionary, DictionaryPredicate, GramPredicate,
    TypePredicate, TagPredicate, CustomPredicate
)
from yargy.interpretation.attribute import Attribute, RepeatableAttribute
from yargy.interpretation.interpretator import (
    FactInterpretator, AttributeInterpretator, NormalizerInterpretator,
    AttributeNormalizerInterpretator
)
from yargy.interpretation.normalizer import (
    InflectedNormalizer, ConstNormalizer, FunctionNormalizer,
    FunctionFunctionNormalizer, MorphFunctionNormalizer
)
from yargy.pipelines import PipelineBNFRule


# ------------------------------------------------------------ textual grammar

class grammar_text:
    """One line per rule, in the order of the walk from the start rule."""
    props = 'C36'

    def code(self: '=BNF'):
        return list(self.source), self.start

    def spec(self):
        return [str(x) for x in self.rules], self.rules[0]


class grammar_rules:
    """Every reachable rule once, those without a name get one in order."""
    props = 'C36'
    opaque = ['bfs_rule', 'generate_names']

    def code(self: '=BNFRule'):
        return self.as_bnf.rules

    def spec(self):
        from yargy.rule.constructors import bfs_rule
        from yargy.rule.bnf import generate_names
        return list(generate_names(
            x for x in bfs_rule(self) if isinstance(x, BNFRule)))


class rule_line:
    """name -> production | production"""
    props = 'C36'
    opaque = ['BNFRule.label', 'Production.__str__']

    def code(self: '=BNFRule'):
        return str(self)

    def spec(self):
        return '%s -> %s' % (
            self.label, ' | '.join([str(x) for x in self.productions]))


class rule_label:
    """The name, or the label of the interpretation, and the relation."""
    props = 'C36 C31'
    fields = {'BNFRule.name': 'str'}

    def code(self: '=BNFRule'):
        return self.label

    def spec(self):
        if self.interpretator is not None:
            name = self.interpretator.label
        else:
            name = self.name
        if self.relation is not None:
            return name + '^' + self.relation.label
        return name


class production_text:
    """The labels of the terms, the marked head with ^."""
    props = 'C36'

    def code(self: '=Production', empty: '=EmptyProduction'):
        return str(self), str(empty)

    def spec(self, empty):
        labels = []
        for i, term in enumerate(self.terms):
            if i > 0 and i == self.main:
                labels.append('^' + term.label)
            else:
                labels.append(term.label)
        return ' '.join(labels), 'e'


class pipeline_line:
    props = 'C36'
    fields = {'PipelineBNFRule.abbr': 'str'}

    def code(self: '=PipelineBNFRule'):
        return str(self)

    def spec(self):
        return self.label + ' -> ' + self.abbr


class state_text:
    """The position in the production is marked."""
    props = 'C36'
    fields = {'State.dot_index': 'int'}

    def code(self: '=State'):
        return str(self)

    def spec(self):
        terms = self.production.terms
        done = [x.label for x in terms[:self.dot_index]]
        todo = [x.label for x in terms[self.dot_index:]]
        return '[{}:{}] {} -> {}'.format(
            self.start_column.index, self.stop_column.index, self.rule.label,
            ' '.join(done + ['$'] + todo))


class chart_text:
    """All columns, each with all states."""
    props = 'C36'
    opaque = ['State.__str__']

    def code(self: '=Chart', column: '=Column'):
        return list(self.source), list(column.source)

    def spec(self, column):
        lines = []
        for x in self.columns:
            lines.append('%r %r' % (x.index, x.token))
            lines.append('----------------')
            for state in x.states:
                lines.append(str(state))
            lines.append('')
        own = ['%r %r' % (column.index, column.token), '----------------']
        own.extend(str(state) for state in column.states)
        return lines, own


class predicate_labels:
    props = 'C36 C31'

    def code(a: '=eq', b: '=GramPredicate', c: '=TypePredicate',
             d: '=TagPredicate', e: '=CustomPredicate'):
        return a.label, b.label, c.label, d.label, e.label

    def spec(a, b, c, d, e):
        return ("'" + str(a.value) + "'", "gram('" + str(b.value) + "')",
                'type(' + repr(c.value) + ')', 'tag(' + repr(d.value) + ')',
                'custom(' + str(e.function.__name__) + ')')


class list_labels:
    props = 'C36 C31'

    def code(a: '=in_', b: '=in_caseless', c: '=dictionary',
             d: '=DictionaryPredicate'):
        return a.label, b.label, c.label, d.label

    def spec(a, b, c, d):
        return ('in_(...)', 'in_caseless(...)', 'dictionary(...)',
                'dictionary(...)')


class composed_predicate_labels:
    props = 'C36 C31'

    def code(a: '=AndPredicate', b: '=OrPredicate', c: '=NotPredicate'):
        return a.label, b.label, c.label

    def spec(a, b, c):
        return ('and_(' + ', '.join([x.label for x in a.predicates]) + ')',
                'or_(' + ', '.join([x.label for x in b.predicates]) + ')',
                'not_(' + c.predicate.label + ')')


class relation_labels:
    props = 'C36 C31'

    def code(a: '=AndRelation', b: '=OrRelation', c: '=NotRelation'):
        return a.label, b.label, c.label

    def spec(a, b, c):
        return ('and_(' + ', '.join([x.label for x in a.relations]) + ')',
                'or_(' + ', '.join([x.label for x in b.relations]) + ')',
                'not_(' + c.relation.label + ')')


class interpretation_labels:
    props = 'C36 C31'
    fields = {'InflectedNormalizer.grams': '{str}'}

    def code(a: '=FactInterpretator', b: '=Attribute',
             c: '=AttributeInterpretator', d: '=NormalizerInterpretator',
             e: '=AttributeNormalizerInterpretator'):
        return a.label, b.label, c.label, d.label, e.label

    def spec(a, b, c, d, e):
        return (a.fact.__name__,
                '%s.%s' % (b.fact.__name__, b.name),
                c.attribute.label, d.normalizer.label,
                '%s.%s' % (e.attribute.label, e.normalizer.label))


class normalizer_labels:
    props = 'C36 C31'

    def code(a: '=InflectedNormalizer', b: '=ConstNormalizer',
             c: '=FunctionNormalizer', d: '=FunctionFunctionNormalizer',
             e: '=MorphFunctionNormalizer'):
        return a.label, b.label, c.label, d.label, e.label

    def spec(a, b, c, d, e):
        return ('inflected(%s)' % ', '.join(sorted(a.grams)),
                'const(%r)' % (b.value,),
                'custom(%s)' % c.function.__name__,
                'custom(%s).custom(%s)' % (d.first.__name__,
                                           d.second.__name__),
                '%s.%s' % (e.morph.label, e.function.__name__))


class node_labels:
    props = 'C36 C31'

    def code(self: '=Node', leaf: '=Leaf'):
        return self.label, leaf.label

    def spec(self, leaf):
        return self.rule.label, leaf.token.value


# ------------------------------------------------------------------- drawings

class drawing_style:
    """key="value" pairs in order."""
    props = 'C31'
    opaque = ['style.quote']
    fields = {'style.attributes': '{any}'}

    def code(self: '=style'):
        return str(self)

    def spec(self):
        return ', '.join([
            key + '=' + self.quote(value)
            for key, value in self.attributes.items()])


class new_graph:
    props = 'C31'

    def code():
        x = Graph()
        return x.nodes, x.edges, x.ids

    def spec():
        return [], [], {}


class graph_text:
    """A line for every node and every edge, with the numbers of the items."""
    props = 'C31'
    opaque = ['Graph.id', 'style.__str__']
    fields = {'Graph.nodes': ['yargy.dot:Node'],
              'Graph.edges': ['yargy.dot:Edge'],
              'Node.style': '?=style', 'Edge.style': '?=style',
              'Graph.graph_style': '=style', 'Graph.node_style': '=style',
              'Graph.edge_style': '=style'}
    returns = {'Graph.id': 'int', 'style.__str__': 'str'}

    def code(self: '=Graph'):
        return list(self.source)

    def spec(self):
        lines = ['digraph G {',
                 'graph [' + str(self.graph_style) + '];',
                 'node [' + str(self.node_style) + '];',
                 'edge [' + str(self.edge_style) + '];']
        for node in self.nodes:
            if node.style:
                lines.append('%s [%s];' % (self.id(node.item),
                                           str(node.style)))
            else:
                lines.append('%s' % self.id(node.item))
        for edge in self.edges:
            if edge.style:
                lines.append('%s -> %s [%s];' % (
                    self.id(edge.source), self.id(edge.target),
                    str(edge.style)))
            else:
                lines.append('%s -> %s;' % (
                    self.id(edge.source), self.id(edge.target)))
        lines.append('}')
        return lines


class drawn_production:
    """An edge to every term in order, that of the marked head styled."""
    props = 'C31'
    opaque = ['!Graph.add_node', '!Graph.add_edge']
    fields = {'DotTransformator.graph': '=Graph'}

    def code(self: '=DotRuleTransformator', item: '=Production'):
        self.visit(item)

    def spec(self, item):
        self.graph.add_node(item, style(label='Production', fillcolor=BLUE))
        for index, child in enumerate(item.terms):
            if index > 0 and index == item.main:
                self.graph.add_edge(item, child, style(color=DARKGRAY))
            else:
                self.graph.add_edge(item, child, None)


class drawn_rule_kind:
    """Every kind of rule is drawn with a label of its own and with edges to
    all its children."""
    props = 'C31 C15'
    opaque = ['!DotTransformator.style']
    variants = {'item': [
        '=Rule', '=OrRule', '=OptionalRule', '=RepeatableRule',
        '=RepeatableOptionalRule', '=MinBoundedRule', '=MaxBoundedRule',
        '=MinMaxBoundedRule', '=NamedRule', '=InterpretationRule',
        '=RelationRule', '=ForwardRule', '=EmptyRule', '=PipelineRule',
        '=BNFRule', '=PipelineBNFRule', '=EmptyProduction', '=eq']}
    fields = {'MinBoundedRule.min': 'int', 'MaxBoundedRule.max': 'int',
              'NamedRule.name': 'str'}

    def code(self: '=DotRuleTransformator', item):
        self.visit(item)

    def spec(self, item):
        kind = type(item)
        if kind is Rule:
            self.style(item, style(label='Rule', fillcolor=BLUE))
        elif kind is OrRule:
            self.style(item, style(label='Or', fillcolor=BLUE))
        elif kind is OptionalRule:
            self.style(item, style(label='Optional', fillcolor=ORANGE))
        elif kind is RepeatableRule:
            self.style(item, style(label='Repeatable', fillcolor=ORANGE))
        elif kind is RepeatableOptionalRule:
            self.style(item, style(label='RepeatableOptional',
                                   fillcolor=ORANGE))
        elif kind is MinBoundedRule:
            self.style(item, style(label='MinBounded >=%d' % item.min,
                                   fillcolor=ORANGE))
        elif kind is MaxBoundedRule:
            self.style(item, style(label='MaxBounded <=%d' % item.max,
                                   fillcolor=ORANGE))
        elif kind is MinMaxBoundedRule:
            self.style(item, style(
                label='MinMaxBounded [{}, {}]'.format(item.min, item.max),
                fillcolor=ORANGE))
        elif kind is NamedRule:
            self.style(item, style(label=item.name, fillcolor=RED))
        elif kind is InterpretationRule:
            self.style(item, style(label=item.interpretator.label,
                                   fillcolor=GREEN))
        elif kind is RelationRule:
            self.style(item, style(label=item.relation.label,
                                   fillcolor=PURPLE))
        elif kind is ForwardRule:
            self.style(item, style(label='Forward', fillcolor=PURPLE))
        elif kind is EmptyRule:
            self.style(item, style(label='Empty'))
        elif kind is PipelineRule:
            self.style(item, style(label=item.pipeline.label,
                                   fillcolor=PURPLE))
        elif kind is EmptyProduction:
            self.style(item, style(label='EmptyProduction'))
        elif kind is eq:
            self.style(item, style(label=item.label))
        else:
            self.style(item, style(label=item.label, fillcolor=GREEN))


class drawn_tree:
    """Every node with edges to its children, interpreted ones marked, and
    nodes under one relation connected."""
    props = 'C31'
    opaque = ['!DotTransformator.style', '!RelationsGraph.add']
    variants = {'item': ['=Node', '=Leaf']}
    fields = {'DotTreeTransformator.relations': '=RelationsGraph'}

    def code(self: '=DotTreeTransformator', item):
        self.visit(item)

    def spec(self, item):
        if type(item) is Leaf:
            self.style(item, style(label=item.token.value))
        else:
            if item.rule.interpretator:
                self.style(item, style(label=item.label, fillcolor=GREEN))
            else:
                self.style(item, style(label=item.label, fillcolor=BLUE))
            if item.rule.relation:
                self.relations.add(item.rule.relation, item)


class drawn_relations:
    props = 'C31'
    opaque = ['!Graph.add_edge', '!Visitor.visit', 'dfs_tree']
    fields = {'DotTreeTransformator.relations': '=RelationsGraph',
              'DotTransformator.graph': '=Graph',
              'RelationsGraph.relations': '{Relation}',
              'RelationsGraph.relation_items': '{[Node]}'}

    def code(self: '=DotTreeTransformator', tree: '=Tree'):
        return self(tree)

    def spec(self, tree):
        for item in dfs_tree(tree.root):
            self.visit(item)
        for key, items in self.relations.relation_items.items():
            relation = self.relations.relations[key]
            for first, second in combinations(items, 2):
                self.graph.add_edge(first, second, style(
                    label=relation.label, dir='none', style='dashed'))
        return self.graph


class drawing_of_rule:
    props = 'C31'
    opaque = ['DotTransformator.__call__', 'DotTreeTransformator.__call__']

    def code(rule: '=Rule', tree: '=Tree'):
        return rule.as_dot, tree.as_dot

    def spec(rule, tree):
        return DotRuleTransformator()(rule), DotTreeTransformator()(tree)


class walked_tree:
    """Depth first from left to right; of given types only."""
    props = 'C31 C22'
    opaque = ['dfs_tree']

    def code(self: '=Tree', types):
        return list(self.walk()), list(self.walk(types))

    def spec(self, types):
        items = list(dfs_tree(self.root))
        if types:
            return items, [x for x in items if isinstance(x, types)]
        return items, items


# -------------------------------------------------------------- printed values

class record_text:
    """Name(field=value, ..) with the declared fields in order."""
    props = 'C29'

    def code(self: '=Span', rule: '=NamedRule', forward: '=ForwardRule',
             grams: '=Grams', form: '=Form'):
        return (repr(rule), repr(forward), repr(grams), repr(form),
                repr(self))

    def spec(self, rule, forward, grams, form):
        if forward.rule:
            text = 'ForwardRule(...)'
        else:
            text = 'ForwardRule()'
        return ('NamedRule(rule=%r, name=%r)' % (rule.rule, rule.name), text,
                'Grams(' + ','.join(sorted(grams.values)) + ')',
                'Form(%r, %r)' % (form.normalized, form.grams),
                '[' + str(self.start) + ', ' + str(self.stop) + ')')
