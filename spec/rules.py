"""Grammar rules: constructors and the stages from a rule to a start rule."""

from yargy.rule.constructors import (
    Production, EmptyProduction, Rule, OrRule, WrapperRule, ExtendedRule,
    OptionalRule, RepeatableRule, RepeatableOptionalRule, BoundedRule,
    MinBoundedRule, MaxBoundedRule, MinMaxBoundedRule, NamedRule,
    InterpretationRule, RelationRule, ForwardRule, EmptyRule, PipelineRule,
    prepare_terms, is_rule, is_forward_rule, bfs_rule
)
from yargy.rule.transformators import (
    RuleTransformator, ActivateTransformator, SquashExtendedTransformator,
    ReplaceExtendedTransformator, ReplaceOrTransformator,
    ReplaceEmptyTransformator, FlattenTransformator,
    max_bound, repeatable, optional, repeatable_optional,
    InplaceRuleTransformator
)
from yargy.rule.bnf import (
    BNF, BNFRule, BNFTransformator, RemoveForwardTransformator
)
from yargy.visitor import TransformatorsComposition, Visitor
from yargy.predicates import Predicate
from yargy.relations import Main, Relation
from yargy.interpretation import Interpretator
from yargy.pipelines import PipelineBNFRule


# ------------------------------------------------------------- constructors


class terms_of_production:
    """main() marks the head; the first term is the head by default; two
    heads and foreign items are errors."""
    props = 'C23 C30'

    def code(items: '[any]'):
        return prepare_terms(items)

    def spec(items):
        main = None
        terms = []
        for index, item in enumerate(items):
            if not isinstance(item, (Predicate, Rule, Main)):
                raise TypeError
            if isinstance(item, Main):
                if main is not None:
                    raise ValueError
                main = index
                item = item.term
            terms.append(item)
        if main is None:
            main = 0
        return terms, main


class terms_of_two:
    """Marking two terms is an error wherever they are."""
    props = 'C23'

    def code(a: 'any', b: 'any'):
        return prepare_terms([a, b])

    def spec(a, b):
        if not isinstance(a, (Predicate, Rule, Main)):
            raise TypeError
        if not isinstance(b, (Predicate, Rule, Main)):
            # the first error is the one reported
            raise TypeError
        main = 0
        if isinstance(b, Main):
            if isinstance(a, Main):
                raise ValueError
            main = 1
        return [
            a.term if isinstance(a, Main) else a,
            b.term if isinstance(b, Main) else b
        ], main


class production_fields:
    props = 'C23'
    opaque = ['prepare_terms']

    def code(terms, main: 'int'):
        x = Production(terms, main)
        return x.terms, x.main

    def spec(terms, main):
        prepared, marked = prepare_terms(terms)
        if main > 0:
            marked = main
        return prepared, marked


class empty_production_fields:
    props = 'C11'
    opaque = ['prepare_terms']

    def code():
        x = EmptyProduction()
        return x.terms

    def spec():
        return prepare_terms([])[0]


class rule_requires_productions:
    props = 'C30'

    def code(productions: '[any]'):
        return Rule(productions).productions

    def spec(productions):
        for x in productions:
            if not isinstance(x, Production):
                raise TypeError
        return [x for x in productions]


class or_rule_requires_rules:
    props = 'C30'

    def code(rules: '[any]'):
        return OrRule(rules).rules

    def spec(rules):
        for x in rules:
            if not isinstance(x, Rule):
                raise TypeError
        return [x for x in rules]


class optional_rule_fields:
    props = 'C30 C13'
    variants = {'kind': ['OptionalRule', 'RepeatableRule']}

    def code(kind, rule, reverse):
        x = kind(rule, reverse)
        return x.rule, x.reverse

    def spec(kind, rule, reverse):
        if not isinstance(rule, Rule):
            raise TypeError
        if not isinstance(reverse, bool):
            raise TypeError
        return rule, reverse


class repeatable_optional_rule_fields:
    props = 'C30 C13'

    def code(rule, first, second):
        x = RepeatableOptionalRule(rule, first, second)
        return x.rule, x.reverse_repeatable, x.reverse_optional

    def spec(rule, first, second):
        if not isinstance(rule, Rule):
            raise TypeError
        if not isinstance(first, bool):
            raise TypeError
        if not isinstance(second, bool):
            raise TypeError
        return rule, first, second


class min_bounded_rule_fields:
    props = 'C30 C13'

    def code(rule: 'Rule', value: 'int', reverse: 'bool'):
        x = MinBoundedRule(rule, value, reverse)
        return x.rule, x.min, x.reverse

    def spec(rule, value, reverse):
        if value < 1:
            raise ValueError
        return rule, value, reverse


class max_bounded_rule_fields:
    props = 'C30 C13'

    def code(rule: 'Rule', value: 'int', reverse: 'bool'):
        x = MaxBoundedRule(rule, value, reverse)
        return x.rule, x.max, x.reverse

    def spec(rule, value, reverse):
        if value < 1:
            raise ValueError
        return rule, value, reverse


class min_max_bounded_rule_fields:
    props = 'C30 C13'

    def code(rule: 'Rule', low: 'int', high: 'int', reverse: 'bool'):
        x = MinMaxBoundedRule(rule, low, high, reverse)
        return x.rule, x.min, x.max, x.reverse

    def spec(rule, low, high, reverse):
        if low < 1 or high < low:
            raise ValueError
        return rule, low, high, reverse


class named_rule_fields:
    props = 'C30 C13'

    def code(rule, name):
        x = NamedRule(rule, name)
        return x.rule, x.name

    def spec(rule, name):
        if not isinstance(rule, Rule):
            raise TypeError
        if not isinstance(name, str):
            raise TypeError
        return rule, name


class interpretation_rule_fields:
    props = 'C30 C13'

    def code(rule, x):
        r = InterpretationRule(rule, x)
        return r.rule, r.interpretator

    def spec(rule, x):
        if not isinstance(rule, Rule):
            raise TypeError
        if not isinstance(x, Interpretator):
            raise TypeError
        return rule, x


class relation_rule_fields:
    props = 'C30 C13 C22'

    def code(rule, x):
        r = RelationRule(rule, x)
        return r.rule, r.relation

    def spec(rule, x):
        if not isinstance(rule, Rule):
            raise TypeError
        if not isinstance(x, Relation):
            raise TypeError
        return rule, x


class forward_definition:
    """define() accepts a rule or items of a rule, never another forward."""
    props = 'C30 C15'
    opaque = ['rule']

    def code(self: '=ForwardRule', item, items: '[any]'):
        self.define(item, *items)

    def spec(self, item, items):
        from yargy import rule
        if not items and isinstance(item, Rule):
            if isinstance(item, ForwardRule):
                raise ValueError
            self.rule = item
        else:
            self.rule = rule(item, *items)


class forward_definition_through_wrapper:
    props = 'C15'
    opaque = ['!ForwardRule.define']

    def code(self: 'NamedRule', forward: '=ForwardRule', item):
        return NamedRule(forward, 'x').define(item)

    def spec(self, forward, item):
        return forward.define(item)


class rule_operators:
    """Operators of rules: the bounds and the order go to the right place."""
    props = 'C11 C30'
    opaque = ['new OptionalRule', 'new RepeatableRule', 'new MinBoundedRule',
              'new MaxBoundedRule', 'new MinMaxBoundedRule', 'new NamedRule',
              'new RelationRule', 'new InterpretationRule',
              'prepare_rule_interpretator']
    variants = {'self': [
        '=Rule', '=OrRule', '=NamedRule', '=OptionalRule', '=RepeatableRule',
        '=RepeatableOptionalRule', '=MinBoundedRule', '=MaxBoundedRule',
        '=MinMaxBoundedRule', '=InterpretationRule', '=RelationRule',
        '=ForwardRule', '=EmptyRule', '=PipelineRule']}

    def code(self, low, high, reverse: 'bool', name, relation, item):
        return (
            self.optional(), self.optional(reverse=reverse),
            self.repeatable(), self.repeatable(reverse=reverse),
            self.repeatable(min=low, reverse=reverse),
            self.repeatable(max=high, reverse=reverse),
            self.repeatable(min=low, max=high, reverse=reverse),
            self.repeatable(low, high),
            self.named(name), self.match(relation),
            self.interpretation(item)
        )

    def spec(self, low, high, reverse, name, relation, item):
        from yargy.interpretation import prepare_rule_interpretator

        def bounded(low, high, reverse):
            if low is not None and high is not None:
                return MinMaxBoundedRule(self, low, high, reverse)
            if low is not None:
                return MinBoundedRule(self, low, reverse)
            if high is not None:
                return MaxBoundedRule(self, high, reverse)
            return RepeatableRule(self, reverse)
        return (
            OptionalRule(self, False), OptionalRule(self, reverse),
            RepeatableRule(self, False), RepeatableRule(self, reverse),
            bounded(low, None, reverse), bounded(None, high, reverse),
            bounded(low, high, reverse), bounded(low, high, False),
            NamedRule(self, name), RelationRule(self, relation),
            InterpretationRule(self, prepare_rule_interpretator(item))
        )


class rule_children:
    """What a walk over the grammar visits."""
    props = 'C02 C14 C16'

    def code(a: '=Rule', b: '=OrRule', c: 'WrapperRule', d: '=ForwardRule',
             e: '=Production', f: '=EmptyRule', g: '=PipelineRule'):
        return (
            list(a.children), list(b.children), list(c.children),
            list(d.children), list(e.children), list(f.children),
            list(g.children)
        )

    def spec(a, b, c, d, e, f, g):
        return (
            a.productions, b.rules, [c.rule], [d.rule] if d.rule else [],
            e.terms, [], []
        )


class rule_stages:
    """The order of the stages."""
    props = 'C11 C12 C15'
    opaque = ['RuleTransformator.__call__', 'InplaceRuleTransformator.__call__',
              'BNFTransformator.__call__']
    returns = {'BNFTransformator.__call__': 'BNFRule'}

    def code(self: '=Rule'):
        return self.normalized, self.as_bnf

    def spec(self):
        item = SquashExtendedTransformator()(self)
        item = ReplaceExtendedTransformator()(item)
        item = ReplaceOrTransformator()(item)
        item = ReplaceEmptyTransformator()(item)
        item = FlattenTransformator()(item)
        return (
            item,
            RemoveForwardTransformator()(BNFTransformator()(self)).as_bnf
        )


class rule_activation:
    props = 'C16'
    opaque = ['RuleTransformator.__call__']

    def code(self: '=Rule', context):
        return self.activate(context)

    def spec(self, context):
        return ActivateTransformator(context)(self)


class stages_applied_in_order:
    """Each stage is a new object applied to the result of the previous."""
    props = 'C02 C03 C15'

    def code(a, b, c, item):
        return TransformatorsComposition([a, b, c])(item)

    def spec(a, b, c, item):
        for x in (a, b, c):
            if not issubclass(x, Visitor):
                raise TypeError
        return c()(b()(a()(item)))


# ---------------------------------------------------------- visitor


class method_for_kind:
    """The method of the nearest kind is chosen, else ValueError."""
    props = 'C15'
    opaque = ['RuleTransformator.visit_RepeatableRule',
              'RuleTransformator.visit_RepeatableOptionalRule',
              'RuleTransformator.visit_MinMaxBoundedRule',
              'RuleTransformator.visit_MinBoundedRule',
              'RuleTransformator.visit_MaxBoundedRule',
              'RuleTransformator.visit_ForwardRule',
              'RuleTransformator.visit_EmptyProduction']

    def code(self: '=RuleTransformator', a: '=RepeatableOptionalRule',
             b: '=MinMaxBoundedRule', c: '=ForwardRule',
             d: '=EmptyProduction', e: '=MinBoundedRule'):
        return (
            self.resolve_method(a)(a), self.resolve_method(b)(b),
            self.resolve_method(c)(c), self.resolve_method(d)(d),
            self.resolve_method(e)(e)
        )

    def spec(self, a, b, c, d, e):
        return (
            self.visit_RepeatableOptionalRule(a),
            self.visit_MinMaxBoundedRule(b), self.visit_ForwardRule(c),
            self.visit_EmptyProduction(d), self.visit_MinBoundedRule(e)
        )


class kind_without_method:
    """What no method is for is refused with ValueError."""
    props = 'C15 C30'

    def code(self: '=RuleTransformator', item: '=Tree'):
        return self.resolve_method(item)

    def spec(self, item):
        raise ValueError()


class plain_visit:
    props = 'C15'
    opaque = ['Visitor.resolve_method']

    def code(self: '=InplaceRuleTransformator', item):
        return self.visit(item)

    def spec(self, item):
        return self.resolve_method(item)(item)


class shared_rules_transformed_once:
    """The same rule gives the same result, different rules their own."""
    props = 'C02 C14'
    opaque = ['Visitor.resolve_method']

    def code(self: '=RuleTransformator', first, second):
        self.__init__()
        a = self.visit(first)
        b = self.visit(second)
        c = self.visit(first)
        return a, b, c

    def spec(self, first, second):
        a = self.resolve_method(first)(first)
        b = a if first is second else self.resolve_method(second)(second)
        return a, b, a
    effects = 'ignore'


# -------------------------------------------------- rebuilding transformators

ALL = ['new Rule', 'new OrRule', 'new OptionalRule', 'new RepeatableRule',
       'new RepeatableOptionalRule', 'new MinBoundedRule',
       'new MaxBoundedRule', 'new MinMaxBoundedRule', 'new NamedRule',
       'new InterpretationRule', 'new RelationRule', 'new Production',
       'new PipelineRule', 'RuleTransformator.visit']


class rebuild_choice:
    props = 'C13'
    opaque = ['new Rule', 'new OrRule', 'RuleTransformator.visit']
    variants = {'self': [
        '=RuleTransformator', '=ActivateTransformator',
        '=SquashExtendedTransformator', '=ReplaceExtendedTransformator',
        '=ReplaceEmptyTransformator', '=FlattenTransformator']}

    def code(self, a: '=Rule', b: '=OrRule'):
        return self.resolve_method(a)(a), self.resolve_method(b)(b)

    def spec(self, a, b):
        return (
            Rule([self.visit(x) for x in a.productions]),
            OrRule([self.visit(x) for x in b.rules])
        )


class rebuild_labels:
    """Names, interpretations and relations survive every stage."""
    props = 'C13 C15 C22'
    opaque = ['new NamedRule', 'new InterpretationRule', 'new RelationRule',
              'RuleTransformator.visit']
    variants = {'self': [
        '=RuleTransformator', '=ActivateTransformator',
        '=SquashExtendedTransformator', '=ReplaceExtendedTransformator',
        '=ReplaceOrTransformator', '=ReplaceEmptyTransformator',
        '=FlattenTransformator']}

    def code(self, a: '=NamedRule', b: '=InterpretationRule',
             c: '=RelationRule'):
        return (self.resolve_method(a)(a), self.resolve_method(b)(b),
                self.resolve_method(c)(c))

    def spec(self, a, b, c):
        return (
            NamedRule(self.visit(a.rule), a.name),
            InterpretationRule(self.visit(b.rule), b.interpretator),
            RelationRule(self.visit(c.rule), c.relation)
        )


class rebuild_repetitions:
    props = 'C13 C11'
    opaque = ['new OptionalRule', 'new RepeatableRule',
              'new RepeatableOptionalRule', 'new MinBoundedRule',
              'new MaxBoundedRule', 'new MinMaxBoundedRule',
              'RuleTransformator.visit']
    variants = {'self': [
        '=RuleTransformator', '=ActivateTransformator',
        '=ReplaceOrTransformator', '=ReplaceEmptyTransformator',
        '=FlattenTransformator']}

    def code(self, a: '=OptionalRule', b: '=RepeatableRule',
             c: '=RepeatableOptionalRule', d: '=MinBoundedRule',
             e: '=MaxBoundedRule', f: '=MinMaxBoundedRule'):
        return (
            self.resolve_method(a)(a), self.resolve_method(b)(b),
            self.resolve_method(c)(c), self.resolve_method(d)(d),
            self.resolve_method(e)(e), self.resolve_method(f)(f)
        )

    def spec(self, a, b, c, d, e, f):
        return (
            OptionalRule(self.visit(a.rule), a.reverse),
            RepeatableRule(self.visit(b.rule), b.reverse),
            RepeatableOptionalRule(self.visit(c.rule), c.reverse_repeatable,
                                   c.reverse_optional),
            MinBoundedRule(self.visit(d.rule), d.min, d.reverse),
            MaxBoundedRule(self.visit(e.rule), e.max, e.reverse),
            MinMaxBoundedRule(self.visit(f.rule), f.min, f.max, f.reverse)
        )


class keep_leaves_of_grammar:
    props = 'C13 C15'
    opaque = ['RuleTransformator.visit']
    variants = {'self': [
        '=RuleTransformator', '=SquashExtendedTransformator',
        '=ReplaceExtendedTransformator', '=ReplaceOrTransformator',
        '=FlattenTransformator']}

    def code(self, a: '=EmptyRule', b: '=PipelineRule', c: '=ForwardRule',
             d: '=EmptyProduction', e: '=PipelineProduction'):
        return (
            self.resolve_method(a)(a), self.resolve_method(b)(b),
            self.resolve_method(c)(c), self.resolve_method(d)(d),
            self.resolve_method(e)(e)
        )

    def spec(self, a, b, c, d, e):
        return a, b, c, d, e


class rebuild_production:
    """The head stays; rules among the terms are transformed."""
    props = 'C13 C23'
    opaque = ['new Production', 'RuleTransformator.visit']
    variants = {'self': [
        '=RuleTransformator', '=SquashExtendedTransformator',
        '=ReplaceExtendedTransformator', '=ReplaceOrTransformator',
        '=ReplaceEmptyTransformator']}

    def code(self, item: '=Production'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return Production(
            [self.visit(x) if isinstance(x, Rule) else x
             for x in item.terms],
            item.main
        )


class activate_production:
    """Predicates anywhere in the grammar are bound to the context."""
    props = 'C16 C13 C23'
    opaque = ['new Production', 'RuleTransformator.visit']

    def code(self: '=ActivateTransformator', item: '=Production'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        terms = []
        for x in item.terms:
            if isinstance(x, Predicate):
                terms.append(x.activate(self.context))
            elif isinstance(x, Rule):
                terms.append(self.visit(x))
            else:
                terms.append(x)
        return Production(terms, item.main)


class activate_leaves:
    props = 'C16'
    opaque = ['new PipelineRule', 'RuleTransformator.visit']

    def code(self: '=ActivateTransformator', a: '=PipelineRule',
             b: '=EmptyRule', c: '=ForwardRule', d: '=EmptyProduction'):
        return (
            self.resolve_method(a)(a), self.resolve_method(b)(b),
            self.resolve_method(c)(c), self.resolve_method(d)(d)
        )

    def spec(self, a, b, c, d):
        return PipelineRule(a.pipeline.activate(self.context)), b, c, d


class replace_or:
    props = 'C11 C13'
    opaque = ['new Rule', 'new Production', 'RuleTransformator.visit']

    def code(self: '=ReplaceOrTransformator', item: '=OrRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return Rule([Production([self.visit(x)]) for x in item.rules])


class replace_empty:
    props = 'C11 C13'
    opaque = ['new Rule', 'new EmptyProduction', 'RuleTransformator.visit']

    def code(self: '=ReplaceEmptyTransformator', item: '=EmptyRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return Rule([EmptyProduction()])


class forwards_are_copied:
    """A stage works on its own copies of forward references, the user's
    grammar is not changed; definitions are transformed too."""
    props = 'C02'
    opaque = ['RuleTransformator.visit', 'Rule.walk', 'new ForwardRule']
    fields = {'Rule.walk': '[ForwardRule]'}
    returns = {'Rule.walk': '[ForwardRule]',
               'RuleTransformator.visit': '=ForwardRule'}

    def code(root: 'Rule', stage: '=RuleTransformator'):
        return stage(root)

    def spec(root, stage):
        forwards = list(root.walk(types=ForwardRule))
        for item in forwards:
            if item.rule:
                stage.visit(item).rule = stage.visit(item.rule)
        return stage.visit(root)
    effects = 'ignore'


class Walk(object):
    def __init__(self, items):
        self.items = items

    def walk(self, types=None):
        return self.items


class forwards_apart:
    """The user's forward reference keeps its definition, the copy gets the
    transformed one, an undefined one stays undefined."""
    props = 'C02 C14 C13'
    opaque = ['Visitor.resolve_method']

    def code(self: '=RuleTransformator', item: '=ForwardRule', inner: '=Rule',
             other: '=ForwardRule'):
        self.__init__()
        item.rule = inner
        other.rule = None
        self(Walk([item, other]))
        copy, empty = self.visit(item), self.visit(other)
        return (item.rule, copy.rule, copy is item, other.rule, empty.rule,
                empty is other, copy is empty)

    def spec(self, item, inner, other):
        return (inner, self.resolve_method(inner)(inner), False, None, None,
                False, False)
    effects = 'ignore'

    def given(self, item, inner, other):
        return item is not other and inner


# ----------------------------------------------------------------- squashing


class squash_repeatable:
    props = 'C12'
    opaque = ['new OptionalRule', 'new RepeatableRule',
              'new RepeatableOptionalRule', 'new MinBoundedRule',
              'new MaxBoundedRule', 'new MinMaxBoundedRule',
              'RuleTransformator.visit']

    def code(self: '=SquashExtendedTransformator', item: '=RepeatableRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        child = item.rule
        # (x*)+ = x*, (x?)+ = x*
        if isinstance(child, RepeatableOptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, item.reverse, child.reverse_optional))
        if isinstance(child, OptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, item.reverse, child.reverse))
        # (x+)+ = x+, (x{1,})+ = x+, (x{1,n})+ = x+, but (x{2,n})+ != x+
        once = isinstance(child, (RepeatableRule, MaxBoundedRule))
        if isinstance(child, MinBoundedRule):
            once = child.min == 1
        if once:
            return self.visit(RepeatableRule(child.rule, item.reverse))
        return RepeatableRule(self.visit(child), item.reverse)


class squash_optional:
    props = 'C12'
    opaque = ['new OptionalRule', 'new RepeatableRule',
              'new RepeatableOptionalRule', 'RuleTransformator.visit']

    def code(self: '=SquashExtendedTransformator', item: '=OptionalRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        child = item.rule
        if isinstance(child, RepeatableOptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, child.reverse_repeatable, item.reverse))
        if isinstance(child, RepeatableRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, child.reverse, item.reverse))
        if isinstance(child, OptionalRule):
            return self.visit(OptionalRule(child.rule, item.reverse))
        return OptionalRule(self.visit(child), item.reverse)


class squash_repeatable_optional:
    props = 'C12'
    opaque = ['new RepeatableOptionalRule', 'RuleTransformator.visit']

    def code(self: '=SquashExtendedTransformator',
             item: '=RepeatableOptionalRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        child = item.rule
        once = isinstance(child, (RepeatableRule, MaxBoundedRule))
        if isinstance(child, MinBoundedRule):
            once = child.min == 1
        if once or isinstance(child, OptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, item.reverse_repeatable, item.reverse_optional))
        return RepeatableOptionalRule(
            self.visit(child), item.reverse_repeatable, item.reverse_optional)


class squash_min_bounded:
    props = 'C12'
    opaque = ['new MinBoundedRule', 'new RepeatableOptionalRule',
              'new RepeatableRule', 'RuleTransformator.visit']

    def code(self: '=SquashExtendedTransformator', item: '=MinBoundedRule'):
        if isinstance(item.rule, RepeatableRule) and item.min > 1 and \
                not isinstance(item.rule, OptionalRule):
            return None
        return self.resolve_method(item)(item)

    def spec(self, item):
        child = item.rule
        if isinstance(child, RepeatableOptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, child.reverse_repeatable, child.reverse_optional))
        if isinstance(child, RepeatableRule):
            if item.min > 1:
                return None
            return self.visit(RepeatableRule(child.rule, child.reverse))
        if isinstance(child, OptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, item.reverse, child.reverse))
        return MinBoundedRule(self.visit(child), item.min, item.reverse)


class squash_min_bounded_of_repeatable:
    """(x+){n,} = x{n,}"""
    props = 'C12'
    opaque = ['new MinBoundedRule', 'new RepeatableOptionalRule',
              'new RepeatableRule', 'RuleTransformator.visit']
    fields = {'MinBoundedRule.rule': '=RepeatableRule'}

    def code(self: '=SquashExtendedTransformator', item: '=MinBoundedRule'):
        if item.min < 2:
            return None
        return self.resolve_method(item)(item)

    def spec(self, item):
        if item.min < 2:
            return None
        return self.visit(MinBoundedRule(
            item.rule.rule, item.min, item.rule.reverse))


class squash_max_bounded:
    props = 'C12'
    opaque = ['new MaxBoundedRule', 'new RepeatableOptionalRule',
              'new RepeatableRule', 'new OptionalRule',
              'RuleTransformator.visit']

    def code(self: '=SquashExtendedTransformator', item: '=MaxBoundedRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        child = item.rule
        if isinstance(child, RepeatableOptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, child.reverse_repeatable, child.reverse_optional))
        if isinstance(child, RepeatableRule):
            return self.visit(RepeatableRule(child.rule, child.reverse))
        if isinstance(child, OptionalRule):
            return self.visit(OptionalRule(
                MaxBoundedRule(child.rule, item.max, item.reverse),
                child.reverse))
        return MaxBoundedRule(self.visit(child), item.max, item.reverse)


class squash_min_max_bounded:
    props = 'C12'
    opaque = ['new MinMaxBoundedRule', 'new MinBoundedRule',
              'new MaxBoundedRule', 'new RepeatableOptionalRule',
              'new RepeatableRule', 'new OptionalRule',
              'RuleTransformator.visit']

    def code(self: '=SquashExtendedTransformator',
             item: '=MinMaxBoundedRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        child = item.rule
        if isinstance(child, RepeatableOptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule, child.reverse_repeatable, child.reverse_optional))
        if isinstance(child, RepeatableRule):
            if item.min > 1:
                return self.visit(MinBoundedRule(
                    child.rule, item.min, child.reverse))
            return self.visit(RepeatableRule(child.rule, child.reverse))
        if isinstance(child, OptionalRule):
            return self.visit(OptionalRule(
                MaxBoundedRule(child.rule, item.max, item.reverse),
                child.reverse))
        return MinMaxBoundedRule(
            self.visit(child), item.min, item.max, item.reverse)


# ---------------------------------------------------------------- expansion


class expand_repeatable:
    """One or more: longest first, shortest first when reversed."""
    props = 'C11 C10'
    opaque = ['rule', 'or_', '!ForwardRule.define', 'new ForwardRule']

    def code(item, reverse: 'bool'):
        return repeatable(item, reverse)

    def spec(item, reverse):
        from yargy.api import rule, or_, forward
        temp = forward()
        if reverse:
            return temp.define(or_(item, rule(item, temp)))
        return temp.define(or_(rule(item, temp), item))


class expand_optional:
    """Skipping is preferred, taking is preferred when reversed."""
    props = 'C11 C10'
    opaque = ['or_', 'new EmptyRule']

    def code(item, reverse: 'bool'):
        return optional(item, reverse)

    def spec(item, reverse):
        from yargy.api import or_, empty
        if reverse:
            return or_(item, empty())
        return or_(empty(), item)


class expand_repeatable_optional:
    props = 'C11 C10'
    opaque = ['rule', 'or_', 'new EmptyRule', '!ForwardRule.define',
              'new ForwardRule']

    def code(item, first: 'bool', second: 'bool'):
        return repeatable_optional(item, first, second)

    def spec(item, first, second):
        from yargy.api import rule, or_, forward, empty
        temp = forward()
        more = rule(item, temp)
        if first:
            if second:
                return temp.define(or_(item, more, empty()))
            return temp.define(or_(empty(), item, more))
        if second:
            return temp.define(or_(more, item, empty()))
        return temp.define(or_(empty(), more, item))


class expand_max_bound:
    """From one to count repetitions."""
    props = 'C11 C10'
    opaque = ['rule', 'or_']
    spec_opaque = ['max_bound']

    def code(item, count: 'int', reverse: 'bool'):
        return max_bound(item, count, reverse)

    def spec(item, count, reverse):
        from yargy.api import rule, or_
        if count == 1:
            return item
        more = rule(item, max_bound(item, count - 1, reverse))
        if reverse:
            return or_(item, more)
        return or_(more, item)


class expand_extended:
    """Every repetition rule is replaced by its expansion over the
    transformed child."""
    props = 'C11 C10 C13'
    opaque = ['RuleTransformator.visit', 'rule', 'max_bound', 'repeatable',
              'optional', 'repeatable_optional']

    def code(self: '=ReplaceExtendedTransformator', a: '=OptionalRule',
             b: '=RepeatableRule', c: '=RepeatableOptionalRule',
             d: '=MinBoundedRule', e: '=MaxBoundedRule',
             f: '=MinMaxBoundedRule'):
        return (
            self.resolve_method(a)(a), self.resolve_method(b)(b),
            self.resolve_method(c)(c), self.resolve_method(d)(d),
            self.resolve_method(e)(e), self.resolve_method(f)(f)
        )

    def spec(self, a, b, c, d, e, f):
        from yargy.api import rule
        x = self.visit(d.rule)
        y = self.visit(f.rule)
        return (
            optional(self.visit(a.rule), a.reverse),
            repeatable(self.visit(b.rule), b.reverse),
            repeatable_optional(self.visit(c.rule), c.reverse_repeatable,
                                c.reverse_optional),
            rule(*([x for _ in range(d.min - 1)] + [repeatable(x, d.reverse)])),
            max_bound(self.visit(e.rule), e.max, e.reverse),
            rule(*([y for _ in range(f.min - 1)] + [
                max_bound(y, f.max - f.min + 1, f.reverse)]))
        )


# ---------------------------------------------------------------- flattening


class flatten_term:
    """Only plain rules with one production of one term are replaced by the
    term: rules with a label stay."""
    props = 'C13 C14'
    opaque = ['RuleTransformator.visit']
    spec_opaque = ['FlattenTransformator.visit_term']

    def code(self: '=FlattenTransformator', item):
        return self.visit_term(item)

    def spec(self, item):
        if type(item) is Rule and len(item.productions) == 1:
            terms = item.productions[0].terms
            if len(terms) == 1:
                return self.visit_term(terms[0])
        if isinstance(item, Rule):
            return self.visit(item)
        return item
    fields = {'Production.main': 'int'}


class flatten_production:
    """A production of one plain rule with one production becomes that
    production, with its head."""
    props = 'C13 C14 C23'
    opaque = ['RuleTransformator.visit', 'FlattenTransformator.visit_term',
              'new Production']

    def code(self: '=FlattenTransformator', item: '=Production'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        if len(item.terms) == 1:
            term = item.terms[0]
            if type(term) is Rule and len(term.productions) == 1:
                return self.visit(term.productions[0])
        return Production([self.visit_term(x) for x in item.terms],
                          item.main)


# ----------------------------------------------------------------------- BNF


class bnf_rejects_unexpanded:
    """Kinds that must have been replaced before are rejected."""
    props = 'C15'
    opaque = ['RuleTransformator.visit']

    def code(self: '=BNFTransformator', item: '=OptionalRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        raise TypeError


class bnf_rejects_unexpanded_others:
    props = 'C15'
    opaque = ['RuleTransformator.visit']
    variants = {'item': ['=RepeatableRule', '=MinBoundedRule',
                         '=MaxBoundedRule', '=MinMaxBoundedRule',
                         '=RepeatableOptionalRule', '=OrRule', '=EmptyRule']}

    def code(self: '=BNFTransformator', item):
        return self.resolve_method(item)(item)

    def spec(self, item):
        raise TypeError


class bnf_plain_rule:
    props = 'C13 C15'
    opaque = ['RuleTransformator.visit']

    def code(self: '=BNFTransformator', item: '=Rule'):
        x = self.resolve_method(item)(item)
        return x.productions, x.name, x.interpretator, x.relation, type(x)

    def spec(self, item):
        return ([self.visit(p) for p in item.productions], None, None, None,
                BNFRule)


class bnf_pipeline:
    props = 'C20 C15'
    opaque = ['RuleTransformator.visit']

    def code(self: '=BNFTransformator', item: '=PipelineRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return item.pipeline.as_bnf


class bnf_wrapped:
    """A rule used elsewhere too, or a forward reference, is lifted: the
    label of this use does not leak to the others."""
    props = 'C14'
    opaque = ['RuleTransformator.visit', 'lift',
              'BNFTransformator.is_shared']

    def code(self: '=BNFTransformator', item: 'WrapperRule'):
        return self.visit_WrapperRule(item)

    def spec(self, item):
        from yargy.rule.bnf import lift
        child = item.rule
        result = self.visit(child)
        if isinstance(child, ForwardRule) or self.is_shared(child):
            return lift(result)
        return result


class bnf_lift:
    props = 'C14'
    opaque = ['new Production', 'new BNFRule']

    def code(item):
        from yargy.rule.bnf import lift
        return lift(item)

    def spec(item):
        return BNFRule([Production([item])])


class bnf_named:
    """A rule that already has a name is wrapped, otherwise it gets it."""
    props = 'C14 C13'
    opaque = ['BNFTransformator.visit_WrapperRule', 'lift']
    returns = {'BNFTransformator.visit_WrapperRule': '=BNFRule',
               'lift': '=BNFRule'}

    def code(self: '=BNFTransformator', item: '=NamedRule'):
        x = self.resolve_method(item)(item)
        return x, x.name, x.interpretator, x.relation

    def spec(self, item):
        from yargy.rule.bnf import lift
        x = self.visit_WrapperRule(item)
        if x.name:
            x = lift(x)
        x.name = item.name
        return x, item.name, x.interpretator, x.relation


class bnf_interpretation:
    props = 'C14 C13'
    opaque = ['BNFTransformator.visit_WrapperRule', 'lift']
    returns = {'BNFTransformator.visit_WrapperRule': '=BNFRule',
               'lift': '=BNFRule'}

    def code(self: '=BNFTransformator', item: '=InterpretationRule'):
        x = self.resolve_method(item)(item)
        return x, x.name, x.interpretator, x.relation

    def spec(self, item):
        from yargy.rule.bnf import lift
        x = self.visit_WrapperRule(item)
        if x.interpretator:
            x = lift(x)
        x.interpretator = item.interpretator
        return x, x.name, item.interpretator, x.relation


class bnf_relation:
    props = 'C14 C13 C22'
    opaque = ['BNFTransformator.visit_WrapperRule', 'lift']
    returns = {'BNFTransformator.visit_WrapperRule': '=BNFRule',
               'lift': '=BNFRule'}

    def code(self: '=BNFTransformator', item: '=RelationRule'):
        x = self.resolve_method(item)(item)
        return x, x.name, x.interpretator, x.relation

    def spec(self, item):
        from yargy.rule.bnf import lift
        x = self.visit_WrapperRule(item)
        if x.relation:
            x = lift(x)
        x.relation = item.relation
        return x, x.name, x.interpretator, item.relation


class bnf_use_counts:
    """A rule is shared when it occurs more than once in the grammar."""
    props = 'C14'
    opaque = ['RuleTransformator.__call__', 'Rule.walk']

    def code(root: '=OrRule', item):
        stage = BNFTransformator()
        stage(root)
        return stage.is_shared(item)

    def spec(root, item):
        uses = {}
        for parent in root.walk():
            for child in parent.children:
                uses[id(child)] = uses.get(id(child), 0) + 1
        return uses[id(item)] > 1
    effects = 'ignore'


class undefined_forward:
    """A forward reference without a definition is a TypeError."""
    props = 'C15'
    opaque = ['RemoveForwardTransformator.visit_term']

    def code(self: '=RemoveForwardTransformator', item: '=ForwardRule'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        if not item.rule:
            raise TypeError
        return self.visit_term(item.rule)


class forward_in_production:
    props = 'C15 C14'
    opaque = ['Visitor.visit']

    def code(self: '=RemoveForwardTransformator', item: '=Production'):
        self.resolve_method(item)(item)
        return item.terms

    def spec(self, item):
        item.terms = [
            self.visit(x) if isinstance(x, ForwardRule) else x
            for x in item.terms
        ]
        return item.terms


class forward_in_alternatives:
    props = 'C15'
    opaque = ['Visitor.visit']

    def code(self: '=RemoveForwardTransformator', item: '=BNFRule'):
        self.resolve_method(item)(item)
        return item.productions

    def spec(self, item):
        item.productions = [
            self.visit(x) if isinstance(x, ForwardRule) else x
            for x in item.productions
        ]
        return item.productions


class forward_removal_keeps_others:
    props = 'C15 C20'

    def code(self: '=RemoveForwardTransformator', a: '=EmptyProduction',
             b: '=PipelineProduction', c: '=PipelineBNFRule'):
        return (self.resolve_method(a)(a), self.resolve_method(b)(b),
                self.resolve_method(c)(c))

    def spec(self, a, b, c):
        return a, b, c


class stage_in_place:
    """Every rule and production is visited."""
    props = 'C15'
    opaque = ['!Visitor.visit', 'Rule.walk']

    def code(self: '=RemoveForwardTransformator', root: 'Rule'):
        return self(root)

    def spec(self, root):
        for item in root.walk(types=(Rule, Production)):
            self.visit(item)
        return self.visit(root)


class bnf_names:
    """Rules without a name are numbered in the order of the walk, names
    given by the user stay."""
    props = 'C31 C04'

    def code(rules: '[=BNFRule]'):
        x = BNF(rules)
        return x.rules

    def spec(rules):
        return [x for x in rules]
    effects = 'ignore'


class names_of_two_rules:
    """A name given by the user stays, rules without one get different
    ones."""
    props = 'C31 C36'

    def code(a: '=BNFRule', b: '=BNFRule'):
        first, second = a.name, b.name
        BNF([a, b])
        return (
            a.name if first else 'any',
            b.name if second else 'any',
            first or second or a.name != b.name,
            bool(a.name), bool(b.name)
        )

    def spec(a, b):
        first, second = a.name, b.name
        return (
            first if first else 'any',
            second if second else 'any',
            first or second or True,
            True, True
        )
    effects = 'ignore'


class start_is_first:
    props = 'C07'

    def code(bnf: '=BNF'):
        return bnf.start

    def spec(bnf):
        return bnf.rules[0]


class bnf_of_rule:
    props = 'C07'
    opaque = ['Rule.walk', 'new BNF']

    def code(rule: '=BNFRule'):
        return rule.as_bnf

    def spec(rule):
        return BNF(rule.walk(types=BNFRule))


class productions_of_plain_rule:
    props = 'C07'

    def code(rule: '=BNFRule', token):
        return rule.predict(token)

    def spec(rule, token):
        return rule.productions
