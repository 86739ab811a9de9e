"""Facts, attributes, interpretators and normalizers."""

from yargy.interpretation import (
    attribute, normalized, inflected, const, custom
)
from yargy.interpretation.attribute import (
    AttributeScheme, RepeatableAttributeScheme, AttributeSchemeBase,
    AttributeBase, Attribute, RepeatableAttribute, MorphAttribute,
    CustomAttribute, InflectedAttribute, NormalizedAttribute, ConstAttribute,
    FunctionAttribute, FunctionFunctionAttribute, InflectedFunctionAttribute,
    NormalizedFunctionAttribute
)
from yargy.interpretation.normalizer import (
    Normalizer, NormalizedNormalizer, InflectedNormalizer, ConstNormalizer,
    FunctionNormalizer, FunctionFunctionNormalizer, MorphFunctionNormalizer
)
from yargy.interpretation.interpretator import (
    InterpretatorInput, InterpretatorResult, Chain, FactResult,
    AttributeResult, NormalizerResult, Interpretator, FactInterpretator,
    AttributeInterpretator, NormalizerInterpretator,
    AttributeNormalizerInterpretator, prepare_attribute_interpretator,
    prepare_token_interpretator, prepare_rule_interpretator
)
from yargy.interpretation.fact import (
    Fact, InterpretatorFact, prepare_attribute, fact
)
from yargy.token import (
    join_tokens, join_normalized_tokens, join_inflected_tokens,
    get_tokens_span, is_token, Token
)


# -------------------------------------------------------------- attributes

class declared_attribute:
    """attribute(name, default)"""
    props = 'C24'

    def code(name, default, fact):
        x = attribute(name, default)
        y = x.construct(fact)
        return x.name, x.default, type(y), y.fact, y.name, y.default

    def spec(name, default, fact):
        return name, default, Attribute, fact, name, default


class declared_without_default:
    props = 'C24'

    def code(name):
        x = attribute(name)
        return x.name, x.default

    def spec(name):
        return name, None


class declared_repeatable:
    """repeatable attributes have no default of their own."""
    props = 'C24 C30'

    def code(self: '=AttributeScheme', fact):
        x = self.repeatable()
        y = x.construct(fact)
        return x.name, type(y), y.fact, y.name

    def spec(self, fact):
        if self.default != None:        # noqa
            raise ValueError
        return self.name, RepeatableAttribute, fact, self.name


class prepared_attribute:
    """A name is an attribute without default."""
    props = 'C24 C30'
    opaque = ['new AttributeScheme']

    def code(item):
        return prepare_attribute(item)

    def spec(item):
        if isinstance(item, AttributeSchemeBase):
            return item
        return AttributeScheme(item)


class attribute_normalised:
    """Each normaliser of an attribute remembers the attribute and its
    argument."""
    props = 'C25'

    def code(self: '=Attribute', grams, value, function):
        a, b = self.normalized(), self.inflected(grams)
        c, d = self.const(value), self.custom(function)
        return (type(a), a.attribute, type(b), b.attribute, b.grams,
                type(c), c.attribute, c.value,
                type(d), d.attribute, d.function)

    def spec(self, grams, value, function):
        return (NormalizedAttribute, self, InflectedAttribute, self, grams,
                ConstAttribute, self, value,
                FunctionAttribute, self, function)


class attribute_custom_after:
    """custom() after another normaliser is applied to its result."""
    props = 'C25'

    def code(a: '=NormalizedAttribute', b: '=InflectedAttribute',
             c: '=FunctionAttribute', function):
        x, y, z = a.custom(function), b.custom(function), c.custom(function)
        return (type(x), x.attribute, x.function,
                type(y), y.attribute, y.grams, y.function,
                type(z), z.attribute, z.first, z.second)

    def spec(a, b, c, function):
        return (NormalizedFunctionAttribute, a.attribute, function,
                InflectedFunctionAttribute, b.attribute, b.grams, function,
                FunctionFunctionAttribute, c.attribute, c.function, function)


class normaliser_of_attribute:
    """The attribute's chain as one normaliser."""
    props = 'C25'

    def code(a: '=NormalizedAttribute', b: '=InflectedAttribute',
             c: '=ConstAttribute', d: '=FunctionAttribute',
             e: '=FunctionFunctionAttribute',
             f: '=NormalizedFunctionAttribute',
             g: '=InflectedFunctionAttribute'):
        f_, g_ = f.normalizer, g.normalizer
        return (type(a.normalizer), type(b.normalizer), b.normalizer.grams,
                type(c.normalizer), c.normalizer.value,
                type(d.normalizer), d.normalizer.function,
                type(e.normalizer), e.normalizer.first, e.normalizer.second,
                type(f_), type(f_.morph), f_.function,
                type(g_), type(g_.morph), g_.morph.grams, g_.function)

    def spec(a, b, c, d, e, f, g):
        return (NormalizedNormalizer, InflectedNormalizer, b.grams,
                ConstNormalizer, c.value,
                FunctionNormalizer, d.function,
                FunctionFunctionNormalizer, e.first, e.second,
                MorphFunctionNormalizer, NormalizedNormalizer, f.function,
                MorphFunctionNormalizer, InflectedNormalizer, g.grams,
                g.function)


# -------------------------------------------------------------- normalizers

class normalised_phrase:
    """The key of a pipeline, or the normal forms joined as in the text."""
    props = 'C25 C20'
    opaque = ['join_normalized_tokens']

    def code(self: '=NormalizedNormalizer', item):
        return self(item)

    def spec(self, item):
        if not isinstance(item, Chain):
            raise TypeError
        if item.key:
            return item.key
        return join_normalized_tokens(item.tokens)


class inflected_phrase:
    """The inflected forms joined as in the text."""
    props = 'C25'
    opaque = ['join_inflected_tokens']

    def code(self: '=InflectedNormalizer', item):
        return self(item)

    def spec(self, item):
        if not isinstance(item, Chain):
            raise TypeError
        return join_inflected_tokens(item.tokens, self.grams)


class inflected_grammemes:
    props = 'C25'

    def code(grams):
        return inflected(grams).grams, inflected().grams

    def spec(grams):
        return grams, {'nomn', 'sing'}


class const_value:
    props = 'C25'

    def code(value, item):
        return const(value)(item)

    def spec(value, item):
        return value


class custom_value:
    """The function gets the normalised value."""
    props = 'C25'

    def code(function, item: 'InterpretatorResult'):
        return custom(function)(item)

    def spec(function, item):
        return function(item.normalized)


class custom_custom_value:
    """Functions are applied in the order written."""
    props = 'C25'

    def code(first, second, item: 'InterpretatorResult'):
        return custom(first).custom(second)(item)

    def spec(first, second, item):
        return second(first(item.normalized))


class morph_custom_value:
    """The function gets the word form."""
    props = 'C25'
    opaque = ['NormalizedNormalizer.__call__', 'InflectedNormalizer.__call__']

    def code(function, grams, item):
        return (normalized().custom(function)(item),
                inflected(grams).custom(function)(item))

    def spec(function, grams, item):
        return (function(normalized()(item)), function(inflected(grams)(item)))


class normalised_tokens:
    """The normal form of every token, spans and spacing as in the text."""
    props = 'C25 C27 C28'

    def code(tokens: '[Token]'):
        return join_normalized_tokens(tokens)

    def spec(tokens):
        parts = []
        previous = None
        for token in tokens:
            token = Token(token.normalized, token.span, token.type)
            if previous and token.span.start > previous.span.stop:
                parts.append(' ')
            parts.append(token.value)
            previous = token
        return ''.join(parts)
    fields = {'Token.normalized': 'str'}
    opaque = ['Token.normalized', 'MorphToken.normalized']


class inflected_tokens:
    """The inflected form of every word, spans and spacing as in the text."""
    props = 'C25 C27 C28'
    opaque = ['inflect_token']
    returns = {'inflect_token': '=Token'}

    def code(tokens: '[Token]', grams):
        return join_inflected_tokens(tokens, grams)

    def spec(tokens, grams):
        from yargy.token import inflect_token
        parts = []
        previous = None
        for token in tokens:
            token = inflect_token(token, grams)
            if previous and token.span.start > previous.span.stop:
                parts.append(' ')
            parts.append(token.value)
            previous = token
        return ''.join(parts)


# ------------------------------------------------------------------ results

class phrase_value:
    """A phrase of tokens: the text as written."""
    props = 'C24 C25 C27'
    opaque = ['join_tokens']

    def code(tokens: '[Token]', key):
        x = Chain(tokens, key)
        return x.tokens, x.key, x.normalized, x.as_json

    def spec(tokens, key):
        return tokens, key, join_tokens(tokens), join_tokens(tokens)


class phrase_span:
    props = 'C26'

    def code(self: '=Chain'):
        return [(x.start, x.stop) for x in self.spans]

    def spec(self):
        return [(self.tokens[0].span.start, self.tokens[-1].span.stop)]


class wrapped_results:
    """Results of nested phrases are passed on."""
    props = 'C24 C26'

    def code(a: '=AttributeResult', b: '=FactResult'):
        return (a.normalized, list(a.spans), a.as_json,
                b.normalized, list(b.spans), b.as_json)

    def spec(a, b):
        return (a.value.normalized, list(a.value.spans), a.value.as_json,
                b.fact.normalized, list(b.fact.spans), b.fact.as_json)
    opaque = ['InterpretatorFact.normalized', 'InterpretatorFact.spans',
              'InterpretatorFact.as_json', '.normalized', '.spans',
              '.as_json']
    fields = {'AttributeResult.value': 'InterpretatorResult',
              'FactResult.fact': '=InterpretatorFact'}


class normalised_result:
    """The value of a normaliser; its span is that of its input."""
    props = 'C25 C26'

    def code(self: '=NormalizerResult'):
        return self.normalized, list(self.spans), self.as_json

    def spec(self):
        if isinstance(self.value, InterpretatorResult):
            return self.value, list(self.input.spans), self.value.as_json
        return self.value, list(self.input.spans), self.value


class input_spans:
    """The spans of tokens and of interpreted phrases, in order."""
    props = 'C26'

    def code(self: '=InterpretatorInput'):
        return list(self.spans)

    def spec(self):
        result = []
        for item in self.items:
            if is_token(item):
                result.append(item.span)
            else:
                result.extend(item.spans)
        return result
    fields = {'InterpretatorInput.items': '[any]'}


class input_fields:
    props = 'C24'

    def code(items: '[any]', key):
        x = InterpretatorInput(items, key)
        y = InterpretatorInput(items)
        return x.items, x.key, y.items, y.key

    def spec(items, key):
        return list(items), key, list(items), None


# ------------------------------------------------------------ interpretators

class fact_interpretation:
    """Attributes of the fact are set, facts of the same kind are merged, in
    text order; anything else is ignored."""
    props = 'C24'
    opaque = ['!InterpretatorFact.set', '!InterpretatorFact.merge',
              'new InterpretatorFact']
    fields = {'InterpretatorInput.items': '[any]'}

    def code(self: '=FactInterpretator', input: '=InterpretatorInput'):
        x = self(input)
        return type(x), x.fact

    def spec(self, input):
        fact = InterpretatorFact(self.fact)
        for item in input.items:
            if isinstance(item, AttributeResult) and issubclass(
                    self.fact, item.attribute.fact):
                fact.set(item.attribute.name, item.value)
            elif isinstance(item, FactResult) and issubclass(
                    item.fact.scheme, self.fact):
                fact.merge(item.fact)
        return FactResult, fact


class fact_interpretator:
    props = 'C24 C30'

    def code(fact):
        return FactInterpretator(fact).fact

    def spec(fact):
        if not issubclass(fact, Fact):
            raise TypeError
        return fact


class attribute_interpretation:
    """An attribute gets a phrase of tokens, or the value of the only
    interpreted phrase; mixtures are errors."""
    props = 'C24 C25'
    fields = {'InterpretatorInput.items': '[any]'}

    def code(self: '=AttributeInterpretator', input: '=InterpretatorInput'):
        x = self(input)
        return type(x), x.attribute, x.value

    def spec(self, input):
        items = input.items
        if all(is_token(x) for x in items):
            value = Chain(items, input.key)
        else:
            if len(items) != 1:
                raise TypeError
            value = items[0]
            if isinstance(value, AttributeResult):
                value = value.value
            elif not isinstance(value, (NormalizerResult, FactResult)):
                raise TypeError
        return AttributeResult, self.attribute, value


class normalizer_interpretation:
    """A normaliser gets a phrase of tokens or the only interpreted phrase;
    a constant does not look at it; mixtures are errors."""
    props = 'C25'
    fields = {'InterpretatorInput.items': '[any]',
              'NormalizerInterpretator.normalizer': 'Normalizer'}
    opaque = ['.__call__']

    def code(self: '=NormalizerInterpretator', input: '=InterpretatorInput'):
        x = self(input)
        return type(x), x.value, x.input

    def spec(self, input):
        if isinstance(self.normalizer, ConstNormalizer):
            return NormalizerResult, self.normalizer.value, input
        items = input.items
        if all(is_token(x) for x in items):
            item = Chain(items, input.key)
        elif len(items) == 1:
            item = items[0]
        else:
            raise TypeError
        return NormalizerResult, self.normalizer(item), item


class normalised_attribute_interpretation:
    props = 'C25 C24'
    opaque = ['NormalizerInterpretator.__call__']

    def code(self: '=AttributeNormalizerInterpretator', input):
        x = self(input)
        return type(x), x.attribute, x.value

    def spec(self, input):
        return (AttributeResult, self.attribute,
                NormalizerInterpretator.__call__(self, input))


class normalised_attribute_interpretator:
    props = 'C25 C24'

    def code(attribute, normalizer):
        x = AttributeNormalizerInterpretator(attribute, normalizer)
        return x.attribute, x.normalizer

    def spec(attribute, normalizer):
        return attribute, normalizer


class prepared_for_attribute:
    """A normalised attribute is split into attribute and normaliser."""
    props = 'C25 C24'
    variants = {'item': ['=InflectedAttribute', '=NormalizedAttribute',
                         '=ConstAttribute', '=FunctionAttribute',
                         '=FunctionFunctionAttribute',
                         '=InflectedFunctionAttribute',
                         '=NormalizedFunctionAttribute', '=Attribute',
                         '=RepeatableAttribute']}

    def code(item):
        x = prepare_attribute_interpretator(item)
        return x

    def spec(item):
        if isinstance(item, (MorphAttribute, CustomAttribute)):
            return AttributeNormalizerInterpretator(item.attribute,
                                                    item.normalizer)
        return AttributeInterpretator(item)
    opaque = ['InflectedAttribute.normalizer', 'NormalizedAttribute.normalizer',
              'ConstAttribute.normalizer', 'FunctionAttribute.normalizer',
              'FunctionFunctionAttribute.normalizer',
              'InflectedFunctionAttribute.normalizer',
              'NormalizedFunctionAttribute.normalizer']


class prepared_for_token:
    """A predicate is interpreted by an attribute or a normaliser; anything
    else is refused."""
    props = 'C30 C25'
    opaque = ['prepare_attribute_interpretator', 'new NormalizerInterpretator']

    def code(item):
        return prepare_token_interpretator(item)

    def spec(item):
        if isinstance(item, AttributeBase):
            return prepare_attribute_interpretator(item)
        if isinstance(item, Normalizer):
            return NormalizerInterpretator(item)
        raise TypeError


class prepared_for_rule:
    """A rule is interpreted by a fact, an attribute or a normaliser;
    anything else is refused."""
    props = 'C30 C24 C25'
    opaque = ['prepare_attribute_interpretator', 'new NormalizerInterpretator',
              'new FactInterpretator']

    def code(item):
        return prepare_rule_interpretator(item)

    def spec(item):
        from inspect import isclass
        if isinstance(item, Interpretator):
            return item
        if isclass(item) and issubclass(item, Fact):
            return FactInterpretator(item)
        if isinstance(item, AttributeBase):
            return prepare_attribute_interpretator(item)
        if isinstance(item, Normalizer):
            return NormalizerInterpretator(item)
        raise TypeError


# --------------------------------------------------------------------- facts

class new_fact:
    """Every attribute starts with its default, repeatable ones empty;
    nothing is assigned yet."""
    props = 'C24'

    def code(scheme):
        x = InterpretatorFact(scheme)
        return x.scheme, x.modified, x.attributes, x.repeatable

    def spec(scheme):
        attributes = {}
        repeatable = set()
        for key in scheme.__attributes__:
            attribute = getattr(scheme, key)
            if isinstance(attribute, RepeatableAttribute):
                repeatable.add(key)
                attributes[key] = []
            else:
                attributes[key] = attribute.default
        return scheme, set(), attributes, repeatable


class Scheme(object):
    def __init__(self, first, second):
        self.__attributes__ = ['first', 'second']
        self.first = first
        self.second = second


class values_apart:
    """Repeatable attributes of a new fact do not share their list."""
    props = 'C24'

    def code(first: '=RepeatableAttribute', second: '=RepeatableAttribute',
             value):
        x = InterpretatorFact(Scheme(first, second))
        x.set('first', value)
        return x.attributes['first'], x.attributes['second']

    def spec(first, second, value):
        return [value], []


class facts_apart:
    """Nor do two facts of one scheme."""
    props = 'C24 C03'

    def code(first: '=RepeatableAttribute', second: '=Attribute', value,
             other):
        scheme = Scheme(first, second)
        x = InterpretatorFact(scheme)
        y = InterpretatorFact(scheme)
        x.set('first', value)
        x.set('second', other)
        return y.attributes['first'], y.attributes['second'], y.modified

    def spec(first, second, value, other):
        return [], second.default, set()


class set_attribute:
    """A value is appended to a repeatable attribute and replaces a scalar
    one."""
    props = 'C24 C01'
    fields = {'InterpretatorFact.attributes': '{any}',
              'InterpretatorFact.repeatable': '{any}',
              'InterpretatorFact.modified': '{any}'}

    def code(self: '=InterpretatorFact', key, value):
        self.set(key, value)

    def spec(self, key, value):
        if key in self.repeatable:
            self.attributes[key].append(value)
        else:
            self.attributes[key] = value
        self.modified.add(key)


class merged_facts:
    """Assigned attributes of a nested fact of the same kind are taken over;
    repeatable ones are appended to a new list."""
    props = 'C24 C01'
    fields = {'InterpretatorFact.attributes': '{any}',
              'InterpretatorFact.repeatable': '{any}',
              'InterpretatorFact.modified': '{any}'}

    def code(self: '=InterpretatorFact', fact: '=InterpretatorFact'):
        self.merge(fact)

    def spec(self, fact):
        for key in fact.modified:
            if key in self.repeatable:
                self.attributes[key] = self.attributes[key] + \
                    fact.attributes[key]
            else:
                self.attributes[key] = fact.attributes[key]
            self.modified.add(key)


class values_of_fact:
    """The values of assigned attributes are normalised, defaults are given
    as they are; the raw fact is kept."""
    props = 'C24 C26'
    fields = {'InterpretatorFact.attributes': '{any}',
              'InterpretatorFact.repeatable': '{any}',
              'InterpretatorFact.modified': '{any}'}

    def code(self: '=InterpretatorFact'):
        return self.normalized

    def spec(self):
        attributes = {}
        for key, value in self.attributes.items():
            if key in self.repeatable:
                attributes[key] = [x.normalized for x in value]
            elif key in self.modified:
                attributes[key] = value.normalized
            else:
                attributes[key] = value
        fact = self.scheme(**attributes)
        fact._raw = self
        return fact


class spans_of_fact:
    """The spans of all assigned attributes, in order of declaration."""
    props = 'C26'
    fields = {'InterpretatorFact.attributes': '{any}',
              'InterpretatorFact.repeatable': '{any}',
              'InterpretatorFact.modified': '{any}'}

    def code(self: '=InterpretatorFact'):
        return list(self.spans)

    def spec(self):
        result = []
        for key, value in self.attributes.items():
            if key in self.repeatable:
                for item in value:
                    result.extend(item.spans)
            elif key in self.modified:
                result.extend(value.spans)
        return result


class json_of_fact:
    """Attributes in order of declaration, those without a value left out."""
    props = 'C26'
    fields = {'InterpretatorFact.attributes': '{any}',
              'InterpretatorFact.repeatable': '{any}',
              'InterpretatorFact.modified': '{any}'}

    def code(self: '=InterpretatorFact'):
        return self.as_json

    def spec(self):
        data = {}
        for key in self.scheme.__attributes__:
            value = self.attributes[key]
            if key in self.repeatable:
                value = [x.as_json for x in value]
            elif key in self.modified:
                value = value.as_json
            if value is not None:
                data[key] = value
        return data


class public_fact:
    """as_json and spans of a fact are those of the raw fact, spans sorted by
    start."""
    props = 'C26'
    fields = {'Fact._raw': '=InterpretatorFact'}
    opaque = ['InterpretatorFact.as_json', 'InterpretatorFact.spans']

    def code(self: '=Fact'):
        return self.as_json, self.spans

    def spec(self):
        return (self._raw.as_json,
                sorted(self._raw.spans, key=lambda x: x.start))


class fact_values:
    """Values given by name, defaults for the others (a new list for
    repeatable ones); unknown names are a KeyError."""
    props = 'C24 C30'
    fields = {'Fact.__attributes__': '[any]'}
    raises = 'KeyError'

    def code(self: 'Fact', values: '{any}'):
        Fact.__init__(self, **values)

    def spec(self, values):
        for key in values:
            if key not in self.__attributes__:
                raise KeyError(key)
        for key in self.__attributes__:
            if key in values:
                setattr(self, key, values[key])
            elif isinstance(getattr(self, key), RepeatableAttribute):
                setattr(self, key, [])
            else:
                setattr(self, key, getattr(self, key).default)


class fact_class:
    """A new class with the attributes in the order given."""
    props = 'C24 C26 C30'

    def code(name: 'str', attributes: '[any]'):
        return fact(name, attributes)

    def spec(name, attributes):
        cls = type(str(name), (Fact,), {'__attributes__': [], '_raw': None})
        for item in attributes:
            scheme = prepare_attribute(item)
            cls.__attributes__.append(scheme.name)
            setattr(cls, str(scheme.name), scheme.construct(cls))
        return cls
