"""Predicates: the bank and the compositions."""

from yargy.predicates.constructors import (
    Predicate, PredicateScheme, PredicatesComposition, AndPredicate,
    OrPredicate, NotPredicate, ParameterPredicate, is_predicate
)
from yargy.predicates.bank import (
    eq, caseless, in_, in_caseless, gte, lte, length_eq, normalized,
    dictionary, gram, type as type_, tag, custom, true, is_lower, is_upper,
    is_title, is_capitalized, is_single, DictionaryPredicate, GramPredicate,
    TypePredicate, TagPredicate, CustomPredicate
)
from yargy.token import Token, MorphToken, TagToken


# ------------------------------------------------------------- compositions

class and_accepts:
    """and_ accepts a token when all parts do."""
    props = 'C16'

    def code(self: '=AndPredicate', token: 'Token') -> 'bool':
        return self(token)

    def spec(self, token):
        for x in self.predicates:
            if not x(token):
                return False
        return True


class or_accepts:
    """or_ accepts a token when any part does."""
    props = 'C16'

    def code(self: '=OrPredicate', token: 'Token') -> 'bool':
        return self(token)

    def spec(self, token):
        for x in self.predicates:
            if x(token):
                return True
        return False


class not_accepts:
    """not_ accepts a token when its part does not."""
    props = 'C16'

    def code(self: '=NotPredicate', token: 'Token') -> 'bool':
        return self(token)

    def spec(self, token):
        return not self.predicate(token)


class activated_and:
    """Every part of a composition is activated, the kind stays."""
    props = 'C16 C19'
    opaque = ['.activate']

    def code(self: '=AndPredicate', context: 'Context'):
        x = PredicatesComposition.activate(self, context)
        return type(x), x.predicates

    def spec(self, context):
        return AndPredicate, [x.activate(context) for x in self.predicates]
    returns = {'.activate': 'Predicate'}


class activated_or:
    """Every part of a composition is activated, the kind stays."""
    props = 'C16 C19'
    opaque = ['.activate']

    def code(self: '=OrPredicate', context: 'Context'):
        x = PredicatesComposition.activate(self, context)
        return type(x), x.predicates

    def spec(self, context):
        return OrPredicate, [x.activate(context) for x in self.predicates]
    returns = {'.activate': 'Predicate'}


class activated_not:
    """The negated part is activated."""
    props = 'C16 C19'
    opaque = ['.activate']

    def code(self: '=NotPredicate', context: 'Context'):
        x = NotPredicate.activate(self, context)
        return type(x), x.predicate

    def spec(self, context):
        return NotPredicate, self.predicate.activate(context)
    returns = {'.activate': 'Predicate'}


class parts_of_composition:
    """The parts are kept in order; anything but a predicate is refused."""
    props = 'C16 C30'
    variants = {'cls': ['AndPredicate', 'OrPredicate']}

    def code(cls, items: '[any]'):
        return cls(items).predicates

    def spec(cls, items):
        for x in items:
            if not isinstance(x, Predicate):
                raise TypeError
        return list(items)


class part_of_not:
    props = 'C16 C30'

    def code(item):
        return NotPredicate(item).predicate

    def spec(item):
        if not isinstance(item, Predicate):
            raise TypeError
        return item


class plain_predicates_are_ready:
    """A predicate without parts needs no preparation."""
    props = 'C16'
    variants = {'self': ['=eq', '=caseless', '=in_', '=in_caseless', '=gte',
                         '=lte', '=length_eq', '=true', '=is_lower',
                         '=is_upper', '=is_title', '=is_capitalized',
                         '=is_single', '=GramPredicate', '=TypePredicate',
                         '=TagPredicate', '=DictionaryPredicate',
                         '=CustomPredicate']}

    def code(self, context):
        return self.activate(context)

    def spec(self, context):
        return self


class constrain_keeps_token:
    """Predicates on the text and compositions keep all readings."""
    props = 'C18'
    variants = {'self': ['=eq', '=caseless', '=in_', '=in_caseless', '=gte',
                         '=lte', '=length_eq', '=true', '=is_lower',
                         '=is_upper', '=is_title', '=is_capitalized',
                         '=TypePredicate', '=TagPredicate',
                         '=DictionaryPredicate', '=CustomPredicate',
                         '=NotPredicate', '=AndPredicate', '=OrPredicate']}

    def code(self, token: 'Token'):
        return self.constrain(token)

    def spec(self, token):
        return token


class is_a_predicate:
    props = 'C30'

    def code(item) -> 'bool':
        return is_predicate(item)

    def spec(item):
        return isinstance(item, Predicate)


# --------------------------------------------------------------------- bank

class true_accepts:
    """true: always."""
    props = 'C17'

    def code(token: 'Token') -> 'bool':
        return true()(token)

    def spec(token):
        return True


class case_of_text:
    """is_lower, is_upper, is_title: the methods of str."""
    props = 'C17'

    def code(token: 'Token'):
        return (bool(is_lower()(token)), bool(is_upper()(token)),
                bool(is_title()(token)))

    def spec(token):
        return (bool(token.value.islower()), bool(token.value.isupper()),
                bool(token.value.istitle()))


class capitalized_accepts:
    """is_capitalized: the first letter is upper case."""
    props = 'C17'

    def code(token: 'Token') -> 'bool':
        return is_capitalized()(token)

    def spec(token):
        return token.value[0].isupper()


class eq_accepts:
    """eq: the text is the value."""
    props = 'C17'

    def code(value, token: 'Token') -> 'bool':
        return eq(value)(token)

    def spec(value, token):
        return token.value == value


class caseless_accepts:
    """caseless: the texts are the same in lower case."""
    props = 'C17'

    def code(value: 'str', token: 'Token') -> 'bool':
        return caseless(value)(token)

    def spec(value, token):
        return token.value.lower() == value.lower()


class in_accepts:
    """in_: the text is one of the values."""
    props = 'C17'

    def code(value: '{str}', token: 'Token') -> 'bool':
        return in_(value)(token)

    def spec(value, token):
        return token.value in value


class in_caseless_accepts:
    """in_caseless: the text is one of the values in lower case."""
    props = 'C17'

    def code(value: '[str]', token: 'Token') -> 'bool':
        return in_caseless(value)(token)

    def spec(value, token):
        return token.value.lower() in {x.lower() for x in value}


class length_eq_accepts:
    """length_eq: the length of the text."""
    props = 'C17'

    def code(value: 'int', token: 'Token') -> 'bool':
        return length_eq(value)(token)

    def spec(value, token):
        return len(token.value) == value


class gte_accepts:
    """gte: an integer token, its number is not less."""
    props = 'C17'

    def code(value: 'int', token: 'Token') -> 'bool':
        return gte(value)(token)

    def spec(value, token):
        if token.type != 'INT':
            return False
        return not int(token.value) < value


class lte_accepts:
    """lte: an integer token, its number is not greater."""
    props = 'C17'

    def code(value: 'int', token: 'Token') -> 'bool':
        return lte(value)(token)

    def spec(value, token):
        if token.type != 'INT':
            return False
        return not value < int(token.value)


class normalized_prepared:
    """normalized: the words with the normal forms of the value."""
    props = 'C17 C20'
    opaque = ['MorphAnalyzer.normalized']
    fields = {'Context.tokenizer': '=MorphTokenizer',
              'MorphTokenizer.morph': '=CachedMorphAnalyzer'}
    returns = {'MorphAnalyzer.normalized': '{str}'}

    def code(value: 'str', context: '=Context'):
        x = normalized(value).activate(context)
        return type(x), x.value

    def spec(value, context):
        return DictionaryPredicate, context.tokenizer.morph.normalized(value)


class dictionary_prepared:
    """dictionary: the normal forms of all words listed."""
    props = 'C17'
    opaque = ['MorphAnalyzer.normalized']
    fields = {'Context.tokenizer': '=MorphTokenizer',
              'MorphTokenizer.morph': '=CachedMorphAnalyzer'}
    returns = {'MorphAnalyzer.normalized': '{str}'}

    def code(value: '[str]', context: '=Context'):
        x = dictionary(value).activate(context)
        return type(x), x.value

    def spec(value, context):
        result = set()
        for word in value:
            result |= context.tokenizer.morph.normalized(word)
        return DictionaryPredicate, result


class dictionary_accepts_morph:
    """Any reading of the word has one of the normal forms."""
    props = 'C17'
    variants = {'token': ['=MorphToken', '=MorphTagToken']}

    def code(token, value: '{str}') -> 'bool':
        return DictionaryPredicate(value)(token)

    def spec(token, value):
        for form in token.forms:
            if form.normalized in value:
                return True
        return False


class dictionary_accepts_plain:
    """Tokens without readings: the text in lower case."""
    props = 'C17'
    variants = {'token': ['=Token', '=TagToken']}

    def code(token, value: '{str}') -> 'bool':
        return DictionaryPredicate(value)(token)

    def spec(token, value):
        return token.value.lower() in value


class gram_accepts:
    """gram: any reading of the word has the grammeme; tokens without
    readings are not accepted."""
    props = 'C17'
    variants = {'token': ['=Token', '=TagToken', '=MorphToken',
                          '=MorphTagToken']}

    def code(token, value: 'str') -> 'bool':
        return GramPredicate(value)(token)

    def spec(token, value):
        if not isinstance(token, MorphToken):
            return False
        for form in token.forms:
            if value in form.grams.values:
                return True
        return False


class gram_keeps_readings:
    """Exactly the readings with the grammeme stay, in order."""
    props = 'C18'
    variants = {'token': ['=MorphToken', '=MorphTagToken']}

    def code(token, value: 'str'):
        x = GramPredicate(value).constrain(token)
        return type(x), x.value, x.span, x.type, x.forms

    def spec(token, value):
        return type(token), token.value, token.span, token.type, [
            x for x in token.forms if value in x.grams.values]


class single_accepts:
    """is_single: any reading is singular (or singular only)."""
    props = 'C17'
    variants = {'token': ['=Token', '=TagToken', '=MorphToken',
                          '=MorphTagToken']}

    def code(token) -> 'bool':
        return is_single()(token)

    def spec(token):
        if not isinstance(token, MorphToken):
            return False
        for form in token.forms:
            if 'sing' in form.grams.values or 'Sgtm' in form.grams.values:
                return True
        return False


class single_keeps_readings:
    """Exactly the singular readings stay, in order."""
    props = 'C18'
    variants = {'token': ['=MorphToken', '=MorphTagToken']}

    def code(token):
        x = is_single().constrain(token)
        return type(x), x.value, x.span, x.type, x.forms

    def spec(token):
        return type(token), token.value, token.span, token.type, [
            x for x in token.forms
            if 'sing' in x.grams.values or 'Sgtm' in x.grams.values]


class gram_prepared:
    """An unknown grammeme is refused."""
    props = 'C19'
    fields = {'Context.tokenizer': '=MorphTokenizer',
              'MorphTokenizer.morph': '=CachedMorphAnalyzer'}

    def code(value: 'str', context: '=Context'):
        x = gram(value).activate(context)
        return type(x), x.value

    def spec(value, context):
        if not context.tokenizer.morph.raw.TagClass.grammeme_is_known(value):
            raise ValueError
        return GramPredicate, value


class type_prepared:
    """An unknown token type is refused."""
    props = 'C19'
    fields = {'Context.tokenizer': '=MorphTokenizer',
              'Tokenizer.types': '{str}'}

    def code(value: 'str', context: '=Context'):
        x = type_(value).activate(context)
        return type(x), x.value

    def spec(value, context):
        if value not in context.tokenizer.types:
            raise ValueError
        return TypePredicate, value


class type_accepts:
    """type: the type of the token."""
    props = 'C17'

    def code(value: 'str', token: 'Token') -> 'bool':
        return TypePredicate(value)(token)

    def spec(value, token):
        return token.type == value


class tag_prepared:
    """A tag the tagger does not know is refused."""
    props = 'C19'
    opaque = ['Tagger.check_tag']
    fields = {'Context.tagger': 'Tagger'}

    def code(value: 'str', context: '=Context'):
        x = tag(value).activate(context)
        return type(x), x.value

    def spec(value, context):
        if not context.tagger.check_tag(value):
            raise ValueError
        return TagPredicate, value


class tag_accepts:
    """tag: tagged tokens with that tag."""
    props = 'C17 C32'
    variants = {'token': ['=Token', '=TagToken', '=MorphToken',
                          '=MorphTagToken']}

    def code(token, value: 'str') -> 'bool':
        return TagPredicate(value)(token)

    def spec(token, value):
        if isinstance(token, TagToken):
            return token.tag == value
        return False


class custom_types:
    """One type or a list of them."""
    props = 'C17 C19'

    def code(function, types):
        x = custom(function, types)
        return x.function, x.types

    def spec(function, types):
        if types is None or isinstance(types, (tuple, list)):
            return function, types
        return function, [types]


class custom_prepared:
    """Unknown types are refused."""
    props = 'C19 C17'
    fields = {'Context.tokenizer': '=MorphTokenizer',
              'Tokenizer.types': '{str}', 'custom.types': '[str]'}

    def code(self: '=custom', context: '=Context'):
        x = self.activate(context)
        return type(x), x.function, x.types

    def spec(self, context):
        for x in self.types:
            if x not in context.tokenizer.types:
                raise ValueError
        return CustomPredicate, self.function, self.types


class custom_accepts:
    """custom: tokens of the types for which the function is true."""
    props = 'C17'
    fields = {'CustomPredicate.types': '[str]'}

    def code(self: '=CustomPredicate', token: 'Token') -> 'bool':
        return self(token)

    def spec(self, token):
        if len(self.types) != 0 and token.type not in self.types:
            return False
        return self.function(token.value)


class predicate_as_rule:
    """A predicate can be used as a rule of that one term."""
    props = 'C30'
    opaque = ['Rule.optional', 'Rule.repeatable', 'Rule.named',
              'Rule.interpretation', 'Rule.match', 'rule',
              'prepare_token_interpretator']

    def code(self: 'Predicate', min, max, reverse: 'bool', name, relation):
        return (self.optional(), self.repeatable(),
                self.repeatable(min, max, reverse),
                self.named(name), self.match(relation))

    def spec(self, min, max, reverse, name, relation):
        from yargy.api import rule
        return (rule(self).optional(),
                rule(self).repeatable(min=None, max=None, reverse=False),
                rule(self).repeatable(min=min, max=max, reverse=reverse),
                rule(self).named(name), rule(self).match(relation))
    returns = {'rule': 'Rule'}


class predicate_interpretation:
    """Interpretation of a predicate is that of its token."""
    props = 'C24 C30'
    opaque = ['Rule.interpretation', 'rule', 'prepare_token_interpretator']

    def code(self: 'Predicate', attribute):
        return self.interpretation(attribute)

    def spec(self, attribute):
        from yargy.api import rule
        from yargy.interpretation.interpretator import (
            prepare_token_interpretator
        )
        return rule(self).interpretation(
            prepare_token_interpretator(attribute))
    returns = {'rule': 'Rule'}
