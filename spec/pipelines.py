"""Pipelines: lists of phrases."""

from yargy.pipelines import (
    Pipeline, CaselessPipeline, MorphPipeline, PipelineScheme,
    CaselessPipelineScheme, MorphPipelineScheme, PipelineBNFRule,
    CaselessPipelineBNFRule, MorphPipelineBNFRule, PipelineProduction, Key,
    pipeline, caseless_pipeline, morph_pipeline
)
from yargy.predicates.bank import eq, caseless, DictionaryPredicate
from yargy.rule.constructors import PipelineRule
from yargy.token import MorphToken


class lines_of_pipeline:
    """Lines are kept in order; anything but strings is refused."""
    props = 'C20 C30'

    def code(lines: '[any]'):
        x, y, z = (pipeline(lines), caseless_pipeline(lines),
                   morph_pipeline(lines))
        return (type(x), type(x.pipeline), x.pipeline.lines,
                type(y), type(y.pipeline), y.pipeline.lines,
                type(z), type(z.pipeline), z.pipeline.lines)

    def spec(lines):
        for line in lines:
            if not isinstance(line, str):
                raise TypeError
        return (PipelineRule, PipelineScheme, list(lines),
                PipelineRule, CaselessPipelineScheme, list(lines),
                PipelineRule, MorphPipelineScheme, list(lines))


class prepared_lines:
    """Every line is split by the tokenizer of the parser; the key is the
    line as listed."""
    props = 'C20'
    fields = {'PipelineScheme.lines': '[str]',
              'Context.tokenizer': '=MorphTokenizer'}
    opaque = ['Tokenizer.split']
    returns = {'Tokenizer.split': '[str]'}

    def code(a: '=PipelineScheme', b: '=CaselessPipelineScheme',
             context: '=Context'):
        x, y = a.activate(context), b.activate(context)
        return (type(x), [(k.value, k.terms) for k in x.keys],
                type(y), [(k.value, k.terms) for k in y.keys])

    def spec(a, b, context):
        return (Pipeline, [(line, context.tokenizer.split(line))
                           for line in a.lines],
                CaselessPipeline, [(line, context.tokenizer.split(line))
                                   for line in b.lines])


class prepared_morph_lines:
    """The words of a line are replaced by their normal forms."""
    props = 'C20'
    fields = {'PipelineScheme.lines': '[str]',
              'Context.tokenizer': '=MorphTokenizer',
              'MorphTokenizer.morph': 'MorphAnalyzer'}
    opaque = ['Tokenizer.split', 'MorphAnalyzer.normalized']
    returns = {'Tokenizer.split': '[str]'}

    def code(self: '=MorphPipelineScheme', context: '=Context'):
        x = self.activate(context)
        return type(x), [(k.value, k.terms) for k in x.keys]

    def spec(self, context):
        return MorphPipeline, [
            (line, [context.tokenizer.morph.normalized(word)
                    for word in context.tokenizer.split(line)])
            for line in self.lines]


class prepared_pipeline_is_ready:
    """A prepared pipeline is not prepared again."""
    props = 'C20 C15'
    variants = {'self': ['=Pipeline', '=CaselessPipeline', '=MorphPipeline']}

    def code(self, context):
        return self.activate(context)

    def spec(self, context):
        return self


class predicates_of_lines:
    """Words are compared literally, caselessly or by normal form; the key of
    a line is kept."""
    props = 'C20'
    fields = {'Pipeline.keys': '[Key]', 'Key.terms': '[str]'}
    opaque = ['prepare_terms']

    def code(a: '=Pipeline', b: '=CaselessPipeline', c: '=MorphPipeline'):
        return ([p.value for p in a.productions],
                [p.value for p in b.productions],
                [p.value for p in c.productions])

    def spec(a, b, c):
        return ([k.value for k in a.keys], [k.value for k in b.keys],
                [k.value for k in c.keys])


class words_of_lines:
    """Words are compared literally, caselessly or by normal form."""
    props = 'C20'
    fields = {'Pipeline.keys': '[Key]', 'Key.terms': '[str]'}
    opaque = ['new PipelineProduction', 'new eq', 'new caseless',
              'new DictionaryPredicate']

    def code(a: '=Pipeline', b: '=CaselessPipeline', c: '=MorphPipeline'):
        return (list(a.productions), list(b.productions),
                list(c.productions))

    def spec(a, b, c):
        return ([PipelineProduction(k.value, [eq(x) for x in k.terms])
                 for k in a.keys],
                [PipelineProduction(k.value, [caseless(x) for x in k.terms])
                 for k in b.keys],
                [PipelineProduction(k.value,
                                    [DictionaryPredicate(x)
                                     for x in k.terms])
                 for k in c.keys])


class production_of_line:
    props = 'C20 C13'
    opaque = ['prepare_terms']

    def code(value, terms):
        x = PipelineProduction(value, terms)
        return x.value, x.terms, x.main

    def spec(value, terms):
        from yargy.rule.constructors import prepare_terms
        a, b = prepare_terms(terms)
        return value, a, b
    returns = {}


class bnf_of_pipeline:
    """Every kind of pipeline has the index of its kind."""
    props = 'C20 C15'
    opaque = ['new PipelineBNFRule', 'new CaselessPipelineBNFRule',
              'new MorphPipelineBNFRule', 'Pipeline.productions']

    def code(a: '=Pipeline', b: '=CaselessPipeline', c: '=MorphPipeline'):
        return a.as_bnf, b.as_bnf, c.as_bnf

    def spec(a, b, c):
        return (PipelineBNFRule(a.productions),
                CaselessPipelineBNFRule(b.productions),
                MorphPipelineBNFRule(c.productions))


class index_of_lines:
    """The index has every line under its first word, in order."""
    props = 'C20 C10'
    variants = {'self': ['=PipelineBNFRule', '=CaselessPipelineBNFRule']}
    fields = {'Production.terms': '[eq]'}

    def code(self, productions: '[PipelineProduction]'):
        return self.build_index(productions)

    def spec(self, productions):
        from collections import defaultdict
        index = defaultdict(list)
        for production in productions:
            index[production.terms[0].value].append(production)
        return dict(index)


class index_of_morph_lines:
    """The index has every line under every normal form of its first word,
    in order."""
    props = 'C20 C10'
    fields = {'Production.terms': '[DictionaryPredicate]',
              'DictionaryPredicate.value': '{str}'}

    def code(self: '=MorphPipelineBNFRule',
             productions: '[PipelineProduction]'):
        return self.build_index(productions)

    def spec(self, productions):
        from collections import defaultdict
        index = defaultdict(list)
        for production in productions:
            for value in production.terms[0].value:
                index[value].append(production)
        return dict(index)


class index_built_once:
    """The index is over all productions of the rule."""
    props = 'C20'
    variants = {'cls': ['PipelineBNFRule', 'CaselessPipelineBNFRule',
                        'MorphPipelineBNFRule']}
    fields = {'Production.terms': '[DictionaryPredicate]',
              'DictionaryPredicate.value': '{str}'}

    def code(cls, productions: '[PipelineProduction]'):
        x = cls(productions)
        return x.productions, x.index

    def spec(cls, productions):
        x = cls(productions)
        return list(productions), x.build_index(productions)


class lines_for_token:
    """The lines whose first word is the text of the token."""
    props = 'C20 C07 C10'
    fields = {'PipelineBNFRule.index': '{[Production]}'}

    def code(self: '=PipelineBNFRule', token: 'Token'):
        return list(self.predict(token))

    def spec(self, token):
        if token.value in self.index:
            return list(self.index[token.value])
        return []


class caseless_lines_for_token:
    """The lines whose first word is the text of the token in lower case."""
    props = 'C20 C07 C10'
    fields = {'PipelineBNFRule.index': '{[Production]}'}

    def code(self: '=CaselessPipelineBNFRule', token: 'Token'):
        return list(self.predict(token))

    def spec(self, token):
        if token.value.lower() in self.index:
            return list(self.index[token.value.lower()])
        return []


class morph_lines_for_plain_token:
    """Words without readings are looked up in lower case."""
    props = 'C20 C07'
    variants = {'token': ['=Token', '=TagToken']}
    fields = {'PipelineBNFRule.index': '{[Production]}'}

    def code(self: '=MorphPipelineBNFRule', token):
        return list(self.predict(token))

    def spec(self, token):
        if token.value.lower() in self.index:
            return list(self.index[token.value.lower()])
        return []


class morph_lines_for_word:
    """The lines under every normal form of the word, each form once, in the
    order of the readings."""
    props = 'C20 C04 C07 C10'
    fields = {'PipelineBNFRule.index': '{[Production]}'}

    def code(self: '=MorphPipelineBNFRule', token: '=MorphToken'):
        return list(self.predict(token))

    def spec(self, token):
        visited = set()
        result = []
        for form in token.forms:
            value = form.normalized
            if value in self.index and value not in visited:
                visited.add(value)
                for production in self.index[value]:
                    result.append(production)
        return result
