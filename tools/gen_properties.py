"""Writes properties.jsonl (source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files.split(),
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Matches of one text do not alter each other',
     '''Building, narrowing or interpreting one match leaves the tokens, trees and facts of
     every other match of the same text as they were, in whatever order and however often the
     matches are consumed. Steps that derive a new tree, token or fact from an old one never
     write into the old one.''',
     'histories inputs',
     'every grammar, every text with several (also ambiguous) matches, every order of consumption',
     '''Tests look at one match of one text; sharing shows up only when two derivations own the same
     leaf and are consumed in a particular order.''',
     'yargy/tree/transformators.py yargy/tree/constructors.py yargy/parser.py yargy/morph.py yargy/token.py',
     [('ApplyRelationsTransformator.visit_Leaf', 'yargy/tree/transformators.py'),
      ('Node.attached', 'yargy/tree/constructors.py'),
      ('MorphToken.constrained', 'yargy/token.py')],
     ['Match.tokens', 'Match.fact'])

prop('C02', 'Building a parser leaves the grammar untouched and reusable',
     '''A rule, predicate or relation handed to a parser, to another rule or to a transformation
     keeps its structure and its language: the caller's objects are never written. A rule can be used in any number of
     parsers and rules, in any order, with the same results each time.''',
     'programs histories',
     'every rule (also recursive and shared ones), every sequence of uses',
     'Tests build each rule once and throw it away.',
     'yargy/parser.py yargy/rule/transformators.py yargy/rule/bnf.py yargy/visitor.py yargy/pipelines.py',
     [('prepare_rule', 'yargy/parser.py'),
      ('RuleTransformator', 'yargy/rule/transformators.py'),
      ('InplaceRuleTransformator', 'yargy/rule/transformators.py')],
     ['Parser(...)', 'rule.normalized', 'rule.as_bnf'])

prop('C03', 'A parser answers the same however often it is asked',
     '''The matches of a text depend only on the grammar, tokenizer and tagger and on the text: earlier calls,
     half consumed iterators and errors leave nothing behind in the parser. Repeated calls give equal answers.''',
     'histories inputs',
     'every sequence of match/findall/chart calls on one parser, also abandoned iterators',
     'Tests call a parser once or twice.',
     'yargy/parser.py yargy/tokenizer.py yargy/morph.py yargy/tagger.py',
     [('Parser.chart', 'yargy/parser.py'), ('Chart', 'yargy/parser.py')],
     ['Parser.match', 'Parser.findall'])

prop('C04', 'Results are the same in every process',
     '''The answers (which match, which key, which order of forms, productions and attributes) are functions of the
     arguments alone: iteration order of sets, hash seeds, object addresses and garbage collection never decide them.''',
     'configurations inputs',
     'every hash seed, every memory layout, every grammar and text',
     'One test process has one hash seed and one memory layout.',
     'yargy/pipelines.py yargy/morph.py yargy/parser.py yargy/visitor.py yargy/rule/transformators.py yargy/relations/graph.py',
     [('PipelineRule / PipelineScheme productions', 'yargy/pipelines.py'),
      ('CachedVisitor keyed by live objects', 'yargy/visitor.py')],
     ['Parser.match', 'Parser.findall'])

prop('C05', 'Tokens cover the text in order, without loss, with the right type',
     '''Every token carries exactly the text of its span and the type of the rule that matched it; tokens come from left to right, do
     not overlap, and nothing but characters matched by no rule lies between them. With the default rules only whitespace
     is matched by no rule and line ends are tokens of their own type.''',
     'inputs', 'every text (any Unicode string)',
     'Tests tokenize a handful of strings.',
     'yargy/tokenizer.py yargy/token.py yargy/span.py',
     [('Tokenizer.__call__', 'yargy/tokenizer.py'), ('RULES', 'yargy/tokenizer.py')],
     ['Tokenizer.__call__'])

prop('C06', 'Customising a tokenizer is local and follows rule order',
     '''Adding or removing rules gives a new effect on that tokenizer only: the default rules and other tokenizers stay as they
     are, removing takes out exactly the named types, added rules come first, and among rules the earlier one wins. Asking for an unknown
     type is a ValueError.''',
     'configurations inputs', 'every list of rules and every sequence of additions and removals',
     'Tests check one removal and one addition.',
     'yargy/tokenizer.py',
     [('Tokenizer.add_rules', 'yargy/tokenizer.py'), ('Tokenizer.remove_types', 'yargy/tokenizer.py')],
     ['Tokenizer.add_rules', 'Tokenizer.remove_types', 'Tokenizer.check_type'])

prop('C07', 'The parse chart holds exactly the derivations of the grammar',
     '''A span of tokens is recognised by a rule if and only if the rule derives it: each term consumes a token its predicate
     accepts or a derivation of its rule, adjacent and in order, empty rules included. No derivation is lost because another state was found earlier or later.''',
     'programs inputs', 'every grammar (ambiguous, nullable, left and right recursive) and every text',
     'Tests use a few small grammars; completeness is a statement over all of them.',
     'yargy/parser.py yargy/tree/constructors.py',
     [('Chart.predict/scan/complete', 'yargy/parser.py'), ('Column', 'yargy/parser.py'), ('State', 'yargy/parser.py')],
     ['Parser.match', 'Parser.findall'])

prop('C08', 'match() succeeds only on the whole text',
     '''match() returns a match exactly when the start rule derives the complete token sequence from the first token to the last, and None
     otherwise; the span of the match is from the first to the last token.''',
     'inputs programs', 'every grammar and text',
     'Partial derivations of a recursive rule are only exposed by particular grammars.',
     'yargy/parser.py',
     [('Parser.match', 'yargy/parser.py'), ('Chart.matches', 'yargy/parser.py')],
     ['Parser.match'])

prop('C09', 'findall() yields the best-covering non-overlapping matches in text order',
     '''Matches of findall() never overlap and are yielded from left to right. Among all valid matches the best one of every distinct range of tokens is kept, and of these a
     set of pairwise non-overlapping ones whose total length is the largest possible is returned.''',
     'inputs programs', 'every grammar and text, any set of overlapping candidates',
     'Tests contain at most a couple of overlaps.',
     'yargy/parser.py yargy/tree/constructors.py',
     [('resolve_matches', 'yargy/parser.py'), ('Tree.__lt__', 'yargy/tree/constructors.py')],
     ['Parser.findall'])

prop('C10', 'Alternatives listed first win among equal matches',
     '''Among derivations of the same tokens the one whose first differing choice uses the earlier listed alternative is returned; order of listing is kept
     by every stage from the rule to the parse. For one and the same rule and range, a derivation is compared with another from left to right, top
     down, and only the first difference decides.''',
     'programs inputs', 'every ambiguous grammar and text',
     'Tests cover a few two-way ambiguities.',
     'yargy/tree/constructors.py yargy/parser.py yargy/rule/bnf.py yargy/rule/transformators.py',
     [('Node.__lt__', 'yargy/tree/constructors.py'), ('rank in Chart.predict', 'yargy/parser.py')],
     ['Parser.match', 'Match.fact'])

prop('C11', 'Repetition operators match the promised numbers, greedily by default',
     '''optional() matches zero or one, repeatable() one or more, with min and max exactly the numbers between the bounds, and their combinations
     likewise; the longest repetition is preferred, the shortest with reverse=True. Wrong bounds are rejected with ValueError or TypeError.''',
     'programs inputs', 'every rule, every min/max, every combination, both preferences',
     'Tests check isolated bounds.',
     'yargy/rule/constructors.py yargy/rule/transformators.py',
     [('Rule.optional/repeatable', 'yargy/rule/constructors.py'), ('ReplaceExtendedTransformator', 'yargy/rule/transformators.py')],
     ['rule.optional', 'rule.repeatable'])

prop('C12', 'Simplifying nested repetition and option keeps the language',
     '''Rewriting a repeated or optional rule inside another one before parsing gives a rule that matches the same texts as the nested original and keeps its greedy or
     reversed preference. Named, interpreted or related rules in between are not swallowed.''',
     'programs', 'every pair of nested extended rules with any bounds and flags',
     'Tests list some pairs; the bounds are unbounded integers.',
     'yargy/rule/transformators.py',
     [('SquashExtendedTransformator', 'yargy/rule/transformators.py')],
     ['rule.normalized', 'Parser.match'])

prop('C13', 'Rebuilding a rule keeps everything but what the stage changes',
     '''A transformation of rules returns for each rule one of the same kind with the same name, interpretation, relation, bounds, preference, pipeline and
     main word, over the transformed children in the same order. Only plain single-alternative rules without labels are merged into their parents.''',
     'programs', 'every rule of every kind, every stage',
     'Tests transform a few rules; a lost field shows only for the kind that loses it.',
     'yargy/rule/transformators.py yargy/rule/bnf.py yargy/visitor.py',
     [('RuleTransformator', 'yargy/rule/transformators.py'), ('FlattenTransformator', 'yargy/rule/transformators.py')],
     ['rule.normalized', 'rule.as_bnf'])

prop('C14', 'A rule shared by several places keeps its own label in each of them',
     '''When a rule is wrapped (named, interpreted, given a relation) in one place and used plainly or wrapped otherwise in another, each place has its own label and none is
     lost or leaked to the other; the wrapped rule itself stays recursive where it was.''',
     'programs', 'every grammar graph with shared and recursive rules',
     'Sharing patterns are unbounded; tests have one or two.',
     'yargy/rule/bnf.py yargy/rule/constructors.py',
     [('BNFTransformator', 'yargy/rule/bnf.py'), ('RemoveForwardTransformator', 'yargy/rule/bnf.py')],
     ['rule.as_bnf', 'Match.fact'])

prop('C15', 'Every kind of rule passes every stage or is refused with TypeError',
     '''Each stage on the way from a rule to a parser has a definite treatment for every kind of rule; a rule that must not reach a stage and a forward rule that was never
     defined raise TypeError instead of giving a wrong grammar.''',
     'programs', 'every kind of rule at every stage',
     'Tests do not multiply kinds by stages.',
     'yargy/visitor.py yargy/rule/transformators.py yargy/rule/bnf.py yargy/rule/constructors.py',
     [('Visitor.resolve_method', 'yargy/visitor.py'), ('RemoveForwardTransformator', 'yargy/rule/bnf.py')],
     ['rule.normalized', 'rule.as_bnf', 'Parser(...)'])

prop('C16', 'Composed predicates are boolean logic, ready for the tokenizer',
     '''and_ accepts a token when all parts do, or_ when any does, not_ when its part does not, for any nesting. Activating a composition for a tokenizer activates every part
     at every depth and keeps the structure.''',
     'programs inputs', 'every predicate expression and every token',
     'Tests check single operators.',
     'yargy/predicates/constructors.py yargy/predicates/bank.py',
     [('AndPredicate/OrPredicate/NotPredicate', 'yargy/predicates/constructors.py')],
     ['predicate(token)', 'predicate.activate'])

prop('C17', 'Built-in predicates accept exactly the tokens their definition says',
     '''eq, caseless, in_, in_caseless, length_eq, gram, type, tag, custom, true, is_lower, is_upper, is_title, is_capitalized, is_single, gte, lte, normalized and dictionary accept exactly the tokens
     their documentation says, for every token, including tokens without forms or of other types.''',
     'inputs', 'every token (any text, type, forms) and every predicate argument',
     'Tests check one or two words per predicate.',
     'yargy/predicates/bank.py yargy/predicates/constructors.py',
     [('bank', 'yargy/predicates/bank.py')],
     ['predicate(token)'])

prop('C18', 'Matched words keep exactly the readings the predicate accepted',
     '''When gram() or is_single() accepts a word as a term of a rule, the match carries the word with exactly the readings that satisfy it; compositions (and_, or_, not_) and predicates on the
     text keep all of them. No reading is added, their order stays, and the rest of the token is as it was.''',
     'inputs programs', 'every predicate expression and every token with any readings',
     'Tests have few ambiguous words.',
     'yargy/predicates/bank.py yargy/predicates/constructors.py yargy/token.py yargy/parser.py',
     [('Predicate.constrain', 'yargy/predicates/constructors.py'), ('MorphToken.constrained', 'yargy/token.py')],
     ['Match.tokens'])

prop('C19', 'Unknown grammemes, token types and tags are rejected when a parser is built',
     '''Naming a grammeme, a token type or a tag that the tokenizer, dictionary or tagger does not know raises ValueError when the predicate is prepared for them, at any depth of a composition;
     known ones are accepted.''',
     'programs configurations', 'every name, every tokenizer and tagger',
     'Tests cover one unknown name.',
     'yargy/predicates/bank.py yargy/tokenizer.py yargy/morph.py yargy/tagger.py',
     [('gram.activate / type.activate / tag.activate', 'yargy/predicates/bank.py'),
      ('check_gram', 'yargy/morph.py'), ('check_type', 'yargy/tokenizer.py')],
     ['Parser(...)'])

prop('C20', 'Pipelines match exactly their listed phrases and report their key',
     '''A pipeline matches a token sequence exactly when it equals one of its lines (literally, caselessly or by normal forms); a fast index used in parsing
     selects the same lines as comparing word by word. The key of a match is the line as listed, however the pipeline is wrapped or shared.''',
     'programs inputs', 'every list of lines and every text',
     'Tests list few lines without common words.',
     'yargy/pipelines.py yargy/tree/transformators.py',
     [('pipeline schemes', 'yargy/pipelines.py'), ('PipelineBNFRule.predict', 'yargy/pipelines.py')],
     ['Match.fact'])

prop('C21', 'Agreement relations compare exactly the grammatical categories they name',
     '''Two readings agree in gender, number, case or combinations when the values of those categories are compatible as documented (common gender, plural without gender, indeclinable words), symmetrically
     and for all readings; a relation between words keeps exactly the pairs of readings that agree.''',
     'inputs', 'every pair of readings',
     'Tests check a few word pairs of a large product space.',
     'yargy/relations/bank.py yargy/relations/constructors.py yargy/morph.py',
     [('relations bank', 'yargy/relations/bank.py'), ('relation bases', 'yargy/relations/constructors.py')],
     ['Relation.__call__'])

prop('C22', 'A match is reported only if all its relations agree',
     '''Every word labelled with the same relation agrees with every other word of that label in the match, and readings are narrowed until all relations are satisfied together, those that stay keeping their order; when no readings remain the match is
     dropped, and matches without relations are not affected.''',
     'inputs programs', 'every grammar with relations, every text',
     'Interplay of several relations over several words is combinatorial.',
     'yargy/relations/graph.py yargy/parser.py yargy/tree/transformators.py',
     [('TokenRelationsGraph.validate', 'yargy/relations/graph.py'), ('RelationsTransformator', 'yargy/tree/transformators.py')],
     ['Parser.match', 'Parser.findall', 'Match.tokens'])

prop('C23', 'The head of a phrase is its marked word',
     '''The head of a phrase is the head of the term marked with main(), or of the first term when none is marked; it stays so when empty parts of the phrase are removed and when
     rules are transformed. Marking two is an error.''',
     'programs inputs', 'every rule with optional parts and every text',
     'Tests mark the head of full phrases only.',
     'yargy/rule/constructors.py yargy/tree/constructors.py yargy/tree/transformators.py',
     [('prepare_terms', 'yargy/rule/constructors.py'), ('PropogateEmptyTransformator', 'yargy/tree/transformators.py')],
     ['relations', 'Match.tokens'])

prop('C24', 'A fact has exactly the attributes its grammar assigns',
     '''Interpreting a match gives the fact of the labelled rule with each attribute set from the phrase labelled with it: scalars take the value, repeatable attributes collect all values in text
     order, attributes of nested facts of the same kind are merged, unassigned ones have their default. Wrong combinations raise TypeError.''',
     'programs inputs', 'every grammar with interpretation and every match',
     'Nesting of interpretations is unbounded.',
     'yargy/interpretation/interpretator.py yargy/interpretation/fact.py yargy/interpretation/attribute.py yargy/tree/transformators.py',
     [('interpretators', 'yargy/interpretation/interpretator.py'), ('Fact', 'yargy/interpretation/fact.py')],
     ['Match.fact'])

prop('C25', 'Normalisation of attributes applies its steps in the given order',
     '''normalized(), inflected(), custom() and const() give the documented word form, function value or constant; chained steps are applied in the order written, to the words joined as in the text, and
     a normalised pipeline gives its key. Chains that make no sense raise TypeError.''',
     'programs inputs', 'every chain of normalisers and every phrase',
     'Tests cover single steps.',
     'yargy/interpretation/normalizer.py yargy/interpretation/attribute.py yargy/interpretation/interpretator.py yargy/morph.py',
     [('normalizers', 'yargy/interpretation/normalizer.py'), ('prepare_attribute_interpretator', 'yargy/interpretation/attribute.py')],
     ['Match.fact'])

prop('C26', 'Facts report their spans and JSON consistently',
     '''The spans of a fact are those of the phrases its attributes were taken from, in text order, without constants; as_json contains exactly the attributes that have a value (assigned, or a default other than None), in declared order, recursively for nested
     facts and lists. The raw fact keeps the values together with the phrases they were taken from.''',
     'inputs programs', 'every fact',
     'Tests serialise a few flat facts.',
     'yargy/interpretation/fact.py yargy/interpretation/interpretator.py yargy/span.py',
     [('Fact.spans', 'yargy/interpretation/fact.py'), ('Fact.as_json', 'yargy/interpretation/fact.py')],
     ['Fact.spans', 'Fact.as_json'])

prop('C27', 'Joined tokens reproduce the spacing of the text',
     '''Joining consecutive tokens puts one space between two tokens that are apart in the text and nothing between adjacent ones, with every token written as it is, in its
     normal form or inflected; the joined span is from the first to the last token.''',
     'inputs', 'every sequence of tokens',
     'Tests join two tokens.',
     'yargy/token.py yargy/span.py yargy/interpretation/normalizer.py',
     [('join_tokens', 'yargy/token.py'), ('get_tokens_span', 'yargy/token.py')],
     ['Match.fact'])

prop('C28', 'Morphology answers are cached without mixing words or losing readings',
     '''The readings of a word are all the dictionary gives, each with its own normal form and grammemes, the same for repeated questions, with and without caches; grammemes of the dictionary are found
     under their documented names.''',
     'inputs histories', 'every word, every order of questions',
     'Tests analyse few words once.',
     'yargy/morph.py yargy/utils.py yargy/tokenizer.py',
     [('MorphAnalyzer / CachedMorphAnalyzer', 'yargy/morph.py')],
     ['MorphTokenizer.__call__'])

prop('C29', 'Value objects compare, hash and print by their declared fields',
     '''Tokens, spans, forms, trees, matches and rules of the record kind are equal when and only when they are of one class with equal fields, equal ones have equal hashes, and all declared
     fields exist on every object.''',
     'inputs', 'every pair of value objects',
     'Tests compare a few.',
     'yargy/record.py yargy/span.py yargy/token.py yargy/morph.py',
     [('Record', 'yargy/record.py')],
     ['==', 'hash'])

prop('C30', 'Wrong arguments are refused where they are given',
     '''Passing something that is not a rule, predicate, relation, interpretator, attribute, tokenizer rule or tagger where one is required raises TypeError (ValueError for a wrong value) at that
     call, and every allowed kind is accepted, rules and predicates interchangeably.''',
     'programs', 'every public constructor and every kind of argument',
     'Tests try few wrong arguments.',
     'yargy/api.py yargy/check.py yargy/rule/constructors.py yargy/predicates/bank.py yargy/interpretation/attribute.py',
     [('assert_type', 'yargy/check.py'), ('rule/or_/and_/not_', 'yargy/api.py')],
     ['rule', 'or_', 'and_', 'not_', 'forward', 'main', 'fact', 'attribute', 'Parser'])

prop('C31', 'Drawings show every node and edge once',
     '''The dot source of a grammar or tree has exactly one node per rule, production and token and one edge per parent-child link, with labels quoted so that any text
     is valid dot.''',
     'programs inputs', 'every grammar, every tree, every label text',
     'Tests draw a rule.',
     'yargy/dot.py yargy/rule/bnf.py yargy/tree/transformators.py',
     [('Graph/style', 'yargy/dot.py'), ('DotTreeTransformator', 'yargy/tree/transformators.py')],
     ['rule.as_dot', 'tree.as_dot'])

prop('C32', 'Tags are attached to the right tokens',
     '''A tagger gives each token exactly the tag of the same position, keeping text, span, type and readings, in text order, none dropped or added; text without tokens
     gives nothing.''',
     'inputs', 'every token sequence and every tagger',
     'Tests tag one sentence.',
     'yargy/tagger.py yargy/token.py yargy/parser.py',
     [('Tagger.__call__', 'yargy/tagger.py'), ('Token.tagged', 'yargy/token.py')],
     ['Parser.findall'])

prop('C33', 'Parsing always ends',
     '''Building a parser from any finite grammar and parsing any finite text ends, also for rules that derive themselves or the empty text in cycles: a derivation that repeats the same rule over the same tokens
     is not extended again.''',
     'programs inputs', 'every cyclic and nullable grammar and every text',
     'Non-termination needs particular cyclic grammars.',
     'yargy/parser.py yargy/tree/constructors.py yargy/visitor.py',
     [('Node.cyclic', 'yargy/tree/constructors.py'), ('Chart loop', 'yargy/parser.py')],
     ['Parser(...)', 'Parser.match'])

prop('C34', 'Parsing time grows moderately with text and grammar size',
     '''Time and memory of parsing grow at most cubically with the number of tokens for unambiguous grammars, and a pipeline of many lines costs about as much as one of few.''',
     'inputs', 'every text length and pipeline size',
     'Tests are tiny.',
     'yargy/parser.py yargy/pipelines.py',
     [('Chart', 'yargy/parser.py'), ('PipelineBNFRule.predict', 'yargy/pipelines.py')],
     ['Parser.findall'])

prop('C35', 'Normal forms and grammemes are linguistically right',
     '''The readings, normal forms and inflected forms of a Russian word are those of the language.''',
     'inputs', 'every Russian word',
     'Tests check a few words.',
     'yargy/morph.py',
     [('pymorphy wrapper', 'yargy/morph.py')],
     ['MorphToken.forms'])


prop('C36', 'The printed grammar lists each rule once with all its productions in order',
     '''The text of a grammar in normal form names every rule reachable from the start exactly once, start first, with each of its productions in the order they were
     given, main words marked; rules, predicates, relations, interpretations and pipelines are shown by labels that name their kind and arguments.''',
     'programs', 'every grammar (shared, recursive, named, interpreted and related rules)',
     'Tests print a few grammars.',
     'yargy/rule/bnf.py yargy/rule/constructors.py yargy/predicates/bank.py yargy/relations/bank.py yargy/interpretation/attribute.py',
     [('BNF', 'yargy/rule/bnf.py'), ('BNFRule.as_bnf / labels', 'yargy/rule/bnf.py')],
     ['rule.as_bnf.source', 'rule.label'])


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')


if __name__ == '__main__':
    main()
