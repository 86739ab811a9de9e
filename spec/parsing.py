"""The chart parser."""

from yargy.parser import (
    Chart, Column, State, Match, Parser, Context,
    prepare_match, prepare_matches, prepare_resolved_matches, prepare_trees
)
from yargy.tree import Node, Leaf, Tree
from yargy.rule.bnf import BNFRule
from yargy.span import resolve_spans
from yargy.token import get_tokens_span
from yargy.tokenizer import Tokenizer, MorphTokenizer
from yargy.tagger import Tagger, PassTagger


class column_per_token:
    """Column 0 is before the text, column i ends with token i."""
    props = 'C07'

    def code(tokens: '[Token]'):
        chart = Chart(tokens)
        return [(c.index, c.token, c.states) for c in chart.columns]

    def spec(tokens):
        return [(0, None, [])] + [
            (i + 1, token, []) for i, token in enumerate(tokens)
        ]


class column_keeps_new_states:
    """A state is added once; equal hashes mean the same state."""
    props = 'C07'

    def code(column: '=Column', state: '=State'):
        column.append(state)

    def spec(column, state):
        value = hash(state)
        if value not in column.hashes:
            column.hashes.add(value)
            column.states.append(state)
            if state.dot_index < len(state.production.terms):
                term = state.production.terms[state.dot_index]
                if isinstance(term, BNFRule):
                    column.states_index[id(term)].append(state)


class state_identity:
    """States are the same when the rule, the production, the position, the
    columns and the derived children are."""
    props = 'C07 C10'

    def code(state: '=State'):
        return hash(state)

    def spec(state):
        return hash((
            id(state.rule), id(state.production), state.dot_index,
            state.start_column.index, state.stop_column.index,
            tuple([id(x) for x in state.node.children])
        ))


class state_completed:
    props = 'C07'

    def code(state: '=State') -> 'bool':
        return state.completed

    def spec(state):
        return not state.dot_index < len(state.production.terms)


class state_next_term:
    props = 'C07'

    def code(state: '=State'):
        return state.next_term

    def spec(state):
        return state.production.terms[state.dot_index]


class state_parents:
    """The states waiting for the rule where the completed state began."""
    props = 'C07'

    def code(state: '=State'):
        return state.parents

    def spec(state):
        return state.start_column.states_index[id(state.rule)]


class state_range:
    props = 'C07 C09'

    def code(state: '=State'):
        return state.range

    def spec(state):
        return state.start_column.index, state.stop_column.index


class completed_states_of_rule:
    props = 'C07 C08'

    def code(column: '=Column', rule):
        return list(column.matches(rule))

    def spec(column, rule):
        return [
            state for state in column.states
            if state.completed and state.rule is rule
        ]


class completed_states_of_chart:
    props = 'C07'

    def code(chart: '=Chart', rule):
        return list(chart.matches(rule))

    def spec(chart, rule):
        return [
            state
            for column in chart.columns
            for state in column.states
            if state.completed and state.rule is rule
        ]


class predict_every_production:
    """One state at the beginning of each production the rule may start
    with, ranked by the order of the productions."""
    props = 'C07 C10 C20'
    opaque = ['!Column.append']

    def code(self: '=Parser', column: '=Column', next_column: '?Column',
             rule: 'BNFRule'):
        self.predict(column, next_column, rule)

    def spec(self, column, next_column, rule):
        if next_column:
            productions = rule.predict(next_column.token)
        else:
            productions = rule.productions
        rank = 0
        for production in productions:
            node = Node(rule, production, rank, [])
            column.append(State(rule, production, 0, column, column, node))
            rank += 1


class scan_accepted_token:
    """The token accepted by the predicate extends the state."""
    props = 'C07 C18'
    opaque = ['!Column.append']

    def code(self: '=Parser', column: 'Column', predicate: 'Predicate',
             state: '=State'):
        self.scan(column, predicate, state)

    def spec(self, column, predicate, state):
        token = column.token
        if predicate(token):
            leaf = Leaf(predicate, predicate.constrain(token))
            node = Node(
                state.node.rule, state.node.production, state.node.rank,
                state.node.children + [leaf]
            )
            column.append(State(
                state.rule, state.production, state.dot_index + 1,
                state.start_column, column, node
            ))


class complete_waiting_states:
    """Every state waiting for the completed rule is advanced over it, unless
    it would derive itself from the same tokens."""
    props = 'C07 C33'
    opaque = ['!Column.append', 'Node.cyclic']

    def code(self: '=Parser', column: '=Column', completed: '=State'):
        self.complete(column, completed)

    def spec(self, column, completed):
        for state in completed.start_column.states_index[id(completed.rule)]:
            node = Node(
                state.node.rule, state.node.production, state.node.rank,
                state.node.children + [completed.node]
            )
            advanced = State(
                state.rule, state.production, state.dot_index + 1,
                state.start_column, column, node
            )
            if not (advanced.completed and node.cyclic):
                column.append(advanced)


class complete_empty_rules:
    """A rule derived from no tokens earlier in the same column advances the
    state waiting for it too."""
    props = 'C07 C33'
    opaque = ['!Column.append', 'Node.cyclic']

    def code(self: '=Parser', column: '=Column', state: '=State'):
        self.complete_empty(column, state)

    def spec(self, column, state):
        rule = state.next_term
        found = [
            x for x in column.states
            if x.completed and x.rule is rule
            and x.start_column.index == column.index
        ]
        for completed in found:
            node = Node(
                state.node.rule, state.node.production, state.node.rank,
                state.node.children + [completed.node]
            )
            advanced = State(
                state.rule, state.production, state.dot_index + 1,
                state.start_column, column, node
            )
            if not (advanced.completed and node.cyclic):
                column.append(advanced)


class chart_construction:
    """Each state is completed, predicted or scanned; the start rule is
    predicted in every column (only in the first one for match)."""
    props = 'C07 C08 C33'
    opaque = ['!Parser.predict', '!Parser.complete', '!Parser.complete_empty',
              '!Parser.scan', 'new Chart']
    live = True

    def code(self: '=Parser', text: 'str', everywhere):
        return self.chart(text, all=everywhere)

    def spec(self, text, everywhere):
        chart = Chart(self.tagger(self.tokenizer(text)))
        for column, following in chart:
            if everywhere or column.index == 0:
                self.predict(column, following, self.rule)
            for state in column.states:
                if state.completed:
                    self.complete(column, state)
                    continue
                term = state.next_term
                if isinstance(term, BNFRule):
                    self.predict(column, following, term)
                    self.complete_empty(column, state)
                    continue
                if following:
                    self.scan(following, term, state)
        return chart


class chart_iteration:
    """Columns are visited with the following one; the last has none."""
    props = 'C07'

    def code(chart: '=Chart'):
        return list(chart)

    def spec(chart):
        result = []
        n = len(chart.columns)
        for i in range(n):
            following = None
            if i + 1 < n:
                following = chart.columns[i + 1]
            result.append((chart.columns[i], following))
        return result


class matches_anywhere:
    props = 'C07 C09'
    opaque = ['Parser.chart']

    def code(self: '=Parser', text: 'str'):
        return list(self.matches(text))

    def spec(self, text):
        chart = self.chart(text, all=True)
        return [
            state
            for column in chart.columns
            for state in column.states
            if state.completed and state.rule is self.rule
        ]
    returns = {'Parser.chart': '=Chart'}


class matches_whole_text:
    """match() considers derivations of all the tokens only: from the first
    column to the last one."""
    props = 'C08'
    opaque = ['Parser.chart']
    returns = {'Parser.chart': '=Chart'}

    def code(self: '=Parser', text: 'str'):
        return list(self.matches(text, all=False))

    def spec(self, text):
        chart = self.chart(text, all=False)
        column = chart.columns[len(chart.columns) - 1]
        return [
            state for state in column.states
            if state.completed and state.rule is self.rule
            and state.start_column.index == 0
        ]


class trees_of_states:
    props = 'C09 C08'

    def code(states: '[State]'):
        return list(prepare_trees(states))

    def spec(states):
        return [
            Tree(s.node, (s.start_column.index, s.stop_column.index))
            for s in states
        ]


class match_of_tree:
    """Empty phrases are dropped, relations are validated and applied."""
    props = 'C22 C23 C07'
    opaque = ['Tree.normalized', 'Tree.relations', 'Tree.constrain',
              'TokenRelationsGraph.validate', 'new Match',
              'TokenRelationsGraph.validate']
    returns = {'Tree.normalized': '=Tree', 'Tree.relations':
               '=TokenRelationsGraph', 'Tree.constrain': '=Tree'}

    def code(tree: '=Tree'):
        return prepare_match(tree)

    def spec(tree):
        tree = tree.normalized
        if tree.root and tree.relations.validate():
            return Match(tree.constrain(tree.relations))
        return None


class tokens_of_match:
    props = 'C26 C01'
    opaque = ['Tree.walk']

    def code(tree: '=Tree'):
        match = Match(tree)
        return match.tokens, match.span, match.tree

    def spec(tree):
        tokens = [leaf.token for leaf in tree.walk(types=Leaf)]
        return tokens, get_tokens_span(tokens), tree


class rule_of_match:
    props = 'C24'

    def code(match: '=Match'):
        return match.rule

    def spec(match):
        return match.tree.root.rule


class fact_of_match:
    props = 'C24 C25'
    opaque = ['Tree.interpret']

    def code(match: '=Match'):
        return match.fact

    def spec(match):
        return match.tree.interpret().normalized


class valid_matches:
    props = 'C22'
    opaque = ['prepare_match']
    returns = {'prepare_match': '?Match'}

    def code(trees: '[Tree]'):
        return list(prepare_matches(trees))

    def spec(trees):
        found = [prepare_match(tree) for tree in trees]
        return [match for match in found if match]


class resolved_matches:
    """The first valid derivation of each range stands for it; then the
    ranges are chosen to cover the most."""
    props = 'C09 C10 C22'
    opaque = ['prepare_match', 'resolve_spans']
    returns = {'prepare_match': '?Match'}

    def code(trees: '[Tree]'):
        return list(prepare_resolved_matches(trees))

    def spec(trees):
        ranges = []
        chosen = {}
        for tree in trees:
            if tree.range in chosen:
                continue
            match = prepare_match(tree)
            if match:
                ranges.append(tree.range)
                chosen[tree.range] = match
        return [chosen[x] for x in resolve_spans(ranges)]


class resolved_matches_of_two:
    """The first valid derivation of each range stands for it."""
    props = 'C09 C10 C22'
    opaque = ['prepare_match', '!resolve_spans']
    returns = {'prepare_match': '?Match'}

    def code(a: 'Tree', b: 'Tree'):
        return list(prepare_resolved_matches([a, b]))

    def spec(a, b):
        first = prepare_match(a)
        if a.range == b.range:
            if first:
                ranges, chosen = [a.range], {a.range: first}
            else:
                second = prepare_match(b)
                if second:
                    ranges, chosen = [b.range], {b.range: second}
                else:
                    ranges, chosen = [], {}
        else:
            second = prepare_match(b)
            if first:
                if second:
                    ranges = [a.range, b.range]
                    chosen = {a.range: first, b.range: second}
                else:
                    ranges, chosen = [a.range], {a.range: first}
            elif second:
                ranges, chosen = [b.range], {b.range: second}
            else:
                ranges, chosen = [], {}
        return [chosen[x] for x in resolve_spans(ranges)]


class findall_pipeline:
    """All derivations, best first, then one per chosen range."""
    props = 'C09 C10'
    opaque = ['Parser.matches', 'prepare_resolved_matches']

    def code(self: '=Parser', text: 'str'):
        return self.findall(text)

    def spec(self, text):
        trees = [Tree(s.node, s.range) for s in self.matches(text, all=True)]
        return prepare_resolved_matches(sorted(trees))
    returns = {'Parser.matches': '[State]'}


class find_first:
    props = 'C09'
    opaque = ['Parser.findall']

    def code(self: '=Parser', text: 'str'):
        return self.find(text)

    def spec(self, text):
        for match in self.findall(text):
            return match
        return None


class match_best:
    """The best valid derivation of the whole text."""
    props = 'C08 C10 C22'
    opaque = ['Parser.matches', 'prepare_match']
    returns = {'Parser.matches': '[State]', 'prepare_match': '?Match'}

    def code(self: '=Parser', text: 'str'):
        return self.match(text)

    def spec(self, text):
        trees = [Tree(s.node, s.range) for s in self.matches(text, all=False)]
        for tree in sorted(trees):
            match = prepare_match(tree)
            if match:
                return match
        return None


class extract_all:
    props = 'C07 C22'
    opaque = ['Parser.matches', 'prepare_match']
    returns = {'Parser.matches': '[State]', 'prepare_match': '?Match'}

    def code(self: '=Parser', text: 'str', everywhere):
        return list(self.extract(text, all=everywhere))

    def spec(self, text, everywhere):
        found = [
            prepare_match(Tree(s.node, s.range))
            for s in self.matches(text, all=everywhere)
        ]
        return [match for match in found if match]


class extract_everywhere_by_default:
    props = 'C07 C22'
    opaque = ['Parser.matches', 'prepare_match']
    returns = {'Parser.matches': '[State]', 'prepare_match': '?Match'}

    def code(self: '=Parser', text: 'str'):
        return list(self.extract(text))

    def spec(self, text):
        found = [
            prepare_match(Tree(s.node, s.range))
            for s in self.matches(text, True)
        ]
        return [match for match in found if match]


class chart_everywhere_by_default:
    """Without being told otherwise every derivation is looked for."""
    props = 'C07'
    opaque = ['!Parser.predict', '!Parser.complete', '!Parser.complete_empty',
              '!Parser.scan', 'new Chart']
    live = True

    def code(self: '=Parser', text: 'str'):
        return self.chart(text)

    def spec(self, text):
        chart = Chart(self.tagger(self.tokenizer(text)))
        for column, following in chart:
            self.predict(column, following, self.rule)
            for state in column.states:
                if state.completed:
                    self.complete(column, state)
                    continue
                term = state.next_term
                if isinstance(term, BNFRule):
                    self.predict(column, following, term)
                    self.complete_empty(column, state)
                    continue
                if following:
                    self.scan(following, term, state)
        return chart


class parser_construction:
    """The grammar is bound to the tokenizer and the tagger, normalised and
    turned into a start rule."""
    props = 'C02 C11 C16 C30'
    opaque = ['Rule.activate', 'Rule.normalized', 'Rule.as_bnf',
              'new MorphTokenizer', 'new PassTagger']
    returns = {'Rule.activate': 'Rule', 'Rule.normalized': 'Rule'}
    fields = {'Rule.as_bnf': '=BNF'}

    def code(rule: 'Rule', tokenizer, tagger):
        parser = Parser(rule, tokenizer, tagger)
        return parser.rule, parser.tokenizer, parser.tagger

    def spec(rule, tokenizer, tagger):
        if not tokenizer:
            tokenizer = MorphTokenizer()
        if not isinstance(tokenizer, Tokenizer):
            raise TypeError
        if not tagger:
            tagger = PassTagger()
        if not isinstance(tagger, Tagger):
            raise TypeError
        context = Context(tokenizer, tagger)
        grammar = rule.activate(context).normalized.as_bnf
        return grammar.rules[0], tokenizer, tagger
