"""Derivation trees: ranking, removal of empty phrases, heads, relations,
interpretation."""

from yargy.tree.constructors import Tree, Node, Leaf, dfs_tree, is_leaf
from yargy.tree.transformators import (
    TreeTransformator, PropogateEmptyTransformator,
    KeepInterpretationNodesTransformator, InterpretationTransformator,
    RelationsTransformator, ApplyRelationsTransformator
)
from yargy.rule.constructors import Production
from yargy.rule.bnf import BNFRule
from yargy.pipelines import PipelineProduction
from yargy.interpretation.interpretator import InterpretatorInput


class node_fields:
    props = 'C07 C01'

    def code(rule, production, rank, children: '[Node]'):
        x = Node(rule, production, rank, children)
        return x.rule, x.production, x.rank, x.children

    def spec(rule, production, rank, children):
        return rule, production, rank, children


class leaf_fields:
    props = 'C07 C01'

    def code(predicate, token):
        x = Leaf(predicate, token)
        return x.predicate, x.token, x.main

    def spec(predicate, token):
        return predicate, token, token


class attached_child:
    """The child is added to a copy, the node may be extended in other ways
    too."""
    props = 'C01 C07'

    def code(node: '=Node', child: 'Node'):
        x = node.attached(child)
        return x.rule, x.production, x.rank, x.children, type(x)

    def spec(node, child):
        return (node.rule, node.production, node.rank,
                node.children + [child], Node)


class number_of_tokens:
    """The size of a node is the number of its tokens (used to detect a rule
    that derives itself)."""
    props = 'C33'

    def code(rule, production, rank, children: '[Node]', predicate, token):
        return (Node(rule, production, rank, children).size,
                Leaf(predicate, token).size)

    def spec(rule, production, rank, children, predicate, token):
        n = 0
        for x in children:
            n += x.size
        return n, 1


class cyclic_derivation:
    """A descendant with the same tokens and the same rule."""
    props = 'C33'

    def code(node: '=Node') -> 'bool':
        return node.cyclic

    def spec(node):
        queue = [node]
        while queue:
            item = queue.pop()
            for child in item.children:
                if not is_leaf(child) and child.size == node.size:
                    if child.rule is node.rule:
                        return True
                    queue.append(child)
        return False


class head_of_node:
    """The head word of a phrase is the head of its marked child."""
    props = 'C23 C22'

    def code(node: '=Node'):
        return node.main

    def spec(node):
        return node.children[node.production.main].main


class labels_of_node:
    props = 'C22 C24'

    def code(node: '=Node', leaf: '=Leaf'):
        return (node.interpretator, node.relation,
                leaf.interpretator, leaf.relation)

    def spec(node, leaf):
        return (node.rule.interpretator, node.rule.relation, None, None)


class rank_of_nodes:
    """Alternatives listed first are preferred; among equal ones the first
    different child decides."""
    props = 'C10'

    def code(a: '=Node', b: '=Node') -> 'bool':
        return a.__lt__(b)

    def spec(a, b):
        if a.rule is not b.rule:
            raise TypeError
        if a is b:
            return False
        if a.rank != b.rank:
            return a.rank < b.rank
        for x, y in zip(a.children, b.children):
            if is_leaf(x) or x is y:
                continue
            if x.rank != y.rank:
                return x.rank < y.rank
            return x < y
        return False


class order_of_trees:
    """By start, then longest first, then by rank."""
    props = 'C10 C09'
    opaque = ['Node.__lt__']

    def code(a: '=Tree', b: '=Tree') -> 'bool':
        return a.__lt__(b)

    def spec(a, b):
        if a.range == b.range:
            return a.root.__lt__(b.root)
        start, stop = a.range
        other_start, other_stop = b.range
        if start != other_start:
            return start < other_start
        return stop > other_stop


class walk_of_tree:
    """Parents before children, children from left to right."""
    props = 'C01 C22'

    def code(root: 'Node'):
        return list(dfs_tree(root))

    def spec(root):
        result = []
        stack = [root]
        while stack:
            item = stack.pop()
            result.append(item)
            stack.extend(reversed(item.children))
        return result


class stages_of_tree:
    props = 'C22 C24'
    opaque = ['Tree.transform', 'TreeTransformator.__call__']

    def code(tree: '=Tree', relations):
        return (tree.normalized, tree.relations, tree.interpret(),
                tree.constrain(relations))

    def spec(tree, relations):
        return (
            tree.transform(PropogateEmptyTransformator),
            tree.transform(RelationsTransformator),
            tree.transform(KeepInterpretationNodesTransformator,
                           InterpretationTransformator),
            ApplyRelationsTransformator(relations)(tree)
        )


class rebuilt_tree:
    """Transformations build new trees, the range stays."""
    props = 'C01'
    opaque = ['Visitor.visit']

    def code(self: '=TreeTransformator', tree: '=Tree'):
        x = self(tree)
        return x.root, x.range

    def spec(self, tree):
        return self.visit(tree.root), tree.range


class rebuilt_node:
    props = 'C01'
    opaque = ['Visitor.visit', 'new Node']
    variants = {'self': ['=TreeTransformator',
                         '=ApplyRelationsTransformator']}

    def code(self, item: '=Node'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return Node(item.rule, item.production, item.rank,
                    [self.visit(x) for x in item.children])


class kept_leaf:
    props = 'C01'
    variants = {'self': ['=TreeTransformator',
                         '=PropogateEmptyTransformator',
                         '=KeepInterpretationNodesTransformator']}

    def code(self, item: '=Leaf'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return item


class removed_empty_phrases:
    """Children without tokens are dropped with their terms, the head stays
    the head; a phrase without children is dropped itself."""
    props = 'C23 C07'
    opaque = ['Visitor.visit', 'new Node', 'new Production']
    returns = {'Visitor.visit': '?Node'}

    def code(self: '=PropogateEmptyTransformator', item: '=Node'):
        x = self.visit_Node(item)
        return x

    def spec(self, item):
        terms = []
        children = []
        main = 0
        for index, child in enumerate(item.children):
            child = self.visit(child)
            if child:
                if index == item.production.main:
                    main = len(children)
                terms.append(item.production.terms[index])
                children.append(child)
        if not children:
            return None
        production = item.production
        if len(children) < len(item.children):
            production = Production(terms, main)
        return Node(item.rule, production, item.rank, children)


class constrained_leaf:
    """The agreed forms are put into a new leaf: the leaf may belong to other
    matches."""
    props = 'C01 C22'
    opaque = ['TokenRelationsGraph.constrain']
    fields = {'ApplyRelationsTransformator.relations': '=TokenRelationsGraph'}

    def code(self: '=ApplyRelationsTransformator', item: '=Leaf'):
        x = self.resolve_method(item)(item)
        return x.predicate, x.token

    def spec(self, item):
        return item.predicate, self.relations.constrain(item.token)


class collected_relations:
    """Every phrase with a relation contributes its head word."""
    props = 'C22 C23'
    opaque = ['!TokenRelationsGraph.add', 'Tree.walk', 'Node.main']
    fields = {'RelationsTransformator.relations': '=TokenRelationsGraph'}

    def code(self: '=RelationsTransformator', item: '=Node'):
        self.resolve_method(item)(item)

    def spec(self, item):
        if item.rule.relation:
            self.relations.add(item.rule.relation, item.main)


class relations_of_tree:
    """Every node of the tree is asked."""
    props = 'C22'
    opaque = ['Tree.walk', '!Visitor.visit']
    fields = {'RelationsTransformator.relations': '=TokenRelationsGraph'}

    def code(self: '=RelationsTransformator', tree: '=Tree'):
        return self(tree)

    def spec(self, tree):
        for item in tree.walk():
            self.visit(item)
        return self.relations


class interpretation_required:
    """Interpretation of a rule without interpretation() is an error."""
    props = 'C24'
    opaque = ['TreeTransformator.__call__']

    def code(self: '=KeepInterpretationNodesTransformator', tree: '=Tree'):
        return self(tree)

    def spec(self, tree):
        if not tree.root.interpretator:
            raise ValueError
        return TreeTransformator.__call__(self, tree)
    fields = {'Tree.root': '=Node'}


class kept_interpreted_node:
    """Between two interpreted phrases only tokens and interpreted phrases
    are left."""
    props = 'C24 C25'
    opaque = ['Visitor.visit', 'new Node',
              'KeepInterpretationNodesTransformator.production',
              'KeepInterpretationNodesTransformator.flatten']

    def code(self: '=KeepInterpretationNodesTransformator', item: '=Node'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        if item.rule.interpretator:
            return Node(item.rule, self.production(item), item.rank,
                        [self.visit(x) for x in self.flatten(item)])
        return Node(item.rule, item.production, item.rank,
                    [self.visit(x) for x in item.children])


class flattened_children:
    props = 'C24 C25'
    spec_opaque = ['KeepInterpretationNodesTransformator.flatten']

    def code(self: '=KeepInterpretationNodesTransformator', item: '=Node'):
        return list(self.flatten(item))

    def spec(self, item):
        result = []
        for child in item.children:
            if isinstance(child, Leaf) or child.interpretator:
                result.append(child)
            else:
                result.extend(self.flatten(child))
        return result


class interpreted_node:
    """The interpretator gets the interpreted children in order and the key
    of the pipeline."""
    props = 'C24 C25'
    opaque = ['Visitor.visit']
    fields = {'BNFRule.interpretator': 'Interpretator'}

    def code(self: '=InterpretationTransformator', item: '=Node'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        x = InterpretatorInput([self.visit(c) for c in item.children])
        if isinstance(item.production, PipelineProduction):
            x.key = item.production.value
        return item.rule.interpretator(x)
    returns = {'Interpretator.__call__': 'any'}


class interpreted_leaf:
    props = 'C24'

    def code(self: '=InterpretationTransformator', item: '=Leaf'):
        return self.resolve_method(item)(item)

    def spec(self, item):
        return item.token


class interpreted_tree:
    props = 'C24'
    opaque = ['Visitor.visit']

    def code(self: '=InterpretationTransformator', tree: '=Tree'):
        return self(tree)

    def spec(self, tree):
        return self.visit(tree.root)


class key_of_wrapped_pipeline:
    """A pipeline wrapped into rules of one child keeps its key."""
    props = 'C20 C25'

    def code(self: '=KeepInterpretationNodesTransformator', item: '=Node'):
        return self.production(item)

    def spec(self, item):
        node = item
        while len(node.children) == 1:
            node = node.children[0]
            if isinstance(node, Leaf) or node.interpretator:
                break
            if isinstance(node.production, PipelineProduction):
                return node.production
        return item.production


class cyclic_beside_empty:
    """A rule over the same tokens, with empty phrases beside it."""
    props = 'C33 C07'

    def code(p: '=Production', w: 'Predicate', token: '=Token'):
        a, b, c = BNFRule([]), BNFRule([]), BNFRule([])

        def phrase(*rules):
            node = Leaf(w, token)
            for rule in rules:
                node = Node(rule, p, 0, [
                    Node(c, p, 0, []), node, Node(c, p, 0, [])])
            return node

        def pair(rule, *rules):
            return Node(rule, p, 0, [Leaf(w, token), phrase(*rules)])
        return [phrase(a).cyclic, phrase(a, a).cyclic, phrase(a, b).cyclic,
                phrase(a, b, a).cyclic, phrase(b, a, a).cyclic,
                pair(a, a).cyclic, pair(a, b, a).cyclic,
                Node(a, p, 0, [pair(b, a)]).cyclic,
                Node(a, p, 0, [pair(a, b)]).cyclic,
                Node(c, p, 0, [Node(a, p, 0, [])]).cyclic,
                Node(c, p, 0, [Node(a, p, 0, []), Node(c, p, 0, [])]).cyclic]

    def spec(p, w, token):
        return [False, True, False, True, True, False, False,
                False, True, False, True]
