From 23bd89e05c35623e2a532d622be310a9b46869cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 01/24] fix: do not reuse the result of a freed rule when
 transforming another one

---
 yargy/rule/transformators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..0266af8 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,12 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item alive, id of a freed object may be reused
+            self.visited[item_id] = item, result
+        return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From fe5173312bce80202eb2ed70003aa57987df4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 02/24] fix: pass reverse flags to the rebuilt optional and
 repeatable rules

---
 yargy/rule/transformators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 0266af8..3a2c2b4 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -100,17 +100,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
-- 
2.43.0


From 9a57bb62043de884106dd1babb2039fd1101a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 03/24] fix: do not constrain tokens of leaves shared with
 other matches

---
 yargy/tree/transformators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..5c140a5 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -118,12 +118,16 @@ class RelationsTransformator(InplaceTreeTransformator):
             self.relations.add(item.relation, item.main)
 
 
-class ApplyRelationsTransformator(InplaceTreeTransformator):
+class ApplyRelationsTransformator(TreeTransformator):
     def __init__(self, relations):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        # leaf may be shared with other trees of the chart
+        return Leaf(
+            item.predicate,
+            self.relations.constrain(item.token)
+        )
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0


From a5d2564c3ac4c53a9471995fea16f47387eb7764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 04/24] fix: do not modify the rule when a parser is built from
 it

---
 yargy/rule/bnf.py            |  4 ++--
 yargy/rule/transformators.py | 17 +++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..62d703a 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
@@ -164,7 +164,7 @@ class RemoveForwardTransformator(InplaceRuleTransformator):
     def visit_ForwardRule(self, item):
         if not item.rule:
             raise TypeError('forward not defined')
-        return item.rule
+        return self.visit_term(item.rule)
 
     def visit_PipelineBNFRule(self, item):
         return item
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 3a2c2b4..963249a 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,7 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    PipelineRule,
 )
 
 
@@ -60,9 +61,14 @@ class RuleTransformator(Visitor):
         self.visited = {}
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
+        # original rules are not modified, they may be used
+        # in other grammars
+        items = list(root.walk(types=ForwardRule))
+        for item in items:
+            self.visited[id(item)] = item, ForwardRule()
+        for item in items:
             if item.rule:
-                item.define(self.visit(item.rule))
+                self.visit(item).rule = self.visit(item.rule)
         return self.visit(root)
 
     def visit(self, item):
@@ -143,7 +149,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -152,11 +158,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From 45113a844bf1e5e7d1c1721dbf1bab579cece249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 05/24] fix: match only the whole text, not a part parsed by a
 recursive rule

---
 yargy/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..339267c 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -274,11 +274,12 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0


From 5db20fcb78ab0ff564d962e4e647b7e5ff166740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 06/24] fix: skip empty matches instead of raising an error

---
 yargy/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index 339267c..ccc16db 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -201,6 +201,9 @@ def prepare_trees(states):
 
 def prepare_match(tree):
     tree = tree.normalized
+    if not tree.root:
+        # no tokens in match
+        return
     relations = tree.relations
     if relations.validate():
         tree = tree.constrain(relations)
-- 
2.43.0


From faadd95c36864444732cccd47277d3af8d25f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 07/24] fix: complete states waiting for an empty rule
 completed earlier

---
 yargy/parser.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index ccc16db..c5cfeab 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -271,6 +271,7 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        self.complete_empty(column, state)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -342,11 +343,20 @@ class Parser(object):
 
     def complete(self, column, completed):
         for state in completed.parents:
-            state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
-                stop_column=column,
-                node=state.node.attached(completed.node)
-            )
-            column.append(state)
+            self.advance(column, state, completed)
+
+    def complete_empty(self, column, state):
+        # empty rule may be completed before state is added
+        for completed in list(column.matches(state.next_term)):
+            if completed.start_column.index == column.index:
+                self.advance(column, state, completed)
+
+    def advance(self, column, state, completed):
+        state = State(
+            state.rule, state.production,
+            dot_index=state.dot_index + 1,
+            start_column=state.start_column,
+            stop_column=column,
+            node=state.node.attached(completed.node)
+        )
+        column.append(state)
-- 
2.43.0


From b0667e279b9503691937d8b1083c549751a2f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 08/24] fix: stop on grammars with infinitely many derivations
 of the same text

---
 yargy/parser.py            |  3 +++
 yargy/tree/constructors.py | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index c5cfeab..828ec23 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -359,4 +359,7 @@ class Parser(object):
             stop_column=column,
             node=state.node.attached(completed.node)
         )
+        if state.completed and state.node.cyclic:
+            # number of such derivations is infinite
+            return
         column.append(state)
diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..8ff4d23 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -86,6 +86,7 @@ class Node(Record):
         self.production = production
         self.rank = rank
         self.children = children
+        self.size = sum(_.size for _ in children)
 
     def attached(self, node):
         return Node(
@@ -95,6 +96,19 @@ class Node(Record):
             self.children + [node]
         )
 
+    @property
+    def cyclic(self):
+        # same tokens are derived from the same rule twice
+        items = [self]
+        while items:
+            item = items.pop()
+            for child in item.children:
+                if not is_leaf(child) and child.size == self.size:
+                    if id(child.rule) == id(self.rule):
+                        return True
+                    items.append(child)
+        return False
+
     @property
     def main(self):
         return self.children[self.production.main].main
@@ -138,6 +152,7 @@ class Leaf(Node):
     __attributes__ = ['predicate', 'token']
 
     children = []
+    size = 1
     interpretator = None
     relation = None
 
-- 
2.43.0


From 619c1fe6aa6d7045923de5b5e9d61e93132de361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 09/24] fix: keep the main child when empty children are
 removed

---
 yargy/tree/transformators.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 5c140a5..53c0cac 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -7,6 +7,7 @@ from yargy.dot import (
     GREEN
 )
 
+from yargy.rule.constructors import Production
 from yargy.pipelines import PipelineProduction
 from yargy.interpretation.interpretator import InterpretatorInput
 
@@ -45,18 +46,24 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
-
     def visit_Node(self, item):
-        children = self.visit_children(item)
+        production = item.production
+        terms, children, main = [], [], 0
+        for index, child in enumerate(item.children):
+            child = self.visit(child)
+            if child:
+                if index == production.main:
+                    main = len(children)
+                terms.append(production.terms[index])
+                children.append(child)
+
         if children:
+            if len(children) < len(item.children):
+                # keep main pointing to the same child
+                production = Production(terms, main)
             return Node(
                 item.rule,
-                item.production,
+                production,
                 item.rank,
                 children
             )
-- 
2.43.0


From 3537808d0d87999492501011949539a651d7b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 10/24] fix: reject tags unknown to the tagger

---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From a854eb663f06396443629330cfb62e08c2ff1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 11/24] fix: spans of facts with const attributes

---
 yargy/interpretation/interpretator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..a08d60c 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -30,6 +30,15 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        for item in self.items:
+            if is_token(item):
+                yield item.span
+            else:
+                for span in item.spans:
+                    yield span
+
 
 class InterpretatorResult(Record):
     normalized = None
-- 
2.43.0


From e355a567409e600e66edf8a37cffffae632f8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 12/24] fix: make spans hashable

---
 yargy/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..2edea13 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,8 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From 4911858b0568671b033f738af495f85413e0269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 13/24] fix: validate repeatable(min=0) and repeatable(max=0)

---
 yargy/rule/constructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 6489777..d665038 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -72,11 +72,11 @@ class Rule(Record):
         return OptionalRule(self, reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
-        if min and max:
+        if min is not None and max is not None:
             return MinMaxBoundedRule(self, min, max, reverse)
-        elif min:
+        elif min is not None:
             return MinBoundedRule(self, min, reverse)
-        elif max:
+        elif max is not None:
             return MaxBoundedRule(self, max, reverse)
         else:
             return RepeatableRule(self, reverse)
-- 
2.43.0


From 2f0e5ca06bfbaeb2e036fb0567c05f6bcc4038bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 14/24] fix: accumulate repeatable attributes when facts are
 merged

---
 yargy/interpretation/fact.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..f0c96b4 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,7 +94,10 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
-            self.attributes[key] = value
+            if key in self.repeatable:
+                self.attributes[key] = self.attributes[key] + value
+            else:
+                self.attributes[key] = value
             self.modified.add(key)
 
     @property
-- 
2.43.0


From c6bc3536a5284f7dacad49e2735c7cff306835ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 15/24] fix: predict morph pipeline productions in a fixed
 order

---
 yargy/pipelines.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..edff913 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -63,9 +63,11 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def predict(self, token):
         if is_morph_token(token):
-            normalized = {_.normalized for _ in token.forms}
-            for value in normalized:
-                if value in self.index:
+            visited = set()
+            for form in token.forms:
+                value = form.normalized
+                if value in self.index and value not in visited:
+                    visited.add(value)
                     for production in self.index[value]:
                         yield production
         else:
-- 
2.43.0


From 1c3527ce5901540ad033a4e69e8c556e95fb329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 16/24] fix: default grammemes and label of inflected()

---
 yargy/interpretation/normalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..72772f6 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
@@ -50,7 +50,7 @@ class InflectedNormalizer(MorphNormalizer):
     @property
     def label(self):
         return 'inflected({grams})'.format(
-            grams=', '.join(self.grams)
+            grams=', '.join(sorted(self.grams))
         )
 
 
-- 
2.43.0


From 898fd1af5e2422874d73d2c414883d5fe8088771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 17/24] fix: do not fail on relations between tokens without
 forms

---
 yargy/relations/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 7be590c..b29d8b5 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import combinations
 
 from yargy.record import Record
+from yargy.token import is_morph_token
 
 
 class Edge(Record):
@@ -42,7 +43,8 @@ class TokenRelationsGraph(RelationsGraph):
         super(TokenRelationsGraph, self).add(relation, token)
         token_id = id(token)
         self.tokens[token_id] = token
-        if token_id not in self.token_forms:
+        # tokens with no morph info do not agree with anything
+        if token_id not in self.token_forms and is_morph_token(token):
             for form in token.forms:
                 self.token_forms[token_id].append(form)
 
-- 
2.43.0


From 6602b1d79fb93130c95ad44d2e3f1a3d83314c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 18/24] fix: keep only forms agreed by all relations

---
 yargy/relations/graph.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index b29d8b5..c54a32f 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -49,6 +49,22 @@ class TokenRelationsGraph(RelationsGraph):
                 self.token_forms[token_id].append(form)
 
     def validate(self):
+        # forms dropped by one edge may be required by another
+        sizes = None
+        while sizes != self.sizes:
+            sizes = self.sizes
+            self.check_edges()
+
+        for token_id in self.tokens:
+            if not self.token_forms[token_id]:
+                return False
+        return True
+
+    @property
+    def sizes(self):
+        return [len(self.token_forms[_]) for _ in self.tokens]
+
+    def check_edges(self):
         for relation, first, second in self.edges:
             first_id = id(first)
             second_id = id(second)
@@ -66,11 +82,6 @@ class TokenRelationsGraph(RelationsGraph):
             self.token_forms[first_id] = checked_first_forms
             self.token_forms[second_id] = checked_second_forms
 
-        for token_id in self.tokens:
-            if not self.token_forms[token_id]:
-                return False
-        return True
-
     def constrain(self, token):
         token_id = id(token)
         if token_id in self.tokens:
-- 
2.43.0


From 28092a2e1b2e8a1b2dedf20a1fb90383a96825a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 19/24] fix: return the visited node without interpretator

---
 yargy/tree/transformators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 53c0cac..063c559 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -93,7 +93,7 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 children
             )
         else:
-            super(KeepInterpretationNodesTransformator, self).visit_Node(item)
+            return super(KeepInterpretationNodesTransformator, self).visit_Node(item)
 
 
 class InterpretationTransformator(TreeTransformator):
-- 
2.43.0


From 42b15885620a198ec5efd59825df85b3c1d3c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 20/24] fix: escape backslashes in dot labels

---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From 8105c6d003da0a574991c43b279aaeb567ac47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 21/24] fix: keep the key of pipelines used in several rules

---
 yargy/tree/transformators.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 063c559..065dc4a 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -83,12 +83,23 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 for item in self.flatten(child):
                     yield item
 
+    def production(self, item):
+        # pipeline may be wrapped into other rules
+        production = item.production
+        while len(item.children) == 1:
+            item, = item.children
+            if isinstance(item, Leaf) or item.interpretator:
+                break
+            if isinstance(item.production, PipelineProduction):
+                return item.production
+        return production
+
     def visit_Node(self, item):
         if item.interpretator:
             children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
-                item.production,
+                self.production(item),
                 item.rank,
                 children
             )
-- 
2.43.0


From f9dc30258cbd9e3b3904f3ec5379217fc89824d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 22/24] fix: do not change what nested repeatable and optional
 rules match

---
 yargy/rule/transformators.py | 52 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 963249a..a4b4868 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -164,39 +164,45 @@ class ActivateTransformator(RuleTransformator):
         return PipelineRule(item.pipeline.activate(self.context))
 
 
+def is_repeated_once(item):
+    # one repetition is enough, e.g. not {2, 3}
+    if isinstance(item, MinBoundedRule):
+        return item.min == 1
+    return isinstance(item, (RepeatableRule, MaxBoundedRule))
+
+
 class SquashExtendedTransformator(RuleTransformator):
     def visit_RepeatableRule(self, item):
         child = item.rule
-        if isinstance(child, OptionalRule):
+        if isinstance(child, RepeatableOptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse,
-                child.reverse
+                child.reverse_optional
             ))
-        elif isinstance(child, RepeatableOptionalRule):
+        elif isinstance(child, OptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse,
-                child.reverse_optional
+                child.reverse
             ))
-
-        elif isinstance(child, (RepeatableRule, BoundedRule)):
+        elif is_repeated_once(child):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
             return RepeatableRule(self.visit(child), item.reverse)
 
     def visit_OptionalRule(self, item):
         child = item.rule
-        if isinstance(child, RepeatableRule):
+        if isinstance(child, RepeatableOptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
-                child.reverse,
+                child.reverse_repeatable,
                 item.reverse
             ))
-        elif isinstance(child, RepeatableOptionalRule):
+        elif isinstance(child, RepeatableRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
-                child.reverse_repeatable,
+                child.reverse,
                 item.reverse
             ))
         elif isinstance(child, OptionalRule):
@@ -206,8 +212,7 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if isinstance(child, OptionalRule) or is_repeated_once(child):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
@@ -222,14 +227,14 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_BoundedRule(self, item):
         child = item.rule
-        if isinstance(child, RepeatableRule):
-            return self.visit(RepeatableRule(child.rule, child.reverse))
-        elif isinstance(child, RepeatableOptionalRule):
+        if isinstance(child, RepeatableOptionalRule):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 child.reverse_repeatable,
                 child.reverse_optional
             ))
+        elif isinstance(child, RepeatableRule):
+            return self.visit(RepeatableRule(child.rule, child.reverse))
         raise TypeError
 
     def visit_MinBoundedRule(self, item):
@@ -237,10 +242,10 @@ class SquashExtendedTransformator(RuleTransformator):
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
-            return self.visit(OptionalRule(
-                MinBoundedRule(
-                    child.rule, item.min, item.reverse
-                ),
+            # every repetition may be empty, min is not required
+            return self.visit(RepeatableOptionalRule(
+                child.rule,
+                item.reverse,
                 child.reverse
             ))
         else:
@@ -263,11 +268,16 @@ class SquashExtendedTransformator(RuleTransformator):
     def visit_MinMaxBoundedRule(self, item):
         child = item.rule
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
+            if item.min > 1 and not isinstance(child, OptionalRule):
+                return self.visit(MinBoundedRule(
+                    child.rule, item.min, child.reverse
+                ))
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
+            # every repetition may be empty, min is not required
             return self.visit(OptionalRule(
-                MinMaxBoundedRule(
-                    child.rule, item.min, item.max, item.reverse
+                MaxBoundedRule(
+                    child.rule, item.max, item.reverse
                 ),
                 child.reverse
             ))
-- 
2.43.0


From 3cd896114404b2c147b0eee60f77c657028275b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:00 +0000
Subject: [PATCH 23/24] fix: reject rules that must be expanded before BNF

---
 yargy/rule/bnf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index 62d703a..5f76732 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -106,7 +106,12 @@ class BNFTransformator(RuleTransformator):
         raise TypeError(type(item))
 
     visit_OrRule = raise_TypeError
-    visit_ExtendedRule = raise_TypeError
+    visit_OptionalRule = raise_TypeError
+    visit_RepeatableRule = raise_TypeError
+    visit_RepeatableOptionalRule = raise_TypeError
+    visit_MinBoundedRule = raise_TypeError
+    visit_MaxBoundedRule = raise_TypeError
+    visit_MinMaxBoundedRule = raise_TypeError
     visit_EmptyRule = raise_TypeError
 
     def visit_Rule(self, item):
-- 
2.43.0


From 694ffe5c208fcfdaf3be65f58b6f1b0e5bbab4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 24/24] fix: keep the order of readings when a relation narrows
 the second word

---
 yargy/relations/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index c54a32f..5e94cdc 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -80,7 +80,11 @@ class TokenRelationsGraph(RelationsGraph):
                         if second_form not in checked_second_forms:
                             checked_second_forms.append(second_form)
             self.token_forms[first_id] = checked_first_forms
-            self.token_forms[second_id] = checked_second_forms
+            # checked in order of first forms, most probable goes first
+            self.token_forms[second_id] = [
+                _ for _ in second_forms
+                if _ in checked_second_forms
+            ]
 
     def constrain(self, token):
         token_id = id(token)
-- 
2.43.0

