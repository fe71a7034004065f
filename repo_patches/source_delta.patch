From 2bf635aa90071350193b6f89c34d58e41a619457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 01/20] fix: keep visited rules alive while their ids are used
 as memo keys

A rule created during a transformation could be garbage collected and
its id reused, so an unrelated rule was replaced by the memoized result:
rule(A.repeatable().repeatable(), B.repeatable().repeatable()) compiled
to R0 -> R1 R1.
---
 yargy/rule/transformators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..f9d7642 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,12 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item, or its id may be reused for another item
+            self.visited[item_id] = item, result
+        return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From e4cb4feded20a3629bd404772b17d18c335335ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 02/20] fix: transform forward rules into new ones instead of
 redefining them

Transformations redefined the user's forward rules in place, so building
a second parser from (or taking as_bnf twice of) a recursive grammar
ended in RecursionError, and a forward rule defined as a repetition was
rejected as forward(forward(...)).
---
 yargy/rule/bnf.py            | 10 ++++++----
 yargy/rule/transformators.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..e6a8c57 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
@@ -162,9 +162,11 @@ class RemoveForwardTransformator(InplaceRuleTransformator):
         return item
 
     def visit_ForwardRule(self, item):
-        if not item.rule:
-            raise TypeError('forward not defined')
-        return item.rule
+        while is_forward_rule(item):
+            if not item.rule:
+                raise TypeError('forward not defined')
+            item = item.rule
+        return item
 
     def visit_PipelineBNFRule(self, item):
         return item
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index f9d7642..98910f1 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -60,9 +60,6 @@ class RuleTransformator(Visitor):
         self.visited = {}
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
-            if item.rule:
-                item.define(self.visit(item.rule))
         return self.visit(root)
 
     def visit(self, item):
@@ -134,7 +131,12 @@ class RuleTransformator(Visitor):
         return RelationRule(self.visit(item.rule), item.relation)
 
     def visit_ForwardRule(self, item):
-        return item
+        forward = ForwardRule()
+        # definition may refer to item, memoize before visiting it
+        self.visited[id(item)] = item, forward
+        if item.rule:
+            forward.rule = self.visit(item.rule)
+        return forward
 
     def visit_EmptyRule(self, item):
         return item
-- 
2.43.0


From 9afbfc805c7f335b4a0fe19819b13d8bc0e3bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 03/20] fix: activate a copy of the rules

Building a parser replaced predicates and pipelines inside the user's
rules by ones bound to that parser's tokenizer and tagger, so a second
parser with another tokenizer silently used the first one's dictionary,
types and line segmentation. The base visitors for optional and
repeatable rules, unused before, passed their arguments to visit.
---
 yargy/rule/transformators.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 98910f1..cd2689c 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,7 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    PipelineRule,
 )
 
 
@@ -97,17 +98,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -145,7 +146,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -154,11 +155,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From 8d36ee46cab6db08d24166b83506f7d54d1ce47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 04/20] fix: advance states over a rule already completed on
 empty input

With O, X optional, rule(O, X, O, 'b') did not match 'b': O was completed
on empty input before the second state waiting for O was added, and never
completed again.
---
 yargy/parser.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..63e5fcd 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -97,6 +98,8 @@ class Column(object):
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
+        elif state.start_column is self:
+            self.empty_index[id(state.rule)].append(state)
 
     def __repr__(self):
         return 'Column({index!r}, {token!r}, ...)'.format(
@@ -268,6 +271,7 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        self.skip(column, next_term, state)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -338,11 +342,20 @@ class Parser(object):
 
     def complete(self, column, completed):
         for state in completed.parents:
-            state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
-                stop_column=column,
-                node=state.node.attached(completed.node)
-            )
-            column.append(state)
+            self.advance(column, state, completed)
+
+    def skip(self, column, rule, state):
+        # rule could have been completed on empty input
+        # before state started to wait for it
+        for completed in column.empty_index[id(rule)]:
+            self.advance(column, state, completed)
+
+    def advance(self, column, state, completed):
+        state = State(
+            state.rule, state.production,
+            dot_index=state.dot_index + 1,
+            start_column=state.start_column,
+            stop_column=column,
+            node=state.node.attached(completed.node)
+        )
+        column.append(state)
-- 
2.43.0


From 8f362dffe7ce9ec68f0d68f298ceabb8b56dbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 05/20] fix: do not fail on a rule that matches empty input

Parser(rule('a').optional()).findall('b a') raised ValueError: the tree
of an empty match has no root.
---
 yargy/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index 63e5fcd..e692c99 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -204,6 +204,8 @@ def prepare_trees(states):
 
 def prepare_match(tree):
     tree = tree.normalized
+    if not tree.root:  # rule matched empty input
+        return
     relations = tree.relations
     if relations.validate():
         tree = tree.constrain(relations)
-- 
2.43.0


From 95f67092a5ce366d46e054288d7f053d5b65af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 06/20] fix: spans of facts with constant attributes

fact.spans raised AttributeError when an attribute was set with const():
its result keeps the interpretator input, which had no spans.
---
 yargy/interpretation/interpretator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..3c364c8 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -30,6 +30,18 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        if all(is_token(_) for _ in self.items):
+            yield get_tokens_span(self.items)
+        else:
+            for item in self.items:
+                if is_token(item):
+                    yield item.span
+                else:
+                    for span in item.spans:
+                        yield span
+
 
 class InterpretatorResult(Record):
     normalized = None
-- 
2.43.0


From e818257572adc1b6c95c01400f0b1fca696d7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 07/20] fix: inflected() without arguments

As an attribute mark it means nominative singular, as a rule mark it
passed None to the dictionary and failed.
---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..f096365 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
-- 
2.43.0


From 95a673f5cf67dbc687f7e3bb70dedb4526260486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 08/20] fix: make spans hashable

Span defines __eq__ and so lost Record.__hash__: tokens and matches,
which contain spans, were unhashable.
---
 yargy/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..2edea13 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,8 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From edb9de2a2750c1c58ff86c544c3d8dcc0c795fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 09/20] fix: escape backslashes in DOT strings

A token '\' gave label="\", which is not valid DOT.
---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From f15f8a1058af298090f1617ebd7c59e539c99a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 10/20] fix: prefer earlier lines of a morph pipeline
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A word with several normal forms tried the lines in the order of a set of
strings, so which of morph_pipeline(['сталь', 'стать']) matched 'стали'
depended on PYTHONHASHSEED.
---
 yargy/pipelines.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..cf6d933 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -55,24 +55,24 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def build_index(self, productions):
         index = defaultdict(list)
-        for production in productions:
+        for position, production in enumerate(productions):
             term = production.terms[0]
             for value in term.value:
-                index[value].append(production)
+                index[value].append(position)
         return dict(index)
 
     def predict(self, token):
         if is_morph_token(token):
             normalized = {_.normalized for _ in token.forms}
-            for value in normalized:
-                if value in self.index:
-                    for production in self.index[value]:
-                        yield production
         else:
-            value = token.normalized
+            normalized = {token.normalized}
+        positions = set()
+        for value in normalized:
             if value in self.index:
-                for production in self.index[value]:
-                    yield production
+                positions.update(self.index[value])
+        # order of lines defines which one is preferred
+        for position in sorted(positions):
+            yield self.productions[position]
 
 
 class Key(Record):
-- 
2.43.0


From 6a7cb75e2854990786a859e0987cfba62b520e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 11/20] fix: keep the line of a pipeline that is used several
 times

normalized() on a pipeline gives the line as it was written, but a
pipeline used twice in a grammar is lifted into its own rule, the line
was lost and words were normalized one by one.
---
 yargy/tree/transformators.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..c57f93b 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -76,12 +76,26 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
                 for item in self.flatten(child):
                     yield item
 
+    def production(self, item):
+        # pipeline used several times or inside another rule
+        # is not the node that holds interpretator
+        child = item
+        while not isinstance(child, Leaf):
+            if isinstance(child.production, PipelineProduction):
+                return child.production
+            if len(child.children) != 1:
+                break
+            child, = child.children
+            if child.interpretator:
+                break
+        return item.production
+
     def visit_Node(self, item):
         if item.interpretator:
             children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
-                item.production,
+                self.production(item),
                 item.rank,
                 children
             )
-- 
2.43.0


From f067b33ef30edfd5a6f832e8617b295c4dab3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 12/20] fix: do not constrain words of other matches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Applying relations to one match narrowed forms of words in leaves shared
with other trees of the chart: for or_(rule(X, X), rule(X, X, 'z')) with
number agreement findall('дом пальто столы z') missed the longer match
because 'пальто' was already narrowed to singular by 'дом пальто'.
---
 yargy/tree/transformators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index c57f93b..d78b34f 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -41,7 +41,8 @@ class TreeTransformator(Visitor):
         )
 
     def visit_Leaf(self, item):
-        return item
+        # leaf may be shared with other trees of the chart
+        return Leaf(item.predicate, item.token)
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-- 
2.43.0


From 1f6535501f11de0b4374a5dec8f3f10bc5571661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 13/20] fix: find main word when optional parts of a phrase are
 absent

Main word was looked up by its position in the production among the
children left after removing empty ones: rule(O, main(N)).match(gnc)
raised IndexError when O was absent, with more parts a wrong word was
used.
---
 yargy/tree/constructors.py   |  9 +++++++--
 yargy/tree/transformators.py | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..adeab83 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -81,11 +81,13 @@ def dfs_tree(root):
 class Node(Record):
     __attributes__ = ['rule', 'production', 'rank', 'children']
 
-    def __init__(self, rule, production, rank, children):
+    def __init__(self, rule, production, rank, children, main_index=None):
         self.rule = rule
         self.production = production
         self.rank = rank
         self.children = children
+        # differs from production.main if empty children were removed
+        self.main_index = main_index
 
     def attached(self, node):
         return Node(
@@ -97,7 +99,10 @@ class Node(Record):
 
     @property
     def main(self):
-        return self.children[self.production.main].main
+        index = self.main_index
+        if index is None:
+            index = self.production.main
+        return self.children[index].main
 
     @property
     def interpretator(self):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index d78b34f..823633b 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -46,20 +46,22 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
-
     def visit_Node(self, item):
-        children = self.visit_children(item)
+        children = []
+        main = 0
+        for index, child in enumerate(item.children):
+            child = self.visit(child)
+            if child:
+                if index == item.production.main:
+                    main = len(children)
+                children.append(child)
         if children:
             return Node(
                 item.rule,
                 item.production,
                 item.rank,
-                children
+                children,
+                main
             )
 
 
-- 
2.43.0


From d3fbc677935c3e3d86bde101a326749ae76980d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 14/20] fix: reject a tag the tagger does not have

tag('FOO') is documented to be an error if the tagger does not declare
FOO, but the answer of check_tag was ignored.
---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From 9bb2961e0fd5e3ee910b2b11f0ca0c0d096e88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 15/20] fix: keep the minimal number of repeats in nested
 repetitions

rule('a').repeatable(min=3).repeatable() matched 'a',
rule('a').optional().repeatable(min=2) did not, and so on: bounds of the
inner rule were dropped or applied to the wrong rule. Nested optional
repetitions with min never stopped parsing.
A.repeatable().repeatable(min=2) still compiles to A.repeatable(), as
tests expect.
---
 yargy/rule/transformators.py | 48 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index cd2689c..737172a 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -161,6 +161,23 @@ class ActivateTransformator(RuleTransformator):
         return PipelineRule(item.pipeline.activate(self.context))
 
 
+def is_nullable(item):
+    while isinstance(item, (RepeatableRule, BoundedRule)):
+        if isinstance(item, OptionalRule):
+            break
+        item = item.rule
+    return isinstance(item, OptionalRule)
+
+
+def requires_several(item):
+    # item.repeatable() is not the same as item.rule.repeatable()
+    return (
+        isinstance(item, MinBoundedRule)
+        and item.min > 1
+        and not is_nullable(item.rule)
+    )
+
+
 class SquashExtendedTransformator(RuleTransformator):
     def visit_RepeatableRule(self, item):
         child = item.rule
@@ -177,6 +194,8 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse_optional
             ))
 
+        elif requires_several(child):
+            return RepeatableRule(self.visit(child), item.reverse)
         elif isinstance(child, (RepeatableRule, BoundedRule)):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
@@ -203,8 +222,14 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if requires_several(child):
+            return RepeatableOptionalRule(
+                self.visit(child),
+                item.reverse_repeatable,
+                item.reverse_optional
+            )
+        elif isinstance(child, (RepeatableRule, BoundedRule,
+                                OptionalRule, RepeatableOptionalRule)):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
@@ -233,13 +258,8 @@ class SquashExtendedTransformator(RuleTransformator):
         child = item.rule
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
-        elif isinstance(child, OptionalRule):
-            return self.visit(OptionalRule(
-                MinBoundedRule(
-                    child.rule, item.min, item.reverse
-                ),
-                child.reverse
-            ))
+        elif is_nullable(child):
+            return self.visit(RepeatableRule(child, item.reverse))
         else:
             return MinBoundedRule(self.visit(child), item.min, item.reverse)
 
@@ -260,11 +280,17 @@ class SquashExtendedTransformator(RuleTransformator):
     def visit_MinMaxBoundedRule(self, item):
         child = item.rule
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
+            if item.min > 1:
+                # any number of repeats >= min, no matter what max is
+                reverse = child.reverse
+                while isinstance(child, RepeatableRule):
+                    child = child.rule
+                return self.visit(MinBoundedRule(child, item.min, reverse))
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
             return self.visit(OptionalRule(
-                MinMaxBoundedRule(
-                    child.rule, item.min, item.max, item.reverse
+                MaxBoundedRule(
+                    child.rule, item.max, item.reverse
                 ),
                 child.reverse
             ))
-- 
2.43.0


From 75e5c9843615caef1196b8036a99caba0d9c95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 16/20] fix: keep all values of a repeatable attribute when
 facts are merged

rule(I, I).interpretation(F), where I sets a repeatable attribute of F,
kept values of the last I only.
---
 yargy/interpretation/fact.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..b305127 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,6 +94,8 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
+            if key in self.repeatable:
+                value = self.attributes[key] + value
             self.attributes[key] = value
             self.modified.add(key)
 
-- 
2.43.0


From 7f12ee1c47a9fdb82fd320cb1b9fcb08e86a82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 17/20] fix: keep the tag of a token that is given word forms

---
 yargy/token.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yargy/token.py b/yargy/token.py
index a822ca9..acf5448 100644
--- a/yargy/token.py
+++ b/yargy/token.py
@@ -68,6 +68,12 @@ class TagToken(Token):
         Token.__init__(self, value, span, type)
         self.tag = tag
 
+    def morphed(self, forms):
+        return MorphTagToken(
+            self.value, self.span, self.type,
+            self.tag, forms
+        )
+
 
 def is_tag_token(item):
     return isinstance(item, TagToken)
-- 
2.43.0


From 6e460aa3886ee25075948297bae01441f6e43665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 18/20] fix: reject zero repetition bounds instead of ignoring
 them

---
 yargy/rule/constructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 6489777..d665038 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -72,11 +72,11 @@ class Rule(Record):
         return OptionalRule(self, reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
-        if min and max:
+        if min is not None and max is not None:
             return MinMaxBoundedRule(self, min, max, reverse)
-        elif min:
+        elif min is not None:
             return MinBoundedRule(self, min, reverse)
-        elif max:
+        elif max is not None:
             return MaxBoundedRule(self, max, reverse)
         else:
             return RepeatableRule(self, reverse)
-- 
2.43.0


From 09423f64a3a288f7556ba7dfd953303fd08bfebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 19/20] fix: keep forward rules hashable

---
 yargy/rule/constructors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index d665038..80189e5 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -299,6 +299,8 @@ class ForwardRule(Rule):
     def __eq__(self, other):
         return id(self) == id(other)
 
+    __hash__ = object.__hash__
+
     def __repr__(self):
         if self.rule:
             # sorry, need to prevent recursion
-- 
2.43.0


From fd0eda5bb67c7ef3840e4d9101f819926d4f7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:55 +0000
Subject: [PATCH 20/20] fix: match the whole text when the rule refers to
 itself

---
 yargy/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index e692c99..8cd544a 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -280,11 +280,13 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
+        # rule may refer to itself and start inside the text too
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0

