From 0151191a7d373229a9d91d4d493119553d2330ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 01/43] fix: do not conflate booleans with the numbers 0 and 1
 in term equality

---
 agentspeak/__init__.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..9c5b11c 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -244,6 +244,25 @@ class FormulaType(enum.Enum):
     replace = "-+"
 
 
+def equal(left, right):
+    """
+    Tests terms for equality. Like unification (and unlike Python), never
+    treats a boolean as equal to a number.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return left is right
+    elif isinstance(left, tuple) and isinstance(right, tuple):
+        return len(left) == len(right) and all(
+            equal(l, r) for l, r in zip(left, right)
+        )
+    else:
+        return left == right
+
+
+def not_equal(left, right):
+    return not equal(left, right)
+
+
 class Operator(object):
     def __init__(
         self, lexeme, func=None, numeric=False, comp=False, boolean=False, query=False
@@ -281,8 +300,8 @@ class BinaryOp(enum.Enum):
 
     op_lt = Operator("<", operator.lt, comp=True)
     op_le = Operator("<=", operator.le, comp=True)
-    op_ne = Operator("\\==", operator.ne, comp=True)
-    op_eq = Operator("==", operator.eq, comp=True)
+    op_ne = Operator("\\==", not_equal, comp=True)
+    op_eq = Operator("==", equal, comp=True)
     op_ge = Operator(">=", operator.ge, comp=True)
     op_gt = Operator(">", operator.gt, comp=True)
 
@@ -715,7 +734,7 @@ class Literal(object):
         return (
             not is_literal(other)
             or self.functor != other.functor
-            or self.args != other.args
+            or not equal(self.args, other.args)
             or self.annots != other.annots
         )
 
@@ -833,7 +852,7 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or tuple(self) != tuple(other)
+        return not is_list(other) or not equal(tuple(self), tuple(other))
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
-- 
2.43.0


From 82dbef7cdef4996c4bb0c3615631b5961ea21bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 02/43] fix: push the choicepoint when a literal is matched
 with an unbound variable

---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 9c5b11c..25684ed 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -650,6 +650,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From 75c9cce79848b510a4321e286c5870f34046475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 03/43] fix: undo the bindings of an action that fails or is
 exhausted

---
 agentspeak/runtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..7ae10bd 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -183,9 +183,14 @@ class ActionQuery:
         self.impl = impl
 
     def execute(self, agent, intention):
+        choicepoint = object()
+        intention.stack.append(choicepoint)
+
         for _ in self.impl(agent, self.term, intention):
             yield
 
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From dc02b2b041b2172d27f15584c348f162bcf0d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 04/43] fix: find variables in linked lists and expressions of
 beliefs

---
 agentspeak/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..44fc1e9 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1067,16 +1067,22 @@ class FindVariablesVisitor(object):
     def visit_variable(self, ast_variable):
         yield ast_variable
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
-- 
2.43.0


From 90aa84222dd5c9d7f1ddf03a9cd8a32cb6bc05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 05/43] fix: report ill-typed and overflowing constant
 expressions instead of crashing

---
 agentspeak/parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 44fc1e9..657c6a7 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1136,7 +1136,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except (ArithmeticError, TypeError) as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
@@ -1186,6 +1186,10 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    def visit_linked_list(self, ast_linked_list):
+        self.log.error("did not expect list in numeric context", loc=ast_linked_list.loc)
+        return ast_linked_list
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1266,6 +1270,11 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    def visit_linked_list(self, ast_linked_list):
+        self.log.error("did not expect list in boolean context", loc=ast_linked_list.loc)
+        return ast_linked_list
 
 
 class TermFoldVisitor(object):
-- 
2.43.0


From 51e6a4982995e8a624029dc443dfbceb799f17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 06/43] fix: decode string constants with characters outside of
 ASCII

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 25684ed..3c61003 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -337,7 +337,7 @@ def sanitize_functor(s):
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return s[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape")
 
 
 def asl_str(term):
-- 
2.43.0


From 609fd3e4ea98deaa8630115a4a515bddf76bcb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 07/43] fix: report invalid escape sequences as located errors

---
 agentspeak/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 657c6a7..cff8b30 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -548,7 +548,10 @@ def parse_atom(tok, tokens, log):
         return next(tokens), const
     elif tok.token.string:
         const = AstConst()
-        const.value = agentspeak.parse_string(tok.lexeme)
+        try:
+            const.value = agentspeak.parse_string(tok.lexeme)
+        except UnicodeDecodeError as err:
+            raise log.error("invalid string: %s", err, loc=tok.loc)
         const.loc = tok.loc
         return next(tokens), const
     else:
@@ -959,7 +962,10 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 tok = next(tokens)
                 if not tok.token.string:
                     raise log.error("expected filename to include, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-                include = agentspeak.parse_string(tok.lexeme)
+                try:
+                    include = agentspeak.parse_string(tok.lexeme)
+                except UnicodeDecodeError as err:
+                    raise log.error("invalid string: %s", err, loc=tok.loc)
                 tok = next(tokens)
                 if tok.lexeme != ")":
                     raise log.error("expected ')' after include filename, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-- 
2.43.0


From 6fddde397e3e8b61a45d4873e1c52f77400a2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 08/43] fix: do not replace tabs inside string constants

---
 agentspeak/__init__.py | 2 +-
 agentspeak/lexer.py    | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 3c61003..72c3ead 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -108,7 +108,7 @@ class LogFormatter(logging.Formatter):
             b.append(loc.line.rstrip())
             b.append("\n")
 
-            under_line = [" " for _ in loc.line]
+            under_line = ["\t" if ch == "\t" else " " for ch in loc.line]
 
             # Extra locations underlined with ~~~.
             for extra_loc in record.__dict__.get("extra_locs", ()):
diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 2da14eb..912e447 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -155,7 +155,6 @@ def tokenize(sourcefile, log, firstline=1):
     in_comment = False
 
     for lineno, line in enumerate(sourcefile):
-        line = line.replace("\t", "    ")
         startcol = 0
 
         while startcol < len(line):
-- 
2.43.0


From 8c26c0079e42a8b7cbc939d653fafe27e06048d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 09/43] fix: detect include cycles for unnormalised paths and
 report errors in included files

---
 agentspeak/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index cff8b30..1e2d78c 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -977,18 +977,18 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if include in included_files:
+                if os.path.normpath(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
                         included_file = open(include)
-                    except IOError as err:
-                        if err.errno == errno.ENOENT:
+                    except (IOError, ValueError) as err:
+                        if getattr(err, "errno", None) == errno.ENOENT:
                             log.error("include file not found: '%s'", include, loc=include_loc)
                         else:
-                            raise
+                            log.error("could not open include file: %s", err, loc=include_loc)
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
+                        included_tokens = agentspeak.lexer.TokenStream(included_file, log)
                         included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
-- 
2.43.0


From 1087677908d193773f8a5bde73af6b41b1bc26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 10/43] fix: raise AslError for undefined arithmetic and for
 comparing incomparable terms

---
 agentspeak/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 72c3ead..5e68716 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -594,7 +594,22 @@ class BinaryExpr(object):
             left = grounded(left, scope)
             right = grounded(right, scope)
 
-        return self.binary_op.func(left, right)
+            if (
+                isinstance(left, bool) != isinstance(right, bool)
+                and self.binary_op.func not in (equal, not_equal)
+            ):
+                raise AslError(
+                    "can not order operands: %r %s %r"
+                    % (type(left), self.binary_op.lexeme, type(right))
+                )
+
+        try:
+            return self.binary_op.func(left, right)
+        except (ArithmeticError, TypeError) as err:
+            raise AslError(
+                "can not evaluate %r %s %r: %s"
+                % (type(left), self.binary_op.lexeme, type(right), err)
+            )
 
     def is_ground(self, scope):
         return is_ground(self.left, scope) and is_ground(self.right, scope)
-- 
2.43.0


From ea87c6fb6d690ec7bc63c020f01fcfbc6c68c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 11/43] fix: agents built together do not share beliefs, rules
 or plans

---
 agentspeak/runtime.py | 45 +++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7ae10bd..dbdff77 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -813,24 +813,28 @@ class Environment:
 
             agent.add_plan(plan)
 
-        # Add beliefs to agent prototype.
+        # Add beliefs and call initial goals on agent prototype.
+        self._init_agent(agent, ast_agent)
+
+        # Report errors.
+        log.throw()
+
+        self.agents[agent.name] = agent
+        return ast_agent, agent
+
+    def _init_agent(self, agent, ast_agent):
+        # Add initial beliefs.
         for ast_belief in ast_agent.beliefs:
             belief = ast_belief.accept(BuildTermVisitor({}))
             agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
                        belief, Intention(), delayed=True)
 
-        # Call initial goals on agent prototype.
+        # Call initial goals.
         for ast_goal in ast_agent.goals:
             term = ast_goal.atom.accept(BuildTermVisitor({}))
             agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
                        term, Intention(), delayed=True)
 
-        # Report errors.
-        log.throw()
-
-        self.agents[agent.name] = agent
-        return ast_agent, agent
-
     def _build_agent(self, source, actions, agent_cls=Agent, name=None):
         # Parse source.
         log = agentspeak.Log(LOGGER, 3)
@@ -848,22 +852,25 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
+        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls, name=name)
 
         # Create more instances from the prototype, but with their own
-        # callstacks. This is more efficient than making complete deep copies.
+        # beliefs, callstacks and lists of rules and plans. This is more
+        # efficient than making complete deep copies.
         agents = [prototype_agent]
 
         while len(agents) < n:
-            agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
-
-            for ast_goal in ast_agent.goals:
-                term = ast_goal.atom.accept(BuildTermVisitor({}))
-                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
-                           term, Intention(), delayed=True)
+            agent = agent_cls(self, self._make_name(name or source.name))
+
+            for rules in prototype_agent.rules.values():
+                for rule in rules:
+                    agent.add_rule(rule)
+
+            for plans in prototype_agent.plans.values():
+                for plan in plans:
+                    agent.add_plan(plan)
+
+            self._init_agent(agent, ast_agent)
 
             agents.append(agent)
             self.agents[agent.name] = agent
-- 
2.43.0


From cb18f031473f2c33910a63b7d1206255b87e638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 12/43] fix: report python exceptions raised by the contexts
 for initial goals

---
 agentspeak/runtime.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index dbdff77..1f6f2d7 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -814,7 +814,7 @@ class Environment:
             agent.add_plan(plan)
 
         # Add beliefs and call initial goals on agent prototype.
-        self._init_agent(agent, ast_agent)
+        self._init_agent(agent, ast_agent, log)
 
         # Report errors.
         log.throw()
@@ -822,18 +822,24 @@ class Environment:
         self.agents[agent.name] = agent
         return ast_agent, agent
 
-    def _init_agent(self, agent, ast_agent):
+    def _init_agent(self, agent, ast_agent, log):
         # Add initial beliefs.
         for ast_belief in ast_agent.beliefs:
             belief = ast_belief.accept(BuildTermVisitor({}))
-            agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
-                       belief, Intention(), delayed=True)
+            self._init_call(agent, agentspeak.GoalType.belief, belief, ast_belief.loc, log)
 
         # Call initial goals.
         for ast_goal in ast_agent.goals:
             term = ast_goal.atom.accept(BuildTermVisitor({}))
-            agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
-                       term, Intention(), delayed=True)
+            self._init_call(agent, agentspeak.GoalType.achievement, term, ast_goal.loc, log)
+
+    def _init_call(self, agent, goal_type, term, loc, log):
+        try:
+            agent.call(agentspeak.Trigger.addition, goal_type, term, Intention(), delayed=True)
+        except (AslError, agentspeak.AggregatedError):
+            raise
+        except Exception as err:
+            raise log.exception("agent %r raised python exception: %r", agent.name, err, loc=loc)
 
     def _build_agent(self, source, actions, agent_cls=Agent, name=None):
         # Parse source.
@@ -870,7 +876,7 @@ class Environment:
                 for plan in plans:
                     agent.add_plan(plan)
 
-            self._init_agent(agent, ast_agent)
+            self._init_agent(agent, ast_agent, agentspeak.Log(LOGGER, 3))
 
             agents.append(agent)
             self.agents[agent.name] = agent
-- 
2.43.0


From 36bff028259f78d6ecaea0585e787ad8090b9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 13/43] fix: never order truth values against numbers inside of
 structures

---
 agentspeak/__init__.py | 56 ++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 5e68716..59de40d 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -263,6 +263,29 @@ def not_equal(left, right):
     return not equal(left, right)
 
 
+def _ordering(op):
+    def compare(left, right):
+        # Truth values and numbers are not comparable, on any level.
+        if isinstance(left, bool) != isinstance(right, bool):
+            raise TypeError("can not order truth values and other terms")
+
+        if is_list(left) and is_list(right):
+            for l, r in zip(left, right):
+                if not equal(l, r):
+                    return compare(l, r)
+            return op(len(left), len(right))
+
+        return op(left, right)
+
+    return compare
+
+
+less = _ordering(operator.lt)
+less_equal = _ordering(operator.le)
+greater = _ordering(operator.gt)
+greater_equal = _ordering(operator.ge)
+
+
 class Operator(object):
     def __init__(
         self, lexeme, func=None, numeric=False, comp=False, boolean=False, query=False
@@ -298,12 +321,12 @@ class BinaryOp(enum.Enum):
     op_unify = Operator("=", query=True)
     op_decompose = Operator("=..", query=True)
 
-    op_lt = Operator("<", operator.lt, comp=True)
-    op_le = Operator("<=", operator.le, comp=True)
+    op_lt = Operator("<", less, comp=True)
+    op_le = Operator("<=", less_equal, comp=True)
     op_ne = Operator("\\==", not_equal, comp=True)
     op_eq = Operator("==", equal, comp=True)
-    op_ge = Operator(">=", operator.ge, comp=True)
-    op_gt = Operator(">", operator.gt, comp=True)
+    op_ge = Operator(">=", greater_equal, comp=True)
+    op_gt = Operator(">", greater, comp=True)
 
     op_and = Operator("&", operator.__and__, boolean=True, query=True)
     op_or = Operator("|", operator.__or__, boolean=True, query=True)
@@ -594,15 +617,6 @@ class BinaryExpr(object):
             left = grounded(left, scope)
             right = grounded(right, scope)
 
-            if (
-                isinstance(left, bool) != isinstance(right, bool)
-                and self.binary_op.func not in (equal, not_equal)
-            ):
-                raise AslError(
-                    "can not order operands: %r %s %r"
-                    % (type(left), self.binary_op.lexeme, type(right))
-                )
-
         try:
             return self.binary_op.func(left, right)
         except (ArithmeticError, TypeError) as err:
@@ -763,7 +777,7 @@ class Literal(object):
             or len(self.args) != len(other.args)
         ):
             return NotImplemented
-        return self.args < other.args
+        return less(self.args, other.args)
 
     def __le__(self, other):
         if is_literal(other) and self.is_atom() and other.is_atom():
@@ -774,7 +788,7 @@ class Literal(object):
             or len(self.args) != len(other.args)
         ):
             return NotImplemented
-        return self.args <= other.args
+        return less_equal(self.args, other.args)
 
     def __gt__(self, other):
         if is_literal(other) and self.is_atom() and other.is_atom():
@@ -785,7 +799,7 @@ class Literal(object):
             or len(self.args) != len(other.args)
         ):
             return NotImplemented
-        return self.args > other.args
+        return greater(self.args, other.args)
 
     def __ge__(self, other):
         if is_literal(other) and self.is_atom() and other.is_atom():
@@ -796,7 +810,7 @@ class Literal(object):
             or len(self.args) != len(other.args)
         ):
             return NotImplemented
-        return self.args >= other.args
+        return greater_equal(self.args, other.args)
 
     def __hash__(self):
         return hash((self.functor, self.args, self.annots))
@@ -871,16 +885,16 @@ class LinkedList(object):
         return not is_list(other) or not equal(tuple(self), tuple(other))
 
     def __lt__(self, other):
-        return tuple(self) < tuple(other) if is_list(other) else NotImplemented
+        return less(tuple(self), tuple(other)) if is_list(other) else NotImplemented
 
     def __le__(self, other):
-        return tuple(self) <= tuple(other) if is_list(other) else NotImplemented
+        return less_equal(tuple(self), tuple(other)) if is_list(other) else NotImplemented
 
     def __gt__(self, other):
-        return tuple(self) > tuple(other) if is_list(other) else NotImplemented
+        return greater(tuple(self), tuple(other)) if is_list(other) else NotImplemented
 
     def __ge__(self, other):
-        return tuple(self) >= tuple(other) if is_list(other) else NotImplemented
+        return greater_equal(tuple(self), tuple(other)) if is_list(other) else NotImplemented
 
     def __hash__(self):
         try:
-- 
2.43.0


From bc80fb0623b2e0ef856b8d636ea5c6f2684a27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 14/43] fix: .abolish removes the beliefs that match its
 pattern, not the reverse

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..7861e23 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -310,7 +310,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From 99988f45c08d3805b0207522a9be7e2f2d5396d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 15/43] fix: do not fail when a loop changes the beliefs that
 it ranges over

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 1f6f2d7..42f2e90 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -211,7 +211,7 @@ class TermQuery:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
         # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From 7d42e6150dda879b3158cd5cca7338dc9358feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 16/43] fix: undo the bindings made by each iteration of a for
 loop

---
 agentspeak/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 42f2e90..4d3e9fe 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1039,7 +1039,9 @@ class BuildInstructionsVisitor:
 
         for_head = self.add_instr(next_or_fail)
 
-        last_in_loop = ast_for.body.accept(self)
+        self.add_instr(push_choicepoint)
+        ast_for.body.accept(self)
+        last_in_loop = self.add_instr(pop_choicepoint)
         last_in_loop.success = for_head
 
         self.tail = Instruction(pop_query)
-- 
2.43.0


From 15336f07d25a10b606ec73ba9e63f298a76ed8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 17/43] fix: drop the intention of a failed step instead of
 retrying it

---
 agentspeak/runtime.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 4d3e9fe..cc37068 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -719,15 +719,22 @@ class Agent:
                 if not intention.instr:
                     raise AslError("plan failure")
         except AslError as err:
+            self._drop_intention(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.error("%s", err, loc=instr.loc, extra_locs=instr.extra_locs)
         except Exception as err:
+            self._drop_intention(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.exception("agent %r raised python exception: %r", self.name, err,
                                 loc=instr.loc, extra_locs=instr.extra_locs)
 
         return True
 
+    def _drop_intention(self, intention_stack):
+        # A failed step must not be resumed or retried.
+        if intention_stack in self.intentions:
+            self.intentions.remove(intention_stack)
+
     def run(self):
         while self.step():
             pass
-- 
2.43.0


From b1edd417a1622311269a3ece3c5d514b52473209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 18/43] fix: locate errors of removals and of conditions of
 control structures

---
 agentspeak/runtime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index cc37068..579c731 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1012,14 +1012,16 @@ class BuildInstructionsVisitor:
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.remove:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
-            self.add_instr(functools.partial(remove_belief, term))
+            self.add_instr(functools.partial(remove_belief, term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.test:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(test_belief, term),
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.replace:
             removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
-            self.add_instr(functools.partial(remove_belief, removal_term))
+            self.add_instr(functools.partial(remove_belief, removal_term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
 
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(add_belief, term),
@@ -1044,7 +1046,7 @@ class BuildInstructionsVisitor:
         query = ast_for.generator.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
 
-        for_head = self.add_instr(next_or_fail)
+        for_head = self.add_instr(next_or_fail, loc=ast_for.generator.loc)
 
         self.add_instr(push_choicepoint)
         ast_for.body.accept(self)
@@ -1058,7 +1060,7 @@ class BuildInstructionsVisitor:
     def visit_if_then_else(self, ast_if_then_else):
         query = ast_if_then_else.condition.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_if_then_else.condition.loc)
 
         tail = Instruction(pop_query)
 
@@ -1087,7 +1089,7 @@ class BuildInstructionsVisitor:
         while_head = self.add_instr(functools.partial(push_query, query))
         self.add_instr(push_choicepoint)
 
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_while.condition.loc)
         test_instr.failure = tail
 
         self.add_instr(pop_query)
-- 
2.43.0


From 3a2f2e8f61d410c38b5836d030942c4c38fce19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 19/43] fix: do not sleep for a negative time if a deadline has
 passed

---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 579c731..f176fa0 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -901,8 +901,8 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
-                    time.sleep(wait_until - self.time())
+                if wait_until is not None:
+                    time.sleep(max(wait_until - self.time(), 0))
                     more_work = True
 
     def run(self):
@@ -917,7 +917,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(min(deadlines) - self.time(), 0))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From 42c771ca144217ea80814373a17cfa5010cd9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 20/43] fix: unachieve drops the goal with its subgoals and
 leaves no empty intention

---
 agentspeak/runtime.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index f176fa0..b05cd1d 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -496,16 +496,20 @@ class Agent:
         if not agentspeak.is_literal(term):
                 raise AslError("expected literal term")
 
-        # Remove a intention passed by the parameters.
-        for intention_stack in self.intentions:
-            if not intention_stack:
-                continue
+        # Remove the goals passed by the parameters, including their subgoals.
+        for intention_stack in list(self.intentions):
+            for i, intention in enumerate(intention_stack):
+                head_term = intention.head_term
+                if head_term is None:
+                    continue
 
-            intention = intention_stack[-1]
+                if head_term.functor == term.functor and agentspeak.unifies(term.args, head_term.args):
+                    while len(intention_stack) > i:
+                        intention_stack.pop()
+                    break
 
-            if intention.head_term.functor == term.functor:
-                if agentspeak.unifies(term.args, intention.head_term.args):
-                    intention_stack.remove(intention)
+            if not intention_stack and intention_stack in self.intentions:
+                self.intentions.remove(intention_stack)
 
     def _tell_how(self, term):
         """
-- 
2.43.0


From f5521fe1e71775309851f64c82719fbde42075be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 21/43] fix: unachieve does not drop the reactions to beliefs
 of the same name

---
 agentspeak/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b05cd1d..f6ba26a 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -339,6 +339,7 @@ class Waiter:
 class Intention:
     def __init__(self):
         self.instr = None
+        self.goal_type = None
         self.head_term = None
         self.calling_term = None
 
@@ -466,6 +467,7 @@ class Agent:
                 plan.head, frozen, intention.scope, intention.stack
             ):
                 for _ in plan.context.execute(self, intention):
+                    intention.goal_type = goal_type
                     intention.head_term = frozen
                     intention.instr = plan.body
                     intention.calling_term = term
@@ -500,7 +502,7 @@ class Agent:
         for intention_stack in list(self.intentions):
             for i, intention in enumerate(intention_stack):
                 head_term = intention.head_term
-                if head_term is None:
+                if intention.goal_type != agentspeak.GoalType.achievement:
                     continue
 
                 if head_term.functor == term.functor and agentspeak.unifies(term.args, head_term.args):
-- 
2.43.0


From b06079920b1c1ba010746709ff4e89a6c0e16e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 22/43] fix: derive only valid functors from names with digits
 or non-ASCII characters

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 59de40d..6f6232b 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -350,7 +350,7 @@ KEYWORDS = [
 
 def sanitize_functor(s):
     """Transliterates s into a valid functor."""
-    alnum = "".join(ch if ch.isalnum() else "_" for ch in s).lstrip("_")
+    alnum = "".join(ch if ch.isalnum() and ord(ch) < 128 else "_" for ch in s).lstrip("_0123456789")
     functor = alnum[:1].lower() + alnum[1:] if alnum else ""
     while functor in KEYWORDS:
         functor += "_"
-- 
2.43.0


From 30d584a53bd164aa148748dd68205d8c4f8a1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 23/43] fix: .concat accepts linked lists

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 7861e23..797542b 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -196,7 +196,7 @@ def _my_name(agent, term, intention):
 def _concat(agent, term, intention):
     args = [agentspeak.grounded(arg, intention.scope) for arg in term.args[:-1]]
 
-    if all(isinstance(arg, (tuple, list)) for arg in args):
+    if all(isinstance(arg, list) or agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
         result = "".join(str(arg) for arg in args)
-- 
2.43.0


From 7156b5ed59cd6bb0c0910a0e77012bba294e4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 24/43] fix: .member accepts linked lists with bound variables
 as tail

---
 agentspeak/stdlib.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 797542b..ebe4a7a 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -242,12 +242,23 @@ def _substring(agent, term, intention):
         pos = haystack.find(needle, pos + 1)
 
 
+def _members(term, scope):
+    term = agentspeak.evaluate(term, scope)
+
+    while isinstance(term, agentspeak.LinkedList):
+        yield term.head
+        term = agentspeak.evaluate(term.tail, scope)
+
+    for member in term:
+        yield member
+
+
 @actions.add(".member", 2)
 @agentspeak.optimizer.function_like
 def _member(agent, term, intention):
     choicepoint = object()
 
-    for member in agentspeak.evaluate(term.args[1], intention.scope):
+    for member in _members(term.args[1], intention.scope):
         intention.stack.append(choicepoint)
 
         if agentspeak.unify(term.args[0], member, intention.scope, intention.stack):
-- 
2.43.0


From 2f125b159d677bf70cbab77431c0dd90ab90920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 25/43] fix: .concat writes truth values and integral numbers
 as they are printed

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index ebe4a7a..389eeee 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -199,7 +199,7 @@ def _concat(agent, term, intention):
     if all(isinstance(arg, list) or agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
-        result = "".join(str(arg) for arg in args)
+        result = "".join(asl_str(arg) for arg in args)
 
     if agentspeak.unify(term.args[-1], result, intention.scope, intention.stack):
         yield
-- 
2.43.0


From a56e6c70867c9b152d599007fb22757258f45217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 26/43] fix: .findall and .sum evaluate an expression as
 pattern for each solution

---
 agentspeak/ext_stdlib.py | 2 +-
 agentspeak/stdlib.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index d03b6fa..5d2a404 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -34,7 +34,7 @@ actions.add_function(".randint", (int, int, ), random.randint)
 @actions.add(".sum", 3)
 @agentspeak.optimizer.function_like
 def _sum(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
+    pattern = term.args[0]
     query = agentspeak.runtime.TermQuery(term.args[1])
     total = 0
 
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 389eeee..903f771 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -285,7 +285,7 @@ def _ground(agent, term, intention):
 @actions.add(".findall", 3)
 @agentspeak.optimizer.function_like
 def _findall(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
+    pattern = term.args[0]
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-- 
2.43.0


From 82f81130656c93192d061f35a691b5b487e4b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 27/43] fix: print a negative constant to the left of ** in
 parentheses

---
 agentspeak/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 1e2d78c..4ec96b2 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -227,7 +227,11 @@ class AstBinaryOp(AstNode):
         return visitor.visit_binary_op(self)
 
     def __str__(self):
-        return "(%s %s %s)" % (self.left, self.operator.value.lexeme, self.right)
+        left = str(self.left)
+        if self.operator == BinaryOp.op_pow and left.startswith("-"):
+            # ** binds tighter than the sign of a negative constant.
+            left = "(%s)" % left
+        return "(%s %s %s)" % (left, self.operator.value.lexeme, self.right)
 
 
 class AstPlan(AstNode):
-- 
2.43.0


From b1fc98778d186d6c09fcf9548f51bfc9cccd9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 28/43] fix: a fractional power of a negative number is an
 error

---
 agentspeak/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 6f6232b..e7a7379 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -286,6 +286,13 @@ greater = _ordering(operator.gt)
 greater_equal = _ordering(operator.ge)
 
 
+def power(left, right):
+    result = left ** right
+    if isinstance(result, complex):
+        raise ArithmeticError("fractional power of a negative number")
+    return result
+
+
 class Operator(object):
     def __init__(
         self, lexeme, func=None, numeric=False, comp=False, boolean=False, query=False
@@ -308,7 +315,7 @@ class UnaryOp(enum.Enum):
 
 @enum.unique
 class BinaryOp(enum.Enum):
-    op_pow = Operator("**", operator.pow, numeric=True)
+    op_pow = Operator("**", power, numeric=True)
 
     op_mul = Operator("*", operator.mul, numeric=True)
     op_truediv = Operator("/", operator.truediv, numeric=True)
-- 
2.43.0


From 6cb57f3bf8c9291fe1c726d35fe684f84fe6517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 29/43] fix: locate the error about a directive that is not
 closed

---
 agentspeak/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 4ec96b2..3de4270 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -952,8 +952,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
             tok = next(tokens)
         except StopIteration:
             if directive:
-                # TODO: Where was the directive started?
-                raise log.error("end of file, but did not close directive '%s'", directive)
+                raise log.error("end of file, but did not close directive '%s'", directive, loc=directive.loc)
             return validate(agent, log)
 
         if tok.lexeme == "{":
-- 
2.43.0


From 024d5fa9fd69ebe88658395eba42ce5e55d97706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:27 +0000
Subject: [PATCH 30/43] fix: beliefs with unbound variables load as the
 implicit rules they are reported as

---
 agentspeak/runtime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index f6ba26a..8b8324c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -800,6 +800,12 @@ class Environment:
             consequence = ast_rule.consequence.accept(BuildQueryVisitor(variables, actions, log))
             agent.add_rule(Rule(head, consequence))
 
+        # Beliefs with unbound variables are implicit rules.
+        for ast_belief in ast_agent.beliefs:
+            belief = ast_belief.accept(BuildTermVisitor({}))
+            if not agentspeak.is_ground(belief, {}):
+                agent.add_rule(Rule(belief, TrueQuery()))
+
         # Add plans to agent prototype.
         for ast_plan in ast_agent.plans:
             variables = {}
@@ -839,7 +845,8 @@ class Environment:
         # Add initial beliefs.
         for ast_belief in ast_agent.beliefs:
             belief = ast_belief.accept(BuildTermVisitor({}))
-            self._init_call(agent, agentspeak.GoalType.belief, belief, ast_belief.loc, log)
+            if agentspeak.is_ground(belief, {}):
+                self._init_call(agent, agentspeak.GoalType.belief, belief, ast_belief.loc, log)
 
         # Call initial goals.
         for ast_goal in ast_agent.goals:
-- 
2.43.0


From 3ba8307e6e1b5074434b232379bbf93bcd36bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 31/43] fix: detect include cycles through symbolic links

---
 agentspeak/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 3de4270..e5a304b 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -942,8 +942,16 @@ def parse_plan(tok, tokens, log):
     return tok, plan
 
 
+def resolve_path(path):
+    try:
+        return os.path.realpath(path)
+    except ValueError:
+        # Not a path of any file.
+        return os.path.normpath(path)
+
+
 def parse_agent(filename, tokens, log, included_files, directive=None):
-    included_files = included_files | frozenset([os.path.normpath(filename)])
+    included_files = included_files | frozenset([resolve_path(filename)])
     agent = AstAgent()
     last_plan = None
 
@@ -980,7 +988,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if os.path.normpath(include) in included_files:
+                if resolve_path(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
-- 
2.43.0


From 1ad1cb6d3adc28aaabced5c06e093b828762ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:21 +0000
Subject: [PATCH 32/43] fix: report source files that cannot be decoded as
 located errors

---
 agentspeak/lexer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 912e447..e5bcfe8 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -151,10 +151,20 @@ RE_START_COMMENT = re.compile(r"/\*")
 RE_END_COMMENT = re.compile(r".*?\*/")
 
 
+def read_lines(sourcefile, log, firstline):
+    lineno = firstline
+    try:
+        for line in sourcefile:
+            yield line
+            lineno += 1
+    except UnicodeDecodeError as err:
+        raise log.error("could not decode source: %s", err, loc=SourceLocation(sourcefile.name, lineno, 0, 0, ""))
+
+
 def tokenize(sourcefile, log, firstline=1):
     in_comment = False
 
-    for lineno, line in enumerate(sourcefile):
+    for lineno, line in enumerate(read_lines(sourcefile, log, firstline)):
         startcol = 0
 
         while startcol < len(line):
-- 
2.43.0


From da775f07666e1983e86d565843dfebbdc714cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 33/43] fix: schedules stop after an end at tick 0, asking a
 graph for degrees adds no nodes

---
 simse/helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simse/helper.py b/simse/helper.py
index 97c6652..3697ff5 100644
--- a/simse/helper.py
+++ b/simse/helper.py
@@ -44,7 +44,7 @@ class Schedule:
             for entry in self.entries:
                 if entry.start and entry.start > self.tick:
                     continue
-                if entry.end and entry.end < self.tick:
+                if entry.end is not None and entry.end < self.tick:
                     continue
 
                 if entry.start == self.tick:
@@ -62,10 +62,10 @@ class Graph:
         self.ingoing = collections.defaultdict(lambda: collections.defaultdict(int))
 
     def out_degree(self, node):
-        return len(self.outgoing[node])
+        return len(self.outgoing.get(node, ()))
 
     def in_degree(self, node):
-        return len(self.ingoing[node])
+        return len(self.ingoing.get(node, ()))
 
     def degree(self, node):
         return self.out_degree(node) + self.in_degree(node)
-- 
2.43.0


From fce795ed58a79a7769d0a18e02f8f558fad636d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 34/43] fix: read a told plan like the text of a program, with
 the actions of the receiver

---
 agentspeak/runtime.py | 40 +++++++++++++++++-----------------------
 agentspeak/stdlib.py  |  2 +-
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 8b8324c..7c2939d 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -353,6 +353,8 @@ class Intention:
 
 
 class Agent:
+    actions = None
+
     def __init__(self, env, name, beliefs=None, rules=None, plans=None):
         self.env = env
         self.name = name
@@ -518,26 +520,21 @@ class Agent:
             tellHow is a performative that allows the agent to add a plan to another agent.
         """
         str_plan = term.args[0]
+        if not agentspeak.is_string(str_plan):
+            raise AslError("expected plan as a string, got: '%s'" % (str_plan, ))
 
-        tokens = []
-        # extend tokens with the tokens of the string plan
-        tokens.extend(agentspeak.lexer.tokenize(agentspeak.StringSource("<stdin>", str_plan), agentspeak.Log(LOGGER), 1))
-
-        # Prepare the conversion from tokens to AstPlan
-        first_token = tokens[0]
-        log = agentspeak.Log(LOGGER)
-        tokens.pop(0)
-        tokens = iter(tokens)
-
-        # Converts the list of tokens to an Astplan
-        if first_token.lexeme in ["@", "+", "-"]:
-            tok, ast_plan = agentspeak.parser.parse_plan(first_token, tokens, log)
-            if tok.lexeme != ".":
-                raise log.error("", tok, "expected end of plan")
+        # Read the plan like the text of a program
+        log = agentspeak.Log(LOGGER, 3)
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<tellHow>", str_plan), log)
+        ast_agent = agentspeak.parser.parse("<tellHow>", tokens, log)
+        log.throw()
+        if len(ast_agent.plans) != 1 or ast_agent.beliefs or ast_agent.rules or ast_agent.goals:
+            raise AslError("expected a single plan, got: '%s'" % str_plan)
+        ast_plan = ast_agent.plans[0]
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
-        actions = agentspeak.stdlib.actions
+        actions = self.actions or agentspeak.stdlib.actions
 
         head = ast_plan.event.head.accept(BuildTermVisitor(variables))
 
@@ -551,10 +548,10 @@ class Agent:
         if ast_plan.body:
             ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
+        log.throw()
+
         # Converts the Astplan to Plan
-            
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-        
         plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
 
         self.add_plan(plan)
@@ -792,6 +789,7 @@ class Environment:
 
         log = agentspeak.Log(LOGGER, 3)
         agent = agent_cls(self, self._make_name(name or source.name))
+        agent.actions = actions
 
         # Add rules to agent prototype.
         for ast_rule in ast_agent.rules:
@@ -822,14 +820,9 @@ class Environment:
             if ast_plan.body:
                 ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
-            str_body = str(ast_plan.body)
-            
             plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-
             plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
 
-
-
             agent.add_plan(plan)
 
         # Add beliefs and call initial goals on agent prototype.
@@ -887,6 +880,7 @@ class Environment:
 
         while len(agents) < n:
             agent = agent_cls(self, self._make_name(name or source.name))
+            agent.actions = actions
 
             for rules in prototype_agent.rules.values():
                 for rule in rules:
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 903f771..8b7361b 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -136,7 +136,7 @@ def _send(agent, term, intention):
     # TODO: askOne, askAll
     # Prepare message. The message is either a plain text or a structured message.
     if ilf.functor in ["tellHow", "askHow", "untellHow"]:
-        message = agentspeak.Literal("plain_text", (term.args[2], ), frozenset())
+        message = agentspeak.Literal("plain_text", (agentspeak.freeze(term.args[2], intention.scope, {}), ), frozenset())
     else:
         message = agentspeak.freeze(term.args[2], intention.scope, {})
     
-- 
2.43.0


From 4a6fdb7ebba12370c1ed64e30ffd1b6e22ad58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 35/43] fix: answer askHow with the text of all plans with the
 asked trigger, without changing them

---
 agentspeak/runtime.py | 47 +++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7c2939d..9b3dbdb 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -312,7 +312,7 @@ class Plan:
         self.body = body
         self.str_body = str_body
         self.annotation = annotation
-        self.args = [None,None]
+        self.ast_plan = None
 
     def name(self):
         return "%s%s%s" % (self.trigger.value, self.goal_type.value, self.head)
@@ -552,7 +552,7 @@ class Agent:
 
         # Converts the Astplan to Plan
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-        plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+        plan.ast_plan = ast_plan
 
         self.add_plan(plan)
 
@@ -575,11 +575,22 @@ class Agent:
         if sender_name is None:
             raise AslError("expected source annotation")
 
+        # The plans with the trigger that is asked for: if it has no arguments, with any number of them
+        event = term.args[0]
+        if not agentspeak.is_string(event):
+            raise AslError("expected trigger of the plan as a string, got: '%s'" % (event, ))
+        log = agentspeak.Log(LOGGER, 1)
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<askHow>", event + "."), log)
+        tok, event = agentspeak.parser.parse_event(tokens.next(), tokens, log)
+        if tok.lexeme != ".":
+            raise log.error("expected no further tokens after trigger, got: '%s'", tok.lexeme, loc=tok.loc)
+
         plans_wanted = collections.defaultdict(lambda: [])
         plans = self.plans.values()
         for plan in plans:
             for differents in plan:
-                if differents.head.functor in term.args[0]:
+                if ((differents.trigger, differents.goal_type, differents.head.functor) == (event.trigger, event.goal_type, event.head.functor)
+                        and (not event.head.terms or len(event.head.terms) == len(differents.head.args))):
                     plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)
 
         # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked                       
@@ -599,11 +610,10 @@ class Agent:
                 for differents in plan:
                     strplan = plan_to_str(differents)
                     message = agentspeak.Literal("plain_text", (strplan,), frozenset())
-                for receiver in receiving_agents:
-                    self._call_ask_how(receiver, message, intention)
+                    for receiver in receiving_agents:
+                        self._call_ask_how(receiver, message, intention)
         else:
-            log = agentspeak.Log(LOGGER)
-            raise log.warning(f"The agent not know the plan {term.args[2]}")
+            raise AslError("the agent does not know the plan: '%s'" % term.args[0])
 
     def _untell_how(self, term):
         """
@@ -747,26 +757,7 @@ def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
     """
-    if isinstance(plan.context, type(TrueQuery())):
-        context = "true"
-    else:
-        context = plan.context
-    
-    body = plan.str_body
-
-    if len(plan.head.args):
-        pattern = r"_X_[0-9a-fA-F]{3}_[0-9a-fA-F]+"
-        head = re.sub(pattern, lambda m: plan.args.pop(0), str(plan.head))
-    else:
-        head = str(plan.head)
-
-    if plan.annotation:
-        label = str(plan.annotation)
-    else:
-        label = ""
-        return  f"{plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
-
-    return f"@{label} {plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
+    return str(plan.ast_plan) + "."
 
 
 class Environment:
@@ -821,7 +812,7 @@ class Environment:
                 ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
             plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-            plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+            plan.ast_plan = ast_plan
 
             agent.add_plan(plan)
 
-- 
2.43.0


From bcf37db14e237a063106cb276f76cc5a911e4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:25 +0000
Subject: [PATCH 36/43] fix: interactive statements are validated like plan
 bodies

---
 agentspeak/runtime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 9b3dbdb..39bdbb8 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1156,6 +1156,10 @@ def repl(agent, env, actions):
                     log.throw()
                     tokens = list(token_stream)
 
+                    # Validate like the body of a plan.
+                    body = body.accept(agentspeak.parser.ConstFoldVisitor(log))
+                    log.throw()
+
                     intention.instr = Instruction(noop)
                     body.accept(BuildInstructionsVisitor(variables, actions, intention.instr, log))
                     log.throw()
-- 
2.43.0


From d2e23d05e0e1e3706e54799e7c4f2f34e34205be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:53 +0000
Subject: [PATCH 37/43] fix: format critical messages

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index e7a7379..c6d7eba 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -88,7 +88,7 @@ class LogFormatter(logging.Formatter):
 
         # Add error level.
         if record.levelno >= logging.CRITICAL:
-            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.Reset)
+            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.RESET)
         elif record.levelno >= logging.ERROR:
             b.append(colorama.Fore.RED + "error: " + colorama.Fore.RESET)
         elif record.levelno >= logging.WARNING:
-- 
2.43.0


From ced39980e94bcea5fcf402909998ef40b61008cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:53 +0000
Subject: [PATCH 38/43] fix: show every kind of condition in .dump and
 .control_flow

---
 agentspeak/runtime.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 39bdbb8..25cb976 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -170,12 +170,18 @@ class TrueQuery:
     def execute(self, agent, intention):
         yield
 
+    def __str__(self):
+        return "true"
+
 
 class FalseQuery:
     def execute(self, agent, intention):
         return
         yield
 
+    def __str__(self):
+        return "false"
+
 
 class ActionQuery:
     def __init__(self, term, impl):
@@ -191,6 +197,9 @@ class ActionQuery:
 
         agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
+    def __str__(self):
+        return str(self.term)
+
 
 class TermQuery:
     def __init__(self, term):
@@ -279,7 +288,7 @@ class NotQuery:
             yield
 
     def __str__(self):
-        return "not " + str(self.query.term)
+        return "not %s" % (self.query, )
 
 
 class UnifyQuery:
-- 
2.43.0


From b778c815e8cccf9ff028d59e32f64afb6d4704a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:32 +0000
Subject: [PATCH 39/43] fix: let agents be created while the environment runs

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 25cb976..471e11e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -916,7 +916,7 @@ class Environment:
         maybe_more_work = True
         while maybe_more_work:
             maybe_more_work = False
-            for agent in self.agents.values():
+            for agent in list(self.agents.values()):
                 if agent.step():
                     maybe_more_work = True
 
-- 
2.43.0


From 4c890b23d856379200eec15b5ce836ad455c9878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:21 +0000
Subject: [PATCH 40/43] fix: optimize programs with plans, loops and linked
 lists

---
 agentspeak/optimizer.py | 65 ++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/agentspeak/optimizer.py b/agentspeak/optimizer.py
index ae5f3d0..f6fcc71 100644
--- a/agentspeak/optimizer.py
+++ b/agentspeak/optimizer.py
@@ -18,7 +18,8 @@ import agentspeak.runtime
 from agentspeak import FormulaType, BinaryOp, UnaryOp
 from agentspeak.parser import (AstNode, AstLiteral, AstVariable, AstConst,
                                AstBinaryOp, AstUnaryOp,
-                               AstFormula, AstPlan, AstBody, AstList)
+                               AstFormula, AstPlan, AstBody, AstList,
+                               AstLinkedList, AstFor)
 
 def _is_str_type(s):
     try:
@@ -43,6 +44,7 @@ class AstType(enum.Enum):
     FOR          = 13
     IF_THEN_ELSE = 14
     AGENT        = 15
+    LINKED_LIST  = 16
 
 class CallbackVisitor(object):
     def __init__(self, callback):
@@ -163,7 +165,6 @@ class CallbackVisitor(object):
     def visit_plan(self, ast_plan):
         code = self.callback.pre_ast_node(AstType.PLAN, ast_plan)
         if code is not None: return code
-        ast_plan.annotations = self._cb_map(ast_plan.annotations)
         ast_plan.event.head = self._cb_sing(ast_plan.event.head)
         if ast_plan.context: ast_plan.context = self._cb_sing(ast_plan.context)
         if ast_plan.body: ast_plan.body = self._cb_sing(ast_plan.body)
@@ -216,6 +217,13 @@ class CallbackVisitor(object):
         ast_list.terms = self._cb_map(ast_list.terms)
         return self.callback.on_ast_node(AstType.LIST, ast_list)
 
+    def visit_linked_list(self, ast_linked_list):
+        code = self.callback.pre_ast_node(AstType.LINKED_LIST, ast_linked_list)
+        if code is not None: return code
+        ast_linked_list.head = self._cb_sing(ast_linked_list.head)
+        ast_linked_list.tail = self._cb_sing(ast_linked_list.tail)
+        return self.callback.on_ast_node(AstType.LINKED_LIST, ast_linked_list)
+
     def visit_literal(self, ast_literal):
         code = self.callback.pre_ast_node(AstType.LITERAL, ast_literal)
         if code is not None: return code
@@ -275,7 +283,6 @@ class CallbackReverseVisitor(CallbackVisitor):
         if ast_plan.body: ast_plan.body = self._cb_sing(ast_plan.body)
         if ast_plan.context: ast_plan.context = self._cb_sing(ast_plan.context)
         ast_plan.event.head = self._cb_sing(ast_plan.event.head)
-        ast_plan.annotations = self._cb_map(ast_plan.annotations)
         return self.callback.on_ast_node(AstType.PLAN, ast_plan)
 
     def visit_rule(self, ast_rule):
@@ -308,6 +315,7 @@ class TypedCallback(DefaultCallback):
         return {
             AstType.LITERAL      : self.on_literal,
             AstType.LIST         : self.on_list,
+            AstType.LINKED_LIST  : self.on_linked_list,
             AstType.RULE         : self.on_rule,
             AstType.GOAL         : self.on_goal,
             AstType.FORMULA      : self.on_formula,
@@ -325,6 +333,7 @@ class TypedCallback(DefaultCallback):
 
     def on_literal     (self, ast_literal     ): pass
     def on_list        (self, ast_list        ): pass
+    def on_linked_list (self, ast_linked_list ): pass
     def on_rule        (self, ast_rule        ): pass
     def on_goal        (self, ast_goal        ): pass
     def on_formula     (self, ast_formula     ): pass
@@ -854,7 +863,7 @@ class TermGroundingCb(DefaultCallback):
             ast_node.contained_vars = self.state.subvars.get(ast_node.name, set())
             ast_node = self.state.deref(ast_node)
             return ast_node
-        elif typ == AstType.LIST:
+        elif typ in (AstType.LIST, AstType.LINKED_LIST):
             return _IAC.KEEP_CURRENT
         elif typ == AstType.CONST:
             return _IAC.KEEP_CURRENT
@@ -931,17 +940,20 @@ class TermGroundingCb(DefaultCallback):
         #     noop               <-+
         #
 
+        attr = 'generator' if isinstance(ast_node, AstFor) else 'condition'
         tmp_state = self.state.copy()
-        ast_node.condition = self.visitor_parent.resolve_single(ast_node.condition)
-        ast_node.condition = self.symbolic_belief_query(ast_node.condition)
-        if isinstance(ast_node.condition, AstConst):
-            if   ast_node.condition.value is True:
+        condition = self.visitor_parent.resolve_single(getattr(ast_node, attr))
+        condition = self.symbolic_belief_query(condition)
+        setattr(ast_node, attr, condition)
+        if isinstance(condition, AstConst):
+            if   condition.value is True:
                 pass
-            elif ast_node.condition.value is False:
+            elif condition.value is False:
+                self.state = tmp_state
                 return _IAC.DELETE_NODE
             else:
                 self.log.warning('non-boolean term %s in boolean context (inferred)',
-                    ast_node.condition.value, loc=ast_node.loc)
+                    condition.value, loc=ast_node.loc)
 
         # No changes to the variables persist after an iteration, so there is no need for anything
         # complicated here.
@@ -971,7 +983,7 @@ class TermGroundingCb(DefaultCallback):
                 ast_node_new = AstConst()
                 ast_node_new.value = ast_node.operator.value.func(opr.value)
                 return ast_node_new
-            elif isinstance(opr, (AstBinaryOp, AstUnaryOp)):
+            elif isinstance(opr, (AstBinaryOp, AstUnaryOp, AstList, AstLinkedList)):
                 return _IAC.KEEP_CURRENT
             else:
                 assert False
@@ -1210,7 +1222,7 @@ class TermGroundingCb(DefaultCallback):
                 self.require_term_ground(ast_root, i)
             for i in ast_node.annotations:
                 self.require_term_ground(ast_root, i)
-        elif isinstance(ast_node, (AstConst, AstBinaryOp, AstUnaryOp)):
+        elif isinstance(ast_node, (AstConst, AstBinaryOp, AstUnaryOp, AstList, AstLinkedList)):
             pass
         else:
             assert False
@@ -1482,7 +1494,7 @@ class TermGroundingCb(DefaultCallback):
                 self.log.warning('%s term in binary %s is literal (inferred)',
                     pos, ast_node.operator.value.lexeme, loc=ast_node.loc)
         
-        expected_types = (AstVariable, AstLiteral, AstConst, AstBinaryOp, AstUnaryOp)
+        expected_types = (AstVariable, AstLiteral, AstConst, AstBinaryOp, AstUnaryOp, AstList, AstLinkedList)
         
         if isinstance(l, AstConst) and isinstance(r, AstConst):
             # Constant propagation
@@ -1616,17 +1628,24 @@ class UselessTermEliminatorCb(DefaultCallback):
             return _IAC.REPLACE_NODE(ast_node)
 
     def pre_ast_loop(self, ast_node):
+        # The body uses what the condition binds
+        tmp_state, self.used_vars = self.used_vars, set()
+        ast_node.body = self.visitor_parent.resolve_single(ast_node.body)
+
+        if isinstance(ast_node, AstFor):
+            # The body is executed once for each solution, so all of them matter
+            self.update_used(ast_node.generator)
+            self.used_vars |= tmp_state
+            return ast_node
+
         ast_node.condition = self.clean_belief_query(ast_node.condition, False)
+        self.used_vars |= tmp_state
         if ast_node.condition is True:
             ast_node.condition = AstConst()
             ast_node.condition.value = True
         elif ast_node.condition is False:
             return _IAC.DELETE_NODE
 
-        tmp_state, self.used_vars = self.used_vars, set()
-        ast_node.body = self.visitor_parent.resolve_single(ast_node.body)
-        self.used_vars |= tmp_state
-
         return ast_node
 
         
@@ -1793,6 +1812,18 @@ def collect_literal_variables_all(ast_node):
         for i in ast_node.annotations:
             for j in collect_literal_variables_all(i):
                 yield j
+    elif isinstance(ast_node, AstList):
+        for j in collect_literal_variables_all(ast_node.terms):
+            yield j
+    elif isinstance(ast_node, AstLinkedList):
+        for j in collect_literal_variables_all([ast_node.head, ast_node.tail]):
+            yield j
+    elif isinstance(ast_node, AstUnaryOp):
+        for j in collect_literal_variables_all(ast_node.operand):
+            yield j
+    elif isinstance(ast_node, AstBinaryOp):
+        for j in collect_literal_variables_all([ast_node.left, ast_node.right]):
+            yield j
     elif isinstance(ast_node, list):
         for i in ast_node:
             for j in collect_literal_variables_all(i):
-- 
2.43.0


From c08b88d3187e5fcd045e584098cc48b7f240b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:21 +0000
Subject: [PATCH 41/43] fix: optimize conditions that are always true or false

---
 agentspeak/optimizer.py | 94 ++++++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 33 deletions(-)

diff --git a/agentspeak/optimizer.py b/agentspeak/optimizer.py
index f6fcc71..e481651 100644
--- a/agentspeak/optimizer.py
+++ b/agentspeak/optimizer.py
@@ -233,10 +233,10 @@ class CallbackVisitor(object):
 
 class CallbackReverseVisitor(CallbackVisitor):
     def _cb_map(self, lst):
-        lst.reverse()
-        tmp = super(CallbackReverseVisitor, self)._cb_map(lst)
-        tmp.reverse()
-        return tmp
+        result = []
+        for ast_node in reversed(lst):
+            result = super(CallbackReverseVisitor, self)._cb_map([ast_node]) + result
+        return result
     
     def visit_binary_op(self, ast_binary_op):
         code = self.callback.pre_ast_node(AstType.BINARY_OP, ast_binary_op)
@@ -896,6 +896,8 @@ class TermGroundingCb(DefaultCallback):
         return _IAC.REPLACE_NODE(ast_plan)
 
     def pre_ast_if_then_else(self, ast_node):
+        # The else branch starts without the bindings of the condition.
+        tmp_state = self.state.copy()
         ast_node.condition = self.visitor_parent.resolve_single(ast_node.condition)
         ast_node.condition = self.symbolic_belief_query(ast_node.condition)
 
@@ -904,6 +906,8 @@ class TermGroundingCb(DefaultCallback):
                 formulas = self.visitor_parent.resolve_list(ast_node.if_body.formulas)
                 return _IAC.EXPAND_LIST(formulas)
             elif ast_node.condition.value is False:
+                if ast_node.else_body is None:
+                    return _IAC.DELETE_NODE
                 formulas = self.visitor_parent.resolve_list(ast_node.else_body.formulas)
                 return _IAC.EXPAND_LIST(formulas)
             else:
@@ -914,7 +918,6 @@ class TermGroundingCb(DefaultCallback):
             ast_node.else_body = None
         
         # Traverse both branches separately, then merge the scopes.
-        tmp_state = self.state.copy()
         ast_node.if_body = self.visitor_parent.resolve_single(ast_node.if_body)
         self.state, tmp_state = tmp_state, self.state
         if ast_node.else_body:
@@ -981,7 +984,11 @@ class TermGroundingCb(DefaultCallback):
             elif isinstance(opr, AstConst):
                 # constant propagation
                 ast_node_new = AstConst()
-                ast_node_new.value = ast_node.operator.value.func(opr.value)
+                try:
+                    ast_node_new.value = ast_node.operator.value.func(opr.value)
+                except (TypeError, ArithmeticError):
+                    # Fails only when executed
+                    return _IAC.KEEP_CURRENT
                 return ast_node_new
             elif isinstance(opr, (AstBinaryOp, AstUnaryOp, AstList, AstLinkedList)):
                 return _IAC.KEEP_CURRENT
@@ -1075,7 +1082,8 @@ class TermGroundingCb(DefaultCallback):
 
     def expand_and_into_list(self, ast_node):
         def f(t):
-            if isinstance(t, AstBinaryOp) and t.operator == BinaryOp.op_and:
+            if (isinstance(t, AstBinaryOp) and t.operator == BinaryOp.op_and
+                    and at_most_one_solution(t.left)):
                 return f(t.left) + f(t.right)
             else:
                 return [t]
@@ -1461,9 +1469,8 @@ class TermGroundingCb(DefaultCallback):
         
         if   ast_node.operator == BinaryOp.op_or:
             # Assume values can only be boolean
-            if   lb and l.value is True:
-                return _IAC.REPLACE_NODE(l)
-            elif lb and l.value is False:
+            # The right side may have more solutions, even if the left side is always true
+            if   lb and l.value is False:
                 return _IAC.REPLACE_NODE(r)
             else:
                 return _IAC.KEEP_CURRENT
@@ -1499,7 +1506,11 @@ class TermGroundingCb(DefaultCallback):
         if isinstance(l, AstConst) and isinstance(r, AstConst):
             # Constant propagation
             ast_node_new = AstConst()
-            ast_node_new.value = ast_node.operator.value.func(l.value, r.value)
+            try:
+                ast_node_new.value = ast_node.operator.value.func(l.value, r.value)
+            except (TypeError, ArithmeticError):
+                # Fails only when executed
+                return _IAC.KEEP_CURRENT
             return ast_node_new
         elif isinstance(l, expected_types) and isinstance(r, expected_types):
             return _IAC.KEEP_CURRENT
@@ -1548,8 +1559,8 @@ class UselessTermEliminatorCb(DefaultCallback):
             if   ast_plan.context is True:
                 ast_plan.context = None
             elif ast_plan.context is False:
-                self.log.warning('plan context is always false (inferred)', loc=loc)
-                ast_plan.context = AstNode()
+                self.log.warning('plan context is always false (inferred)', loc=ast_plan.loc)
+                ast_plan.context = AstConst()
                 ast_plan.context.value = False
                 ast_plan.body = None
         
@@ -1571,9 +1582,9 @@ class UselessTermEliminatorCb(DefaultCallback):
                     return _IAC.DELETE_NODE
                 elif ast_node.term is False:
                     self.log.warning('term always false (inferred)', loc=ast_node.loc)
-                    node = AstConst()
-                    node.value = False
-                    return _IAC.REPLACE_NODE(node)
+                    ast_node.term = AstConst()
+                    ast_node.term.value = False
+                    return _IAC.REPLACE_NODE(ast_node)
                 else:
                     return _IAC.REPLACE_NODE(ast_node)
         elif ast_node.formula_type in (FormulaType.add, FormulaType.replace, FormulaType.achieve,
@@ -1600,11 +1611,9 @@ class UselessTermEliminatorCb(DefaultCallback):
 
         ast_node.condition = self.clean_belief_query(ast_node.condition, False)
         if ast_node.condition is True:
-            formulas = self.visitor_parent.resolve_list(ast_node.if_body.formulas)
-            return _IAC.EXPAND_LIST(formulas)
+            return _IAC.EXPAND_LIST(ast_node.if_body.formulas if ast_node.if_body else [])
         elif ast_node.condition is False:
-            formulas = self.visitor_parent.resolve_list(ast_node.else_body.formulas)
-            return _IAC.EXPAND_LIST(formulas)
+            return _IAC.EXPAND_LIST(ast_node.else_body.formulas if ast_node.else_body else [])
 
         if ast_node.if_body   is not None and not ast_node.if_body  .formulas:
             ast_node.if_body   = None
@@ -1681,8 +1690,8 @@ class UselessTermEliminatorCb(DefaultCallback):
                     # Try whether both sides are without side-effects
                     # This may be exponential
                     tmp_state = self.used_vars.copy()
-                    right = self.clean_belief_query(ast_node.right, True)
-                    left  = self.clean_belief_query(ast_node.left,  True)
+                    right = self.clean_belief_query(copy.deepcopy(ast_node.right), True)
+                    left  = self.clean_belief_query(copy.deepcopy(ast_node.left),  True)
                     if right is True and left is True:
                         return True
                     self.used_vars = tmp_state
@@ -1693,7 +1702,13 @@ class UselessTermEliminatorCb(DefaultCallback):
                     return ast_node.left
                 elif ast_node.left is True:
                     return ast_node.right
-                elif ast_node.left is False or ast_node.right is False:
+                elif ast_node.left is False:
+                    return False
+                elif ast_node.right is False:
+                    if list(collect_actions(ast_node.left)):
+                        ast_node.right = AstConst()
+                        ast_node.right.value = False
+                        return ast_node
                     return False
                 else:
                     return ast_node
@@ -1705,12 +1720,13 @@ class UselessTermEliminatorCb(DefaultCallback):
                     ast_node.left = self.clean_belief_query(ast_node.left, True)
                     self.used_vars |= tmp_state
                     
-                    if ast_node.right is True:
-                        return ast_node.left
-                    elif ast_node.left is True:
-                        return ast_node.right
-                    else:
-                        return ast_node
+                    for side in ('left', 'right'):
+                        if getattr(ast_node, side) is True:
+                            setattr(ast_node, side, AstConst())
+                            getattr(ast_node, side).value = True
+                    if isinstance(ast_node.left, AstConst) and isinstance(ast_node.right, AstConst):
+                        return True
+                    return ast_node
                 else:
                     tmp_state = self.used_vars.copy()
                     ast_node.right = self.clean_belief_query(ast_node.right, False)
@@ -1718,6 +1734,8 @@ class UselessTermEliminatorCb(DefaultCallback):
                         ast_node.left = self.clean_belief_query(ast_node.left, True)
                         if ast_node.left is True or ast_node.left is False:
                             return True
+                        elif isinstance(ast_node.left, AstConst):
+                            return True
                         else:
                             ast_node.right = AstConst()
                             ast_node.right.value = True
@@ -1728,9 +1746,11 @@ class UselessTermEliminatorCb(DefaultCallback):
                         tmp_state, self.used_vars = self.used_vars, tmp_state
                         ast_node.left  = self.clean_belief_query(ast_node.left, False)
                         if ast_node.left is True:
-                            # We have a fresh state, due to True meaning no side-effects
-                            ast_node.right = self.clean_belief_query(ast_node.right, True)
-                            return ast_node.right
+                            # The empty solution comes first
+                            self.used_vars |= tmp_state
+                            ast_node.left = AstConst()
+                            ast_node.left.value = True
+                            return ast_node
                         elif ast_node.left is False:
                             # No need to merge, as False means no side-effects
                             self.used_vars = tmp_state
@@ -1762,7 +1782,8 @@ class UselessTermEliminatorCb(DefaultCallback):
                 assert False
         elif isinstance(ast_node, AstUnaryOp):
             if ast_node.operator == UnaryOp.op_not:
-                if ignore_truth and not self.inf_cb.options.preserve_errors:
+                if (ignore_truth and not self.inf_cb.options.preserve_errors
+                        and not list(collect_actions(ast_node))):
                     return True
                 else:
                     tmp_state, self.used_vars = self.used_vars, set()
@@ -1797,6 +1818,13 @@ def collect_type(ast_node, typ):
 def collect_variables(ast_node):
     return collect_type(ast_node, AstType.VARIABLE)
 
+def at_most_one_solution(ast_node):
+    if isinstance(ast_node, AstBinaryOp):
+        if ast_node.operator == BinaryOp.op_and:
+            return at_most_one_solution(ast_node.left) and at_most_one_solution(ast_node.right)
+        return ast_node.operator != BinaryOp.op_or
+    return isinstance(ast_node, (AstConst, AstUnaryOp))
+
 def collect_actions(ast_node):
     for i in collect_type(ast_node, AstType.LITERAL):
         if '.' in i.functor:
-- 
2.43.0


From de0c574ff5e883b34c1e4251ac9eee4f26b5aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:21 +0000
Subject: [PATCH 42/43] fix: do not optimize away unifications that variables
 depend on

---
 agentspeak/optimizer.py | 140 ++++++++++++++++++++++++++++------------
 1 file changed, 98 insertions(+), 42 deletions(-)

diff --git a/agentspeak/optimizer.py b/agentspeak/optimizer.py
index e481651..9a3e264 100644
--- a/agentspeak/optimizer.py
+++ b/agentspeak/optimizer.py
@@ -495,13 +495,14 @@ class InferenceScopedState(object):
            an AstVariable and PROVEN_VALUE, by definition.
         '''
         ast_node = copy.copy(ast_node)
-        while (isinstance(ast_node, AstVariable)
-                and ast_node.bound_status == _IC.PROVEN_VALUE):
+        while isinstance(ast_node, AstVariable):
+            # What is known about the variable may have changed since the node was visited
+            ast_node.bound_status    = self.status.get(ast_node.name, _IC.UNPROVEN)
+            ast_node.bound_value     = self.values.get(ast_node.name, None)
+            ast_node.contained_vars  = self.subvars.get(ast_node.name, set())
+            if ast_node.bound_status != _IC.PROVEN_VALUE:
+                break
             ast_node = copy.copy(ast_node.bound_value)
-            if isinstance(ast_node, AstVariable):
-                ast_node.bound_status    = self.status[ast_node.name]
-                ast_node.bound_value     = self.values.get(ast_node.name, None)
-                ast_node.contained_vars  = self.subvars.get(ast_node.name, set())
         if isinstance(ast_node, AstLiteral):
             ast_node.terms = [self.deref(i) for i in ast_node.terms]
             ast_node.annotations = [self.deref(i) for i in ast_node.annotations]
@@ -520,10 +521,32 @@ class InferenceScopedState(object):
                 self.subvars[i] = set()
             self.subvars[i].add(root)
     
+    def related(self, ast_node):
+        '''The names of the variables in the node, and of those that may contain or be contained in
+           one of them.
+        '''
+        names = {i.name for i in collect_literal_variables_all(ast_node) if i.name != '_'}
+        while True:
+            more = set().union(*[self.subvars.get(i, set()) for i in names])
+            more.update(i for i in self.subvars if names & self.subvars[i])
+            more.discard('_')
+            if more <= names:
+                return names
+            names |= more
+
+    def weaken(self, ast_node):
+        '''Something may bind each of the related variables, and make them contain each other.'''
+        names = self.related(ast_node)
+        for i in names:
+            if self.status.get(i) == _IC.PROVEN_UNBOUND:
+                self.status[i] = _IC.UNPROVEN
+        self.contain_each_other(names)
+        return names
+
     def get_var_ast(self, var):
         ast_node = AstVariable()
         ast_node.name = var
-        ast_node.bound_status    = self.status[var]
+        ast_node.bound_status    = self.status.get(var, _IC.UNPROVEN)
         ast_node.bound_value     = self.values.get(var, None)
         ast_node.contained_vars  = self.subvars.get(ast_node.name, set())
         return ast_node
@@ -536,11 +559,12 @@ def nodes_equal(ast_node1, ast_node2):
     if type(ast_node1) != type(ast_node2):
         return False
     elif isinstance(ast_node1, AstConst):
-        return ast_node1.value == ast_node2.value
+        return type(ast_node1.value) == type(ast_node2.value) and ast_node1.value == ast_node2.value
     elif isinstance(ast_node1, AstVariable):
         return ast_node1.name == ast_node2.name
     elif isinstance(ast_node1, AstLiteral):
         return (ast_node1.functor == ast_node2.functor
+            and len(ast_node1.terms) == len(ast_node2.terms)
             and all(nodes_equal(i, j)
                 for i, j in zip(ast_node1.terms, ast_node2.terms))
             and len(ast_node1.annotations) == len(ast_node2.annotations) == 0
@@ -973,9 +997,6 @@ class TermGroundingCb(DefaultCallback):
                     self.log.warning('term in unary %s is not ground (inferred)',
                         ast_node.operator.value.lexeme, loc=ast_node.loc)
                         
-                if opr.bound_status != _IC.PROVEN_BOUND:
-                    opr.bound_status = _IC.PROVEN_BOUND
-                self.update_var(opr)
                 return _IAC.KEEP_CURRENT
             elif isinstance(opr, AstLiteral):
                 self.log.warning('term in unary %s is literal (inferred)',
@@ -1037,6 +1058,7 @@ class TermGroundingCb(DefaultCallback):
                         t.value, loc=ast_node.loc)
             elif isinstance(t, AstLiteral):
                 if '.' in t.functor:
+                    self.state.weaken(t)
                     evilness = self.inf_cb.get_action_evilness(t)
                     capture_scope = False
                     for ef in evilness.find_disregard_arity(_IEC.AFFECT_SCOPE):
@@ -1072,6 +1094,7 @@ class TermGroundingCb(DefaultCallback):
         elif ast_node.formula_type in (FormulaType.add, FormulaType.replace, FormulaType.achieve,
                 FormulaType.achieve_later):
             if isinstance(ast_node.term, (AstLiteral, AstVariable)):
+                self.state.weaken(ast_node.term)
                 self.require_term_ground(ast_node, ast_node.term)
             else:
                 assert False
@@ -1120,7 +1143,9 @@ class TermGroundingCb(DefaultCallback):
                 if ast_var.bound_status in (_IC.PROVEN_UNBOUND, _IC.UNPROVEN):
                     ast_node.vars_written.append(ast_var.name)
 
-            self.state.contain_each_other(i.name for i in collect_literal_variables_all(ast_node))
+            ast_node.vars_related = self.state.related(ast_node)
+            ast_node.vars_written = list(ast_node.vars_related)
+            self.state.weaken(ast_node)
                 
             return ast_node
         elif isinstance(ast_node, AstBinaryOp):
@@ -1274,15 +1299,24 @@ class TermGroundingCb(DefaultCallback):
         ast_node.always_true = False
         ast_node.vars_written = []
         ast_node.vars_read = []
-        result = self._symbolic_unify_helper(ast_node, l, r)
+        return self._symbolic_unify_helper(ast_node, l, r)
 
-        for i in result:
-            if isinstance(i.left,  AstVariable): self.update_var(i.left )
-            if isinstance(i.right, AstVariable): self.update_var(i.right)
+    def _symbolic_unify_helper(self, ast_node, l, r, level = 0):
+        assert level < 2
 
+        related = self.state.related([l, r])
+        result = self._symbolic_unify_sides(ast_node, l, r, level)
+        if ast_node in result:
+            # Whatever is related to one of the sides may be bound now, and related to the other
+            ast_node.vars_written = related | self.state.related([l, r])
+            self.state.weaken([l, r])
+            for i in (l, r):
+                if isinstance(i, AstVariable) and i.bound_status != _IC.PROVEN_UNBOUND:
+                    i.contained_vars = self.state.subvars.get(i.name, set())
+                    self.update_var(i)
         return result
-        
-    def _symbolic_unify_helper(self, ast_node, l, r, level = 0):
+
+    def _symbolic_unify_sides(self, ast_node, l, r, level = 0):
         assert level < 2
         
         def var_unify(l, r, level = 0):
@@ -1293,9 +1327,12 @@ class TermGroundingCb(DefaultCallback):
             
             lbsrbs = l.bound_status, r.bound_status
             if   lbsrbs in ((_IC.PROVEN_BOUND,   _IC.PROVEN_BOUND  ),
-                            (_IC.PROVEN_BOUND,   _IC.PROVEN_UNBOUND),
-                            (_IC.PROVEN_BOUND,   _IC.UNPROVEN      ),
-                            (_IC.UNPROVEN,       _IC.UNPROVEN      )):
+                            (_IC.PROVEN_BOUND,   _IC.UNPROVEN      )):
+                # Terms that unify can differ (1 and 1.0, annotations)
+                r.bound_status = _IC.PROVEN_BOUND
+            elif lbsrbs == (_IC.UNPROVEN, _IC.UNPROVEN):
+                pass
+            elif lbsrbs == (_IC.PROVEN_BOUND, _IC.PROVEN_UNBOUND):
                 r.bound_status = _IC.PROVEN_VALUE
                 r.bound_value = l
             elif lbsrbs in ((_IC.PROVEN_UNBOUND, _IC.PROVEN_UNBOUND),
@@ -1309,6 +1346,7 @@ class TermGroundingCb(DefaultCallback):
         def list_unify(l, r):
             ops = []
             for i, j in zip(l.terms, r.terms):
+                i, j = self.state.deref(i), self.state.deref(j)
                 ast_node_sub = AstBinaryOp()
                 ast_node_sub.operator = BinaryOp.op_unify
                 ast_node_sub.left = i
@@ -1320,12 +1358,18 @@ class TermGroundingCb(DefaultCallback):
             return ops
 
         def exclude_unbound(lst):
-            return [i for i in lst if self.state.status[i] != _IC.PROVEN_UNBOUND]
+            return [i for i in lst if self.state.status.get(i) != _IC.PROVEN_UNBOUND]
         
         def exclude_bound(lst):
-            return [i for i in lst if self.state.status[i] in (_IC.PROVEN_UNBOUND, _IC.UNPROVEN)]
+            return [i for i in lst if self.state.status.get(i, _IC.UNPROVEN) in (_IC.PROVEN_UNBOUND, _IC.UNPROVEN)]
         
-        if   isinstance(l, AstVariable) and isinstance(r, AstVariable):
+        if   any(isinstance(i, AstVariable) and i.name == '_' for i in (l, r)):
+            ast_node.always_true = True
+            return []
+        elif isinstance(l, AstVariable) and isinstance(r, AstVariable) and l.name == r.name:
+            ast_node.always_true = True
+            return []
+        elif isinstance(l, AstVariable) and isinstance(r, AstVariable):
             ast_node.always_true = _IC.PROVEN_UNBOUND in (l.bound_status, r.bound_status)
             ast_node.vars_written = (exclude_bound(l.contained_vars | r.contained_vars)
                 + [i.name for i, j in ((r, l), (l, r)) if j.bound_status != _IC.PROVEN_UNBOUND])
@@ -1335,16 +1379,23 @@ class TermGroundingCb(DefaultCallback):
             var_unify(l, r)
             return [ast_node]
         elif isinstance(l, AstVariable) and isinstance(r, (AstLiteral, AstConst)):
+            if any(i.name == l.name for i in collect_literal_variables_all(r)):
+                # Can only succeed if l is bound to a literal of this form already
+                return [ast_node]
             r, add_unifies = self.constify_literal(r)
             ast_node.always_true = l.bound_status == _IC.PROVEN_UNBOUND
             if l.bound_status != _IC.PROVEN_BOUND:   ast_node.vars_written.append(l.name)
             if l.bound_status != _IC.PROVEN_UNBOUND: ast_node.vars_read   .append(l.name)
-            l.bound_status = _IC.PROVEN_VALUE
-            l.bound_value = r
-            l.contained_vars |= set(i.name for i in collect_literal_variables_all(r)) - {l}
+            if l.bound_status == _IC.PROVEN_UNBOUND and not is_annotated(r):
+                l.bound_status = _IC.PROVEN_VALUE
+                l.bound_value = r
+            else:
+                # Terms that unify can differ (1 and 1.0, annotations)
+                l.bound_status = _IC.PROVEN_BOUND
+            l.contained_vars |= set(i.name for i in collect_literal_variables_all(r)) - {l.name}
             
             return add_unifies + [ast_node]
-        elif isinstance(l, AstVariable) and isinstance(r, (AstUnaryOp, AstBinaryOp, AstList)):
+        elif isinstance(l, AstVariable) and isinstance(r, (AstUnaryOp, AstBinaryOp, AstList, AstLinkedList)):
             ast_node.always_true = l.bound_status == _IC.PROVEN_UNBOUND
             if l.bound_status != _IC.PROVEN_BOUND:
                 ast_node.vars_written.append(l.name)
@@ -1366,6 +1417,9 @@ class TermGroundingCb(DefaultCallback):
                     ' than the right (inferred): left %s and right %s', len(l.annotations),
                     len(r.annotations), loc=ast_node.loc)
                 return [ast_node]
+            elif any(is_annotated(i) for i in l.terms + r.terms):
+                # Only the annotations of the literals themselves are unified
+                return [ast_node]
             else:
                 ops = list_unify(l, r)
                 if len(l.annotations):
@@ -1380,9 +1434,8 @@ class TermGroundingCb(DefaultCallback):
                     ast_node_sub.right.functor = '_inf_dummy'
                     ast_node_sub.right.annotations = ast_node.right.annotations
                     ast_node_sub.always_true = False
-                    varlst = self.collect_contained_variables(ast_node.left, ast_node.right)
-                    ast_node_sub.vars_written = exclude_bound  (varlst)
-                    ast_node_sub.vars_read    = exclude_unbound(varlst)
+                    ast_node_sub.vars_written = self.state.weaken([l, r])
+                    ast_node_sub.vars_read    = exclude_unbound(ast_node_sub.vars_written)
                     ops.append(ast_node_sub)
                 return ops
         elif isinstance(l, AstLiteral) and isinstance(r, AstConst):
@@ -1398,7 +1451,7 @@ class TermGroundingCb(DefaultCallback):
                 loc=ast_node.loc)
             return [ast_node]
         elif isinstance(l, AstConst) and isinstance(r, AstConst):
-            if l.value != r.value:
+            if not agentspeak.unify(l.value, r.value, {}, []):
                 self.log.warning('trying to unify two constants with different values (inferred): '
                     '%s and %s', l.value, r.value, loc=ast_node.loc)
                 return [ast_node]
@@ -1424,6 +1477,8 @@ class TermGroundingCb(DefaultCallback):
                 return [ast_node]
             else:
                 return list_unify(l, r)
+        elif isinstance(l, AstLinkedList) or isinstance(r, AstLinkedList):
+            return [ast_node]
         else:
             # Commutative (actually not, but we do not handle annotations with enough finesse to
             # notice)
@@ -1493,10 +1548,6 @@ class TermGroundingCb(DefaultCallback):
                 if i.bound_status == _IC.PROVEN_UNBOUND:
                     self.log.warning('%s term in binary %s is not ground (inferred)',
                         pos, ast_node.operator.value.lexeme, loc=ast_node.loc)
-                        
-                if i.bound_status in (_IC.UNPROVEN, _IC.PROVEN_UNBOUND):
-                    i.bound_status = _IC.PROVEN_BOUND
-                self.update_var(i)
             elif isinstance(i, AstLiteral):
                 self.log.warning('%s term in binary %s is literal (inferred)',
                     pos, ast_node.operator.value.lexeme, loc=ast_node.loc)
@@ -1673,16 +1724,18 @@ class UselessTermEliminatorCb(DefaultCallback):
         if isinstance(ast_node, (AstVariable, AstLiteral)):
             # There is no way to be sure that the variable contains a literal
             if ignore_truth and not self.inf_cb.options.preserve_errors:
-                for varname in ast_node.vars_written:
-                    if varname in self.used_vars: break
-                else:
+                if not (self.used_vars & set(ast_node.vars_written) or list(collect_actions(ast_node))):
                     return True
 
-            for ast_var in collect_literal_variables_all(ast_node):
-                if ast_var.name not in ast_node.vars_read and ast_var.name not in self.used_vars:
-                    ast_var.name = '_'
+            if not any('.' in i.functor for i in collect_type(ast_node, AstType.LITERAL)):
+                names = [i.name for i in collect_literal_variables_all(ast_node)]
+                for ast_var in collect_literal_variables_all(ast_node):
+                    if (names.count(ast_var.name) == 1 and ast_var.name not in ast_node.vars_read
+                            and ast_node.vars_related.isdisjoint(self.used_vars)):
+                        ast_var.name = '_'
               
             self.used_vars.update(ast_node.vars_read)
+            self.update_used(ast_node)
             return ast_node
         elif isinstance(ast_node, AstBinaryOp):
             if   ast_node.operator == BinaryOp.op_and:
@@ -1830,6 +1883,9 @@ def collect_actions(ast_node):
         if '.' in i.functor:
             yield i
 
+def is_annotated(ast_node):
+    return any(i.annotations for i in collect_type(ast_node, AstType.LITERAL))
+
 def collect_literal_variables_all(ast_node):
     if isinstance(ast_node, AstVariable):
         yield ast_node
-- 
2.43.0


From 331649e7d53a919211ac17f883fdaaba35c2d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:21 +0000
Subject: [PATCH 43/43] fix: optimize calls and belief updates without changing
 their events

---
 agentspeak/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/agentspeak/optimizer.py b/agentspeak/optimizer.py
index 9a3e264..11e1a06 100644
--- a/agentspeak/optimizer.py
+++ b/agentspeak/optimizer.py
@@ -877,6 +877,9 @@ class TermGroundingCb(DefaultCallback):
             return self.pre_ast_if_then_else(ast_node)
         elif typ in (AstType.WHILE, AstType.FOR):
             return self.pre_ast_loop(ast_node)
+        elif typ == AstType.FORMULA and ast_node.formula_type == FormulaType.replace:
+            # Variables and constants replace different beliefs
+            return _IAC.KEEP_CURRENT
         else:
             return
     
@@ -1639,9 +1642,9 @@ class UselessTermEliminatorCb(DefaultCallback):
                 else:
                     return _IAC.REPLACE_NODE(ast_node)
         elif ast_node.formula_type in (FormulaType.add, FormulaType.replace, FormulaType.achieve,
-                FormulaType.achieve_later):
+                FormulaType.achieve_later, FormulaType.remove):
             pass
-        elif ast_node.formula_type in (FormulaType.remove, FormulaType.test, FormulaType.replace):
+        elif ast_node.formula_type == FormulaType.test:
             ast_node.term = self.clean_belief_query(ast_node.term, False)
             # It should not have optimized away the literal
             assert isinstance(ast_node.term, AstNode)
-- 
2.43.0

