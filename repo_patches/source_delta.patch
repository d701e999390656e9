From 4e262d676a726bf54a55397316b248847026da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 01/69] fix: keep simulated transitions that differ only in
 their resets

Transitions of an agent were de-duplicated by destination mode alone, so of
two enabled resets to the same mode only the first one was simulated.
---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..cd0d5c2 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -771,7 +771,7 @@ class Simulator:
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
                 break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {aid: dedup(v, lambda p: (p[1], tuple(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From c48c8831334228af045e9c775634c46dcb2ad554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 02/69] fix: keep an assignment made identically in both
 branches of an if

merge_if_single dropped a variable that both branches set to the same new
value, so e.g. a timer reset in both branches was never performed.
---
 verse/parser/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..ceaba6f 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -618,7 +618,13 @@ def merge_if_single(
     for var in set(true.keys()).union(set(false.keys())):
         var_true, var_false = true.get(var), false.get(var)
         if ControllerIR.ir_eq(var_true, var_false):
-            continue
+            var_orig = lookup(scope, var)
+            if ControllerIR.ir_eq(var_true, var_orig):
+                continue
+            # Both branches assign the same new value
+            if var_orig == None:
+                assign(scope, var, copy.deepcopy(var_true))
+                continue
         if var_true != None and var_false != None:
             assert isinstance(var_true, dict) == isinstance(var_false, dict)
         if isinstance(var_true, dict):
-- 
2.43.0


From 87994d22a343fbd90ebea4730a2c0275bf2f1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 03/69] fix: accept a branch that repeats an alternative
 already assigned

Assigning in a branch the value the variable already had as an alternative
made the parser raise 'no need for merge?'.
---
 verse/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index ceaba6f..7cdc7cf 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -682,7 +682,7 @@ def merge_if_val(
         false == None or len(false.elems) == 0,
     )
     if true_emp and false_emp:
-        raise Exception("no need for merge?")
+        return orig  # the branches only repeat alternatives that are already there
     elif true_emp:
         ret = merge_cond(ast.UnaryOp(ast.Not(), test), false)
     elif false_emp:
-- 
2.43.0


From efa9c951d305030c47452f17b55ec9603c7ef8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 04/69] fix: process the filter of any/all/sum generators

The filter of a generator expression was kept unprocessed and wrapped in a
one-element BoolOp, so every such program failed to load.
---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 7cdc7cf..ba59d71 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -932,7 +932,8 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            if len(ifs) > 0:
+                expr = cond_trans(expr, merge_conds([proc(c, env) for c in ifs]))
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
-- 
2.43.0


From c7027975956e79a54fb9afee72b5bffd982a1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 05/69] fix: bind names in the innermost scope when loading a
 decision logic

A helper's parameter or local, or a loop variable, with the name of a module
constant or of a variable of the decision logic overwrote that variable.
---
 verse/parser/parser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index ba59d71..11dc2c2 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -458,10 +458,7 @@ class Env:
         return None
 
     def set(self, key, val):
-        for env in self.scopes:
-            if key in env.v:
-                env.v[key] = val
-                return
+        # As in Python, names are bound in the innermost scope and may shadow outer ones
         self.scopes[0].v[key] = val
 
     def add_hole(self, name: str, typ: Optional[str]):
@@ -579,8 +576,8 @@ ScopeValueMap = Dict[str, ScopeValue]
 
 def merge_if(test: ast.expr, trues: Env, falses: Env, env: Env):
     # `true`, `false` and `env` should have the same level
-    for true, false in zip(trues.scopes, falses.scopes):
-        merge_if_single(test, true.v, false.v, env)
+    for true, false, orig in zip(trues.scopes, falses.scopes, env.scopes):
+        merge_if_single(test, true.v, false.v, orig.v)
     env.scopes[0].asserts = merge_assert(
         test, trues.scopes[0].asserts, falses.scopes[0].asserts, env.scopes[0].asserts
     )
-- 
2.43.0


From 0d557f979e145a3939d8329b945d61f7e3b75546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 06/69] fix: do not capture arguments in any/all inside a
 helper function

Inlining a helper called with a loop variable captured that variable when the
helper itself loops with the same name.
---
 verse/parser/parser.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 11dc2c2..d095f2b 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -1,5 +1,5 @@
 import ast, copy, warnings
-from typing import Callable, List, Dict, TypeVar, Union, Optional, Any, Tuple
+from typing import Callable, List, Dict, Set, TypeVar, Union, Optional, Any, Tuple
 from dataclasses import dataclass, field, fields
 from enum import Enum, auto
 from verse.parser import astunparser
@@ -260,12 +260,17 @@ class Lambda:
     def apply(self, args: List[ast.expr]) -> Tuple[List[_Assert], ast.expr]:
         ret = copy.deepcopy(self.body)
         subst = ArgSubstituter({a.name: v for a, v in zip(self.args, args)})
-        ret = subst.visit(ret)
+        free = {a.name for a in self.args}
+        for v in args:
+            if isinstance(v, ast.AST):
+                free |= {n.arg for n in ast.walk(v) if isinstance(n, ast.arg)}
+        rename = BoundRenamer(free)
+        ret = subst.visit(rename.visit(ret))
 
         def visit_assert(a: _Assert):
             a = copy.deepcopy(a)
-            pre = [subst.visit(p) for p in a.pre]
-            cond = subst.visit(a.cond)
+            pre = [subst.visit(rename.visit(p)) for p in a.pre]
+            cond = subst.visit(rename.visit(a.cond))
             return _Assert(cond, a.label, pre)
 
         asserts = [visit_assert(a) for a in copy.deepcopy(self.asserts)]
@@ -295,6 +300,26 @@ class ArgSubstituter(ast.NodeTransformer):
         return node
 
 
+class BoundRenamer(ast.NodeTransformer):
+    """Renames reduction variables that would capture, or be replaced by, the names in `names`"""
+
+    names: Set[str]
+
+    def __init__(self, names: Set[str]):
+        super().__init__()
+        self.names = names
+
+    def visit_Reduction(self, node):
+        self.generic_visit(node)
+        if node.it in self.names:
+            fresh = node.it
+            while fresh in self.names:
+                fresh += "_"
+            node.expr = ArgSubstituter({node.it: ast.arg(fresh, None)}).visit(node.expr)
+            node.it = fresh
+        return node
+
+
 @dataclass
 class ModePath:
     cond: Any
-- 
2.43.0


From c1c16e55d28c7b554b0a5467c5f4de164075584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 07/69] fix: handle static parameters in simulate_simple

The static field was left a string, so comparing it with its enum was never
true, and it was appended to the continuous reset values of a transition.
---
 verse/analysis/simulator.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index cd0d5c2..334fb52 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -154,6 +154,14 @@ def convertStrToEnum(inp, agent: BaseAgent, dl):
                 field_type = agent.decision_logic.state_defs[state_def_name].disc_type[idx]
                 enum_class = getattr(dl, field_type)
                 setattr(res, field, enum_class[getattr(res, field)])
+                break
+            if field in agent.decision_logic.state_defs[state_def_name].static:
+                idx = agent.decision_logic.state_defs[state_def_name].static.index(field)
+                field_type = agent.decision_logic.state_defs[state_def_name].static_type[idx]
+                enum_class = getattr(dl, field_type) if field_type is not None else None
+                if isinstance(enum_class, type) and issubclass(enum_class, Enum):
+                    setattr(res, field, enum_class[getattr(res, field)])
+                break
     return res
 
 
@@ -166,6 +174,10 @@ def convertEnumToStr(inp, agent: BaseAgent, dl):
     return res
 
 
+def static_field(field: str, agent: BaseAgent):
+    return any(field in state_def.static for state_def in agent.decision_logic.state_defs.values())
+
+
 def disc_field(field: str, agent: BaseAgent):
     for state_def_name in agent.decision_logic.state_defs:
         state_def = agent.decision_logic.state_defs[state_def_name]
@@ -857,7 +869,7 @@ class Simulator:
                         for field in env[EGO].__dict__:
                             if disc_field(field, agent):
                                 pure_dest.append(getattr(output, field))
-                            else:
+                            elif not static_field(field, agent):
                                 next_init.append(getattr(output, field))
                         satisfied_guard.append((agent_id, pure_dest, next_init, []))
                 except AssertionError:
-- 
2.43.0


From 6270025af7f8c0111719cd9833037675285a4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 08/69] fix: report unlabelled assertions and whole labels in
 simulate_simple

---
 verse/analysis/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 334fb52..1d2a6be 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -876,8 +876,8 @@ class Simulator:
                     # If assertion error happen, means assert hit happen
                     # Get the which assert hit happen and return
                     _, error, _ = sys.exc_info()
-                    assertion_label = error.args[0]
-                    all_asserts[agent_id] = assertion_label
+                    assertion_label = error.args[0] if error.args else "<assert>"
+                    all_asserts[agent_id] = [assertion_label]
                     continue
 
             if len(all_asserts) > 0:
-- 
2.43.0


From c7273c556e6100d189284b3445e9399f709d1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 09/69] fix: check the assertions of agents that have no
 transitions

---
 verse/analysis/simulator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 1d2a6be..6d55ba8 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -719,6 +719,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        for agent in node.agent.values():
+            # agents without transitions still have their assertions checked
+            if len(agent.decision_logic.args) != 0 and len(agent.decision_logic.asserts) != 0:
+                agent_guard_dict[agent.id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
@@ -813,6 +817,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        for agent in node.agent.values():
+            # agents without transitions still have their assertions checked
+            if len(agent.decision_logic.args) != 0 and len(agent.decision_logic.asserts) != 0:
+                agent_guard_dict[agent.id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
-- 
2.43.0


From ac97ffe57ece3bb555c1573ffdc45a97863fc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 10/69] fix: unroll sum over other agents into additions in
 guards

---
 verse/automaton/guard.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..0471b96 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -68,12 +68,12 @@ class ValueSubstituter(ast.NodeTransformer):
                 self.generic_visit(node)
                 return ast.BoolOp(op=ast.And(), values=self.val)
             elif node.op == ReductionType.Sum:
-                self.generic_visit(node) # NOTE: TESTING
-                return ast.Call(
-                    func=ast.Name(id="sum", ctx=ast.Load()),
-                    args=[ast.List(elts=self.val, ctx=ast.Load())],
-                    keywords=[]
-                )
+                self.generic_visit(node)
+                # nested additions, which the guard evaluation handles like any arithmetic
+                res = ast.Constant(value=0)
+                for i, val in enumerate(self.val):
+                    res = val if i == 0 else ast.BinOp(left=res, op=ast.Add(), right=val)
+                return res
         self.generic_visit(node)
         return node
 
-- 
2.43.0


From 110e8891bea4b734d2709b92df386ab176a8eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 11/69] fix: unroll nested any/all/sum in guards

---
 verse/automaton/guard.py | 16 +++++++++-------
 verse/parser/parser.py   |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 0471b96..bf3761a 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -1176,14 +1176,16 @@ class GuardExpressionAst:
         cont_var_updater = {}
         for i in range(len(self.ast_list)):
             root = self.ast_list[i]
-            nodes = ast.walk(root)
-            for node in nodes:
+            # Unroll from the outside in, until no (nested) reduction is left
+            while True:
                 # TODO: Find a faster way to access nodes in the tree
-                if isinstance(node, Reduction):
-                    new_node = self.unroll_any_all_new(
-                        node, cont_var_dict, disc_var_dict, len_dict, cont_var_updater
-                    )
-                    root = NodeSubstituter(node, new_node).visit(root)
+                node = next((n for n in ast.walk(root) if isinstance(n, Reduction)), None)
+                if node is None:
+                    break
+                new_node = self.unroll_any_all_new(
+                    node, cont_var_dict, disc_var_dict, len_dict, cont_var_updater
+                )
+                root = NodeSubstituter(node, new_node).visit(root)
             self.ast_list[i] = root
         return cont_var_updater
 
diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index d095f2b..3a2b506 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -147,7 +147,7 @@ class Reduction(CustomIR):
     value: ast.AST
 
     def __eq__(self, o) -> bool:
-        if o == None:
+        if not isinstance(o, Reduction):
             return False
         return (
             self.op == o.op
-- 
2.43.0


From 4575278421ce656c95d10fe38feb304d605ab88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 12/69] fix: unroll nested any/all/sum from the innermost out

---
 verse/automaton/guard.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index bf3761a..b838ae2 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -1176,12 +1176,14 @@ class GuardExpressionAst:
         cont_var_updater = {}
         for i in range(len(self.ast_list)):
             root = self.ast_list[i]
-            # Unroll from the outside in, until no (nested) reduction is left
+            # Unroll from the innermost out (an inner variable may hide an outer one), until no
+            # reduction is left
             while True:
                 # TODO: Find a faster way to access nodes in the tree
-                node = next((n for n in ast.walk(root) if isinstance(n, Reduction)), None)
-                if node is None:
+                nodes = [n for n in ast.walk(root) if isinstance(n, Reduction)]
+                if not nodes:
                     break
+                node = nodes[-1]
                 new_node = self.unroll_any_all_new(
                     node, cont_var_dict, disc_var_dict, len_dict, cont_var_updater
                 )
-- 
2.43.0


From bc59a6970e6b27758f00fe07483b5fdebf5ab47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 13/69] fix: report an assertion violated by part of the states
 that meet its precondition

---
 verse/analysis/verifier.py | 43 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..17eeb79 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1106,7 +1106,10 @@ class Verifier:
                 resets = defaultdict(list)
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
-                    pre_expr = a.pre
+                    # Violated if some state in the set meets the precondition but not the condition
+                    violation = ast.BoolOp(
+                        op=ast.And(), values=[a.pre, ast.UnaryOp(op=ast.Not(), operand=a.cond)]
+                    )
 
                     def eval_expr(expr):
                         ge = GuardExpressionAst([copy.deepcopy(expr)])
@@ -1116,28 +1119,26 @@ class Verifier:
                         if sat:
                             sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                             if sat:
-                                sat, contained = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                                sat = sat and contained
+                                sat, _ = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                         return sat
 
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    if eval_expr(violation):
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts:
-- 
2.43.0


From 57298ae97ca43e397d7309e92a6f11ea938fa50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 14/69] fix: verification with unsafe_continue reports the
 assertion instead of crashing

---
 verse/analysis/verifier.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 17eeb79..9d2b40d 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -571,9 +571,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
-            if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
+            if config.unsafe_continue:
+                pass  # keep the whole tube
+            elif not consts.reachability_method == ReachabilityMethod.STAR_SETS:
                 for agent in node.agent:
                     node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             else:
@@ -1670,10 +1672,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
-            for agent in node.agent:
-                node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
+            if not config.unsafe_continue:
+                for agent in node.agent:
+                    node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             return (
                 node.id,
                 later,
-- 
2.43.0


From 8d2e1f1f624ee2a27cb88440a1aa084faf3230bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 15/69] fix: substitute whole variable names when applying a
 reset to a box

---
 verse/analysis/verifier.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 9d2b40d..25dcb31 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from dataclasses import dataclass
 from collections import defaultdict
-import copy, itertools, functools, pprint
+import copy, itertools, functools, pprint, re
 from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
@@ -30,6 +30,7 @@ pp = functools.partial(pprint.pprint, compact=True, width=130)
 
 PathDiffs = List[Tuple[BaseAgent, ModePath]]
 EGO, OTHERS = "ego", "others"
+DOTTED_NAME = r"[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*"
 
 
 class ReachabilityMethod(Enum):
@@ -1322,8 +1323,9 @@ class Verifier:
                 else:
                     tmp = expr.split(".")
                     if "map" in tmp[0]:
-                        for var in disc_var_dict:
-                            expr = expr.replace(var, f"'{disc_var_dict[var]}'")
+                        expr = Verifier._substitute(
+                            expr, {var: f"'{val}'" for var, val in disc_var_dict.items()}
+                        )
                         res = eval(expr)
                         if not isinstance(res, list):
                             res = [res]
@@ -1350,9 +1352,10 @@ class Verifier:
                     raise ValueError(f"Reset continuous variable {lhs} not found")
                 # substituting low variables
 
+                used_names = set(re.findall(DOTTED_NAME, expr))
                 symbols = []
                 for var in cont_var_dict:
-                    if var in expr:
+                    if var in used_names:
                         symbols.append(var)
 
                 # TODO: Implement this function
@@ -1366,9 +1369,9 @@ class Verifier:
 
                 for comb in comb_list:
                     val_dict = {}
-                    tmp = copy.deepcopy(expr)
-                    for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
+                    tmp = Verifier._substitute(
+                        expr, {symbol: f"({val})" for symbol, val in zip(symbols, comb)}
+                    )
                     res = eval(tmp, {}, val_dict)
                     lb = min(lb, res)
                     ub = max(ub, res)
@@ -1504,6 +1507,11 @@ class Verifier:
         return dest, new_state
 
 
+    @staticmethod
+    def _substitute(expr: str, values: Dict[str, str]) -> str:
+        """Replaces whole (dotted) variable names, so that e.g. ego.x leaves ego.x1 alone"""
+        return re.sub(DOTTED_NAME, lambda m: values.get(m.group(), m.group()), expr)
+
     @staticmethod
     def _get_combinations(symbols, cont_var_dict):
         data_list = []
-- 
2.43.0


From 109af8259c60f39bb3591ef4c27efc13fa6dfc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 16/69] fix: substitute arguments only once in shared
 sub-expressions of a helper

---
 verse/parser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 3a2b506..dd2a80b 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -292,6 +292,13 @@ class ArgSubstituter(ast.NodeTransformer):
     def __init__(self, args: Dict[str, ast.expr]):
         super().__init__()
         self.args = args
+        self.done = {}
+
+    def visit(self, node):
+        # Sub-expressions can be shared (uses of one local variable); substitute in each just once
+        if id(node) not in self.done:
+            self.done[id(node)] = (node, super().visit(node))
+        return self.done[id(node)][1]
 
     def visit_arg(self, node):
         if node.arg in self.args:
-- 
2.43.0


From 90865ab3c9469b7f7250e090aac50d23b62ddb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 17/69] fix: reductions in resets are unrolled in verification

---
 verse/analysis/verifier.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 25dcb31..4869fb0 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1172,7 +1172,9 @@ class Verifier:
                         any_contained = any_contained or is_contained
                     # TODO: Can we also store the cont and disc var dict so we don't have to call sensor again?
                     if guard_satisfied and combine_len == 1:
-                        reset_expr = ResetExpression((path.var, path.val_veri))
+                        reset_expr = Verifier.build_reset_expression(
+                            path, new_cont_var_dict, discrete_variable_dict, len_dict
+                        )
                         resets[reset_expr.var].append(
                             (
                                 reset_expr,
@@ -1287,6 +1289,14 @@ class Verifier:
             for unrolled_variable, unrolled_variable_index in updater[variable]:
                 cont_var_dict[unrolled_variable] = cont_var_dict[variable][unrolled_variable_index]
 
+    @staticmethod
+    def build_reset_expression(path: ModePath, cont_var_dict, disc_var_dict, len_dict):
+        """The reset of a path, with reductions over other agents unrolled as in guards"""
+        val = GuardExpressionAst([path.val_veri])
+        cont_var_updater = val.parse_any_all_new(cont_var_dict, disc_var_dict, len_dict)
+        Verifier.apply_cont_var_updater(cont_var_dict, cont_var_updater)
+        return ResetExpression((path.var, val.ast_list[0]))
+
     @staticmethod
     def apply_reset(
         agent: BaseAgent, reset_list, all_agent_state, track_map
@@ -1736,7 +1746,9 @@ class Verifier:
                     # Build reset_tuples for each path in the list
                     reset_tuples = []
                     for p in path:  # path is now a list of ModePath
-                        reset_expr = ResetExpression((p.var, p.val_veri))
+                        reset_expr = Verifier.build_reset_expression(
+                            p, cont_vars, disc_vars, len_dict
+                        )
                         reset_tuple = (reset_expr, disc_vars, cont_vars, 0, p)  # guard_idx = 0 as placeholder
                         reset_tuples.append(reset_tuple)
                     
-- 
2.43.0


From 33246858dac3e0df93d3c160e7f2905be384d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 18/69] fix: verification keeps following states that take no
 transition in the first window

---
 verse/analysis/verifier.py | 47 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 4869fb0..87a5b2a 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -567,7 +567,7 @@ class Verifier:
 
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
-        asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
+        asserts, all_possible_transitions, all_leave = Verifier.get_transition_verify_opt(
             config, new_cache, paths_to_sim, node, consts.lane_map, consts.sensor
         )
         node.assert_hits = asserts
@@ -677,13 +677,13 @@ class Verifier:
             next_nodes.append(tmp)
 
         """Truncate trace of current node based on max_end_idx"""
-        """Only truncate when there's transitions"""
+        """Only truncate when no state stays in this node"""
         if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
-            if all_possible_transitions:
+            if all_possible_transitions and all_leave:
                 for agent_idx in node.agent:
                     node.trace[agent_idx] = node.trace[agent_idx][: (max_end_idx + 1) * 2]
         else:
-            if all_possible_transitions:
+            if all_possible_transitions and all_leave:
                 for agent_idx in node.agent:
                     node.trace[agent_idx] = node.trace[agent_idx][: (max_end_idx + 1)]            
         return (
@@ -934,6 +934,7 @@ class Verifier:
     ) -> Tuple[
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
+        bool,  # whether every state takes one of the transitions by the last of their steps
     ]:
         # For each agent
         agent_guard_dict = defaultdict(list)
@@ -965,7 +966,7 @@ class Verifier:
                 ]
                 if len(paths) == 0:
                     # print(red("full cache"))
-                    return None, cached_trans
+                    return None, cached_trans, True
 
                 path_transitions = defaultdict(int)
                 for seg in cache.values():
@@ -1051,7 +1052,7 @@ class Verifier:
 
         # pp(("trace len", trace_length, {a: len(t) for a, t in node.trace.items()}))
         guard_hits = []
-        guard_hit = False
+        any_contained = False
         reduction_rate = 10
         reduction_queue = []
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
@@ -1092,10 +1093,9 @@ class Verifier:
             if min_trans_ind != None and idx > min_trans_ind:
                 if hits:
                     guard_hits.append((hits, state_dict, idx))
-                    guard_hit = True
                     break
                 else:
-                    return None, cached_trans
+                    return None, cached_trans, True
             hits = []
 
             asserts = defaultdict(list)
@@ -1211,12 +1211,9 @@ class Verifier:
             if reduction_needed or combine_len > 1:
                 continue
             if len(asserts) > 0:
-                return (asserts, idx), None
+                return (asserts, idx), None, False
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
-                guard_hit = True
-            elif guard_hit:
-                break
             if any_contained:
                 break
         reset_func = Verifier.apply_reset
@@ -1253,8 +1250,12 @@ class Verifier:
         count = 0
         for agent in reset_dict:
             for reset_idx in reset_dict[agent]:
-                for dest in reset_dict[agent][reset_idx]:
-                    reset_data = tuple(map(list, zip(*reset_dict[agent][reset_idx][dest])))
+                for dest, window in [
+                    (dest, window)
+                    for dest, entries in reset_dict[agent][reset_idx].items()
+                    for window in Verifier.split_windows(entries)
+                ]:
+                    reset_data = tuple(map(list, zip(*window)))
                     # paths = [r[-1] for r in reset_data[-1]]
                     paths = [r[-1] for r in reset_data[-1][0]]
                     transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
@@ -1281,7 +1282,17 @@ class Verifier:
                         possible_transitions.append(transition)
                         # print(transition[4])
         # Return result
-        return None, possible_transitions + cached_trans
+        return None, possible_transitions + cached_trans, any_contained
+
+    @staticmethod
+    def split_windows(entries):
+        """Splits (reset rect, hit idx, ...) entries where hits are some steps apart"""
+        windows = []
+        for entry in entries:
+            if not windows or entry[1] > windows[-1][-1][1] + 1:
+                windows.append([])
+            windows[-1].append(entry)
+        return windows
 
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
@@ -1685,7 +1696,7 @@ class Verifier:
                 node.trace[agent_id] = trace.tolist()
     
         # Check guards once (no loop)
-        asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
+        asserts, all_possible_transitions, all_leave = Verifier.get_transition_verify_opt(
             config, {}, [], node, consts.lane_map, consts.sensor
         )
         node.assert_hits = asserts
@@ -1792,8 +1803,8 @@ class Verifier:
                 )
                 next_nodes.append(tmp)
 
-        # As with normal verify, truncate trace if transitions occurred
-        if all_possible_transitions:
+        # As with normal verify, truncate trace if every state takes a transition
+        if all_possible_transitions and all_leave:
             max_end_idx = max(idx[-1] for _, _, _, _, idx, _ in all_possible_transitions)
             for agent_idx in node.agent:
                 node.trace[agent_idx] = node.trace[agent_idx][: (max_end_idx + 1) * 2]
-- 
2.43.0


From e08a2f855dee803dd64b004d7221264ad980ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 19/69] fix: verification follows states that enable only some
 of the possible resets

---
 verse/analysis/verifier.py | 58 +++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 87a5b2a..68571e0 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1107,6 +1107,18 @@ class Verifier:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
                 resets = defaultdict(list)
+
+                def eval_expr(expr):
+                    ge = GuardExpressionAst([copy.deepcopy(expr)])
+                    cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
+                    Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
+                    sat = ge.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
+                    if sat:
+                        sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
+                        if sat:
+                            sat, _ = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
+                    return sat
+
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
                     # Violated if some state in the set meets the precondition but not the condition
@@ -1114,17 +1126,6 @@ class Verifier:
                         op=ast.And(), values=[a.pre, ast.UnaryOp(op=ast.Not(), operand=a.cond)]
                     )
 
-                    def eval_expr(expr):
-                        ge = GuardExpressionAst([copy.deepcopy(expr)])
-                        cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
-                        Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
-                        sat = ge.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
-                        if sat:
-                            sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                            if sat:
-                                sat, _ = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                        return sat
-
                     if eval_expr(violation):
                         if combine_len == 1:
                             label = a.label if a.label != None else f"<assert {i}>"
@@ -1197,8 +1198,8 @@ class Verifier:
                     break
                 if combine_len == 1:
                     # Perform combination over all possible resets to generate all possible real resets
-                    combined_reset_list = list(itertools.product(*resets.values()))
-                    if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
+                    combined_reset_list = Verifier.combine_resets(resets, eval_expr)
+                    if len(combined_reset_list) == 0:
                         continue
                     for i in range(len(combined_reset_list)):
                         # Compute reset_idx
@@ -1284,6 +1285,37 @@ class Verifier:
         # Return result
         return None, possible_transitions + cached_trans, any_contained
 
+    @staticmethod
+    def combine_resets(resets, possible):
+        """All combinations of resets (var -> list of reset info) that some state of the set takes.
+        `possible` tells whether some state of the set satisfies an expression."""
+        by_cond = {}
+        for infos in resets.values():
+            for info in infos:
+                cond = info[-1].cond_veri
+                by_cond.setdefault(unparse(cond), (cond, []))[1].append(info)
+        # A state may enable just some of the possible paths, and so assign just some of the variables
+        cells = [([], [])]
+        for cond, infos in by_cond.values():
+            if len(resets) <= 1 or len(by_cond) <= 1:
+                cells = [(enabled + infos, conds) for enabled, conds in cells]
+                continue
+            options = [(infos, cond), ([], ast.UnaryOp(op=ast.Not(), operand=cond))]
+            cells = [
+                (enabled + more, conds + [extra])
+                for enabled, conds in cells
+                for more, extra in options
+                if possible(ast.BoolOp(op=ast.And(), values=conds + [extra]))
+            ]
+        combinations = {}
+        for enabled, _ in cells:
+            ids = set(map(id, enabled))
+            enabled = [[i for i in infos if id(i) in ids] for infos in resets.values()]
+            for combination in itertools.product(*filter(None, enabled)):
+                if combination:
+                    combinations[tuple(map(id, combination))] = combination
+        return list(combinations.values())
+
     @staticmethod
     def split_windows(entries):
         """Splits (reset rect, hit idx, ...) entries where hits are some steps apart"""
-- 
2.43.0


From d7d6f940cc788a3e300497131cc0b7468554371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 20/69] fix: verification with small initial segments follows
 segments that enter late

---
 verse/analysis/verifier.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 68571e0..cc55866 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1051,6 +1051,11 @@ class Verifier:
 
 
         # pp(("trace len", trace_length, {a: len(t) for a, t in node.trace.items()}))
+        # The step in which the last segment of initial states enters the tube
+        last_entry_idx = max(
+            (len(inits) - 1) // config.init_seg_length * config.init_seg_length
+            for inits in node.init.values()
+        )
         guard_hits = []
         any_contained = False
         reduction_rate = 10
@@ -1215,7 +1220,7 @@ class Verifier:
                 return (asserts, idx), None, False
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
-            if any_contained:
+            if any_contained and idx >= last_entry_idx:
                 break
         reset_func = Verifier.apply_reset
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
@@ -1318,12 +1323,21 @@ class Verifier:
 
     @staticmethod
     def split_windows(entries):
-        """Splits (reset rect, hit idx, ...) entries where hits are some steps apart"""
+        """Splits (reset rect, hit idx, ...) entries where hits are some steps apart.
+        A window has one rect per step, as its later ones start that many steps later"""
         windows = []
         for entry in entries:
             if not windows or entry[1] > windows[-1][-1][1] + 1:
                 windows.append([])
-            windows[-1].append(entry)
+            window = windows[-1]
+            if window and entry[1] == window[-1][1] and isinstance(entry[0], (list, np.ndarray)):
+                (prev_lo, prev_hi), (lo, hi) = window[-1][0], entry[0]
+                window[-1] = (
+                    [np.minimum(prev_lo, lo).tolist(), np.maximum(prev_hi, hi).tolist()],
+                    *window[-1][1:],
+                )
+            else:
+                window.append(entry)
         return windows
 
     @staticmethod
-- 
2.43.0


From 2f3482f0d4fc959a7c8419f0f9d1ec20d2a693ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 21/69] fix: tubes from samples enclose the samples and allow a
 last step without initial spread

---
 verse/analysis/dryvr.py      | 10 ++++++++--
 verse/analysis/dryvr_disc.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/dryvr.py b/verse/analysis/dryvr.py
index 1af652d..8323598 100644
--- a/verse/analysis/dryvr.py
+++ b/verse/analysis/dryvr.py
@@ -24,8 +24,8 @@ def all_sensitivities_calc(training_traces: np.ndarray, initial_radii: np.ndarra
         normalized_initial_points: np.array = (
             training_traces[:, 0, 1:] / normalizing_initial_set_radii
         )
-        initial_distances = (
-            spatial.distance.pdist(normalized_initial_points, "chebyshev") + _SMALL_EPSILON
+        initial_distances = np.maximum(
+            spatial.distance.pdist(normalized_initial_points, "chebyshev"), _SMALL_EPSILON
         )
         for cur_time_ind in range(1, trace_len):
             y_points[cur_dim_ind - 1, cur_time_ind - 1] = np.max(
@@ -75,6 +75,12 @@ def get_reachtube_segment(
         points[:, :, 1] = np.log(points[:, :, 1])
         for dim_ind in range(1, ndims):
             new_min = min(np.min(points[dim_ind - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
+            if initial_radii[dim_ind - 1] == 0 and trace_len == 2:
+                # only one point, nothing to fit
+                df[1, dim_ind] = normalizing_initial_set_radii[dim_ind - 1] * np.exp(
+                    points[dim_ind - 1, 1, 1]
+                )
+                continue
             if initial_radii[dim_ind - 1] == 0:
                 # exclude initial set, then add true minimum points
                 new_points: np.ndarray = np.row_stack(
diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..88359e1 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -24,8 +24,8 @@ def all_sensitivities_calc(training_traces: np.ndarray, initial_radii: np.ndarra
         # keyi: move out of loop
         normalized_initial_points: np.array = training_traces[:,
                                                               0, 1:] / normalizing_initial_set_radii
-        initial_distances = spatial.distance.pdist(
-            normalized_initial_points, 'chebyshev') + _SMALL_EPSILON
+        initial_distances = np.maximum(spatial.distance.pdist(
+            normalized_initial_points, 'chebyshev'), _SMALL_EPSILON)
         for cur_time_ind in range(1, trace_len):
             y_points[cur_dim_ind - 1, cur_time_ind - 1] = np.max((spatial.distance.pdist(
                 np.reshape(training_traces[:, cur_time_ind, cur_dim_ind],
@@ -60,6 +60,12 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
         points[:, :, 1] = np.log(points[:, :, 1])
         for dim_ind in range(1, ndims):
             new_min = min(np.min(points[dim_ind - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
+            if initial_radii[dim_ind - 1] == 0 and trace_len == 2:
+                # only one point, nothing to fit
+                df[1, dim_ind] = normalizing_initial_set_radii[dim_ind - 1] * np.exp(
+                    points[dim_ind - 1, 1, 1]
+                )
+                continue
             if initial_radii[dim_ind - 1] == 0:
                 # exclude initial set, then add true minimum points
                 new_points: np.ndarray = np.row_stack(
-- 
2.43.0


From 90a99b28eba13a64cf2a98d5127aefea4359061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 22/69] fix: discrete and mixed-monotone tubes start from every
 initial box, not only the first

---
 verse/analysis/verifier.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index cc55866..26848c9 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -468,9 +468,7 @@ class Verifier:
                     else:
                         sim_trace_num = SIMTRACENUM              
 
-                    init = inits[0] # FIXME: this makes no sense, should instead mirror what regular dryvr does; assuming this was put here as a placeholder
-                    if isinstance(init, np.ndarray):
-                        init = init.tolist()
+                    init = combine_all(inits)
                     cur_bloated_tube = calc_bloated_tube_dryvr(
                         mode,
                         init,
@@ -528,7 +526,7 @@ class Verifier:
                     )
                     cur_bloated_tube = calculate_bloated_tube_mixmono_cont(
                         mode,
-                        inits,
+                        [combine_all(inits)],
                         uncertain_param,
                         remain_time,
                         consts.time_step,
@@ -541,7 +539,7 @@ class Verifier:
                     )
                     cur_bloated_tube = calculate_bloated_tube_mixmono_disc(
                         mode,
-                        inits,
+                        [combine_all(inits)],
                         uncertain_param,
                         remain_time,
                         consts.time_step,
-- 
2.43.0


From fbc1048b5b2e5ce0dbb370b590628268bccbebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 23/69] fix: initial widths within rounding errors no longer
 inflate tubes without bound

---
 verse/analysis/dryvr.py      | 7 +++++++
 verse/analysis/dryvr_disc.py | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/dryvr.py b/verse/analysis/dryvr.py
index 8323598..09126fe 100644
--- a/verse/analysis/dryvr.py
+++ b/verse/analysis/dryvr.py
@@ -5,6 +5,7 @@ from scipy import spatial
 _TRUE_MIN_CONST = -10
 _EPSILON = 1.0e-6
 _SMALL_EPSILON = 1e-10
+_ROUNDING = 1e-12
 SIMTRACENUM = 10
 
 PW = "PW"
@@ -51,6 +52,11 @@ def get_reachtube_segment(
     ndims: int = training_traces.shape[2]  # This includes time
     trace_len: int = training_traces.shape[1]
     center_trace: np.ndarray = training_traces[0, :, :]
+    # A spread within rounding errors tells nothing about the sensitivity
+    rounding = np.where(
+        initial_radii <= _ROUNDING * np.abs(center_trace[0, 1:]), initial_radii, 0.0
+    )
+    initial_radii = initial_radii - rounding
     trace_initial_time = center_trace[0, 0]
     x_points: np.ndarray = center_trace[:, 0] - trace_initial_time
     assert np.all(training_traces[0, :, 0] == training_traces[1:, :, 0])
@@ -147,6 +153,7 @@ def get_reachtube_segment(
     else:
         print("Discrepancy computation method,", method, ", is not supported!")
         raise ValueError
+    df[:, 1:] += rounding
     assert np.all(df >= 0)
     reachtube_segment: np.ndarray = np.zeros((trace_len - 1, 2, ndims))
     reachtube_segment[:, 0, :] = np.minimum(
diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 88359e1..94a91e6 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -5,6 +5,7 @@ from scipy import spatial
 _TRUE_MIN_CONST = -10
 _EPSILON = 1.0e-6
 _SMALL_EPSILON = 1e-10
+_ROUNDING = 1e-12
 SIMTRACENUM = 10
 
 PW = "PW"
@@ -19,7 +20,7 @@ def all_sensitivities_calc(training_traces: np.ndarray, initial_radii: np.ndarra
     y_points: np.array = np.zeros(
         (normalizing_initial_set_radii.shape[0], trace_len - 1))
     normalizing_initial_set_radii[np.where(
-        normalizing_initial_set_radii < 1e-10)] = 1.0
+        normalizing_initial_set_radii == 0)] = 1.0
     for cur_dim_ind in range(1, ndims):
         # keyi: move out of loop
         normalized_initial_points: np.array = training_traces[:,
@@ -38,6 +39,11 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
     ndims: int = training_traces.shape[2]  # This includes time
     trace_len: int = training_traces.shape[1]
     center_trace: np.ndarray = training_traces[0, :, :]
+    # A spread within rounding errors tells nothing about the sensitivity
+    rounding = np.where(
+        initial_radii <= _ROUNDING * np.abs(center_trace[0, 1:]), initial_radii, 0.0
+    )
+    initial_radii = initial_radii - rounding
     trace_initial_time = center_trace[0, 0]
     x_points: np.ndarray = center_trace[:, 0] - trace_initial_time
     assert np.all(training_traces[0, :, 0] == training_traces[1:, :, 0])
@@ -115,6 +121,7 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
     else:
         print('Discrepancy computation method,', method, ', is not supported!')
         raise ValueError
+    df[:, 1:] += rounding
     assert (np.all(df >= 0))
     reachtube_segment: np.ndarray = np.zeros((trace_len, 2, ndims))
     reachtube_segment[:, 0, :] = center_trace - df
-- 
2.43.0


From d51c50192031f2d697880f1d737709367082432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 24/69] fix: analysis trees keep a snapshot of the agents, so
 that later edits are noticed

---
 verse/analysis/analysis_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..c5fe051 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
-import json
+import copy, json
 import numpy.typing as nptyp, numpy as np, portion
 import networkx as nx
 from matplotlib import colors
@@ -134,7 +134,8 @@ class AnalysisTreeNode:
             mode=mode,
             static=static,
             uncertain_param=uncertain_param,
-            agent=agent,
+            # Later runs may change the agents (e.g. their decision logics)
+            agent={agent_id: copy.copy(a) for agent_id, a in agent.items()},
             ndigits=ndigits,
             type=type,
             trace={},
-- 
2.43.0


From a3971619ed7320cbb8ebc5719c08011592f9dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 25/69] fix: parallel simulation keeps the assertion results

---
 verse/analysis/simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 6d55ba8..ca2bfc9 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -216,7 +216,7 @@ class Simulator:
         later: int,
         remain_time: float,
         consts: SimConsts,
-    ) -> Tuple[int, int, List[AnalysisTreeNode], Dict[str, TraceType], list]:
+    ) -> Tuple[int, int, List[AnalysisTreeNode], Dict[str, TraceType], Optional[Dict[str, List[str]]], list]:
         if config.print_level >= 1:
             print("=============================================================")
             print(f"node {node.id} start: {node.start_time}")
@@ -264,6 +264,7 @@ class Simulator:
                 later,
                 [], 
                 node.trace,
+                asserts,
                 cache_updates
             )
 
@@ -279,7 +280,7 @@ class Simulator:
                 node.trace[agent_idx] = node.trace[agent_idx][: transition_idx + 1]
 
         if asserts != None:  # FIXME
-            return (node.id, later, [], node.trace, cache_updates)
+            return (node.id, later, [], node.trace, asserts, cache_updates)
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
         else:
@@ -300,7 +301,7 @@ class Simulator:
                         )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
-                return (node.id, later, [], node.trace, cache_updates)
+                return (node.id, later, [], node.trace, asserts, cache_updates)
 
             transit_agents = transitions.keys()
             # pp(("transit agents", transit_agents))
@@ -359,14 +360,15 @@ class Simulator:
                 next_nodes.append(tmp)
             # print(len(next_nodes))
             # print(f"node {node.id} dur {timeit.default_timer() - t}")
-            return (node.id, later, next_nodes, node.trace, cache_updates)
+            return (node.id, later, next_nodes, node.trace, asserts, cache_updates)
 
-    def proc_result(self, id, later, next_nodes, traces, cache_updates):
+    def proc_result(self, id, later, next_nodes, traces, assert_hits, cache_updates):
         t = timeit.default_timer()
         # print("got id:", id)
         done_node = self.nodes[id]
         done_node.child = next_nodes
         done_node.trace = traces
+        done_node.assert_hits = assert_hits
         last_id = self.nodes[-1].id
         # assert max(n.id for n in self.nodes) == last_id
         for i, node in enumerate(next_nodes):
@@ -501,8 +503,7 @@ class Simulator:
                 break
             if wait:
                 [res], remaining = ray.wait(self.result_refs)
-                id, later, next_nodes, traces, cache_updates = ray.get(res)
-                self.proc_result(id, later, next_nodes, traces, cache_updates)
+                self.proc_result(*ray.get(res))
                 self.result_refs = remaining
         # print("cached", self.num_cached)
         # pp(self.cache.get_cached_inits(3))
-- 
2.43.0


From 11d403f270c6a3948b246736e900c09c96f34543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 26/69] fix: incremental analysis reuses only cached results
 that apply to the node

---
 verse/analysis/incremental.py |  73 ++++++---------
 verse/analysis/simulator.py   | 115 ++++++++++--------------
 verse/analysis/verifier.py    | 162 +++++++++++++---------------------
 3 files changed, 132 insertions(+), 218 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..359db53 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -10,7 +10,7 @@ import itertools, copy, numpy.typing as nptyp, numpy as np
 from verse.analysis.dryvr import _EPSILON
 
 # from verse.analysis.simulator import PathDiffs
-from verse.parser.parser import ControllerIR, ModePath
+from verse.parser.parser import ModePath, unparse
 
 
 @dataclass
@@ -49,53 +49,32 @@ class CachedRTTrans:
 
 
 def to_simulate(
-    old_agents: Dict[str, BaseAgent],
-    new_agents: Dict[str, BaseAgent],
-    cached: Dict[str, CachedSegment],
-) -> Tuple[Dict[str, CachedSegment], Any]:  # s/Any/PathDiffs/
+    old_agents: Dict[str, BaseAgent], new_agents: Dict[str, BaseAgent]
+) -> Tuple[bool, List[Tuple[BaseAgent, ModePath]]]:
+    """Whether the decision logics were changed since, and the paths whose conditions are new"""
     assert set(old_agents.keys()) == set(new_agents.keys())
-    new_cache = {}
-    total_added_paths = []
-    for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
+    changed, added_paths = False, []
+    for agent_id, new_agent in new_agents.items():
+        old_ctlr, new_ctlr = old_agents[agent_id].decision_logic, new_agent.decision_logic
+        if old_ctlr is new_ctlr:
             continue
-        segment = copy.deepcopy(segment)
-        removed_paths, added_paths, reset_changed_paths = [], [], []
-        old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-        old_ctlr, new_ctlr = old_agent.decision_logic, new_agent.decision_logic
-        assert old_ctlr.args == new_ctlr.args
-
-        def group_by_var(ctlr: ControllerIR) -> Dict[str, List[ModePath]]:
-            grouped = defaultdict(list)
-            for path in ctlr.paths:
-                grouped[path.var].append(path)
-            return dict(grouped)
-
-        old_grouped, new_grouped = group_by_var(old_ctlr), group_by_var(new_ctlr)
-        if set(old_grouped.keys()) != set(new_grouped.keys()):
-            raise NotImplementedError("different variable outputs")
-        for var, old_paths in old_grouped.items():
-            new_paths = new_grouped[var]
-            for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
-                if new == None:
-                    removed_paths.append(old)
-                elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
-                    removed_paths.append(old)
-                    added_paths.append(new)
-                elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
-                    reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
-            new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
-    return new_cache, total_added_paths
+        changed = True
+        old_conds = {path.cond_veri and unparse(path.cond_veri) for path in old_ctlr.paths}
+        added_paths.extend(
+            (new_agent, path)
+            for path in new_ctlr.paths
+            if (path.cond_veri and unparse(path.cond_veri)) not in old_conds
+        )
+    return changed, added_paths
+
+
+def num_steps(horizon: float, time_step: float) -> int:
+    return int(np.ceil(horizon / time_step - _EPSILON))
+
+
+def same_step(trace, rows: int, time_step: float) -> bool:
+    """Whether a trace with so many rows per step has this time step"""
+    return len(trace) > rows and abs(trace[rows][0] - trace[0][0] - time_step) < _EPSILON
 
 
 def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
@@ -161,7 +140,7 @@ class CachedTube:
     def __eq__(self, other) -> bool:
         if other is None:
             return False
-        return (self.tube == other.tube).all()
+        return np.array_equal(self.tube, other.tube)
 
 
 class SimTraceCache:
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index ca2bfc9..86c78cc 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -14,7 +14,14 @@ from enum import Enum
 import numpy as np
 
 from verse.agents.base_agent import BaseAgent
-from verse.analysis.incremental import CachedSegment, SimTraceCache, convert_sim_trans, to_simulate
+from verse.analysis.incremental import (
+    CachedSegment,
+    SimTraceCache,
+    convert_sim_trans,
+    num_steps,
+    same_step,
+    to_simulate,
+)
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import ModePath, find, unparse
@@ -226,7 +233,11 @@ class Simulator:
         for agent_id in node.agent:
             if agent_id not in node.trace:
                 if agent_id in cached_segments:
-                    node.trace[agent_id] = cached_segments[agent_id].trace
+                    # The node may start at another time than the one that was cached
+                    trace = cached_segments[agent_id].trace
+                    trace = trace[: num_steps(remain_time, consts.time_step) + 1].copy()
+                    trace[:, 0] += node.start_time - trace[0, 0]
+                    node.trace[agent_id] = trace
                 else:
                     # pp(("sim", agent_id, *mode, *init))
                     # Simulate the trace starting from initial condition
@@ -240,17 +251,28 @@ class Simulator:
         # pp(("cached_segments", cached_segments.keys()))
         # TODO: for now, make sure all the segments comes from the same node; maybe we can do
         # something to combine results from different nodes in the future
-        new_cache, paths_to_sim = {}, []
+        # The transitions before checked_until were ruled out by a previous run, except by changed_paths
+        checked_until, changed_paths = 0, None
         if old_node_id != None:
             if old_node_id[0] != consts.run_num:
                 old_node = find(
                     consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
                 )
                 assert old_node != None
-                new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
+                old_trace = list(old_node.trace.values())[0]
+                if (
+                    all(tuple(old_node.mode[a]) == tuple(node.mode[a]) for a in node.agent)
+                    and old_node.static == node.static
+                    and sim_trans_suit(old_node.init, node.init)
+                    and same_step(old_trace, 1, consts.time_step)
+                ):
+                    checked_until = len(old_trace) - (1 if old_node.child else 0)
+                    changed, changed_paths = to_simulate(old_node.agent, node.agent)
+                    if not changed:
+                        changed_paths = None
 
         asserts, transitions, transition_idx = Simulator.get_transition_simulate(
-            new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
+            checked_until, changed_paths, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
         )
         node.assert_hits = asserts
         
@@ -396,6 +418,8 @@ class Simulator:
                 self.num_cached += 1
             else:
                 assert cached != None
+                if new:
+                    cached.trace = full_trace
                 cached.transitions.extend(
                     convert_sim_trans(
                         aid, transit_agents, done_node.init, transition, transition_idx
@@ -453,6 +477,11 @@ class Simulator:
                     if self.config.incremental:
                         # pp(("check hit", agent_id, mode, init))
                         cached = self.cache.check_hit(agent_id, mode, init, node.init)
+                        if cached != None and not (
+                            same_step(cached.trace, 1, time_step)
+                            and len(cached.trace) > num_steps(remain_time, time_step)
+                        ):
+                            cached = None
                         if cached != None:
                             self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
                         else:
@@ -634,8 +663,8 @@ class Simulator:
 
     @staticmethod
     def get_transition_simulate(
-        cache: Dict[str, CachedSegment],
-        paths: PathDiffs,
+        checked_until: int,
+        changed_paths: Optional[PathDiffs],
         node: AnalysisTreeNode,
         track_map: LaneMap,
         sensor,
@@ -650,62 +679,9 @@ class Simulator:
 
         # For each agent
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = defaultdict(list)
-
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if sim_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", _transitions))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # pp(("min", min_trans_ind))
-                for aid, trans in _transitions:
-                    # TODO: check for asserts
-                    if trans.transition == min_trans_ind:
-                        # pp(("chosen tran", aid, trans))
-                        cached_trans[aid].append((aid, trans.disc, trans.cont, trans.paths))
-                for agent_id in cached_trans:
-                    cached_trans[agent_id] = dedup(cached_trans[agent_id], lambda p: p[:3])
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, dict(cached_trans), min_trans_ind
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    cont_var_dict_template, discrete_variable_dict, len_dict = sensor.sense(
-                        agent, state_dict, track_map
-                    )
-                    for path in agent_paths:
-                        cached_guards[agent_id].append(
-                            (path, discrete_variable_dict, path_transitions[path.cond])
-                        )
+        changed_guard_dict = defaultdict(list)
+        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
+        changed_ids = {id(path) for _, path in changed_paths or []}
 
         for agent, path in paths:
             # Get guard
@@ -720,6 +696,8 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+            if id(path) in changed_ids:
+                changed_guard_dict[agent_id].append((path, discrete_variable_dict))
         for agent in node.agent.values():
             # agents without transitions still have their assertions checked
             if len(agent.decision_logic.args) != 0 and len(agent.decision_logic.asserts) != 0:
@@ -727,9 +705,8 @@ class Simulator:
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
-        for idx in range(trace_length):
-            if min_trans_ind != None and idx >= min_trans_ind:
-                return None, dict(cached_trans), min_trans_ind
+        start_idx = 0 if changed_paths != None else min(checked_until, trace_length - 1)
+        for idx in range(start_idx, trace_length):
             satisfied_guard = []
             all_asserts = defaultdict(list)
             for agent_id in agent_guard_dict:
@@ -743,12 +720,10 @@ class Simulator:
                 continuous_variable_dict, orig_disc_vars, _ = sensor.sense(
                     agent, state_dict, track_map
                 )
-                unchecked_cache_guards = [
-                    g[:2] for g in cached_guards[agent_id] if g[2] < idx
-                ]  # FIXME: off by 1?
+                guard_dict = agent_guard_dict if idx >= checked_until else changed_guard_dict
                 asserts, satisfied = check_sim_transitions(
                     agent,
-                    agent_guard_dict[agent_id] + unchecked_cache_guards,
+                    guard_dict[agent_id],
                     continuous_variable_dict,
                     orig_disc_vars,
                     track_map,
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 26848c9..e49f40c 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -10,11 +10,13 @@ import ray, time
 from verse.parser import unparse
 
 from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTree, TraceType
-from verse.analysis.dryvr import calc_bloated_tube, SIMTRACENUM
+from verse.analysis.dryvr import calc_bloated_tube, SIMTRACENUM, _EPSILON
 from verse.analysis.incremental import (
     ReachTubeCache,
     TubeCache,
     convert_reach_trans,
+    num_steps,
+    same_step,
     to_simulate,
     combine_all,
 )
@@ -241,6 +243,8 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        time_horizon,
+        time_step,
         combine_seg_length=1000,
     ):
         """
@@ -266,6 +270,11 @@ class Verifier:
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
                 cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                if cached != None and not (
+                    same_step(cached.tube, 2, time_step)
+                    and len(cached.tube) >= num_steps(time_horizon, time_step) * 2
+                ):
+                    cached = None
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -275,7 +284,10 @@ class Verifier:
             else:
                 cached = None
             if cached != None:
-                cur_bloated_tube = cached.tube
+                cur_bloated_tube = cached.tube[: num_steps(time_horizon, time_step) * 2].copy()
+            elif combine_seg_idx == 0:
+                # The other segments are combined with the first
+                return None, list(range(0, len(initial_set), combine_seg_length))
             else:
                 missing_seg_idx_list.append(combine_seg_idx)
                 continue
@@ -551,22 +563,23 @@ class Verifier:
                 trace[:, 0] += node.start_time
                 node.trace[agent_id] = trace.tolist()
         # pp(("cached tubes", cached_tubes.keys()))
-        new_cache, paths_to_sim = {}, []
+        # The transitions before checked_until were ruled out by a previous run, except by changed_paths
+        checked_until, changed_paths = 0, None
         if old_node_id != None:
             if old_node_id[0] != consts.run_num:
                 old_node = find(
                     consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
                 )
                 assert old_node != None
-                new_cache, paths_to_sim = to_simulate(
-                    old_node.agent, node.agent, cached_trans_tubes
-                )
-                # pp(("to sim", new_cache.keys(), len(paths_to_sim)))
+                checked_until = Verifier.checked_steps(old_node, node, consts)
+                changed, changed_paths = to_simulate(old_node.agent, node.agent)
+                if not changed:
+                    changed_paths = None
 
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
         asserts, all_possible_transitions, all_leave = Verifier.get_transition_verify_opt(
-            config, new_cache, paths_to_sim, node, consts.lane_map, consts.sensor
+            config, checked_until, changed_paths, node, consts.lane_map, consts.sensor
         )
         node.assert_hits = asserts
 
@@ -694,6 +707,29 @@ class Verifier:
             cache_trans_tube_updates,
         )
 
+    @staticmethod
+    def checked_steps(old_node: AnalysisTreeNode, node: AnalysisTreeNode, consts: ReachConsts) -> int:
+        """The number of steps of node at whose states old_node has no transition"""
+        if (
+            consts.reachability_method == ReachabilityMethod.STAR_SETS
+            or any(tuple(old_node.mode[a]) != tuple(node.mode[a]) for a in node.agent)
+            or old_node.static != node.static
+            or not all(same_step(old_node.trace[a], 2, consts.time_step) for a in node.agent)
+        ):
+            return 0
+        steps = min(len(trace) for trace in (*old_node.trace.values(), *node.trace.values())) // 2
+        for child in old_node.child:
+            steps = min(steps, round((child.start_time - old_node.start_time) / consts.time_step))
+        for a in node.agent:
+            old_trace = np.array(old_node.trace[a])[: steps * 2, 1:]
+            trace = np.array(node.trace[a])[: steps * 2, 1:]
+            if not (
+                np.all(old_trace[::2] <= trace[::2] + _EPSILON)
+                and np.all(trace[1::2] <= old_trace[1::2] + _EPSILON)
+            ):
+                return 0
+        return steps
+
     def proc_result(
         self,
         id,
@@ -844,7 +880,7 @@ class Verifier:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
                             cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                                agent_id, mode, inits, remain_time, time_step, combine_seg_length=init_seg_length
                             )
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                 # FIXME
@@ -928,7 +964,7 @@ class Verifier:
 
     @staticmethod
     def get_transition_verify_opt(
-        config: "ScenarioConfig", cache: Dict[str, CachedRTTrans], paths: PathDiffs, node: AnalysisTreeNode, track_map, sensor
+        config: "ScenarioConfig", checked_until: int, changed_paths: Optional[PathDiffs], node: AnalysisTreeNode, track_map, sensor
     ) -> Tuple[
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
@@ -936,82 +972,10 @@ class Verifier:
     ]:
         # For each agent
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = []
         agent_dict = node.agent
-
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            # _transitions = [trans.transition for seg in cache.values() for trans in seg.transitions]
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if reach_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", len(_transitions)))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # TODO: check for asserts
-                cached_trans = [
-                    (aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths)
-                    for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest))
-                    if tran.transition == min_trans_ind
-                ]
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, cached_trans, True
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    for path in agent_paths:
-                        cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(
-                            agent, state_dict, track_map, False
-                        )
-                        reset = (path.var, path.val_veri)
-                        guard_expression = GuardExpressionAst([path.cond_veri])
-
-                        cont_var_updater = guard_expression.parse_any_all_new(
-                            cont_var_dict_template, discrete_variable_dict, length_dict
-                        )
-                        Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
-                        guard_can_satisfied = guard_expression.evaluate_guard_disc(
-                            agent, discrete_variable_dict, cont_var_dict_template, track_map
-                        )
-                        if not guard_can_satisfied:
-                            continue
-                        cached_guards[agent_id].append(
-                            (
-                                path,
-                                guard_expression,
-                                cont_var_updater,
-                                copy.deepcopy(discrete_variable_dict),
-                                reset,
-                                path_transitions[path.cond],
-                            )
-                        )
+        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
+        changed_ids = {id(path) for _, path in changed_paths or []}
+        start_idx = 0 if changed_paths != None else checked_until
 
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
@@ -1060,11 +1024,11 @@ class Verifier:
         reduction_queue = []
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
             trace_length = int(min(len(v) for v in node.trace.values()))
-            reduction_queue = [(i, i+1, 1) for i in range(0, trace_length)]
+            reduction_queue = [(i, i+1, 1) for i in range(start_idx, trace_length)]
             reduction_queue.reverse()
         else:
             trace_length = int(min(len(v) for v in node.trace.values()) // 2)
-            reduction_queue = [(i, i+1, 1) for i in range(0, trace_length)]
+            reduction_queue = [(i, i+1, 1) for i in range(start_idx, trace_length)]
             reduction_queue.reverse()
         # for idx, end_idx,combine_len in reduction_queue:
         hits = []
@@ -1093,12 +1057,6 @@ class Verifier:
 					)
 					for aid in node.agent
 				}
-            if min_trans_ind != None and idx > min_trans_ind:
-                if hits:
-                    guard_hits.append((hits, state_dict, idx))
-                    break
-                else:
-                    return None, cached_trans, True
             hits = []
 
             asserts = defaultdict(list)
@@ -1153,13 +1111,15 @@ class Verifier:
                 if agent_id not in agent_guard_dict:
                     continue
 
-                unchecked_cache_guards = [
-                    g[:-1] for g in cached_guards[agent_id] if g[-1] < idx
-                ]  # FIXME: off by 1?
-                for guard_expression, continuous_variable_updater, discrete_variable_dict, path in (
-                    agent_guard_dict[agent_id] + unchecked_cache_guards
-                ):
+                for (
+                    guard_expression,
+                    continuous_variable_updater,
+                    discrete_variable_dict,
+                    path,
+                ) in agent_guard_dict[agent_id]:
                     assert isinstance(path, ModePath)
+                    if idx < checked_until and id(path) not in changed_ids:
+                        continue
                     new_cont_var_dict = copy.deepcopy(cont_vars)
                     one_step_guard: GuardExpressionAst = copy.deepcopy(guard_expression)
 
@@ -1286,7 +1246,7 @@ class Verifier:
                         possible_transitions.append(transition)
                         # print(transition[4])
         # Return result
-        return None, possible_transitions + cached_trans, any_contained
+        return None, possible_transitions, any_contained
 
     @staticmethod
     def combine_resets(resets, possible):
@@ -1741,7 +1701,7 @@ class Verifier:
     
         # Check guards once (no loop)
         asserts, all_possible_transitions, all_leave = Verifier.get_transition_verify_opt(
-            config, {}, [], node, consts.lane_map, consts.sensor
+            config, 0, None, node, consts.lane_map, consts.sensor
         )
         node.assert_hits = asserts
 
-- 
2.43.0


From d64ff4a8f3c64dae1258e0be85a64b901fa6779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 27/69] fix: partitioned verification follows every step of a
 window and partitions the initial set

---
 verse/analysis/verifier.py | 115 ++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 46 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index e49f40c..5de8259 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1205,7 +1205,7 @@ class Verifier:
                         reset_dict[agent_id][reset_idx][dest] = []
                     reset_dict[agent_id][reset_idx][dest].append(
                         # (reset_rect, hit_idx, reset_list[-1])
-                        (reset_rect, hit_idx, reset_list)
+                        (reset_rect, hit_idx, [reset_list])
                     )
 
         possible_transitions = []
@@ -1221,8 +1221,13 @@ class Verifier:
                 ]:
                     reset_data = tuple(map(list, zip(*window)))
                     # paths = [r[-1] for r in reset_data[-1]]
-                    paths = [r[-1] for r in reset_data[-1][0]]
-                    transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
+                    # The alternatives for each step, each with one path for every variable that is reset
+                    step_paths = [
+                        [[r[-1] for r in reset_list] for reset_list in reset_lists]
+                        for reset_lists in reset_data[-1]
+                    ]
+                    paths = step_paths[0][0]
+                    transition = (agent, node.mode[agent], dest, *reset_data[:-1], step_paths)
                     src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
                     src_track = node.get_track(agent, node.mode[agent])
                     dest_mode = node.get_mode(agent, dest)
@@ -1292,7 +1297,8 @@ class Verifier:
                 (prev_lo, prev_hi), (lo, hi) = window[-1][0], entry[0]
                 window[-1] = (
                     [np.minimum(prev_lo, lo).tolist(), np.maximum(prev_hi, hi).tolist()],
-                    *window[-1][1:],
+                    window[-1][1],
+                    window[-1][2] + entry[2],
                 )
             else:
                 window.append(entry)
@@ -1677,6 +1683,13 @@ class Verifier:
         for agent_id in node.agent:
             mode = node.mode[agent_id]
             inits = node.init[agent_id]  # List of rects (may have multiple from partitioning)
+            if partition_initial and node.height == 0:
+                # Dimensions are counted from 1, as those of rects with time
+                inits = [
+                    [part[0][1:], part[1][1:]]
+                    for lo, hi in inits
+                    for part in Verifier._partition_rect([[0, *lo], [0, *hi]], n, partition_dims)
+                ]
 
             if agent_id not in node.trace:
                 if len(inits) == 1:
@@ -1724,55 +1737,65 @@ class Verifier:
         if all_possible_transitions:
             for transition in all_possible_transitions:
                 transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
+                if dest_mode is None:
+                    continue
 
-                # NOTE: is this correct, or do I need indices from start to end as well 
-                start_idx = idx[0]  # Use start_idx as the hitting index, end_idx = idx[1] exists sometimes
-                
-                # Get the hitting set at start_idx
-                hitting_rect = combine_rect([node.trace[transit_agent_idx][start_idx * 2], node.trace[transit_agent_idx][start_idx * 2 + 1]])
+                start_idx = idx[0]
+                partitioned_inits = []
+                for step_idx, alternatives in zip(idx, path):
+                    # Get the hitting set at this step
+                    hitting_rect = combine_rect(node.trace[transit_agent_idx][step_idx * 2 : step_idx * 2 + 2])
                 
-                # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
-                partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
+                    # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
+                    partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
                 
-                partitioned_inits = []
-                # TODO: possible to parallelize this too? 
-                for part in partitions:
-                    # Update state_dict with the partition for transit_agent_idx
-                    state_dict = {
-                        aid: (node.trace[aid][start_idx * 2 : start_idx * 2 + 2], node.mode[aid], node.static.get(aid, []))
-                        for aid in node.agent
-                    }
-                    state_dict[transit_agent_idx] = ([part[0], part[1]], node.mode[transit_agent_idx], node.static.get(transit_agent_idx, []))
+                    # TODO: possible to parallelize this too? 
+                    for part_idx, part in enumerate(partitions):
+                        # Update state_dict with the partition for transit_agent_idx
+                        state_dict = {
+                            aid: (node.trace[aid][step_idx * 2 : step_idx * 2 + 2], node.mode[aid], node.static.get(aid, []))
+                            for aid in node.agent
+                        }
+                        state_dict[transit_agent_idx] = ([part[0], part[1]], node.mode[transit_agent_idx], node.static.get(transit_agent_idx, []))
                     
-                    # Re-sense for the partition
-                    temp_dict = state_dict
+                        # Re-sense for the partition
+                        temp_dict = state_dict
 
-                    # I think commenting this if block and the one below should revert the behavior to before
-                    if src_mode != dest_mode:
-                        future_state_dict = copy.deepcopy(state_dict)
-                        future_state_dict[transit_agent_idx] = (future_state_dict[transit_agent_idx][0], dest_mode, future_state_dict[transit_agent_idx][2])
-                        temp_dict = future_state_dict
+                        # I think commenting this if block and the one below should revert the behavior to before
+                        if src_mode != dest_mode:
+                            future_state_dict = copy.deepcopy(state_dict)
+                            future_state_dict[transit_agent_idx] = (future_state_dict[transit_agent_idx][0], dest_mode, future_state_dict[transit_agent_idx][2])
+                            temp_dict = future_state_dict
 
-                    cont_vars, disc_vars, len_dict = consts.sensor.sense(node.agent[transit_agent_idx], temp_dict, consts.lane_map, False)
+                        cont_vars, disc_vars, len_dict = consts.sensor.sense(node.agent[transit_agent_idx], temp_dict, consts.lane_map, False)
                     
-                    if src_mode != dest_mode: # NOTE: fixing disc_vars to how they were before the transition -- this seems pretty inefficient
-                        _, disc_vars, _ = consts.sensor.sense(node.agent[transit_agent_idx], state_dict, consts.lane_map, False)
-
-                    # Build reset_tuples for each path in the list
-                    reset_tuples = []
-                    for p in path:  # path is now a list of ModePath
-                        reset_expr = Verifier.build_reset_expression(
-                            p, cont_vars, disc_vars, len_dict
-                        )
-                        reset_tuple = (reset_expr, disc_vars, cont_vars, 0, p)  # guard_idx = 0 as placeholder
-                        reset_tuples.append(reset_tuple)
+                        if src_mode != dest_mode: # NOTE: fixing disc_vars to how they were before the transition -- this seems pretty inefficient
+                            _, disc_vars, _ = consts.sensor.sense(node.agent[transit_agent_idx], state_dict, consts.lane_map, False)
+
+                        for paths in alternatives:
+                            # Build reset_tuples for each path in the list
+                            reset_tuples = []
+                            for p in paths:  # paths is a list of ModePath
+                                reset_expr = Verifier.build_reset_expression(
+                                    p, cont_vars, disc_vars, len_dict
+                                )
+                                reset_tuple = (reset_expr, disc_vars, cont_vars, 0, p)  # guard_idx = 0 as placeholder
+                                reset_tuples.append(reset_tuple)
                     
-                    # Reapply resets to get the rect for this partition
-                    dest_list, reset_rect = Verifier.apply_reset(
-                        node.agent[transit_agent_idx], reset_tuples, state_dict, consts.lane_map
-                    )
-                    # Assuming dest_list matches dest_mode, add the reset_rect
-                    partitioned_inits.append(reset_rect)
+                            # Reapply resets to get the rect for this partition
+                            dest_list, reset_rect = Verifier.apply_reset(
+                                node.agent[transit_agent_idx], reset_tuples, state_dict, consts.lane_map
+                            )
+                            # Assuming dest_list matches dest_mode, add the reset_rect
+                            # to what this partition is reset to in other steps and alternatives
+                            if part_idx < len(partitioned_inits):
+                                prev_lo, prev_hi = partitioned_inits[part_idx]
+                                partitioned_inits[part_idx] = [
+                                    np.minimum(prev_lo, reset_rect[0]).tolist(),
+                                    np.maximum(prev_hi, reset_rect[1]).tolist(),
+                                ]
+                            else:
+                                partitioned_inits.append(reset_rect)
                 
                 # Create child node with partitioned inits
                 truncated_trace = {}
@@ -1855,7 +1878,7 @@ class Verifier:
             for idx, dim in enumerate(varying_dims):
                 step = (ub[dim] - lb[dim]) / n
                 sub_lb[dim] = lb[dim] + indices[idx] * step
-                sub_ub[dim] = lb[dim] + (indices[idx] + 1) * step
+                sub_ub[dim] = lb[dim] + (indices[idx] + 1) * step if indices[idx] < n - 1 else ub[dim]
             partitions.append([sub_lb, sub_ub])
         return partitions
 
-- 
2.43.0


From 00277d3d712c6f230a767fe85b238bfbc1547b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 28/69] fix: analysis trees with unexpanded nodes, or from
 simulate_simple, are saved and loaded whole

---
 verse/analysis/analysis_tree.py | 2 +-
 verse/analysis/simulator.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index c5fe051..e15911f 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -228,7 +228,7 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(data["trace"][aid]) for aid in data["agent"].keys()}
+                {aid: np.array(t) for aid, t in data["trace"].items()}
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 86c78cc..a1ac3b9 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -554,6 +554,7 @@ class Simulator:
         if max_height == None:
             max_height = float("inf")
 
+        num_nodes = 1
         simulation_queue = []
         simulation_queue.append(root)
         # Perform BFS through the simulation tree to loop through all possible transitions
@@ -649,8 +650,9 @@ class Simulator:
                         init=next_node_init,
                         mode=next_node_mode,
                         start_time=next_node_start_time,
-                        id=-1,
+                        id=num_nodes,
                     )
+                    num_nodes += 1
                     node.child.append(tmp)
                     simulation_queue.append(tmp)
                 # print(red("end sim"))
-- 
2.43.0


From 7885d8cef51ae5f7b47b2eaac81ed182c8b75bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 29/69] fix: tree comparison handles simulations, unexpanded
 nodes and branches that end early

---
 verse/analysis/analysis_tree.py | 111 +++++++++-----------------------
 1 file changed, 29 insertions(+), 82 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index e15911f..2dd0e41 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,5 +1,4 @@
 from enum import Enum, auto
-from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
 import copy, json
 import numpy.typing as nptyp, numpy as np, portion
@@ -336,15 +335,17 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:  # Simulation
             if len(self.nodes) != len(other.nodes):
                 return False
 
             def sim_seg_contains(a: Dict[str, TraceType], b: Dict[str, TraceType]) -> bool:
-                return all(
+                # nodes that were not expanded lack traces
+                return all((aid in a) == (aid in b) for aid in min_agents) and all(
                     a[aid].shape == b[aid].shape
                     and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
                     for aid in min_agents
+                    if aid in a
                 )
 
             def sim_node_contains(a: AnalysisTreeNode, b: AnalysisTreeNode) -> bool:
@@ -365,89 +366,35 @@ class AnalysisTree:
 
             return sim_node_contains(self.root, other.root)
         else:  # Reachability
-            cont_num = len(other.nodes[0].trace[min_agents[0]][0])
-
-            def collect_ranges(
-                n: AnalysisTreeNode,
-            ) -> Dict[str, List[List[portion.Interval]]]:
-                trace_len = len(n.trace[min_agents[0]])
-                cur = {
-                    aid: [
-                        [
-                            portion.closed(n.trace[aid][i][j], n.trace[aid][i + 1][j])
-                            for j in range(cont_num)
-                        ]
-                        for i in range(0, trace_len, 2)
-                    ]
-                    for aid in min_agents
-                }
-                if len(n.child) == 0:
-                    return {aid: cur[aid] for aid in other_agents}
-                else:
-                    children = [collect_ranges(c) for c in n.child]
-                    child_num = len(children)
-                    time_step = round(
-                        n.trace[min_agents[0]][-1][0] - n.trace[min_agents[0]][-2][0],
-                        10,
-                    )
-                    start_time_list = [c.start_time for c in n.child]
-                    min_start_time = min(start_time_list)
-                    bias_list = [
-                        round((c.start_time - min_start_time) / time_step) for c in n.child
-                    ]
-                    trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
-                    trace_len = max(trace_len_list)
-                    combined = {
-                        aid: [
-                            [
-                                reduce(
-                                    portion.Interval.union,
-                                    (
-                                        children[k][aid][i - bias_list[k]][j]
-                                        if i - bias_list[k] >= 0
-                                        and i - bias_list[k] < trace_len_list[k]
-                                        else portion.empty()
-                                        for k in range(child_num)
-                                    ),
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(trace_len)
-                        ]
-                        for aid in other_agents
-                    }
-                    overlap_len = round(
-                        (n.trace[min_agents[0]][-1][0] - min_start_time) / time_step
-                    )
-                    overlap = {
-                        aid: [
-                            [
-                                portion.Interval.union(
-                                    cur[aid][i][j], combined[aid][overlap_len + i][j]
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(-overlap_len, 0)
-                        ]
-                        for aid in other_agents
-                    }
-                    return {
-                        aid: cur[aid][:-overlap_len] + overlap[aid] + combined[aid][overlap_len:]
-                        for aid in other_agents
-                    }
-
-            this_tree, other_tree = collect_ranges(self.root), collect_ranges(other.root)
-            total_len = len(other_tree[min_agents[0]])
-            assert total_len <= len(this_tree[min_agents[0]])
+
+            def collect_ranges(tree: "AnalysisTree") -> Dict[str, Dict[float, List[portion.Interval]]]:
+                """For each agent and time, the values that each dimension takes in any of the nodes"""
+                ranges = {aid: {} for aid in other_agents}
+                for n in tree.nodes:
+                    for aid in other_agents:
+                        # nodes that were not expanded lack traces
+                        trace = n.trace.get(aid, [])
+                        for lower, upper in zip(trace[::2], trace[1::2]):
+                            box = [portion.closed(l, u) for l, u in zip(lower, upper)]
+                            time = round(lower[0], n.ndigits)
+                            if time in ranges[aid]:
+                                box = [a | b for a, b in zip(ranges[aid][time], box)]
+                            ranges[aid][time] = box
+                return ranges
+
+            this_tree, other_tree = collect_ranges(self), collect_ranges(other)
             # bloat and containment
             return all(
-                other_tree[aid][i][j]
-                in this_tree[aid][i][j].apply(
-                    lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
+                time in this_tree[aid]
+                and all(
+                    other_range
+                    in this_range.apply(
+                        lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
+                    )
+                    for other_range, this_range in zip(other_ranges, this_tree[aid][time])
                 )
                 for aid in other_agents
-                for i in range(total_len)
-                for j in range(cont_num)
+                for time, other_ranges in other_tree[aid].items()
             )
 
     @staticmethod
-- 
2.43.0


From fd150ef6c55eaa6330cb89631dd2969fd1f5a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 30/69] fix: loaded trees keep the shape of empty traces and
 the agents' types

---
 verse/analysis/analysis_tree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 2dd0e41..c77b599 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -193,7 +193,9 @@ class AnalysisTreeNode:
         }
         agent_dict = {}
         for agent_id in self.agent:
-            agent_dict[agent_id] = f"{type(self.agent[agent_id])}"
+            agent = self.agent[agent_id]
+            # the agents of a loaded tree are already such strings
+            agent_dict[agent_id] = agent if isinstance(agent, str) else f"{type(agent)}"
         rst_dict["agent"] = agent_dict
 
         return rst_dict
@@ -227,7 +229,11 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(t) for aid, t in data["trace"].items()}
+                {
+                    # traces may be empty (ended by an assertion)
+                    aid: np.array(t).reshape(len(t), 1 + len(data["init"][aid]))
+                    for aid, t in data["trace"].items()
+                }
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
-- 
2.43.0


From 722ecf718d439b17a72a4e85da09e5f4a0fd9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 31/69] fix: planar lanes: arcs beyond half a turn, nearest
 segment of a lane, identifier in configurations

---
 verse/map/lane.py         | 7 ++++---
 verse/map/lane_segment.py | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/verse/map/lane.py b/verse/map/lane.py
index 226b253..383a449 100644
--- a/verse/map/lane.py
+++ b/verse/map/lane.py
@@ -22,17 +22,18 @@ class Lane:
             longitudinal_start += lane_seg.length
 
     def get_lane_segment(self, position: np.ndarray) -> AbstractLane:
-        min_lateral = float("inf")
+        min_distance = float("inf")
         idx = -1
         seg = None
         for seg_idx, segment in enumerate(self.segment_list):
             logitudinal, lateral = segment.local_coordinates(position)
             is_on = 0 - Lane.COMPENSATE <= logitudinal < segment.length
             if is_on:
-                if lateral < min_lateral:
+                distance = segment.distance(position)
+                if distance < min_distance:
                     idx = seg_idx
                     seg = segment
-                    min_lateral = lateral
+                    min_distance = distance
         return idx, seg
 
     def get_heading(self, position: np.ndarray) -> float:
diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 3c3f679..f84b28d 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -218,6 +218,7 @@ class StraightLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -280,7 +281,9 @@ class CircularLane(AbstractLane):
     def local_coordinates(self, position: np.ndarray) -> Tuple[float, float]:
         delta = position - self.center
         phi = np.arctan2(delta[1], delta[0])
-        phi = self.start_phase + wrap_to_pi(phi - self.start_phase)
+        # the arc may be longer than half a turn, so measure from its middle
+        mid_phase = (self.start_phase + self.end_phase) / 2
+        phi = mid_phase + wrap_to_pi(phi - mid_phase)
         r = np.linalg.norm(delta)
         longitudinal = self.direction * (phi - self.start_phase) * self.radius
         lateral = self.direction * (self.radius - r)
@@ -295,6 +298,7 @@ class CircularLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
                 "start_phase": self.start_phase,
-- 
2.43.0


From adecd822ab3a344093dffd03b077400728211289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 32/69] fix: lane-relative guards over boxes cover every
 segment and angle, and segments shared by lanes

---
 verse/automaton/guard.py | 115 +++++++++++++++++++++------------------
 1 file changed, 62 insertions(+), 53 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index b838ae2..73e9e92 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -464,17 +464,20 @@ class GuardExpressionAst:
                         vehicle_pos = (arg1_lower, arg1_upper)
 
                         # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
+                        lane_segs = self._possible_segments(
+                            track_map, vehicle_lane, np.array(vehicle_pos)
+                        )
 
                         # Compute the set of possible lateral values with respect to all possible segments
-                        lateral_set1 = self._handle_lateral_set(lane_seg1, np.array(vehicle_pos))
-                        lateral_set2 = self._handle_lateral_set(lane_seg2, np.array(vehicle_pos))
+                        lateral_sets = [
+                            self._handle_lateral_set(seg, np.array(vehicle_pos))
+                            for seg, _ in lane_segs
+                        ]
 
-                        # Use the union of two sets as the set of possible lateral positions
+                        # Use the union of the sets as the set of possible lateral positions
                         lateral_set = [
-                            min(lateral_set1[0], lateral_set2[0]),
-                            max(lateral_set1[1], lateral_set2[1]),
+                            min(low for low, _ in lateral_sets),
+                            max(high for _, high in lateral_sets),
                         ]
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
@@ -534,20 +537,19 @@ class GuardExpressionAst:
                         vehicle_pos = (arg1_lower, arg1_upper)
 
                         # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
+                        lane_segs = self._possible_segments(
+                            track_map, vehicle_lane, np.array(vehicle_pos)
+                        )
 
                         # Compute the set of possible longitudinal values with respect to all possible segments
-                        longitudinal_set1 = self._handle_longitudinal_set(
-                            lane_seg1, np.array(vehicle_pos)
-                        )
-                        longitudinal_set2 = self._handle_longitudinal_set(
-                            lane_seg2, np.array(vehicle_pos)
-                        )
-                        # Use the union of two sets as the set of possible longitudinal positions
+                        longitudinal_sets = [
+                            (start, self._handle_longitudinal_set(seg, np.array(vehicle_pos)))
+                            for seg, start in lane_segs
+                        ]
+                        # Use the union of the sets as the set of possible longitudinal positions
                         longitudinal_set = [
-                            min(longitudinal_set1[0], longitudinal_set2[0]),
-                            max(longitudinal_set1[1], longitudinal_set2[1]),
+                            min(start + low for start, (low, _) in longitudinal_sets),
+                            max(start + high for start, (_, high) in longitudinal_sets),
                         ]
 
                         if agent_vars != {}: #stars:
@@ -595,6 +597,26 @@ class GuardExpressionAst:
         else:
             raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
 
+    def _possible_segments(self, track_map: LaneMap, lane_idx, position: np.ndarray):
+        """
+        The segments that the lane may choose for some position in the box, see Lane.get_lane_segment,
+        together with the longitudinal position at which each of them starts
+        """
+        lane = track_map.lane_dict[track_map.get_phys_lane(lane_idx)]
+        candidates = []
+        start = 0
+        for seg in lane.segment_list:
+            low, high = self._handle_longitudinal_set(seg, position)
+            if high >= -lane.COMPENSATE and low < seg.length:
+                lateral_low, lateral_high = self._handle_lateral_set(seg, position)
+                nearest = max(lateral_low, -lateral_high, 0) + max(-high, 0)
+                farthest = max(-lateral_low, lateral_high) + max(-low, 0)
+                always = low >= -lane.COMPENSATE and high < seg.length
+                candidates.append((seg, start, nearest, farthest if always else np.inf))
+            start += seg.length
+        limit = min((farthest for *_, farthest in candidates), default=np.inf)
+        return [(seg, start) for seg, start, nearest, _ in candidates if nearest <= limit]
+
     def _handle_longitudinal_set(self, lane_seg: AbstractLane, position: np.ndarray) -> List[float]:
         if lane_seg.type == "Straight":
             # Delta lower
@@ -608,9 +630,6 @@ class GuardExpressionAst:
             longitudinal_high = max(
                 delta0[0] * lane_seg.direction[0], delta1[0] * lane_seg.direction[0]
             ) + max(delta0[1] * lane_seg.direction[1], delta1[1] * lane_seg.direction[1])
-            longitudinal_low += lane_seg.longitudinal_start
-            longitudinal_high += lane_seg.longitudinal_start
-
             assert longitudinal_high >= longitudinal_low
             return longitudinal_low, longitudinal_high
         elif lane_seg.type == "Circular":
@@ -619,39 +638,29 @@ class GuardExpressionAst:
             # Delta upper
             delta1 = position[1, :] - lane_seg.center
 
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
+            # Angles measured from the middle of the arc, where they do not wrap around
+            mid_phase = (lane_seg.start_phase + lane_seg.end_phase) / 2
+            if np.all(delta0 <= 0) and np.all(delta1 >= 0):
+                # The box contains the center
+                low, high = -np.pi, np.pi
+            else:
+                # Otherwise it spans less than half a turn around its middle
+                delta = (delta0 + delta1) / 2
+                phi = np.arctan2(delta[1], delta[0])
+                spans = [
+                    wrap_to_pi(np.arctan2(y, x) - phi)
+                    for x in (delta0[0], delta1[0])
+                    for y in (delta0[1], delta1[1])
                 ]
-            )
-
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
-            longitudinal_low = (
-                min(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
-            )
-            longitudinal_high = (
-                max(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
-            )
+                phi = wrap_to_pi(phi - mid_phase)
+                low, high = phi + min(spans), phi + max(spans)
+                if low < -np.pi or high >= np.pi:
+                    low, high = -np.pi, np.pi
+            ends = [
+                lane_seg.direction * (mid_phase + phi - lane_seg.start_phase) * lane_seg.radius
+                for phi in (low, high)
+            ]
+            longitudinal_low, longitudinal_high = min(ends), max(ends)
 
             assert longitudinal_high >= longitudinal_low
             return longitudinal_low, longitudinal_high
-- 
2.43.0


From 0991736cd5d7b9282b52e1639b675191a818e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 33/69] fix: a transition that the map refuses does not hide
 the other ones

---
 verse/analysis/simulator.py |  3 ++-
 verse/analysis/verifier.py  | 47 +++++++++++++++++++++++++------------
 verse/map/lane_map.py       |  4 +---
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index a1ac3b9..e7cacec 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -764,7 +764,8 @@ class Simulator:
                             print("cond_veri", unparse(paths[0].cond_veri))
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
-                break
+                if transitions:
+                    break
         transitions = {aid: dedup(v, lambda p: (p[1], tuple(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 5de8259..786b344 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1019,6 +1019,9 @@ class Verifier:
             for inits in node.init.values()
         )
         guard_hits = []
+        reset_func = Verifier.apply_reset
+        if config.reachability_method == ReachabilityMethod.STAR_SETS:
+            reset_func = Verifier.apply_reset_stars
         any_contained = False
         reduction_rate = 10
         reduction_queue = []
@@ -1068,6 +1071,7 @@ class Verifier:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
                 resets = defaultdict(list)
+                contained_paths = []
 
                 def eval_expr(expr):
                     ge = GuardExpressionAst([copy.deepcopy(expr)])
@@ -1132,8 +1136,8 @@ class Verifier:
                     guard_satisfied, is_contained = one_step_guard.evaluate_guard_cont(
                         agent, new_cont_var_dict, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS
                     )
-                    if combine_len == 1:
-                        any_contained = any_contained or is_contained
+                    if combine_len == 1 and is_contained:
+                        contained_paths.append(path)
                     # TODO: Can we also store the cont and disc var dict so we don't have to call sensor again?
                     if guard_satisfied and combine_len == 1:
                         reset_expr = Verifier.build_reset_expression(
@@ -1171,6 +1175,14 @@ class Verifier:
                             reset_idx.append(reset_info[3])
                         # a list of reset expression
                         hits.append((agent_id, tuple(reset_idx), combined_reset_list[i]))
+                    # A path enabled by every state is taken for sure, if the map permits where it leads
+                    for path in contained_paths:
+                        any_contained = any_contained or all(
+                            Verifier.map_permits(node, agent_id, dest, track_map)
+                            for reset_list in combined_reset_list
+                            if any(reset_info[-1] is path for reset_info in reset_list)
+                            for dest in reset_func(agent, reset_list, state_dict, track_map)[0]
+                        )
 
             if reduction_needed or combine_len > 1:
                 continue
@@ -1180,9 +1192,6 @@ class Verifier:
                 guard_hits.append((hits, state_dict, idx))
             if any_contained and idx >= last_entry_idx:
                 break
-        reset_func = Verifier.apply_reset
-        if config.reachability_method == ReachabilityMethod.STAR_SETS:
-            reset_func = Verifier.apply_reset_stars
         reset_dict = {}  # defaultdict(lambda: defaultdict(list))
         for hits, all_agent_state, hit_idx in guard_hits:
             for agent_id, reset_idx, reset_list in hits:
@@ -1228,23 +1237,15 @@ class Verifier:
                     ]
                     paths = step_paths[0][0]
                     transition = (agent, node.mode[agent], dest, *reset_data[:-1], step_paths)
-                    src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
-                    src_track = node.get_track(agent, node.mode[agent])
-                    dest_mode = node.get_mode(agent, dest)
-                    dest_track = node.get_track(agent, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
-
                     # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
-                    # a map transition for now is defined as any transition that changes either the trackmode or agentmode
-                    # could potentially change to be any transition that changes both trackmode and agentmode 
-                    if all(map_mode is not None for map_mode in map_modes) and (src_mode!=dest_mode or src_track!=dest_track) and dest_track != track_map.h(src_track, src_mode, dest_mode): 
+                    if not Verifier.map_permits(node, agent, dest, track_map):
                         continue
                     else:
                         if config.print_level >= 2:
                             print(count)
                         count += 1
                         if config.print_level >= 2:
-                            print(agent, src_mode, src_track, "->", dest_mode, dest_track)
+                            print(agent, node.mode[agent], "->", dest)
                             print("start_time: ", node.start_time)
                             print("cond_veri", unparse(paths[0].cond_veri))
                             print("val_veri", unparse(paths[0].val_veri))
@@ -1253,6 +1254,22 @@ class Verifier:
         # Return result
         return None, possible_transitions, any_contained
 
+    @staticmethod
+    def map_permits(node, agent, dest, track_map):
+        """Whether the map permits an agent's transition to dest.
+        A map transition for now is defined as any transition that changes either the trackmode or agentmode
+        could potentially change to be any transition that changes both trackmode and agentmode"""
+        src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
+        src_track = node.get_track(agent, node.mode[agent])
+        dest_mode = node.get_mode(agent, dest)
+        dest_track = node.get_track(agent, dest)
+        map_modes = [[src_mode, src_track, dest_mode, dest_track]]
+        return not (
+            all(map_mode is not None for map_mode in map_modes)
+            and (src_mode != dest_mode or src_track != dest_track)
+            and dest_track != track_map.h(src_track, src_mode, dest_mode)
+        )
+
     @staticmethod
     def combine_resets(resets, possible):
         """All combinations of resets (var -> list of reset info) that some state of the set takes.
diff --git a/verse/map/lane_map.py b/verse/map/lane_map.py
index 4cca517..d581968 100644
--- a/verse/map/lane_map.py
+++ b/verse/map/lane_map.py
@@ -103,9 +103,7 @@ class LaneMap:
             agent_mode_src = agent_mode_src.name
         if isinstance(agent_mode_dest, Enum):
             agent_mode_dest = agent_mode_dest.name
-        if self.h_dict == {}:
-            return None
-        return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
+        return self.h_dict.get((lane_idx, agent_mode_src, agent_mode_dest))
 
     def h_exist(self, lane_idx, agent_mode_src, agent_mode_dest):
         if isinstance(lane_idx, Enum):
-- 
2.43.0


From 0955062d47e60d241aca2182648699f9937ae0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 34/69] fix: imported right-hand OpenDRIVE lanes, on all
 geometries and with names of their own

---
 verse/map/opendrive_parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/verse/map/opendrive_parser.py b/verse/map/opendrive_parser.py
index 7b8f290..16860ae 100644
--- a/verse/map/opendrive_parser.py
+++ b/verse/map/opendrive_parser.py
@@ -42,7 +42,8 @@ def check_valid_side(side):
 
 
 # This the function that condenses the 2d matrix into lane segments
-def condense_matrix(drive_way_matrix, width_2d):
+# the lanes are named after their index, counted from first_idx
+def condense_matrix(drive_way_matrix, width_2d, first_idx=0):
     lanes_to_return = []  # to store the lanes to return
     width_to_return = []  # to store the width between each lane
     cols = len(drive_way_matrix[0])  # number of columns
@@ -50,7 +51,7 @@ def condense_matrix(drive_way_matrix, width_2d):
     width_2d = np.array(width_2d)  # width 2d matrix to traverse
     for i in range(cols):
         lane_to_append = Lane(
-            "T" + str(i), drive_way_matrix[:, i].tolist()
+            "T" + str(first_idx + i), drive_way_matrix[:, i].tolist()
         )  # combine all the rows into one list for each column
         lanes_to_return.append(lane_to_append)  # add each Lane object to the list we want to return
         mean = np.mean(width_2d[:, i])  # calculate the mean of all the space between the lanes
@@ -174,6 +175,7 @@ def road_traverser(road):
                                 0,
                             )  # Straight (id, start vector, end vector, width, line type,forbidden,speed limit, priority)
                             right_temp_drive.append(straight_to_append)
+                            right_temp_width_2d.append(right_alpha_val)
                             right_alpha_val -= 0.5 * right_alpha_array[right_idx]
                             right_alpha_val += right_alpha_array[right_idx]
 
@@ -334,6 +336,7 @@ def road_traverser(road):
                                         0,
                                     )
                                     right_temp_drive.append(circle_to_append)
+                                    right_temp_width_2d.append(width)
                                     temp_radius -= 0.5 * right_alpha_array[right_idx]
                                     temp_radius += right_alpha_array[right_idx]
 
@@ -348,7 +351,7 @@ def road_traverser(road):
                                     center_points = center
                                     start_phase = initial_theta
                                     end_phase = final_theta
-                                    clockwise = False
+                                    clockwise = True
                                     width = right_alpha_array[right_idx]
                                     style = "--"
                                     circle_to_append = CircularLane(
@@ -365,6 +368,7 @@ def road_traverser(road):
                                         0,
                                     )
                                     right_temp_drive.append(circle_to_append)
+                                    right_temp_width_2d.append(width)
                                     temp_radius += 0.5 * right_alpha_array[right_idx]
                                     temp_radius -= right_alpha_array[right_idx]
 
@@ -424,7 +428,7 @@ def opendrive_map(
         left_drive_way_2d, left_width_2d
     )  # condense matrix returns left side of the road along the width 2d matrix
     right_lanes, right_widths = condense_matrix(
-        right_drive_way_2d, right_width_2d
+        right_drive_way_2d, right_width_2d, len(left_lanes)
     )  # condense matrix returns the right side of the road along the width 2d matrix
     # right_lanes = temp_right() #just a temporary function to generate the right side of the road
 
-- 
2.43.0


From dfa13c674302a5bf4140ca290eb1468e6df79949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 35/69] fix: intersections and the two-lane switch map answer
 for enumeration modes, h_exist follows h

---
 verse/map/example_map/intersection.py | 7 +++++++
 verse/map/example_map/simple_map2.py  | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/verse/map/example_map/intersection.py b/verse/map/example_map/intersection.py
index 9f856f9..8417267 100644
--- a/verse/map/example_map/intersection.py
+++ b/verse/map/example_map/intersection.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Dict, Optional
 
 from verse.map.lane import Lane
@@ -104,6 +105,9 @@ class Intersection(LaneMap):
         #     return ret
 
         # def _h(self, lane_idx: str, mode_src: str, mode_dest: str) -> Optional[str]:
+        lane_idx, mode_src, mode_dest = (
+            m.name if isinstance(m, Enum) else m for m in (lane_idx, mode_src, mode_dest)
+        )
         src_sw, dst_sw = mode_src.startswith("Switch"), mode_dest.startswith("Switch")
         if src_sw:
             if dst_sw:
@@ -125,3 +129,6 @@ class Intersection(LaneMap):
                 return f"{lanes}_{ind}_{new_ind}"
             else:
                 return lane_idx
+
+    def h_exist(self, lane_idx: str, mode_src: str, mode_dest: str) -> bool:
+        return self.h(lane_idx, mode_src, mode_dest) is not None
diff --git a/verse/map/example_map/simple_map2.py b/verse/map/example_map/simple_map2.py
index 3bc84dd..7102933 100644
--- a/verse/map/example_map/simple_map2.py
+++ b/verse/map/example_map/simple_map2.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Optional
 from verse.map import LaneMap, LaneSegment, StraightLane, CircularLane, Lane
 
@@ -102,6 +103,9 @@ class SimpleMap4Switch2(LaneMap):
         )
 
     def h(self, lane_idx: str, mode_src: str, mode_dest: str) -> Optional[str]:
+        lane_idx, mode_src, mode_dest = (
+            m.name if isinstance(m, Enum) else m for m in (lane_idx, mode_src, mode_dest)
+        )
         src_sw, dst_sw = mode_src.startswith("Switch"), mode_dest.startswith("Switch")
         if src_sw:
             if dst_sw:
@@ -114,7 +118,7 @@ class SimpleMap4Switch2(LaneMap):
                 ind = int(lane_idx[1])
                 if typ == "Left" and ind > 0:
                     new_ind = ind - 1
-                if typ == "Left2" and ind > 1:
+                elif typ == "Left2" and ind > 1:
                     new_ind = ind - 2
                 elif typ == "Right" and ind < 4:
                     new_ind = ind + 1
@@ -126,6 +130,9 @@ class SimpleMap4Switch2(LaneMap):
             else:
                 return lane_idx
 
+    def h_exist(self, lane_idx: str, mode_src: str, mode_dest: str) -> bool:
+        return self.h(lane_idx, mode_src, mode_dest) is not None
+
 
 class SimpleMap5(LaneMap):
     def __init__(self):
-- 
2.43.0


From c9fea5c8b8b24e42dc2db6ac68a65e8854f64c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 36/69] fix: three-dimensional arcs: turning side, half turns,
 normals of any length; on-lane queries and configurations

---
 verse/map/lane_map_3d.py     |   4 +-
 verse/map/lane_segment_3d.py | 108 ++++++++++-------------------------
 2 files changed, 33 insertions(+), 79 deletions(-)

diff --git a/verse/map/lane_map_3d.py b/verse/map/lane_map_3d.py
index 563698c..fdc5f75 100644
--- a/verse/map/lane_map_3d.py
+++ b/verse/map/lane_map_3d.py
@@ -171,7 +171,9 @@ class LaneMap_3d:
     def altitude(self, lane_idx):
         if isinstance(lane_idx, Enum):
             lane_idx = lane_idx.name
-        return self.lane_dict[self.trans_func(lane_idx)].get_altitude()
+        if lane_idx not in self.lane_dict:
+            lane_idx = self.trans_func(lane_idx)
+        return self.lane_dict[lane_idx].get_altitude()
 
     def get_longitudinal_position(self, lane_idx: str, position: np.ndarray) -> float:
         if not isinstance(position, np.ndarray):
diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 0f43223..4b2ceee 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -124,7 +124,7 @@ class AbstractLane_3d(object):
         :return: is the position on the lane?
         """
         if longitudinal is None or lateral is None:
-            longitudinal, lateral = self.local_coordinates(position)
+            longitudinal, lateral, _ = self.local_coordinates(position)
         is_on = (
             np.abs(lateral) <= self.width_at(longitudinal) / 2 + margin
             and -self.VEHICLE_LENGTH <= longitudinal < self.length + self.VEHICLE_LENGTH
@@ -140,7 +140,7 @@ class AbstractLane_3d(object):
         """
         if self.forbidden:
             return False
-        longitudinal, lateral = self.local_coordinates(position)
+        longitudinal, lateral, _ = self.local_coordinates(position)
         is_close = (
             np.abs(lateral) <= 2 * self.width_at(longitudinal)
             and 0 <= longitudinal < self.length + self.VEHICLE_LENGTH
@@ -150,13 +150,13 @@ class AbstractLane_3d(object):
     def after_end(
         self, position: np.ndarray, longitudinal: float = None, lateral: float = None
     ) -> bool:
-        if not longitudinal:
-            longitudinal, _ = self.local_coordinates(position)
+        if longitudinal is None:
+            longitudinal, _, _ = self.local_coordinates(position)
         return longitudinal > self.length - self.VEHICLE_LENGTH / 2
 
     def distance(self, position: np.ndarray):
         """Compute the L1 distance [m] from a position to the lane."""
-        s, r = self.local_coordinates(position)
+        s, r, _ = self.local_coordinates(position)
         return abs(r) + max(s - self.length, 0) + max(0 - s, 0)
 
     def distance_with_heading(
@@ -165,7 +165,7 @@ class AbstractLane_3d(object):
         """Compute a weighted distance in position and heading to the lane."""
         if heading is None:
             return self.distance(position)
-        s, r = self.local_coordinates(position)
+        s, r, _ = self.local_coordinates(position)
         angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))
         return abs(r) + max(s - self.length, 0) + max(0 - s, 0) + heading_weight * angle
 
@@ -279,6 +279,7 @@ class StraightLane_3d(AbstractLane_3d):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -331,10 +332,8 @@ class CircularLane_3d_v1(AbstractLane_3d):
             self.b = -self.b
         self.start_phase = start_phase
         self.end_phase = end_phase
-        if right_rotate and self.end_phase <= self.start_phase:
+        if self.end_phase <= self.start_phase:
             self.end_phase += 2 * pi
-        if not right_rotate and self.end_phase >= self.start_phase:
-            self.start_phase += 2 * pi
         if max(self.start_phase, self.end_phase) > 2 * pi:
             self.start_phase -= 2 * pi
             self.end_phase -= 2 * pi
@@ -354,7 +353,7 @@ class CircularLane_3d_v1(AbstractLane_3d):
         outer_center = self.get_outer_center(longitudinal)
         cross = np.cross(self.norm_vec, outer_center - self.center)
         norm_cross = cross / np.linalg.norm(cross)
-        point = get_coor_by_rt(lateral, theta, norm_cross, outer_center)
+        point = get_coor_by_rt(lateral, theta, norm_cross, outer_center, self.right_rotate)
         return point
 
     # def heading_at(self, longitudinal: float) -> float:
@@ -372,10 +371,9 @@ class CircularLane_3d_v1(AbstractLane_3d):
         rget, thetaget, phaseget = get_rtp_by_coor(
             position, self.norm_vec, self.center, self.radius, self.right_rotate
         )
-        if phaseget < self.start_phase and phaseget < self.end_phase:
-            phaseget += 2 * pi
-        if phaseget > self.start_phase and phaseget > self.end_phase:
-            phaseget -= 2 * pi
+        # the phase closest to the lane's
+        middle = (self.start_phase + self.end_phase) / 2
+        phaseget = middle + wrap_to_pi(phaseget - middle)
         lget = (phaseget - self.start_phase) * self.length / (self.end_phase - self.start_phase)
         return lget, rget, thetaget
 
@@ -388,26 +386,20 @@ class CircularLane_3d_v1(AbstractLane_3d):
 
     def get_tang(self, longitudinal: float):
         outer_center = self.get_outer_center(longitudinal)
-        return np.cross(self.norm_vec, outer_center - self.center)
+        tang = np.cross(self.norm_vec, outer_center - self.center)
+        return tang if self.right_rotate else -tang
 
     def get_start_end_tang(self):
         start = self.get_outer_center(0)
-        start_tang = np.cross(self.norm_vec, start - self.center)
+        start_tang = self.get_tang(0)
         end = self.get_outer_center(self.length)
-        end_tang = np.cross(self.norm_vec, end - self.center)
+        end_tang = self.get_tang(self.length)
         # print('get_start_end_tang', start, start_tang, end, end_tang)
         return start, start_tang, end, end_tang
 
     def get_sample_points(self, num_theta, num_len):
         thetas = np.mgrid[0 : 2 * pi : num_theta * 1j]
-        if self.start_phase <= self.end_phase and self.right_rotate:
-            phases = np.mgrid[self.start_phase : self.end_phase : num_len * 1j]
-        elif self.start_phase <= self.end_phase and not self.right_rotate:
-            phases = np.mgrid[self.end_phase : (self.start_phase + 2 * pi) : num_len * 1j]
-        elif self.start_phase >= self.end_phase and self.right_rotate:
-            phases = np.mgrid[self.start_phase : (self.end_phase + 2 * pi) : num_len * 1j]
-        elif self.start_phase >= self.end_phase and not self.right_rotate:
-            phases = np.mgrid[self.end_phase : self.start_phase : num_len * 1j]
+        phases = np.mgrid[self.start_phase : self.end_phase : num_len * 1j]
 
         n = self.norm_vec
         a = self.a
@@ -445,14 +437,7 @@ class CircularLane_3d_v1(AbstractLane_3d):
         return oc_out_x, oc_out_y, oc_out_z
 
     def get_lane_center(self, num):
-        if self.start_phase <= self.end_phase and self.right_rotate:
-            phases = np.mgrid[self.start_phase : self.end_phase : num * 1j]
-        elif self.start_phase <= self.end_phase and not self.right_rotate:
-            phases = np.mgrid[self.end_phase : (self.start_phase + 2 * pi) : num * 1j]
-        elif self.start_phase >= self.end_phase and self.right_rotate:
-            phases = np.mgrid[self.start_phase : (self.end_phase + 2 * pi) : num * 1j]
-        elif self.start_phase >= self.end_phase and not self.right_rotate:
-            phases = np.mgrid[self.end_phase : self.start_phase : num * 1j]
+        phases = np.mgrid[self.start_phase : self.end_phase : num * 1j]
 
         a = self.a
         b = self.b
@@ -474,10 +459,12 @@ class CircularLane_3d_v1(AbstractLane_3d):
 
     def to_config(self) -> dict:
         return {
-            "class_path": get_class_path(self.__class__),
+            "class_path": get_class_path(CircularLane_3d_v1),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
+                "norm_vec": to_serializable(self.norm_vec),
                 "start_phase": self.start_phase,
                 "end_phase": self.end_phase,
                 "right_rotate": self.right_rotate,
@@ -562,42 +549,12 @@ def get_theta_by_coor(point, n, center, r, right_rotate=True):
     if round(r, 3) == 0:
         return 0
     delta2 = (point - center) / r
-    num_digit1 = 5
-    l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-    if l1 != 0:
-        l2 = 1.0
-        a = np.array([n[1] / l1, -n[0] / l1, 0])
-        b = np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
-        if not right_rotate:
-            b = -b
-        sinx = round(delta2[2] / b[2], num_digit1)
-        if n[0] != 0:
-            cosx = round((delta2[1] - b[1] * sinx) / a[1], num_digit1)
-        if n[1] != 0:
-            cosx = round((delta2[0] - b[0] * sinx) / a[0], num_digit1)
-    else:
-        sinx = round(delta2[1], num_digit1)
-        if n[2] < 0:
-            sinx = -sinx
-        elif n[2] == 0:
-            raise ValueError
-        if not right_rotate:
-            sinx = -sinx
-        cosx = round(delta2[0], num_digit1)
-    if round(cosx, 5) == 0:
-        if sinx > 0:
-            theta = pi / 2
-        elif sinx < 0:
-            theta = 1.5 * pi
-        else:
-            theta = 0
-    else:
-        theta = atan(sinx / cosx)
-        if cosx < 0:
-            theta = pi + theta
-        elif theta < 0 and cosx > 0:
-            theta = 2 * pi + theta
-    return theta
+    a, b = func_a(n), func_b(n)
+    if not right_rotate:
+        b = -b
+    theta = np.arctan2(np.dot(delta2, b), np.dot(delta2, a)) % (2 * pi)
+    # rounding errors do not turn 0 into a full turn
+    return 0.0 if 2 * pi - theta < 1e-9 else float(theta)
 
 
 def func_a(n):
@@ -615,7 +572,7 @@ def func_b(n):
         l2 = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
         b = np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
     else:
-        b = np.array([0, 1, 0])
+        b = np.array([0, -1 if n[2] < 0 else 1, 0])
     return b
 
 
@@ -629,10 +586,5 @@ def get_center_radius(start, end, n, phase, right_rotate=True):
     l_n = l_n / np.linalg.norm(l_n)
     mid = (end + start) / 2
     l = np.linalg.norm(end - start) / 2
-    if phase > pi:
-        theta = (phase - pi) / 2
-    elif phase < pi:
-        theta = phase / 2
-    else:
-        return mid, l / 2
-    return mid + l / tan(theta) * l_n, l / sin(theta)
+    # the center is on the side of l_n if the lane turns by more than half a turn
+    return mid - l / tan(phase / 2) * l_n, l / sin(phase / 2)
-- 
2.43.0


From 7bce317fd4c01bf7b35187d09a5cd3073cfde00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 37/69] fix: shipped agents do not sample beyond the horizon
 when the number of steps is rounded up

---
 verse/agents/example_agent/car_agent.py    | 4 ++--
 verse/agents/example_agent/origin_agent.py | 6 +++---
 verse/agents/example_agent/robot_agent.py  | 2 +-
 verse/agents/example_agent/sign_agent.py   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index ba817bf..84368ce 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -51,7 +51,7 @@ class NPCAgent(BaseAgent):
         self, mode: Tuple[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
@@ -125,7 +125,7 @@ class CarAgent(BaseAgent):
         self, mode: List[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
diff --git a/verse/agents/example_agent/origin_agent.py b/verse/agents/example_agent/origin_agent.py
index 34ac93f..286cbed 100644
--- a/verse/agents/example_agent/origin_agent.py
+++ b/verse/agents/example_agent/origin_agent.py
@@ -26,7 +26,7 @@ class vanderpol_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
         # note: digit of time
         init = initialCondition
@@ -70,7 +70,7 @@ class thermo_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
@@ -163,7 +163,7 @@ class craft_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/robot_agent.py b/verse/agents/example_agent/robot_agent.py
index 4832ddd..f72c8c7 100644
--- a/verse/agents/example_agent/robot_agent.py
+++ b/verse/agents/example_agent/robot_agent.py
@@ -22,7 +22,7 @@ class RobotAgent(BaseAgent):
         # TODO: P1. Should TC_simulate really be part of the agent definition or should it be something more generic?
         # TODO: P2. Looks like this should be a global parameter; some config file should be setting this.
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/sign_agent.py b/verse/agents/example_agent/sign_agent.py
index 2f79580..fa0b44d 100644
--- a/verse/agents/example_agent/sign_agent.py
+++ b/verse/agents/example_agent/sign_agent.py
@@ -9,7 +9,7 @@ class SignAgent(BaseAgent):
         self.decision_logic = ControllerIR.empty()
 
     def TC_simulate(self, mode, init, time_horizon, time_step, map=None):
-        number_points = int(np.ceil(float(time_horizon) / time_step))
+        number_points = int(np.ceil(round(float(time_horizon) / time_step, 8)))
         t = [i * time_step for i in range(0, number_points)]
         trace = [[0] + init] + [[i + time_step] + init for i in t]
         return np.array(trace)
-- 
2.43.0


From 44fdd146d6aab44f0ab0c63a3bf0d06e2f20e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 38/69] fix: other cars steer along the nearest angle to the
 lane's heading

---
 verse/agents/example_agent/car_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index 84368ce..374227b 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -41,7 +41,7 @@ class NPCAgent(BaseAgent):
         vehicle_lane = mode[1]
         vehicle_pos = np.array([x, y])
         d = -lane_map.get_lateral_distance(vehicle_lane, vehicle_pos)
-        psi = lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta
+        psi = wrap_to_pi(lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta)
         steering = psi + np.arctan2(0.45 * d, v)
         steering = np.clip(steering, -0.61, 0.61)
         a = 0
-- 
2.43.0


From b882faf5152d13e876b42019475a83d0ff70f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 39/69] fix: the falling ball's dynamics can be evaluated

---
 verse/agents/example_agent/ballg_agent.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verse/agents/example_agent/ballg_agent.py b/verse/agents/example_agent/ballg_agent.py
index ceca9c1..8e17822 100644
--- a/verse/agents/example_agent/ballg_agent.py
+++ b/verse/agents/example_agent/ballg_agent.py
@@ -24,13 +24,12 @@ class Ball_g_agent(BaseAgent):
         super().__init__(id, code, file_name)
         self.g_acc = g_acc_val
 
-    @staticmethod
     def dynamics(self, t, state):
         """Defines the RHS of the ODE used to simulate trajectories"""
         x, y, vx, vy = state
         x_dot = vx
         y_dot = vy
-        vx_dot = -self.g_acc  # Does not work.
+        vx_dot = -self.g_acc
         vy_dot = 0
         return [x_dot, y_dot, vx_dot, vy_dot]
 
-- 
2.43.0


From 096b562cf4b47edd6cd90b9220c7f5eb6e3764ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 40/69] fix: mixed-monotone tubes do not run past the horizon
 when the number of steps is rounded up

---
 verse/analysis/mixmonotone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/mixmonotone.py b/verse/analysis/mixmonotone.py
index fcdeea5..ce7d22c 100644
--- a/verse/analysis/mixmonotone.py
+++ b/verse/analysis/mixmonotone.py
@@ -56,7 +56,7 @@ def compute_reachtube_mixmono_disc(
     initial_set, uncertain_var_bound, time_horizon, time_step, decomposition
 ):
     initial_set = initial_set[0]
-    number_points = int(np.ceil(time_horizon / time_step))
+    number_points = int(np.ceil(round(time_horizon / time_step, 8)))
     t = [round(i * time_step, 10) for i in range(0, number_points)]
     trace = [[0] + initial_set[0] + initial_set[1]]
     num_var = len(initial_set[0])
@@ -110,7 +110,7 @@ def compute_reachtube_mixmono_cont(
         return np.concatenate((d, dhat))
 
     time_bound = float(time_horizon)
-    number_points = int(np.ceil(time_bound / time_step))
+    number_points = int(np.ceil(round(time_bound / time_step, 8)))
     t = [round(i * time_step, 10) for i in range(0, number_points)]
     init = initial_set[0] + initial_set[1]
     uncertain = uncertain_var_bound[0] + uncertain_var_bound[1]
-- 
2.43.0


From 17e4037fe01dbc92bbdafe3fa82e8ad07144fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 41/69] fix: subscripts with several slices are printed as
 valid program text

---
 verse/parser/astunparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/verse/parser/astunparser.py b/verse/parser/astunparser.py
index 54799ed..d1b7b9e 100644
--- a/verse/parser/astunparser.py
+++ b/verse/parser/astunparser.py
@@ -814,7 +814,13 @@ class Unparser:
     def _Subscript(self, t):
         self.dispatch(t.value)
         self.write("[")
-        self.dispatch(t.slice)
+        if isinstance(t.slice, ast.Tuple) and t.slice.elts:
+            # slices can only appear in a tuple without parentheses
+            interleave(lambda: self.write(", "), self.dispatch, t.slice.elts)
+            if len(t.slice.elts) == 1:
+                self.write(",")
+        else:
+            self.dispatch(t.slice)
         self.write("]")
 
     def _Starred(self, t):
-- 
2.43.0


From 84a3556d882e40fb97b8afedcbebf691dc802e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 42/69] fix: f-strings are printed with their literal text
 escaped

---
 verse/parser/astunparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verse/parser/astunparser.py b/verse/parser/astunparser.py
index d1b7b9e..7f6c867 100644
--- a/verse/parser/astunparser.py
+++ b/verse/parser/astunparser.py
@@ -510,7 +510,8 @@ class Unparser:
                 v = "{quote_type}{v}{quote_type}".format(quote_type=quote_type, v=v)
                 break
         else:
-            v = repr(v)
+            # every kind of quote is used inside the expressions, which may reuse the outer one
+            v = "'{v}'".format(v=v)
         self.write(v)
 
     def _FormattedValue(self, t):
@@ -531,7 +532,9 @@ class Unparser:
 
     def _fstring_Constant(self, t, write):
         assert isinstance(t.value, str)
-        value = t.value.replace("{", "{{").replace("}", "}}")
+        value = t.value.encode("unicode_escape").decode("ascii")
+        value = value.replace("'", "\\x27").replace('"', "\\x22")
+        value = value.replace("{", "{{").replace("}", "}}")
         write(value)
 
     def _fstring_FormattedValue(self, t, write):
-- 
2.43.0


From ea8b67b6a4149a674174b4ca76da32900c132302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 43/69] fix: the true center of a star set is the middle of its
 extent

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index ea0dbf5..4da6da5 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -496,7 +496,7 @@ class StarSet:
         pt = []
         for i in range(0,self.n):
             min, max = self.get_max_min(i)
-            pt.append(max - min / 2)
+            pt.append((max + min) / 2)
             #maxes.append(max)
             #mins.append(min)
         return pt
-- 
2.43.0


From 873aa73c737c6db42dc32bbe0cb1ba1f8ade3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 44/69] fix: the generic predicate of a star has one bound per
 row

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 4da6da5..a2183f1 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -689,7 +689,7 @@ def new_pred(old_star: StarSet) -> StarSet:
                 col_i.append(0)
         new_C.append(col_i)
     new_C = np.transpose(np.array(new_C))
-    new_g = np.ones(old_star.g.shape)
+    new_g = np.ones(len(new_C))
     return StarSet(old_star.center, old_star.basis, new_C, new_g)
 
 ### from a set of points at a given time, generate a starset -- could possible reformat or remake this function to be more general
-- 
2.43.0


From 3bf060e8ab75106411148101f4e371f106b3c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 45/69] fix: star sets are checked for emptiness over all
 values of their generators

---
 verse/stars/starset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index a2183f1..f8c04c8 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -531,13 +531,13 @@ class StarSet:
 #        return None
 
     def is_empty(self):
-        feasible = StarSet.is_feasible(self.n,self.C,self.g)
+        feasible = StarSet.is_feasible(self.m,self.C,self.g)
         if feasible:
             return False
         return True
 
     def is_feasible(n, constraint_mat, rhs, equal_mat=None, equal_rhs=None):
-        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs)
+        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs, bounds=(None, None))
         if results.status == 0:
             return True
         if results.status == 2:
-- 
2.43.0


From 19e900a537362c251f70d8242d06632c40518217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 46/69] fix: star sets are maximized along the given direction

---
 verse/stars/starset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index f8c04c8..30f006f 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -463,11 +463,11 @@ class StarSet:
     def maximize(self, opt_direction):
         """return the point that maximizes the direction"""
 
-        opt_direction *= -1
+        opt_direction = -1 * opt_direction
 
         # convert opt_direction to domain
         #print(self.basis)
-        domain_direction = opt_direction.T @ self.basis
+        domain_direction = self.basis @ opt_direction
 
 
         # use LP to optimize the constraints
-- 
2.43.0


From fe621f77714faf3a87a3d8aa5aa314caa82eb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 47/69] fix: resets of star sets substitute whole variable
 names

---
 verse/analysis/verifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 786b344..70b4862 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1525,9 +1525,9 @@ class Verifier:
             for idx in idxs:
                 val_dict = {}
                 tmp_exp = copy.deepcopy(expr_list[idx])
-                for i in range(0, len(state)):
-                    if statevec[i] in tmp_exp:
-                        tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
+                tmp_exp = Verifier._substitute(
+                    tmp_exp, {var: f"({float(val)!r})" for var, val in zip(statevec, state)}
+                )
                 #print(tmp_exp)
                 result = eval(tmp_exp, {}, val_dict)
                 for i in range(0, len(state)):
-- 
2.43.0


From ec1dfe61fe8c79c95aae214065c8df8a2e74ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 48/69] fix: star sets are intersected with half-spaces in the
 state's coordinates

---
 verse/stars/starset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index 30f006f..ed7641f 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -272,7 +272,7 @@ class StarSet:
             raise Exception("constraint_mat vectors should be of length n")
         if not (len(rhs) == len(constraint_mat)):
             raise Exception("constraint_mat should be length of rhs")
-        new_c = np.matmul(constraint_mat, self.basis)
+        new_c = np.matmul(constraint_mat, np.transpose(self.basis))
         conj_c = np.vstack((self.C, new_c))
         new_g = np.subtract(rhs, np.matmul(constraint_mat, self.center))
         conj_g = np.append(self.g, new_g) 
-- 
2.43.0


From 6b6b850fa601128175ddcd3ab8b915b5db2d5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 49/69] fix: agents without a transition continue from their
 star set

---
 verse/analysis/verifier.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 70b4862..087d082 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -672,9 +672,12 @@ class Verifier:
                 if agent_idx == transit_agent_idx:
                     next_node_init[agent_idx] = next_init
                 else:
-                    next_node_init[agent_idx] = [
-                        [truncated_trace[agent_idx][0][1:], truncated_trace[agent_idx][1][1:]]
-                    ]
+                    if consts.reachability_method == ReachabilityMethod.STAR_SETS:
+                        next_node_init[agent_idx] = [truncated_trace[agent_idx][0][1]]
+                    else:
+                        next_node_init[agent_idx] = [
+                            [truncated_trace[agent_idx][0][1:], truncated_trace[agent_idx][1][1:]]
+                        ]
                     # pp(("infer init", agent_idx, next_node_init[agent_idx]))
                     next_node_trace[agent_idx] = truncated_trace[agent_idx]
 
-- 
2.43.0


From 2aea3eeb67d511865fb8605c5462a46bf2d9a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 50/69] fix: an agent's variables are those of its own state
 definition

---
 verse/analysis/analysis_tree.py | 6 ++----
 verse/parser/parser.py          | 8 ++++++++
 verse/scenario/scenario.py      | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index c77b599..faae04a 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -202,8 +202,7 @@ class AnalysisTreeNode:
 
     def get_track(self, agent_id: str, mode: Sequence[str]) -> Optional[str]:
         """Filter out the track mode(s) for a given agent"""
-        state_defs = self.agent[agent_id].decision_logic.state_defs
-        mode_def_names = next(iter(state_defs.values())).disc_type
+        mode_def_names = self.agent[agent_id].decision_logic.ego_state().disc_type
         track_mode_ind = index_of(mode_def_names, "TrackMode")
         if track_mode_ind is None:
             return None
@@ -211,8 +210,7 @@ class AnalysisTreeNode:
 
     def get_mode(self, agent_id: str, mode: Sequence[str]) -> Optional[Sequence[str]]:
         """Either tries to find the AgentMode (or any non-TrackMode) if TrackMode exists or returns mode"""
-        state_defs = self.agent[agent_id].decision_logic.state_defs
-        mode_def_names = next(iter(state_defs.values())).disc_type
+        mode_def_names = self.agent[agent_id].decision_logic.ego_state().disc_type
         track_mode_ind = index_of(mode_def_names, "TrackMode")
         if track_mode_ind is None:
             if len(mode) == 1:
diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index dd2a80b..de47a80 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -360,6 +360,14 @@ class ControllerIR:
     def empty() -> "ControllerIR":
         return ControllerIR([], [], [], [], {}, {}, "")
 
+    def ego_state(self) -> StateDef:
+        """The state definition of the agent itself; the first one if the controller has no
+        typed `ego` argument"""
+        for arg in self.args:
+            if arg.name == "ego" and arg.typ in self.state_defs:
+                return self.state_defs[arg.typ]
+        return next(iter(self.state_defs.values()))
+
     @staticmethod
     def dump(node, dump=False):
         if node == None:
diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 69e4cdb..efa3d6f 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -132,7 +132,7 @@ class Scenario:
         if agent.decision_logic != agent.decision_logic.empty():
             for i in init:
                 assert len(i) == len(
-                    list(agent.decision_logic.state_defs.values())[0].cont
+                    agent.decision_logic.ego_state().cont
                 ), "the length of element in init not fit the number of continuous variables"
             """
             This check does not do what it's supposed to to
@@ -140,7 +140,7 @@ class Scenario:
             """
             # print(agent.decision_logic.mode_defs)
             assert len(init_mode) == len(
-                list(agent.decision_logic.state_defs.values())[0].disc
+                agent.decision_logic.ego_state().disc
             ), "the length of element in init_mode not fit the number of discrete variables"
         if len(init) == 1:
             init = init + init
-- 
2.43.0


From 0040f78790327e0dd2c615302f2c3191db2a047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 51/69] fix: the fixed-point test looks at every branch that
 reaches the horizon

---
 verse/utils/fixed_points.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index cb9fc25..d57967f 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -27,11 +27,13 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
     sim_enum: Dict[str, Dict[str, int]] = {} #indexed by agent and then by mode -- simulates the enum class 
     for agent in agents:
         sim_enum[agent] = {'_index': 0} # initial start with an index of 0 
-    T = 0 # we know time horizon occurs in the leaf node, by definition, shouldn't matter which leaf node we check
+    T = 0
     if t_lower is None or t_upper is None:
-        last: list[AnalysisTreeNode] = tree.get_leaf_nodes(tree.root)
-        T = last[0].trace[list(agents)[0]][-1][0] # using list casting since the agent doesn't matter
+        # branches may end early (at an assertion), so the horizon is where the longest one ends
+        T = max(node.trace[agent][-1][0] for node in nodes for agent in agents if agent in node.trace and len(node.trace[agent]) > 0)
     for node in nodes:
+        if any(agent not in node.trace or len(node.trace[agent]) == 0 for agent in agents): # the node was not computed
+            continue
         reached[node_counter] = None
         modes = node.mode 
         reach_node: Dict[str, List[List[float]]] = {} # will store ordered list of hyperrectangle vertices indexed by agents
@@ -45,8 +47,6 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
 
             ### make error message for t_lower and t_upper
             if t_lower is not None and t_upper is not None: ### may want to seperate this out into a seperate function
-                if agent not in node.trace: # NOTE: not all agents present in all modes -- is this desired? 
-                    continue 
                 loop_step = 1 if node.trace[agent][0][0] == node.trace[agent][1][0] else 2 # NOTE: so that 
                 # FIXME: the loop below only makes sense for dryvr, not dryvr_disc -- not important if solely using dryvr, but important to mention
                 for i in range(0, len(node.trace[agent])-1, loop_step): # just check the upper bound, time difference between lower and upper known to be time step of scenario
@@ -63,7 +63,7 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
                         upper.append(sim_enum[agent][mode]) 
                     reach_node[agent] += [lower, upper]
             else: ### for now, just assume if t_lower and t_upper not supplied, we just want last node 
-                if node.trace[agent][-1][0]==T:
+                if np.isclose(node.trace[agent][-1][0], T, rtol=1e-9, atol=1e-9): # each branch adds up its times on its own
                     lower = list(node.trace[agent][-2][1:])
                     upper = list(node.trace[agent][-1][1:])
                     for mode in modes[agent]: # assume that size of modes[agent] doesn't change between nodes
-- 
2.43.0


From 66faf3c23b9bcd3724f61cf79825f06345098d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 52/69] fix: points are turned into the rotated figure's axes

---
 verse/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index c7ad013..17ba610 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -86,7 +86,7 @@ def point_in_rotated_rectangle(
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length / 2, -width / 2), (length / 2, width / 2))
 
@@ -105,7 +105,7 @@ def point_in_ellipse(
     :return: is the point inside the ellipse
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.matrix([[c, -s], [s, c]])
+    r = np.matrix([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return np.sum(np.square(ru / np.array([length, width]))) < 1
 
-- 
2.43.0


From 08c43bb020a4b936f19f49ff0d9d620a5d0005af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 53/69] fix: rectangles that cross without a corner inside the
 other intersect

---
 verse/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index 17ba610..4501ee6 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -120,7 +120,9 @@ def rotated_rectangles_intersect(
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    a, b = ([*corners, corners[0]] for corners in (rect_corners(*rect1), rect_corners(*rect2)))
+    still = np.zeros(2)
+    return are_polygons_intersecting(np.array(a), np.array(b), still, still)[0]
 
 
 def rect_corners(
-- 
2.43.0


From 5f5db4431b68092780b977f9bf9ffb0f99873536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 54/69] fix: polygons with integer coordinates can be tested
 for intersection

---
 verse/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index 4501ee6..e32f012 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -213,7 +213,7 @@ def are_polygons_intersecting(
     for polygon in [a, b]:
         for p1, p2 in zip(polygon, polygon[1:]):
             normal = np.array([-p2[1] + p1[1], p2[0] - p1[0]])
-            normal /= np.linalg.norm(normal)
+            normal = normal / np.linalg.norm(normal)
             min_a, max_a = project_polygon(a, normal)
             min_b, max_b = project_polygon(b, normal)
 
-- 
2.43.0


From 55917292b680a20bd60229a18c335afd45bc8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 55/69] fix: a plot does not show what was plotted before it

---
 verse/plotter/plotter2D.py     | 44 +++++++++++++++++++++++++---------
 verse/plotter/plotter3D_new.py | 28 ++++++++++++++++------
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 7b57484..90c72ab 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -61,7 +61,7 @@ duration = 1
 def simulation_tree(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -83,6 +83,8 @@ def simulation_tree(
         Returns:
             fig (plotly.graph_objects): Figure which includes the plots.
     '''
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     root = sample_trace(root, sample_rate)
@@ -173,7 +175,7 @@ def simulation_tree(
 def simulation_anime(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -188,6 +190,8 @@ def simulation_anime(
 ):
     """Normal: It gives the animation of the simulation without trail but is faster."""
     """Trail: It gives the animation of the simulation with trail."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if time_step != None:
@@ -481,7 +485,7 @@ def simulation_anime(
 def reachtube_tree(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -493,6 +497,8 @@ def reachtube_tree(
     plot_color=None,
 ):
     """It statically shows all the traces of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if plot_color is None:
         plot_color = colors
     if isinstance(root, AnalysisTree):
@@ -589,7 +595,7 @@ def reachtube_tree(
 def reachtube_anime(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -602,6 +608,8 @@ def reachtube_anime(
     combine_rect=None,
 ):
     """It gives the animation of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if time_step != None:
@@ -765,7 +773,7 @@ def reachtube_anime(
 def reachtube_tree_video(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -844,6 +852,8 @@ def reachtube_tree_video(
         Figure with cumulative animation frames.
     """
     # NOTE: Normalize root, time rounding, and sample the tree 
+    if fig is None:
+        fig = go.Figure()
     if plot_color is None:
         plot_color = colors
     if isinstance(root, AnalysisTree):
@@ -1785,7 +1795,7 @@ def _export_reachtube_video_direct(
 def reachtube_tree_single(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     color=None,
@@ -1794,6 +1804,8 @@ def reachtube_tree_single(
     plot_color=None,
 ):
     """It statically shows the verfication traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if plot_color is None:
@@ -2022,7 +2034,7 @@ def reachtube_tree_single(
 def simulation_tree_single(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig: go.Figure() = go.Figure(),
+    fig: go.Figure = None,
     x_dim: int = 1,
     y_dim: int = 2,
     color=None,
@@ -2030,6 +2042,8 @@ def simulation_tree_single(
     plot_color = None
 ):
     """It statically shows the simulation traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     global color_cnt
@@ -2091,9 +2105,11 @@ def simulation_tree_single(
 
 
 def draw_map(
-    map: LaneMap, color="rgba(0,0,0,0.5)", fig: go.Figure() = go.Figure(), fill_type="lines"
+    map: LaneMap, color="rgba(0,0,0,0.5)", fig: go.Figure = None, fill_type="lines"
 ):
     """It draws the the map"""
+    if fig is None:
+        fig = go.Figure()
     x_min, x_max = float("inf"), -float("inf")
     y_min, y_max = float("inf"), -float("inf")
     if map is None:
@@ -2405,8 +2421,10 @@ def num_digits(val: float):
 # fig.update_traces(line={'width':5})
 
 
-def update_style(fig: go.Figure() = go.Figure()):
+def update_style(fig: go.Figure = None):
     # fig.update_traces(line={'width': 3})
+    if fig is None:
+        fig = go.Figure()
     fig.update_layout(
         # paper_bgcolor="rgba(0,0,0,0)",
         plot_bgcolor="rgba(0,0,0,0)"
@@ -2435,7 +2453,7 @@ def update_style(fig: go.Figure() = go.Figure()):
 def reachtube_tree_slice(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -2449,6 +2467,8 @@ def reachtube_tree_slice(
     t_upper: float = None
 ):
     """It statically shows all the traces of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if plot_color is None:
         plot_color = colors
     if isinstance(root, AnalysisTree):
@@ -2555,7 +2575,7 @@ def reachtube_tree_slice(
 def reachtube_tree_single_slice(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     color=None,
@@ -2566,6 +2586,8 @@ def reachtube_tree_single_slice(
     t_upper: float = None
 ):
     """It statically shows the verfication traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if plot_color is None:
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index d3be486..7f0f84a 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -34,7 +34,7 @@ color_array_def = [
 
 def simulation_tree_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     x_title: str = None, 
     y_dim: int = 2,
@@ -51,6 +51,8 @@ def simulation_tree_3d(
     zrange=[],
 ):
     """It statically shows all the traces of the simulation."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     root = sample_trace(root, sample_rate)
@@ -99,7 +101,7 @@ def simulation_tree_3d(
 
 def reachtube_tree_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     x_title: str = None, 
     y_dim: int = 2,
@@ -117,6 +119,8 @@ def reachtube_tree_3d(
     combine_rect=None,
 ):
     """It statically shows all the traces of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     root = sample_trace(root, sample_rate)
@@ -165,7 +169,9 @@ def reachtube_tree_3d(
     return fig
 
 
-def draw_map_3d(map: LaneMap_3d, fig=go.Figure(), fill_type="outline", color="rgba(0,0,0,1)"):
+def draw_map_3d(map: LaneMap_3d, fig=None, fill_type="outline", color="rgba(0,0,0,1)"):
+    if fig is None:
+        fig = go.Figure()
     if map is None:
         return fig
     num = 100
@@ -232,7 +238,7 @@ def draw_map_3d(map: LaneMap_3d, fig=go.Figure(), fill_type="outline", color="rg
 def simulation_tree_single_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig: go.Figure() = go.Figure(),
+    fig: go.Figure = None,
     x_dim: int = 1,
     y_dim: int = 2,
     z_dim: int = 3,
@@ -241,6 +247,8 @@ def simulation_tree_single_3d(
     print_dim_list=None,
 ):
     """It statically shows the simulation traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if color_array is None:
@@ -328,7 +336,7 @@ def simulation_tree_single_3d(
 def reachtube_tree_single_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     z_dim: int = 3,
@@ -338,6 +346,8 @@ def reachtube_tree_single_3d(
     combine_rect=None,
 ):
     """It statically shows the verfication traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if color_array is None:
@@ -504,8 +514,10 @@ def sample_trace(root, sample_rate: int = 1):
     return root
 
 
-def update_style(fig: go.Figure() = go.Figure(), x_title=None, y_title=None, z_title=None):
+def update_style(fig: go.Figure = None, x_title=None, y_title=None, z_title=None):
     # fig.update_traces(line={'width': 3})
+    if fig is None:
+        fig = go.Figure()
     fig.update_layout(
         # paper_bgcolor="rgba(0,0,0,0)",
         plot_bgcolor="rgba(0,0,0,0)"
@@ -594,7 +606,7 @@ duration = 1
 
 def reachtube_anime_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     x_title: str = None, 
     y_dim: int = 2,
@@ -609,6 +621,8 @@ def reachtube_anime_3d(
     name = "animation.gif"
 ):
     """It gives the animation of the verification traces in 3D."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
 
-- 
2.43.0


From 2a89948a26bbfbffe77148e780b7daedef24f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 56/69] fix: sampling a plot leaves the tree as it is, and
 keeps whole boxes

---
 verse/plotter/plotter2D.py     | 50 ++++++++++++++++-----------------
 verse/plotter/plotter3D_new.py | 51 +++++++++++++++++-----------------
 2 files changed, 51 insertions(+), 50 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 90c72ab..1d5c1f3 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -10,7 +10,7 @@ import plotly.graph_objects as go
 from typing import List, Tuple, Union
 import numbers
 from plotly.graph_objs.scatter import Marker
-from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode
+from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
 from verse.map.lane_map import LaneMap
 import os
 
@@ -2380,31 +2380,31 @@ def get_text_pos(veh_mode):
 
 
 def sample_trace(root, sample_rate: int = 1):
+    """A copy of the tree that keeps every sample_rate-th state of simulations, and the hull of
+    sample_rate consecutive boxes of reachtubes."""
+    copies = {}
     queue = [root]
-    # print(root.trace)
-    if root.type == "reachtube":
-        sample_rate = sample_rate * 2
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                trace_length = len(node.trace[agent_id])
-                tmp = []
-                for i in range(0, trace_length, sample_rate):
-                    if i + sample_rate - 1 < trace_length:
-                        tmp.append(node.trace[agent_id][i])
-                        tmp.append(node.trace[agent_id][i + sample_rate - 1])
-                node.trace[agent_id] = tmp
-            queue += node.child
-    else:
-        while queue != []:
-            node: AnalysisTreeNode = queue.pop()
-            for agent_id in node.trace:
-                node.trace[agent_id] = [
-                    node.trace[agent_id][i]
-                    for i in range(0, len(node.trace[agent_id]), sample_rate)
-                ]
-            queue += node.child
-    return root
+    while queue != []:
+        node = queue.pop()
+        sampled = copy.copy(node)
+        sampled.trace = {}
+        for agent_id in node.trace:
+            trace = np.array(node.trace[agent_id])
+            if sample_rate > 1 and node.type == AnalysisTreeNodeType.REACH_TUBE:
+                boxes = []
+                for i in range(0, len(trace), sample_rate * 2):
+                    group = trace[i : i + sample_rate * 2]
+                    boxes.append(np.min(group, axis=0))
+                    boxes.append(np.max(group, axis=0))
+                trace = np.array(boxes).reshape(-1, *trace.shape[1:])
+            else:
+                trace = trace[::sample_rate]
+            sampled.trace[agent_id] = trace
+        copies[id(node)] = sampled
+        queue += node.child
+    for sampled in copies.values():
+        sampled.child = [copies[id(child)] for child in sampled.child]
+    return copies[id(root)]
 
 
 def num_digits(val: float):
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index 7f0f84a..ded874f 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -1,3 +1,4 @@
+import copy
 import plotly.graph_objects as go
 import numpy as np
 from typing import List, Tuple, Union
@@ -13,7 +14,7 @@ from matplotlib.animation import FuncAnimation
 import math
 
 # import time
-from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode
+from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
 from verse.map.lane_map_3d import LaneMap_3d
 from verse.map.lane_segment_3d import StraightLane_3d, CircularLane_3d_v1
 
@@ -487,31 +488,31 @@ def check_dim(num_dim: int, x_dim: int = 1, y_dim: int = 2, z_dim: int = 3, prin
 
 
 def sample_trace(root, sample_rate: int = 1):
+    """A copy of the tree that keeps every sample_rate-th state of simulations, and the hull of
+    sample_rate consecutive boxes of reachtubes."""
+    copies = {}
     queue = [root]
-    # print(root.trace)
-    if root.type == "reachtube":
-        sample_rate = sample_rate * 2
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                trace_length = len(node.trace[agent_id])
-                tmp = []
-                for i in range(0, trace_length, sample_rate):
-                    if i + sample_rate - 1 < trace_length:
-                        tmp.append(node.trace[agent_id][i])
-                        tmp.append(node.trace[agent_id][i + sample_rate - 1])
-                node.trace[agent_id] = tmp
-            queue += node.child
-    else:
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                node.trace[agent_id] = [
-                    node.trace[agent_id][i]
-                    for i in range(0, len(node.trace[agent_id]), sample_rate)
-                ]
-            queue += node.child
-    return root
+    while queue != []:
+        node = queue.pop()
+        sampled = copy.copy(node)
+        sampled.trace = {}
+        for agent_id in node.trace:
+            trace = np.array(node.trace[agent_id])
+            if sample_rate > 1 and node.type == AnalysisTreeNodeType.REACH_TUBE:
+                boxes = []
+                for i in range(0, len(trace), sample_rate * 2):
+                    group = trace[i : i + sample_rate * 2]
+                    boxes.append(np.min(group, axis=0))
+                    boxes.append(np.max(group, axis=0))
+                trace = np.array(boxes).reshape(-1, *trace.shape[1:])
+            else:
+                trace = trace[::sample_rate]
+            sampled.trace[agent_id] = trace
+        copies[id(node)] = sampled
+        queue += node.child
+    for sampled in copies.values():
+        sampled.child = [copies[id(child)] for child in sampled.child]
+    return copies[id(root)]
 
 
 def update_style(fig: go.Figure = None, x_title=None, y_title=None, z_title=None):
-- 
2.43.0


From 4f9ccd68e47a6b39ee65f0996a3486adc2d3a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 57/69] fix: nodes without a trace do not hide the rest of a
 plot

---
 verse/plotter/plotter2D.py     | 43 ++++++++++++++++++++++++----------
 verse/plotter/plotter3D.py     |  2 +-
 verse/plotter/plotter3D_new.py | 12 ++++++----
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 1d5c1f3..347753f 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -118,6 +118,8 @@ def simulation_tree(
         i = 0
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             if scale_type == "trace":
                 x_min = min(x_min, min(trace[:, x_dim]))
                 x_max = max(x_max, max(trace[:, x_dim]))
@@ -158,7 +160,7 @@ def simulation_tree(
                     )
                 )
         queue += node.child
-    if scale_type == "trace":
+    if scale_type == "trace" and x_min <= x_max:
         fig.update_xaxes(
             range=[x_min - scale_factor * (x_max - x_min), x_max + scale_factor * (x_max - x_min)]
         )
@@ -232,7 +234,7 @@ def simulation_anime(
                     elif tmp_trace not in timed_agent_reach_dict[time_point][agent_id]:
                         timed_agent_reach_dict[time_point][agent_id].append(tmp_trace)
         queue += node.child
-    duration = int(5000 / num_points / speed_rate)
+    duration = int(5000 / max(num_points, 1) / speed_rate)
     fig_dict, sliders_dict = create_anime_dict(duration)
     # used for trail mode
     time_list = list(timed_agent_reach_dict.keys())
@@ -246,7 +248,7 @@ def simulation_anime(
 
     if anime_mode == "normal":
         # make data
-        trace_dict = timed_agent_reach_dict[0]
+        trace_dict = timed_agent_reach_dict.get(min(timed_agent_reach_dict, default=0), {})
         for agent_id, trace_list in trace_dict.items():
             color = colors[agent_list.index(agent_id) % num_theme][1]
             x_list = []
@@ -423,6 +425,8 @@ def simulation_anime(
         i = 0
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             trace_y = trace[:, y_dim].tolist()
             trace_x = trace[:, x_dim].tolist()
             i = agent_list.index(agent_id)
@@ -457,7 +461,7 @@ def simulation_anime(
                         )
                     )
         queue += node.child
-    if scale_type == "trace":
+    if scale_type == "trace" and x_min <= x_max:
         fig.update_xaxes(
             range=[x_min - scale_factor * (x_max - x_min), x_max + scale_factor * (x_max - x_min)]
         )
@@ -544,6 +548,8 @@ def reachtube_tree(
         i = 0
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             if scale_type == "trace":
                 x_min = min(x_min, min(trace[:, x_dim]))
                 x_max = max(x_max, max(trace[:, x_dim]))
@@ -581,7 +587,7 @@ def reachtube_tree(
                         )
                     )
         queue += node.child
-    if scale_type == "trace":
+    if scale_type == "trace" and x_min <= x_max:
         fig.update_xaxes(
             range=[x_min - scale_factor * (x_max - x_min), x_max + scale_factor * (x_max - x_min)]
         )
@@ -634,6 +640,8 @@ def reachtube_anime(
         traces = node.trace
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             if trace[0][0] > 0:
                 trace = trace[8:]
             for i in range(0, len(trace) - 1, 2):
@@ -653,7 +661,7 @@ def reachtube_anime(
                         timed_agent_reach_dict[time_point][agent_id] = [rect]
 
         queue += node.child
-    duration = int(5000 / num_points / speed_rate)
+    duration = int(5000 / max(num_points, 1) / speed_rate)
     fig_dict, sliders_dict = create_anime_dict(duration)
     for time_point in timed_agent_reach_dict:
         frame = {"data": [], "layout": {"annotations": [], "shapes": []}, "name": time_point}
@@ -719,6 +727,8 @@ def reachtube_anime(
         traces = node.trace
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             if scale_type == "trace":
                 x_min = min(x_min, min(trace[:, x_dim]))
                 x_max = max(x_max, max(trace[:, x_dim]))
@@ -759,7 +769,7 @@ def reachtube_anime(
                         )
                     )
         queue += node.child
-    if scale_type == "trace":
+    if scale_type == "trace" and x_min <= x_max:
         fig.update_xaxes(
             range=[x_min - scale_factor * (x_max - x_min), x_max + scale_factor * (x_max - x_min)]
         )
@@ -1044,7 +1054,7 @@ def reachtube_tree_video(
             )
         fig.update_layout(legend_title_text="Trajectory Types")
     fig: go.Figure = draw_map(map=map, fig=fig, fill_type=map_type)
-    if scale_type == "trace":
+    if scale_type == "trace" and x_min <= x_max:
         fig.update_xaxes(
             range=[x_min - scale_factor * (x_max - x_min), x_max + scale_factor * (x_max - x_min)]
         )
@@ -1821,8 +1831,9 @@ def reachtube_tree_single(
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
-        if agent_id not in traces:
-            break
+        if agent_id not in traces or len(traces[agent_id]) == 0:
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1
         if (
@@ -2060,8 +2071,9 @@ def simulation_tree_single(
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
-        if agent_id not in traces.keys():
-            return fig
+        if agent_id not in traces or len(traces[agent_id]) == 0:
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         start = list(trace[0])
         end = list(trace[-1])
@@ -2521,6 +2533,8 @@ def reachtube_tree_slice(
         i = 0
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             if scale_type == "trace":
                 x_min = min(x_min, min(trace[:, x_dim]))
                 x_max = max(x_max, max(trace[:, x_dim]))
@@ -2558,7 +2572,7 @@ def reachtube_tree_slice(
                         )
                     )
         queue += node.child
-    if scale_type == "trace":
+    if scale_type == "trace" and x_min <= x_max:
         fig.update_xaxes(
             range=[x_min - scale_factor * (x_max - x_min), x_max + scale_factor * (x_max - x_min)]
         )
@@ -2603,6 +2617,9 @@ def reachtube_tree_single_slice(
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
+        if agent_id not in traces or len(traces[agent_id]) == 0:
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1 
 
diff --git a/verse/plotter/plotter3D.py b/verse/plotter/plotter3D.py
index 220c674..773bd16 100644
--- a/verse/plotter/plotter3D.py
+++ b/verse/plotter/plotter3D.py
@@ -50,7 +50,7 @@ def plot3dReachtube(root, agent_id, x_dim, y_dim, z_dim, color="b", ax=None, edg
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
-        trace = traces[agent_id]
+        trace = traces.get(agent_id, [])
         data = []
         for i in range(0, len(trace), 2):
             data.append([trace[i], trace[i + 1]])
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index ded874f..caf1250 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -267,8 +267,9 @@ def simulation_tree_single_3d(
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
-        if agent_id not in traces.keys():
-            return fig
+        if agent_id not in traces or len(traces[agent_id]) == 0:
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         start = list(trace[0])
         end = list(trace[-1])
@@ -369,8 +370,9 @@ def reachtube_tree_single_3d(
         node = queue.pop(0)
         traces = node.trace
 
-        if agent_id not in traces: # hack, figure out why some agent_ids are not appearing in some nodes
-            continue 
+        if agent_id not in traces or len(traces[agent_id]) == 0:
+            queue += node.child
+            continue
 
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1
@@ -646,6 +648,8 @@ def reachtube_anime_3d(
         traces = node.trace
         for agent_id in traces:
             trace = np.array(traces[agent_id])
+            if len(trace) == 0:
+                continue
             if trace[0][0] > 0:
                 trace = trace[8:]
             for i in range(0, len(trace) - 1, 2):
-- 
2.43.0


From 2835ce594f977e21810ad7d86342b97e0fd9f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 58/69] fix: a single box is drawn as a box

---
 verse/plotter/plotter2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 347753f..2fe64b9 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -1837,8 +1837,8 @@ def reachtube_tree_single(
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1
         if (
-            len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id)]))) == 1
-            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id)]))) == 1
+            len(np.unique(np.array([trace[i][x_dim] for i in range(0, len(trace))]))) == 1
+            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, len(trace))]))) == 1
         ):
             fig.add_trace(
                 go.Scatter(
@@ -2624,8 +2624,8 @@ def reachtube_tree_single_slice(
         max_id = len(trace) - 1 
 
         if (
-            len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id)]))) == 1
-            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id)]))) == 1
+            len(np.unique(np.array([trace[i][x_dim] for i in range(0, len(trace))]))) == 1
+            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, len(trace))]))) == 1
         ):
             fig.add_trace(
                 go.Scatter(
-- 
2.43.0


From e42a95a7734bc508bf2ccdf3f3346e8b0748a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 59/69] fix: animations show the first boxes of every node

---
 verse/plotter/plotter2D.py     | 2 --
 verse/plotter/plotter3D_new.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 2fe64b9..bfde944 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -642,8 +642,6 @@ def reachtube_anime(
             trace = np.array(traces[agent_id])
             if len(trace) == 0:
                 continue
-            if trace[0][0] > 0:
-                trace = trace[8:]
             for i in range(0, len(trace) - 1, 2):
                 x_min = min(x_min, trace[i][x_dim])
                 x_max = max(x_max, trace[i][x_dim])
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index caf1250..4733c71 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -650,8 +650,6 @@ def reachtube_anime_3d(
             trace = np.array(traces[agent_id])
             if len(trace) == 0:
                 continue
-            if trace[0][0] > 0:
-                trace = trace[8:]
             for i in range(0, len(trace) - 1, 2):
                 time_point = round(trace[i][0], num_digit)
                 
-- 
2.43.0


From 65cdce7271d840153368df90dde3d87e06b10242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 60/69] fix: dimensions to print that do not exist are refused

---
 verse/plotter/plotter2D.py     | 2 +-
 verse/plotter/plotter3D_new.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index bfde944..cc1cb77 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2296,7 +2296,7 @@ def check_dim(num_dim: int, x_dim: int = 1, y_dim: int = 2, print_dim_list: List
     if print_dim_list is None:
         return True
     for i in print_dim_list:
-        if y_dim < 0 or y_dim >= num_dim:
+        if i < 0 or i >= num_dim:
             raise ValueError(f"wrong printed dimension value {i}")
     return True
 
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index 4733c71..f037dba 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -484,7 +484,7 @@ def check_dim(num_dim: int, x_dim: int = 1, y_dim: int = 2, z_dim: int = 3, prin
     if print_dim_list is None:
         return True
     for i in print_dim_list:
-        if y_dim < 0 or y_dim >= num_dim:
+        if i < 0 or i >= num_dim:
             raise ValueError(f"wrong printed dimension value {i}")
     return True
 
-- 
2.43.0


From fc8fc1e1f2e5fb1f4a01413f287deaab7137b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 61/69] fix: sampled star plots leave the tree as it is

---
 verse/plotter/plotterStar.py | 38 +++++++++++++-----------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/verse/plotter/plotterStar.py b/verse/plotter/plotterStar.py
index d163885..c5579cd 100644
--- a/verse/plotter/plotterStar.py
+++ b/verse/plotter/plotterStar.py
@@ -78,28 +78,18 @@ def reachtube_tree_single(root,agent_id,x_dim,y_dim, color):
 
 
 def sample_trace(root, sample_rate: int = 1):
+    """A copy of the tree that keeps every sample_rate-th set."""
+    copies = {}
     queue = [root]
-    # print(root.trace)
-    if root.type == "reachtube":
-        sample_rate = sample_rate * 2
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                trace_length = len(node.trace[agent_id])
-                tmp = []
-                for i in range(0, trace_length, sample_rate):
-                    if i + sample_rate - 1 < trace_length:
-                        tmp.append(node.trace[agent_id][i])
-                        tmp.append(node.trace[agent_id][i + sample_rate - 1])
-                node.trace[agent_id] = tmp
-            queue += node.child
-    else:
-        while queue != []:
-            node: AnalysisTreeNode = queue.pop()
-            for agent_id in node.trace:
-                node.trace[agent_id] = [
-                    node.trace[agent_id][i]
-                    for i in range(0, len(node.trace[agent_id]), sample_rate)
-                ]
-            queue += node.child
-    return root
+    while queue != []:
+        node: AnalysisTreeNode = queue.pop()
+        sampled = copy.copy(node)
+        sampled.trace = {
+            agent_id: [trace[i] for i in range(0, len(trace), sample_rate)]
+            for agent_id, trace in node.trace.items()
+        }
+        copies[id(node)] = sampled
+        queue += node.child
+    for sampled in copies.values():
+        sampled.child = [copies[id(child)] for child in sampled.child]
+    return copies[id(root)]
-- 
2.43.0


From 763d794f712fe0a8cc47f1ba56128ec217b68f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 62/69] fix: a slice of a plot shows the slice, whatever is
 combined

---
 verse/plotter/plotter2D.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index cc1cb77..cea1533 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2608,6 +2608,10 @@ def reachtube_tree_single_slice(
     if color == None:
         color = list(scheme_dict.keys())[color_cnt]
         color_cnt = (color_cnt + 1) % num_theme
+    if t_lower is None:
+        t_lower = 0
+    if t_upper is None:
+        t_upper = np.inf
     queue = [root]
     show_legend = False
     fillcolor = plot_color[scheme_dict[color]][1]
@@ -2619,6 +2623,16 @@ def reachtube_tree_single_slice(
             queue += node.child
             continue
         trace = np.array(traces[agent_id])
+        in_slice = [
+            i
+            for idx in range(0, len(trace) - 1, 2)
+            if trace[idx][0] >= t_lower and trace[idx + 1][0] <= t_upper
+            for i in (idx, idx + 1)
+        ]
+        if not in_slice:
+            queue += node.child
+            continue
+        trace = trace[in_slice]
         max_id = len(trace) - 1 
 
         if (
@@ -2640,12 +2654,11 @@ def reachtube_tree_single_slice(
                 )
             )
         elif combine_rect == None:
-            ### may have to modify if statements
             max_id = len(trace) - 1
-            trace_x_odd = np.array([trace[i][x_dim] for i in range(0, max_id, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
-            trace_x_even = np.array([trace[i][x_dim] for i in range(1, max_id + 1, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
-            trace_y_odd = np.array([trace[i][y_dim] for i in range(0, max_id, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
-            trace_y_even = np.array([trace[i][y_dim] for i in range(1, max_id + 1, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
+            trace_x_odd = np.array([trace[i][x_dim] for i in range(0, max_id, 2)])
+            trace_x_even = np.array([trace[i][x_dim] for i in range(1, max_id + 1, 2)])
+            trace_y_odd = np.array([trace[i][y_dim] for i in range(0, max_id, 2)])
+            trace_y_even = np.array([trace[i][y_dim] for i in range(1, max_id + 1, 2)])
             fig.add_trace(
                 go.Scatter(
                     x=trace_x_odd.tolist() + trace_x_even[::-1].tolist() + [trace_x_odd[0]],
@@ -2662,10 +2675,6 @@ def reachtube_tree_single_slice(
             )
         elif combine_rect <= 1:
             for idx in range(0, len(trace), 2):
-                if trace[idx][0]<t_lower:
-                    continue
-                if trace[idx+1][0]>t_upper:
-                    break
                 trace_x = np.array(
                     [
                         trace[idx][x_dim],
@@ -2736,12 +2745,11 @@ def reachtube_tree_single_slice(
                         )
                     )
                 else:
-                    ### assuming max_id is <=len(trace)-1, if not, modify the conditions
-                    trace_x_odd = np.array([trace_seg[i][x_dim] for i in range(0, max_id, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
-                    trace_x_even = np.array([trace_seg[i][x_dim] for i in range(1, max_id + 1, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
+                    trace_x_odd = np.array([trace_seg[i][x_dim] for i in range(0, max_id, 2)])
+                    trace_x_even = np.array([trace_seg[i][x_dim] for i in range(1, max_id + 1, 2)])
 
-                    trace_y_odd = np.array([trace_seg[i][y_dim] for i in range(0, max_id, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
-                    trace_y_even = np.array([trace_seg[i][y_dim] for i in range(1, max_id + 1, 2) if trace[i][0]>=t_lower and trace[i+1][0]<=t_upper])
+                    trace_y_odd = np.array([trace_seg[i][y_dim] for i in range(0, max_id, 2)])
+                    trace_y_even = np.array([trace_seg[i][y_dim] for i in range(1, max_id + 1, 2)])
 
                     x_start = 0
                     x_end = 0
-- 
2.43.0


From aa6b178a48037bf5195206ca75c5f107fb557bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 63/69] fix: colours can be named, and palettes of any length
 given

---
 verse/plotter/plotter2D.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index cea1533..1030262 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -29,20 +29,21 @@ colors = [
     ["#00CC00", "#00FF00", "#33FF33", "#66FF66", "#99FF99", "#E5FFCC"],  # lime
     ["#CC0066", "#FF007F", "#FF3399", "#FF66B2", "#FF99CC", "#FFCCE5"],  # pink
 ]
+# names for the entries of colors; the first num_theme of them, in the same order
 scheme_dict = {
     "red": 0,
-    "orange": 1,
+    "blue": 1,
     "green": 2,
     "yellow": 3,
-    "yellowgreen": 4,
-    "lime": 5,
-    "springgreen": 6,
-    "cyan": 7,
-    "cyanblue": 8,
-    "blue": 9,
-    "purple": 10,
-    "magenta": 11,
-    "pink": 12,
+    "magenta": 4,
+    "cyan": 5,
+    "orange": 6,
+    "lime": 7,
+    "pink": 8,
+    "yellowgreen": 2,
+    "springgreen": 2,
+    "cyanblue": 5,
+    "purple": 4,
 }
 scheme_list = list(scheme_dict.keys())
 num_theme = len(colors)
@@ -559,7 +560,7 @@ def reachtube_tree(
             if label_mode != "None":
                 if previous_mode[agent_id] != node.mode[agent_id]:
                     text_pos, text = get_text_pos(node.mode[agent_id][0])
-                    mode_point_color = plot_color[agent_list.index(agent_id) % num_theme][0]
+                    mode_point_color = plot_color[agent_list.index(agent_id) % num_theme % len(plot_color)][0]
                     fig.add_trace(
                         go.Scatter(
                             x=[trace[0, x_dim]],
@@ -1824,8 +1825,8 @@ def reachtube_tree_single(
         color_cnt = (color_cnt + 1) % num_theme
     queue = [root]
     show_legend = False
-    fillcolor = plot_color[scheme_dict[color]][1]
-    linecolor = plot_color[scheme_dict[color]][0]
+    fillcolor = plot_color[scheme_dict[color] % len(plot_color)][1]
+    linecolor = plot_color[scheme_dict[color] % len(plot_color)][0]
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
@@ -2090,7 +2091,7 @@ def simulation_tree_single(
                 x=trace[:, x_dim],
                 y=trace[:, y_dim],
                 mode="lines",
-                line_color=plot_color[scheme_dict[color]][color_id],
+                line_color=plot_color[scheme_dict[color] % len(plot_color)][color_id],
                 text=[
                     ["{:.2f}".format(trace[i, j]) for j in print_dim_list]
                     for i in range(trace.shape[0])
@@ -2542,7 +2543,7 @@ def reachtube_tree_slice(
             if label_mode != "None":
                 if previous_mode[agent_id] != node.mode[agent_id]:
                     text_pos, text = get_text_pos(node.mode[agent_id][0])
-                    mode_point_color = plot_color[agent_list.index(agent_id) % num_theme][0]
+                    mode_point_color = plot_color[agent_list.index(agent_id) % num_theme % len(plot_color)][0]
                     fig.add_trace(
                         go.Scatter(
                             x=[trace[0, x_dim]],
@@ -2614,8 +2615,8 @@ def reachtube_tree_single_slice(
         t_upper = np.inf
     queue = [root]
     show_legend = False
-    fillcolor = plot_color[scheme_dict[color]][1]
-    linecolor = plot_color[scheme_dict[color]][0]
+    fillcolor = plot_color[scheme_dict[color] % len(plot_color)][1]
+    linecolor = plot_color[scheme_dict[color] % len(plot_color)][0]
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
-- 
2.43.0


From 9730f9def79c470e152a4142b21f80f310a38537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:21 +0000
Subject: [PATCH 64/69] fix: maps with equal or missing speed limits can be
 drawn in detail

---
 verse/plotter/plotter2D.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 1030262..0320130 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2128,8 +2128,12 @@ def draw_map(
     if fill_type == "detailed":
         speed_dict = map.get_all_speed_limit()
         speed_list = list(filter(None, speed_dict.values()))
+        if not speed_list:
+            fill_type = "lines"
+    if fill_type == "detailed":
         speed_min = min(speed_list)
         speed_max = max(speed_list)
+        speed_range = speed_max - speed_min or 1
         start_color = [255, 255, 255, 0.2]
         end_color = [0, 0, 0, 0.2]
         curr_color = [0, 0, 0, 0]
@@ -2146,12 +2150,12 @@ def draw_map(
                     curr_color[j] = int(
                         start_color[j]
                         + (speed_limit - speed_min)
-                        / (speed_max - speed_min)
+                        / speed_range
                         * (end_color[j] - start_color[j])
                     )
-                curr_color[lens] = start_color[lens] + (speed_limit - speed_min) / (
-                    speed_max - speed_min
-                ) * (end_color[lens] - start_color[lens])
+                curr_color[lens] = start_color[lens] + (
+                    speed_limit - speed_min
+                ) / speed_range * (end_color[lens] - start_color[lens])
         for lane_seg in lane.segment_list:
             if lane_seg.type == "Straight":
                 start1 = lane_seg.start + lane_seg.width / 2 * lane_seg.direction_lateral
@@ -2222,7 +2226,7 @@ def draw_map(
                 y_min = min(y_min, min(trace_y))
                 x_max = max(x_max, max(trace_x))
                 y_max = max(y_max, max(trace_y))
-                if fill_type == "lines":
+                if fill_type == "lines" or (fill_type == "detailed" and speed_limit is None):
                     fig.add_trace(
                         go.Scatter(
                             x=trace_x,
-- 
2.43.0


From 8658a2e91dfaec8c4dc52d6b5ea969402100d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 65/69] fix: the first transition of an agent is the earliest
 over all branches

---
 verse/analysis/analysis_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index faae04a..8440dc4 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -518,6 +518,7 @@ def first_transitions(tree: AnalysisTree) -> Dict[str, float]:  # id, start time
     for node in tree.nodes:
         for child in node.child:
             for aid in node.agent:
-                if aid not in d and node.mode[aid] != child.mode[aid]:
-                    d[aid] = child.start_time
+                if node.mode[aid] != child.mode[aid]:
+                    # a branch visited later may have transitioned earlier
+                    d[aid] = min(d.get(aid, child.start_time), child.start_time)
     return d
-- 
2.43.0


From 37b12ccbb526f2ec459883b7b02eb8fb74d64183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 66/69] fix: trees with unexpanded nodes can be visualized

---
 verse/analysis/analysis_tree.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 8440dc4..42a62fd 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -403,7 +403,8 @@ class AnalysisTree:
 
     @staticmethod
     def _get_len(node: AnalysisTreeNode, lens: Dict[int, int]) -> int:
-        res = len(next(iter(node.trace.values()))) + (
+        # nodes that were not expanded lack traces
+        res = len(next(iter(node.trace.values()), ())) + (
             0 if len(node.child) == 0 else max(AnalysisTree._get_len(c, lens) for c in node.child)
         )
         lens[node.id] = res
@@ -417,7 +418,7 @@ class AnalysisTree:
         older nodes.
         """
         lens = {}
-        total_len = AnalysisTree._get_len(self.root, lens)
+        total_len = max(AnalysisTree._get_len(self.root, lens), 1)
         G = nx.Graph()
         for node in self.nodes:
             G.add_node(node.id, time=(node.id, node.start_time))
@@ -447,7 +448,7 @@ class AnalysisTree:
             return [aid for aid in a.agent if a.mode[aid] != b.mode[aid]]
 
         lens = {}
-        total_len = AnalysisTree._get_len(self.root, lens)
+        total_len = max(AnalysisTree._get_len(self.root, lens), 1)
         graph = graphviz.Digraph()
         for node in self.nodes:
             tooltip = "\n".join(
-- 
2.43.0


From d2b44113e323279d4e6926803844bb6e9ed8910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 67/69] fix: star sets are plotted in the chosen dimensions

---
 verse/plotter/plotterStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/plotter/plotterStar.py b/verse/plotter/plotterStar.py
index c5579cd..3955654 100644
--- a/verse/plotter/plotterStar.py
+++ b/verse/plotter/plotterStar.py
@@ -63,7 +63,7 @@ def reachtube_tree_single(root,agent_id,x_dim,y_dim, color):
             for i in range(0, len(trace)):
                 #trace[i][1].show()
                 #print(trace[i][1])
-                x, y = np.array(trace[i][1].get_verts())
+                x, y = np.array(trace[i][1].get_verts(x_dim, y_dim))
                 #print(verts)
                 #x=[verts[:,0]]
                 #print(x)
-- 
2.43.0


From 630b7cb099cc72c84c74739c78a00624c53e6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:35 +0000
Subject: [PATCH 68/69] fix: incremental analysis looks again at transitions
 that the map may have refused

---
 verse/analysis/incremental.py | 9 +++++++++
 verse/analysis/simulator.py   | 2 ++
 verse/analysis/verifier.py    | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 359db53..2410275 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -68,6 +68,15 @@ def to_simulate(
     return changed, added_paths
 
 
+def map_decides(node: AnalysisTreeNode) -> bool:
+    """Whether the map may have refused transitions from the node, so that the paths which lead to them
+    have to be looked at again when others are added or removed"""
+    return any(
+        agent.decision_logic.paths and node.get_track(agent_id, node.mode[agent_id]) is not None
+        for agent_id, agent in node.agent.items()
+    )
+
+
 def num_steps(horizon: float, time_step: float) -> int:
     return int(np.ceil(horizon / time_step - _EPSILON))
 
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index e7cacec..9dfe928 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -18,6 +18,7 @@ from verse.analysis.incremental import (
     CachedSegment,
     SimTraceCache,
     convert_sim_trans,
+    map_decides,
     num_steps,
     same_step,
     to_simulate,
@@ -263,6 +264,7 @@ class Simulator:
                 if (
                     all(tuple(old_node.mode[a]) == tuple(node.mode[a]) for a in node.agent)
                     and old_node.static == node.static
+                    and not map_decides(node)
                     and sim_trans_suit(old_node.init, node.init)
                     and same_step(old_trace, 1, consts.time_step)
                 ):
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 087d082..47a15ca 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -15,6 +15,7 @@ from verse.analysis.incremental import (
     ReachTubeCache,
     TubeCache,
     convert_reach_trans,
+    map_decides,
     num_steps,
     same_step,
     to_simulate,
@@ -717,6 +718,7 @@ class Verifier:
             consts.reachability_method == ReachabilityMethod.STAR_SETS
             or any(tuple(old_node.mode[a]) != tuple(node.mode[a]) for a in node.agent)
             or old_node.static != node.static
+            or map_decides(node)
             or not all(same_step(old_node.trace[a], 2, consts.time_step) for a in node.agent)
         ):
             return 0
-- 
2.43.0


From 0093d849b812e017370518bea43a170f99a4e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 69/69] fix: a new map or sensor discards the results cached
 for incremental analysis

---
 verse/scenario/scenario.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index efa3d6f..b0b9058 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -80,10 +80,14 @@ class Scenario:
     def set_sensor(self, sensor):
         """Sets the sensor for the scenario. Will use the default sensor when not called."""
         self.sensor = sensor
+        # results cached for incremental analysis were computed with another sensor
+        self.cleanup_cache()
 
     def set_map(self, track_map: LaneMap):
         """Sets the map for the scenario."""
         self.map = track_map
+        # results cached for incremental analysis were computed with another map
+        self.cleanup_cache()
         # Update the lane mode field in the agent
         for agent_id in self.agent_dict:
             agent = self.agent_dict[agent_id]
-- 
2.43.0

