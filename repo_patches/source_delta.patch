From 341661ff8f410edda48fa4ed99c58b8235e9d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 01/30] fix: belief base changes no longer break a query being
 iterated

---
 agentspeak/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..b5675b7 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -205,8 +205,9 @@ class TermQuery:
         except AttributeError:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
-        # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        # Query on the belief base (a snapshot, because the belief base may
+        # change while this query is suspended).
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From 17e5c2808939e3046a2eb85cfa18b095a69ecb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 02/30] fix: annotated unification with a variable keeps
 earlier bindings

---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..e19d1a4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -631,6 +631,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From 3e0ce293aae2b2e9ff81f1b43c185419f4f06a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 03/30] fix: bindings of a failed action are undone on
 backtracking

---
 agentspeak/runtime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b5675b7..95d9655 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -183,9 +183,15 @@ class ActionQuery:
         self.impl = impl
 
     def execute(self, agent, intention):
+        # Undo bindings of failed or abandoned attempts.
+        choicepoint = object()
+        intention.stack.append(choicepoint)
+
         for _ in self.impl(agent, self.term, intention):
             yield
 
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From 88d9248f21a36c7b5eab4c15894be19e2dd7d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 04/30] fix: agents built together no longer share beliefs,
 rules and plans

---
 agentspeak/runtime.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 95d9655..b225090 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -850,25 +850,14 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
-
-        # Create more instances from the prototype, but with their own
-        # callstacks. This is more efficient than making complete deep copies.
-        agents = [prototype_agent]
+        ast_agent, agent = self._build_agent(source, actions, agent_cls, name)
+        agents = [agent]
 
+        # Build more instances from the same syntax tree. Nothing mutable may
+        # be shared between them.
         while len(agents) < n:
-            agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
-
-            for ast_goal in ast_agent.goals:
-                term = ast_goal.atom.accept(BuildTermVisitor({}))
-                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
-                           term, Intention(), delayed=True)
-
+            _, agent = self.build_agent_from_ast(source, ast_agent, actions, agent_cls, name)
             agents.append(agent)
-            self.agents[agent.name] = agent
 
         return agents
 
-- 
2.43.0


From c275ea7491ec89e3822c5dd78812bf29a4d267d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 05/30] fix: unachieve only stops achievement goals and leaves
 no empty intentions

---
 agentspeak/runtime.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b225090..d1a22a9 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -341,6 +341,7 @@ class Waiter:
 class Intention:
     def __init__(self):
         self.instr = None
+        self.goal_type = None
         self.head_term = None
         self.calling_term = None
 
@@ -429,7 +430,7 @@ class Agent:
             goal_type == agentspeak.GoalType.achievement
             and trigger == agentspeak.Trigger.removal
         ):
-            self._unachieve(term)
+            self._unachieve(frozen)
             return True
 
         # If the goal is an tellHow and the trigger is an addition, then the agent will add the goal received as string to his
@@ -468,6 +469,7 @@ class Agent:
                 plan.head, frozen, intention.scope, intention.stack
             ):
                 for _ in plan.context.execute(self, intention):
+                    intention.goal_type = goal_type
                     intention.head_term = frozen
                     intention.instr = plan.body
                     intention.calling_term = term
@@ -499,15 +501,23 @@ class Agent:
                 raise AslError("expected literal term")
 
         # Remove a intention passed by the parameters.
-        for intention_stack in self.intentions:
+        for intention_stack in list(self.intentions):
             if not intention_stack:
                 continue
 
             intention = intention_stack[-1]
 
+            # Only achievement goals can be unachieved.
+            if intention.goal_type != agentspeak.GoalType.achievement:
+                continue
+
             if intention.head_term.functor == term.functor:
                 if agentspeak.unifies(term.args, intention.head_term.args):
-                    intention_stack.remove(intention)
+                    intention_stack.pop()
+
+        # Do not keep intentions that are now finished.
+        self.intentions = collections.deque(
+            intention_stack for intention_stack in self.intentions if intention_stack)
 
     def _tell_how(self, term):
         """
-- 
2.43.0


From 0157dd6762249bfe33cd77561d769c6067fba6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 06/30] fix: a failed intention ends instead of failing again
 or counting as success

---
 agentspeak/runtime.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d1a22a9..306b507 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -684,6 +684,11 @@ class Agent:
         if deadlines:
             return min(deadlines)
 
+    def _drop_intention(self, failed):
+        failed.clear()
+        self.intentions = collections.deque(
+            intention_stack for intention_stack in self.intentions if intention_stack)
+
     def step(self):
         while self.intentions and not self.intentions[0]:
             self.intentions.popleft()
@@ -731,9 +736,11 @@ class Agent:
                 if not intention.instr:
                     raise AslError("plan failure")
         except AslError as err:
+            self._drop_intention(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.error("%s", err, loc=instr.loc, extra_locs=instr.extra_locs)
         except Exception as err:
+            self._drop_intention(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.exception("agent %r raised python exception: %r", self.name, err,
                                 loc=instr.loc, extra_locs=instr.extra_locs)
-- 
2.43.0


From 9e1e218b029983e4d4897731a36864093396aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 07/30] fix: plans sent in reply to askHow are complete and
 leave the library unchanged

---
 agentspeak/runtime.py | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 306b507..44af1e4 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -24,7 +24,6 @@ import functools
 import os.path
 import sys
 import time
-import re
 
 import agentspeak
 import agentspeak.lexer
@@ -306,15 +305,14 @@ class Rule:
 
 
 class Plan:
-    def __init__(self, trigger, goal_type, head, context, body, str_body, annotation):
+    def __init__(self, trigger, goal_type, head, context, body, ast_plan, annotation):
         self.trigger = trigger
         self.goal_type = goal_type
         self.head = head
         self.context = context
         self.body = body
-        self.str_body = str_body
+        self.ast_plan = ast_plan
         self.annotation = annotation
-        self.args = [None,None]
 
     def name(self):
         return "%s%s%s" % (self.trigger.value, self.goal_type.value, self.head)
@@ -559,9 +557,7 @@ class Agent:
 
         # Converts the Astplan to Plan
             
-        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-        
-        plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan, ast_plan.annotation)
 
         self.add_plan(plan)
 
@@ -756,26 +752,7 @@ def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
     """
-    if isinstance(plan.context, type(TrueQuery())):
-        context = "true"
-    else:
-        context = plan.context
-    
-    body = plan.str_body
-
-    if len(plan.head.args):
-        pattern = r"_X_[0-9a-fA-F]{3}_[0-9a-fA-F]+"
-        head = re.sub(pattern, lambda m: plan.args.pop(0), str(plan.head))
-    else:
-        head = str(plan.head)
-
-    if plan.annotation:
-        label = str(plan.annotation)
-    else:
-        label = ""
-        return  f"{plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
-
-    return f"@{label} {plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
+    return "%s." % (plan.ast_plan, )
 
 
 class Environment:
@@ -822,13 +799,7 @@ class Environment:
             if ast_plan.body:
                 ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
-            str_body = str(ast_plan.body)
-            
-            plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-
-            plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
-
-
+            plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan, ast_plan.annotation)
 
             agent.add_plan(plan)
 
-- 
2.43.0


From 8234afbaa6dd27f702e5a8a21e324d34f8576445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 08/30] fix: askHow sends every plan of exactly the named event
 and tolerates unknown plans

---
 agentspeak/runtime.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 44af1e4..e26448a 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -580,12 +580,13 @@ class Agent:
         if sender_name is None:
             raise AslError("expected source annotation")
 
-        plans_wanted = collections.defaultdict(lambda: [])
-        plans = self.plans.values()
-        for plan in plans:
-            for differents in plan:
-                if differents.head.functor in term.args[0]:
-                    plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)
+        # The name of the wanted event is the first functor.
+        log = agentspeak.Log(LOGGER)
+        tokens = agentspeak.lexer.tokenize(agentspeak.StringSource("<askHow>", term.args[0]), log)
+        functor = next((tok.lexeme for tok in tokens if tok.token.functor), None)
+
+        plans_wanted = [plan for plans in self.plans.values() for plan in plans
+                        if plan.head.functor == functor]
 
         # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked                       
         if plans_wanted:
@@ -600,15 +601,14 @@ class Agent:
                 else:
                     receiving_agents.append(self.env.agents[receiver])
 
-            for plan in plans_wanted.values():
-                for differents in plan:
-                    strplan = plan_to_str(differents)
-                    message = agentspeak.Literal("plain_text", (strplan,), frozenset())
+            for plan in plans_wanted:
+                message = agentspeak.Literal("plain_text", (plan_to_str(plan), ), frozenset())
                 for receiver in receiving_agents:
                     self._call_ask_how(receiver, message, intention)
         else:
-            log = agentspeak.Log(LOGGER)
-            raise log.warning(f"The agent not know the plan {term.args[2]}")
+            log.warning("agent %r does not know the plan '%s'", self.name, term.args[0])
+
+        return True
 
     def _untell_how(self, term):
         """
-- 
2.43.0


From 48e56792b802fa8016d3a29150024628f2f61397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 09/30] fix: tellHow installs exactly one valid plan, with the
 receiver's actions, or nothing

---
 agentspeak/runtime.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index e26448a..89ab467 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -363,6 +363,9 @@ class Agent:
 
         self.intentions = collections.deque()
 
+        # Actions available to plans received from other agents.
+        self.plan_actions = None
+
     def dump(self):
         LOGGER.info("Belief base")
         for beliefs in self.beliefs.values():
@@ -523,25 +526,27 @@ class Agent:
         """
         str_plan = term.args[0]
 
-        tokens = []
-        # extend tokens with the tokens of the string plan
-        tokens.extend(agentspeak.lexer.tokenize(agentspeak.StringSource("<stdin>", str_plan), agentspeak.Log(LOGGER), 1))
-
-        # Prepare the conversion from tokens to AstPlan
-        first_token = tokens[0]
+        # Parse and validate the plan, as for plans in a source file.
         log = agentspeak.Log(LOGGER)
-        tokens.pop(0)
-        tokens = iter(tokens)
-
-        # Converts the list of tokens to an Astplan
-        if first_token.lexeme in ["@", "+", "-"]:
-            tok, ast_plan = agentspeak.parser.parse_plan(first_token, tokens, log)
-            if tok.lexeme != ".":
-                raise log.error("", tok, "expected end of plan")
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<tellHow>", str_plan), log)
+        try:
+            tok, ast_plan = agentspeak.parser.parse_plan(next(tokens), tokens, log)
+        except StopIteration:
+            raise log.error("unexpected end of plan")
+        if tok.lexeme != ".":
+            raise log.error("expected '.' after plan, got '%s'", tok.lexeme, loc=tok.loc)
+        tok = next(tokens.tokens, None)
+        if tok:
+            raise log.error("expected no further tokens after plan, got '%s'", tok.lexeme, loc=tok.loc)
+
+        ast_agent = agentspeak.parser.AstAgent()
+        ast_agent.plans.append(ast_plan)
+        agentspeak.parser.validate(ast_agent, log)
+        log.throw()
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
-        actions = agentspeak.stdlib.actions
+        actions = self.plan_actions or agentspeak.stdlib.actions
 
         head = ast_plan.event.head.accept(BuildTermVisitor(variables))
 
@@ -555,8 +560,10 @@ class Agent:
         if ast_plan.body:
             ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
+        # Report errors, before the plan becomes visible.
+        log.throw()
+
         # Converts the Astplan to Plan
-            
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan, ast_plan.annotation)
 
         self.add_plan(plan)
@@ -775,6 +782,7 @@ class Environment:
 
         log = agentspeak.Log(LOGGER, 3)
         agent = agent_cls(self, self._make_name(name or source.name))
+        agent.plan_actions = actions
 
         # Add rules to agent prototype.
         for ast_rule in ast_agent.rules:
-- 
2.43.0


From 679829fd15b4c9ef32d8a584d781213367f458b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 10/30] fix: plan text held by a variable can be sent

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..d23d61e 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -136,7 +136,7 @@ def _send(agent, term, intention):
     # TODO: askOne, askAll
     # Prepare message. The message is either a plain text or a structured message.
     if ilf.functor in ["tellHow", "askHow", "untellHow"]:
-        message = agentspeak.Literal("plain_text", (term.args[2], ), frozenset())
+        message = agentspeak.Literal("plain_text", (agentspeak.grounded(term.args[2], intention.scope), ), frozenset())
     else:
         message = agentspeak.freeze(term.args[2], intention.scope, {})
     
-- 
2.43.0


From ce6225ebd85e03552e53100e45288daaf94307cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 11/30] fix: the run loop survives deadlines that pass before
 it sleeps and deadlines at time zero

---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 89ab467..2ffa872 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -868,8 +868,8 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
-                    time.sleep(wait_until - self.time())
+                if wait_until is not None:
+                    time.sleep(max(wait_until - self.time(), 0))
                     more_work = True
 
     def run(self):
@@ -884,7 +884,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(min(deadlines) - self.time(), 0))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From 90fb14d2379ea470682aeb91aab485533df562be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 12/30] fix: agents may join and leave while the environment is
 running

---
 agentspeak/runtime.py | 5 +++--
 agentspeak/stdlib.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 2ffa872..52cefb9 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -876,8 +876,9 @@ class Environment:
         maybe_more_work = True
         while maybe_more_work:
             maybe_more_work = False
-            for agent in self.agents.values():
-                if agent.step():
+            for name in list(self.agents):
+                agent = self.agents.get(name)
+                if agent is not None and agent.step():
                     maybe_more_work = True
 
             if not maybe_more_work:
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index d23d61e..e5ac1be 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -83,7 +83,7 @@ def _broadcast(agent, term, intention):
         agentspeak.Literal("source", (agentspeak.Literal(agent.name), )))
 
     # Broadcast.
-    for receiver in agent.env.agents.values():
+    for receiver in list(agent.env.agents.values()):
         if receiver == agent:
             continue
 
-- 
2.43.0


From e2f5bcdba65a829597c8abac7a4d345c4183b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 13/30] fix: end of input at the prompt ends the session

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 52cefb9..aa45d88 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1102,7 +1102,7 @@ def repl(agent, env, actions):
                     line = agentspeak.util.prompt("%s >>> " % agent.name)
                 else:
                     line = agentspeak.util.prompt("%s ... " % agent.name)
-            except KeyboardInterrupt:
+            except (KeyboardInterrupt, EOFError):
                 print()
                 sys.exit(0)
 
-- 
2.43.0


From 77fee41c2da4e15b8c662025f852c696b365f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 14/30] fix: actions in rules are invoked on their host object,
 not on a copy

---
 agentspeak/runtime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index aa45d88..ade875e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -181,6 +181,10 @@ class ActionQuery:
         self.term = term
         self.impl = impl
 
+    def __deepcopy__(self, memo):
+        # The implementation belongs to the host, it must not be copied.
+        return ActionQuery(copy.deepcopy(self.term, memo), self.impl)
+
     def execute(self, agent, intention):
         # Undo bindings of failed or abandoned attempts.
         choicepoint = object()
-- 
2.43.0


From 9d2ff180881f5bf63751b949659c4007cfd90375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 15/30] fix: beliefs that differ only in true and 1 or false
 and 0 are different

---
 agentspeak/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index e19d1a4..5b05d84 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -716,7 +716,7 @@ class Literal(object):
         return (
             not is_literal(other)
             or self.functor != other.functor
-            or self.args != other.args
+            or not same_args(self.args, other.args)
             or self.annots != other.annots
         )
 
@@ -942,6 +942,19 @@ def grounded(term, scope):
         return term
 
 
+def same_args(left, right):
+    """
+    Compares terms or tuples of terms. Unlike in Python, booleans are not
+    numbers.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return left is right
+    elif isinstance(left, tuple) and isinstance(right, tuple):
+        return len(left) == len(right) and all(same_args(l, r) for l, r in zip(left, right))
+    else:
+        return left == right
+
+
 def freeze(term, scope, memo):
     if hasattr(term, "freeze"):
         return term.freeze(scope, memo)
-- 
2.43.0


From 959b06e5ff40ebf6e04f6283c411fd5bce406e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 16/30] fix: a failing console command does not lose or disturb
 other commands

---
 agentspeak/runtime.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index ade875e..582721c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1130,8 +1130,20 @@ def repl(agent, env, actions):
                     body.accept(BuildInstructionsVisitor(variables, actions, intention.instr, log))
                     log.throw()
                     agent.intentions.append(collections.deque([intention]))
-                    env.run_agent(agent)
-                    dump_variables(variables, intention.scope)
+
+                    # A failure ends only the failed intention. Complete the
+                    # others before the next command.
+                    failed = False
+                    while True:
+                        try:
+                            env.run_agent(agent)
+                            break
+                        except agentspeak.AggregatedError as error:
+                            print(str(error), file=sys.stderr)
+                            failed = True
+
+                    if not failed:
+                        dump_variables(variables, intention.scope)
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
             tokens = []
-- 
2.43.0


From 71c5ea4ef8a0f8fe9c752de4c10cf4870e6456b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 17/30] fix: damaged included files are reported and closed,
 recursive includes are found

---
 agentspeak/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..cd252d7 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -971,7 +971,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if include in included_files:
+                if os.path.normpath(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
@@ -982,13 +982,13 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         else:
                             raise
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
-                        included_agent = parse(include, included_tokens, log, included_files)
+                        with included_file:
+                            included_tokens = agentspeak.lexer.TokenStream(included_file, log)
+                            included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
                         agent.goals += included_agent.goals
                         agent.plans += included_agent.plans
-                        included_file.close()
             elif tok.lexeme == "begin":
                 begin_loc = tok.loc
                 tok = next(tokens)
-- 
2.43.0


From c9a534be3dff641c9f6b5fa39ce2008563b23a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 18/30] fix: invalid expressions are reported as errors instead
 of crashing the loader

---
 agentspeak/parser.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index cd252d7..15e219a 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1067,16 +1067,23 @@ class FindVariablesVisitor(object):
     def visit_variable(self, ast_variable):
         yield ast_variable
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
@@ -1130,7 +1137,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except (ZeroDivisionError, OverflowError) as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
@@ -1180,6 +1187,9 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    def visit_linked_list(self, ast_linked_list):
+        return self.visit_list(ast_linked_list)
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1260,6 +1270,10 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    def visit_linked_list(self, ast_linked_list):
+        return self.visit_list(ast_linked_list)
 
 
 class TermFoldVisitor(object):
-- 
2.43.0


From 5d41ceebc4f72f7425e428bb1660c36c2711ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 19/30] fix: strings may contain any character, invalid escapes
 are reported

---
 agentspeak/__init__.py |  2 +-
 agentspeak/parser.py   | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 5b05d84..c937c3d 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -318,7 +318,7 @@ def sanitize_functor(s):
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return s[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape")
 
 
 def asl_str(term):
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 15e219a..9c43c71 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -519,6 +519,13 @@ def parse_linked_list_tail(tok, tokens, log):
                         tok.lexeme, loc=tok.loc)
 
 
+def parse_string(tok, log):
+    try:
+        return agentspeak.parse_string(tok.lexeme)
+    except UnicodeDecodeError as err:
+        raise log.error("invalid string: %s", err.reason, loc=tok.loc)
+
+
 def parse_atom(tok, tokens, log):
     if tok.token.variable:
         variable = AstVariable()
@@ -548,7 +555,7 @@ def parse_atom(tok, tokens, log):
         return next(tokens), const
     elif tok.token.string:
         const = AstConst()
-        const.value = agentspeak.parse_string(tok.lexeme)
+        const.value = parse_string(tok, log)
         const.loc = tok.loc
         return next(tokens), const
     else:
@@ -959,7 +966,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 tok = next(tokens)
                 if not tok.token.string:
                     raise log.error("expected filename to include, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-                include = agentspeak.parse_string(tok.lexeme)
+                include = parse_string(tok, log)
                 tok = next(tokens)
                 if tok.lexeme != ")":
                     raise log.error("expected ')' after include filename, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-- 
2.43.0


From 2bb109cc9efb42140b481c2a4f78e967701dfc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 20/30] fix: bindings made in a for loop body are undone after
 each pass

---
 agentspeak/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 582721c..9e02c54 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1018,7 +1018,10 @@ class BuildInstructionsVisitor:
 
         for_head = self.add_instr(next_or_fail)
 
-        last_in_loop = ast_for.body.accept(self)
+        # Undo bindings of the body after each pass.
+        self.add_instr(push_choicepoint)
+        ast_for.body.accept(self)
+        last_in_loop = self.add_instr(pop_choicepoint)
         last_in_loop.success = for_head
 
         self.tail = Instruction(pop_query)
-- 
2.43.0


From 66eebb99a786ebcb2e3a0d97d2dac420d74c627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 21/30] fix: abolish removes beliefs that have more annotations
 than the pattern, not fewer

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index e5ac1be..36174e2 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -310,7 +310,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From d7a0337ff43503a656b671b4e52f3942e5cee301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 22/30] fix: tabs in strings are kept

---
 agentspeak/lexer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 2da14eb..1273189 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -155,9 +155,14 @@ def tokenize(sourcefile, log, firstline=1):
     in_comment = False
 
     for lineno, line in enumerate(sourcefile):
-        line = line.replace("\t", "    ")
         startcol = 0
 
+        def location(start, end):
+            # Tabs are shown as four spaces.
+            return SourceLocation(sourcefile.name, lineno + firstline,
+                                  start + 3 * line.count("\t", 0, start), end + 3 * line.count("\t", 0, end),
+                                  line.replace("\t", "    "))
+
         while startcol < len(line):
             # Skip comments.
             if in_comment:
@@ -186,12 +191,12 @@ def tokenize(sourcefile, log, firstline=1):
                     yield TokenInfo(
                         match.group(0),
                         token,
-                        SourceLocation(sourcefile.name, lineno + firstline, startcol, match.end(0), line))
+                        location(startcol, match.end(0)))
 
                 startcol = match.end(0)
                 break
             else:
-                log.error("illegal character '%s'", line[startcol], loc=SourceLocation(sourcefile.name, lineno + firstline, startcol, startcol, line))
+                log.error("illegal character '%s'", line[startcol], loc=location(startcol, startcol))
                 startcol += 1
 
 
-- 
2.43.0


From 267c7d056f1f5ddaad62f836d8a2f4f85cc2c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 23/30] fix: a row that .csv failed to write leaves nothing
 behind that precedes the next row

---
 agentspeak/ext_stdlib.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index d03b6fa..399f4ab 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -1,3 +1,4 @@
+import contextlib
 import math
 import random
 
@@ -48,17 +49,36 @@ def _sum(agent, term, intention):
 @agentspeak.optimizer.no_scope_effects
 def _csv(agent, term, intention, _files={}):
     if agent in _files:
-        f = _files[agent]
+        f, end = _files[agent]
     else:
-        f = open("%s.csv" % agent.name, "w")
-        _files[agent] = f
+        f, end = None, None
 
     memo = {}
     txt = ",".join(asl_str(agentspeak.freeze(t, intention.scope, memo)) for t in term.args)
 
-    f.write(txt)
-    f.write("\n")
-    f.flush()
+    try:
+        if f is None:
+            if end is None:
+                f = open("%s.csv" % agent.name, "w")
+            else:
+                # Remove what the row that failed has left behind.
+                f = open("%s.csv" % agent.name, "r+")
+                f.seek(end)
+                f.truncate()
+
+        f.write(txt)
+        f.write("\n")
+        f.flush()
+        end = f.tell()
+    except:
+        # The rest of a row that failed must not precede the next one.
+        if f is not None:
+            _files[agent] = None, end
+            with contextlib.suppress(Exception):
+                f.close()
+        raise
+
+    _files[agent] = f, end
 
     yield
 
-- 
2.43.0


From c087b41a7f3a99e88c8b2cf8e5cc818e77637674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 24/30] fix: a source with errors is rejected before its
 initial beliefs have any effect

---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 9e02c54..9b45262 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -815,6 +815,9 @@ class Environment:
 
             agent.add_plan(plan)
 
+        # Report errors, before initial beliefs can have any effect.
+        log.throw()
+
         # Add beliefs to agent prototype.
         for ast_belief in ast_agent.beliefs:
             belief = ast_belief.accept(BuildTermVisitor({}))
@@ -827,9 +830,6 @@ class Environment:
             agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement,
                        term, Intention(), delayed=True)
 
-        # Report errors.
-        log.throw()
-
         self.agents[agent.name] = agent
         return ast_agent, agent
 
-- 
2.43.0


From f6b1c3ba1ce2543e6ba564040988bc4b80618fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 25/30] fix: build_agents creates all agents or none

---
 agentspeak/runtime.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 9b45262..7fc4a65 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -855,9 +855,15 @@ class Environment:
 
         # Build more instances from the same syntax tree. Nothing mutable may
         # be shared between them.
-        while len(agents) < n:
-            _, agent = self.build_agent_from_ast(source, ast_agent, actions, agent_cls, name)
-            agents.append(agent)
+        try:
+            while len(agents) < n:
+                _, agent = self.build_agent_from_ast(source, ast_agent, actions, agent_cls, name)
+                agents.append(agent)
+        except BaseException:
+            # All or none.
+            for agent in agents:
+                self.agents.pop(agent.name, None)
+            raise
 
         return agents
 
-- 
2.43.0


From 9d334b4b5ca329b5f7b2e429b1e4ba3a9bd7dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:59 +0000
Subject: [PATCH 26/30] fix: an include path that can not exist is reported as
 an error

---
 agentspeak/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 9c43c71..47b0088 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -988,6 +988,8 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                             log.error("include file not found: '%s'", include, loc=include_loc)
                         else:
                             raise
+                    except ValueError as err:
+                        log.error("can not include '%s': %s", include, err, loc=include_loc)
                     else:
                         with included_file:
                             included_tokens = agentspeak.lexer.TokenStream(included_file, log)
-- 
2.43.0


From fef50edf468bfc38954eafcdc964fb94f8a15c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 27/30] fix: a malformed console command leaves no variables
 behind

---
 agentspeak/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7fc4a65..41dd6db 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1136,8 +1136,10 @@ def repl(agent, env, actions):
                     tokens = list(token_stream)
 
                     intention.instr = Instruction(noop)
-                    body.accept(BuildInstructionsVisitor(variables, actions, intention.instr, log))
+                    command_variables = dict(variables)
+                    body.accept(BuildInstructionsVisitor(command_variables, actions, intention.instr, log))
                     log.throw()
+                    variables = command_variables
                     agent.intentions.append(collections.deque([intention]))
 
                     # A failure ends only the failed intention. Complete the
-- 
2.43.0


From 043ecc1771b47a5338ce7db9376de603db411cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:31 +0000
Subject: [PATCH 28/30] fix: lists with a tail that is not a list can be
 compared

A second belief that equals one with such a list made the agent fail.
---
 agentspeak/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index c937c3d..1c86aa2 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -834,7 +834,9 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or tuple(self) != tuple(other)
+        if isinstance(other, tuple):
+            return not other or not same_args((self.head, self.tail), (other[0], other[1:]))
+        return not isinstance(other, LinkedList) or not same_args((self.head, self.tail), (other.head, other.tail))
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
-- 
2.43.0


From b7e086157127da5184a6e979da8e2e68e2843811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:43 +0000
Subject: [PATCH 29/30] fix: inspecting an agent works for negated compound
 queries

---
 agentspeak/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 41dd6db..9d7171e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -195,6 +195,9 @@ class ActionQuery:
 
         agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
+    def __str__(self):
+        return str(self.term)
+
 
 class TermQuery:
     def __init__(self, term):
@@ -284,7 +287,7 @@ class NotQuery:
             yield
 
     def __str__(self):
-        return "not " + str(self.query.term)
+        return "not " + str(self.query)
 
 
 class UnifyQuery:
-- 
2.43.0


From 2f2a847c69c9af9ef4471ba06899d500594017e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:15 +0000
Subject: [PATCH 30/30] fix: .findall uses the value of a variable that an
 earlier solution left unbound

---
 agentspeak/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 1c86aa2..3e047a9 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -437,12 +437,13 @@ class Var(object):
         raise AslError("term not ground")
 
     def freeze(self, scope, memo):
-        if self in memo:
-            return memo[self]
-
+        # The memo may be older than the binding (.findall).
         if self in scope:
             return freeze(deref(self, scope), scope, memo)
 
+        if self in memo:
+            return memo[self]
+
         memo[self] = frozen = Var()
         return frozen
 
-- 
2.43.0

