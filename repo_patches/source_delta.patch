From 3b16327c699075b04d02c5a5fbaa29bd0a8453a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 01/58] fix: honour the activation time given when adding an
 agent

add(agent, when) passed the time as the 'replace' flag: the time was ignored,
and the heap-based scheduler dropped another agent's wake-up in exchange.
---
 soil/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 9d73781..63d7011 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -61,7 +61,7 @@ class PQueueActivation(DiscreteActivation):
         else:
             when = float(when)
 
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
@@ -132,7 +132,7 @@ class TimedActivation(DiscreteActivation):
             when = self.time
         else:
             when = float(when)
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-- 
2.43.0


From d1e9bd9950bfec1948cec7ad165d7f3812677549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:52 +0000
Subject: [PATCH 02/58] fix: do not lose wake-ups when an agent is added during
 an activation

PQueueActivation left the running agent at the head of the heap and replaced
or popped the head afterwards. If the agent had added another one with a
smaller key, the newcomer was dropped and the running agent was kept twice.
---
 soil/time.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 63d7011..46b5a62 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -71,10 +71,7 @@ class PQueueActivation(DiscreteActivation):
             key = (when, self.model.random.random())
         else:
             key = (when, agent.unique_id)
-        if replace:
-            heapreplace(self._queue, (key, agent))
-        else:
-            heappush(self._queue, (key, agent))
+        heappush(self._queue, (key, agent))
 
     def step(self) -> None:
         """
@@ -95,18 +92,20 @@ class PQueueActivation(DiscreteActivation):
                 next_time = when
                 break
 
+            # The entry has to leave the queue before the agent runs, because
+            # the agent may schedule others and change the head of the queue
+            heappop(self._queue)
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
-                heappop(self._queue)
                 continue
 
             if when == INFINITY:
-                heappop(self._queue)
                 continue
 
-            self._schedule(agent, when, replace=True)
+            self._schedule(agent, when)
 
         self.steps += 1
 
-- 
2.43.0


From b3e836e580f4edd99ef45086dc61128e3d1aa836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:08 +0000
Subject: [PATCH 03/58] fix: read the default interval of the model from the
 attribute that was checked

---
 soil/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index 46b5a62..805485f 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -37,7 +37,7 @@ class DiscreteActivation(BaseScheduler):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
-            self.default_interval = self.model.interval
+            self.default_interval = self.model.default_interval
 
 
 class PQueueActivation(DiscreteActivation):
-- 
2.43.0


From c4b5f153bd262a50c4d6b1e6f1e38738ccffe597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:37 +0000
Subject: [PATCH 04/58] fix: stop the model when no agent will ever be
 activated again

TimedActivation moved the clock to infinity but, unlike PQueueActivation, left
the model running, so a simulation without max_time never ended.
---
 soil/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/time.py b/soil/time.py
index 805485f..199f9be 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -179,6 +179,7 @@ class TimedActivation(DiscreteActivation):
         if self._queue:
             self.time = self._queue[0][0]
         else:
+            self.model.running = False
             self.time = INFINITY
 
 
-- 
2.43.0


From 2aaf5f397b4f10ba4a31f9772296f7aa07ffd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:00 +0000
Subject: [PATCH 05/58] fix: never activate agents that died or were removed
 while waiting for their turn

Only FSM agents checked whether they were alive, and only on a fresh step.
Other agents (and those suspended in a generator) kept running after die().
---
 soil/time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 199f9be..d3c220c 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -39,6 +39,12 @@ class DiscreteActivation(BaseScheduler):
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.default_interval
 
+    def _activate(self, agent):
+        """Step an agent, unless it died (or was removed) while it was waiting for its turn."""
+        if agent not in self._agents or not getattr(agent, "alive", True):
+            raise DeadAgent(agent.unique_id)
+        return agent.step()
+
 
 class PQueueActivation(DiscreteActivation):
     """
@@ -97,7 +103,7 @@ class PQueueActivation(DiscreteActivation):
             heappop(self._queue)
 
             try:
-                when = agent.step() or self.default_interval
+                when = self._activate(agent) or self.default_interval
                 when += now
             except DeadAgent:
                 continue
@@ -167,7 +173,7 @@ class TimedActivation(DiscreteActivation):
             self.model.random.shuffle(bucket)
         for agent in bucket:
             try:
-                when = agent.step() or self.default_interval
+                when = self._activate(agent) or self.default_interval
                 when += now
             except DeadAgent:
                 continue
-- 
2.43.0


From da55a46dfe30705a363780fc3e8f2d0651990c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:22 +0000
Subject: [PATCH 06/58] fix: do not let the clock go backwards, or reach agents
 that should never wake up

A negative delay or an absolute time in the past moved the clock of
TimedActivation backwards, and an agent added at time infinity was activated
(and blocked the end of the simulation).
---
 soil/time.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index d3c220c..5dacb99 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -71,8 +71,10 @@ class PQueueActivation(DiscreteActivation):
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-        if when is None:
+        if when is None or when < self.time:
             when = self.time
+        if when == INFINITY:
+            return
         if self._shuffle:
             key = (when, self.model.random.random())
         else:
@@ -141,7 +143,10 @@ class TimedActivation(DiscreteActivation):
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-        when = when or self.time
+        if when is None or when < self.time:
+            when = self.time
+        if when == INFINITY:
+            return
         pos = len(self._queue)
         for (ix, l) in enumerate(self._queue):
             if l[0] == when:
@@ -158,6 +163,7 @@ class TimedActivation(DiscreteActivation):
         an agent will signal when it wants to be scheduled next.
         """
         if not self._queue:
+            self.model.running = False
             return
 
         now = self.time
-- 
2.43.0


From 43805917ac4579243dd029eb2c3ff5c7d933ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:23 +0000
Subject: [PATCH 07/58] fix: handle every message once when handlers send
 messages or fail

process_messages iterated over the live inbox: a handler that messaged its own
agent raised RuntimeError, and any exception in a handler left the messages
that had already been handled in the inbox, to be handled again.
---
 soil/agents/evented.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5cf69dc..781a21f 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -43,7 +43,13 @@ class EventedAgent(BaseAgent):
 
     def process_messages(self):
         valid = list()
-        for msg in self._inbox:
+        # Handlers may add new messages (e.g., by telling themselves something) or
+        # fail, so each message is taken out of the inbox before it is handled.
+        # New messages are left for the next round.
+        pending = len(self._inbox)
+        while pending and self._inbox:
+            pending -= 1
+            msg = self._inbox.popleft()
             self._processed += 1
             if msg.expired(self.now):
                 continue
@@ -51,7 +57,6 @@ class EventedAgent(BaseAgent):
             reply = self.on_receive(msg.payload, sender=msg.sender)
             if isinstance(msg, Ask):
                 msg.reply = reply
-        self._inbox.clear()
         return valid
 
 
-- 
2.43.0


From 5f36598aec5937e1b44203485af332af288864de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:45 +0000
Subject: [PATCH 08/58] fix: return the messages that were received

received() returned the inbox after it had been processed (i.e., emptied), and
ignored messages that were waiting in the inbox at the deadline.
---
 soil/agents/evented.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 781a21f..3271933 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -18,14 +18,15 @@ class EventedAgent(BaseAgent):
     def received(self, expiration=None, timeout=60, delay=1, process=True):
         if not expiration:
             expiration = self.now + timeout
-        while self.now < expiration:
+        while True:
             if self._inbox:
-                msgs = self._inbox
-                if process:
-                    self.process_messages()
-                return msgs
+                # Messages may have expired, in which case there is nothing to return yet
+                msgs = self.process_messages() if process else self._inbox
+                if msgs:
+                    return msgs
+            if self.now >= expiration:
+                raise TimedOut("No message received")
             yield self.delay(delay)
-        raise TimedOut("No message received")
 
     def tell(self, msg, sender=None):
         self._inbox.append(Tell(timestamp=self.now, payload=msg, sender=sender))
-- 
2.43.0


From 086b10279acf76fc1489124e801455c2ba196131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:06 +0000
Subject: [PATCH 09/58] fix: do not lose replies to ask

Falsy replies (0, False, empty containers) were taken for missing replies, a
reply that was already available at the deadline was discarded, and the
expiration argument was ignored.
---
 soil/agents/evented.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 3271933..c1e9381 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -35,12 +35,14 @@ class EventedAgent(BaseAgent):
     def ask(self, msg, expiration=None, timeout=None, delay=1):
         ask = Ask(timestamp=self.now, payload=msg, sender=self)
         self._inbox.append(ask)
-        expiration = float("inf") if timeout is None else self.now + timeout
-        while self.now < expiration:
-            if ask.reply:
+        if expiration is None:
+            expiration = float("inf") if timeout is None else self.now + timeout
+        while True:
+            if ask.reply is not None:
                 return ask.reply
+            if self.now >= expiration:
+                raise TimedOut("No reply received")
             yield self.delay(delay)
-        raise TimedOut("No reply received")
 
     def process_messages(self):
         valid = list()
-- 
2.43.0


From 10e7f6beba2a77ff3454683741ceab0cc0a6f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:25 +0000
Subject: [PATCH 10/58] fix: apply every attribute criterion when filtering
 agents

The filters are evaluated lazily, so all of them used the last attribute. The
state dictionary of the caller was also modified.
---
 soil/agents/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 08f71b5..3a8e031 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -475,13 +475,13 @@ def filter_agents(
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
 
-    state = state or dict()
+    state = dict(state or {})
     state.update(kwargs)
 
     for k, vs in state.items():
         if not isinstance(vs, list):
             vs = [vs]
-        f = filter(lambda agent: any(getattr(agent, k, None) == v for v in vs), f)
+        f = filter(lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f)
 
     if limit is not None:
         f = islice(f, limit)
-- 
2.43.0


From d5b1e6d699172fb13c4e3bc7e80c41e968d6a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:45 +0000
Subject: [PATCH 11/58] fix: let agents be added or die while other agents are
 being iterated

iter_agents walked the live set of agents of the scheduler, and raised
RuntimeError when the loop body changed the population.
---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 3a8e031..32d0796 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -275,7 +275,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return list(it)
 
     def iter_agents(self, *args, **kwargs):
-        yield from filter_agents(self.model.schedule._agents, *args, **kwargs)
+        yield from filter_agents(self.model.schedule.agents, *args, **kwargs)
 
     def __str__(self):
         return self.to_str()
-- 
2.43.0


From 173dacdf08cef48176d2cc348a59c3a14fcd1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:11 +0000
Subject: [PATCH 12/58] fix: do not ignore the unique_id criterion of network
 agents, or empty lists of ids

---
 soil/agents/__init__.py       | 11 ++++-------
 soil/agents/network_agents.py |  5 +++--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 32d0796..5fac2ac 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -443,18 +443,15 @@ def filter_agents(
     Filter agents given as a dict, by the criteria given as arguments (e.g., certain type or state id).
     """
 
-    ids = []
+    ids = None
 
     if unique_id is not None:
-        if isinstance(unique_id, list):
-            ids += unique_id
-        else:
-            ids.append(unique_id)
+        ids = list(unique_id) if isinstance(unique_id, list) else [unique_id]
 
     if id_args:
-        ids += id_args
+        ids = (ids or []) + list(id_args)
 
-    if ids:
+    if ids is not None:
         f = (agent for agent in agents if agent.unique_id in ids)
     else:
         f = agents
diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 2d0a948..f7abb9e 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -38,7 +38,7 @@ class NetworkAgent(BaseAgent):
 
     def iter_agents(self, unique_id=None, *, limit_neighbors=False, **kwargs):
         unique_ids = None
-        if unique_ids is not None:
+        if unique_id is not None:
             try:
                 unique_ids = set(unique_id)
             except TypeError:
@@ -50,10 +50,11 @@ class NetworkAgent(BaseAgent):
                 agent = self.G.nodes[node_id].get("agent")
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
-            if unique_ids:
+            if unique_ids is not None:
                 unique_ids = unique_ids & neighbor_ids
             else:
                 unique_ids = neighbor_ids
+        if unique_ids is not None:
             if not unique_ids:
                 return
             unique_ids = list(unique_ids)
-- 
2.43.0


From db4e31ab2a5d901f412e427a2e6b2e7f373a11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 13/58] fix: make agent views iterable and searchable by id

The view was written for a dictionary of agents, but it gets an AgentSet.
---
 soil/agents/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 5fac2ac..3169485 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -401,13 +401,14 @@ class AgentView(Mapping, Set):
         return len(self._agents)
 
     def __iter__(self):
-        yield from self._agents.values()
+        yield from self._agents
 
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-        if agent_id in self._agents:
-            return self._agents[agent_id]
+        for agent in self._agents:
+            if agent is agent_id or agent.unique_id == agent_id:
+                return agent
         raise ValueError(f"Agent {agent_id} not found")
 
     def filter(self, *args, **kwargs):
@@ -420,10 +421,10 @@ class AgentView(Mapping, Set):
         return list(self.filter(*args, **kwargs))
 
     def __contains__(self, agent_id):
-        return agent_id in self._agents
+        return any(agent is agent_id or agent.unique_id == agent_id for agent in self._agents)
 
     def __str__(self):
-        return str(list(unique_id for unique_id in self.keys()))
+        return str(list(agent.unique_id for agent in self))
 
     def __repr__(self):
         return f"{self.__class__.__name__}({self})"
-- 
2.43.0


From a387b796a7807e3f2889cb701c620cc598b1d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 14/58] fix: always find the free nodes, and never take over
 the node of another agent

Nodes were sampled with replacement, so free nodes could be missed, and the id
for a new node could be that of an existing (occupied) one.
---
 soil/agents/network_agents.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index f7abb9e..f91b095 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -8,13 +8,16 @@ class NetworkAgent(BaseAgent):
         self.G = topology or self.model.G
         assert self.G is not None, "Network agents should have a network"
         if node_id is None:
-            nodes = self.random.choices(list(self.G.nodes), k=len(self.G))
+            nodes = list(self.G.nodes)
+            self.random.shuffle(nodes)
             for n_id in nodes:
                 if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
                     node_id = n_id
                     break
             else:
                 node_id = len(self.G)
+                while node_id in self.G:
+                    node_id += 1
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
-- 
2.43.0


From f9ef8cb783c2a507020e33c7deedaf4599a10e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:41 +0000
Subject: [PATCH 15/58] fix: do not leak the reporters of one configuration
 into the others

The reporters of the simulation were updated in place with those of each set of
parameters, and the data collector added its own to the dictionary it was given.
---
 soil/datacollection.py | 4 ++--
 soil/simulation.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 9687435..aa40e63 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -3,8 +3,8 @@ from mesa import DataCollector as MDC
 
 class SoilCollector(MDC):
     def __init__(self, model_reporters=None, agent_reporters=None, tables=None, **kwargs):
-        model_reporters = model_reporters or {}
-        agent_reporters = agent_reporters or {}
+        model_reporters = dict(model_reporters or {})
+        agent_reporters = dict(agent_reporters or {})
         tables = tables or {}
         if 'agent_count' not in model_reporters:
             model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
diff --git a/soil/simulation.py b/soil/simulation.py
index 389207b..cfbd58f 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -217,9 +217,9 @@ class Simulation:
 
         iteration_id = str(iteration_id)
 
-        agent_reporters = self.agent_reporters
+        agent_reporters = dict(self.agent_reporters or {})
         agent_reporters.update(params.pop("agent_reporters", {}))
-        model_reporters = self.model_reporters
+        model_reporters = dict(self.model_reporters or {})
         model_reporters.update(params.pop("model_reporters", {}))
 
         return self.model(
-- 
2.43.0


From 920fcf6ebb954be412896d15b128217999a9b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:05 +0000
Subject: [PATCH 16/58] fix: give each iteration its own copy of the network

A networkx graph passed as a parameter was shared by all the iterations, so the
second one found the agents (and changes) of the first.
---
 soil/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil/simulation.py b/soil/simulation.py
index cfbd58f..d881a00 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -222,6 +222,12 @@ class Simulation:
         model_reporters = dict(self.model_reporters or {})
         model_reporters.update(params.pop("model_reporters", {}))
 
+        # Environments modify their network (e.g., to assign agents to nodes), so
+        # every iteration needs its own
+        for (k, v) in params.items():
+            if isinstance(v, nx.Graph):
+                params[k] = v.copy()
+
         return self.model(
             id=iteration_id,
             seed=f"{self.seed}_iteration_{iteration_id}",
-- 
2.43.0


From 2a53dc22a59345827b5f663adc87f9a3c58c059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 17/58] fix: use the right times in the dataframe of agents

Replacing the levels of the index failed when two steps happened at the same
time, and assigned the wrong times after a step without any agents.
---
 soil/environment.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 743da85..460f3e9 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -13,6 +13,7 @@ from copy import deepcopy
 
 
 import networkx as nx
+import pandas as pd
 
 from mesa import Model, Agent
 
@@ -128,7 +129,13 @@ class BaseEnvironment(Model):
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
         model_df = self.datacollector.get_model_vars_dataframe()
-        df.index = df.index.set_levels(model_df.time, level=0).rename(["time", "agent_id"])
+        # Agent records are indexed by step. Different steps may share the same
+        # time, and there may be steps without any agents
+        times = dict(zip(self.datacollector._agent_records, model_df.time))
+        df.index = pd.MultiIndex.from_arrays(
+            [df.index.get_level_values(0).map(times), df.index.get_level_values(1)],
+            names=["time", "agent_id"],
+        )
         return df
 
     def model_df(self, steps=False):
-- 
2.43.0


From d3ecf00b9aa10d8b88bb3d18ad164c4c10ca4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 18/58] fix: make reporters for a type of agents work

The reporter called itself recursively, and it could not be an attribute name.
---
 soil/environment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 460f3e9..745b5f1 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -214,10 +214,11 @@ class BaseEnvironment(Model):
         self.datacollector._new_model_reporter(name, func)
 
     def add_agent_reporter(self, name, reporter=None, agent_type=None):
-        if not agent_type and not reporter:
+        if not reporter:
             reporter = name
-        elif agent_type:
-            reporter = lambda a: reporter(a) if isinstance(a, agent_type) else None
+        if agent_type:
+            func = reporter if callable(reporter) else lambda a, attr=reporter: getattr(a, attr, None)
+            reporter = lambda a: func(a) if isinstance(a, agent_type) else None
         self.datacollector._new_agent_reporter(name, reporter)
 
     @classmethod
-- 
2.43.0


From 45c1541861f38087b30a1c59190218cdc2ff1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:09 +0000
Subject: [PATCH 19/58] fix: log any reported value in debug mode

Values that do not support format specifications (e.g., None) made the
simulation fail with the DEBUG logging level.
---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 745b5f1..61853be 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -205,7 +205,7 @@ class BaseEnvironment(Model):
             msg = "Model data:\n"
             max_width = max(len(k) for k in self.datacollector.model_vars.keys())
             for (k, v) in self.datacollector.model_vars.items():
-                msg += f"\t{k:<{max_width}}: {v[-1]:>6}\n"
+                msg += f"\t{k:<{max_width}}: {str(v[-1]):>6}\n"
             self.logger.debug(f"--- Steps: {self.schedule.steps:^5} - Time: {self.now:^5} --- " + msg)
 
     def add_model_reporter(self, name, func=None):
-- 
2.43.0


From 6cd6b7b53ea460593447b7474d6b623e6e628582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:29 +0000
Subject: [PATCH 20/58] fix: report the result of methods marked with @report

Only properties worked. For methods, the method itself was recorded instead of
the value it returns.
---
 soil/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 61853be..371a300 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -58,10 +58,12 @@ class BaseEnvironment(Model):
         )
         for k in dir(cls):
             v = getattr(cls, k)
+            reporter = v
             if isinstance(v, property):
                 v = v.fget
+                reporter = k
             if getattr(v, "add_to_report", False):
-                self.add_model_reporter(k, k)
+                self.add_model_reporter(k, reporter)
 
         return self
 
-- 
2.43.0


From 75ec6b372f2c86092d36078eee3fa00e07240c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 21/58] fix: do not mask errors that happen while an output
 file is being written

AttributeError and TypeError in the body of the with statement were taken for a
file-like object, and became 'generator didn't stop after throw()'.
---
 soil/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soil/utils.py b/soil/utils.py
index 3a00a9b..9155ed1 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -79,10 +79,12 @@ def safe_open(path, mode="r", backup=True, **kwargs):
 @contextmanager
 def open_or_reuse(f, *args, **kwargs):
     try:
-        with safe_open(f, *args, **kwargs) as f:
-            yield f
+        opened = safe_open(f, *args, **kwargs)
     except (AttributeError, TypeError) as ex:
         yield f
+        return
+    with opened:
+        yield opened
 
 
 def flatten_dict(d):
-- 
2.43.0


From a0d2d31091cec5b78af88ce46afbf409a646c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 22/58] fix: never overwrite a previous backup

Backups of files with the same timestamp (in seconds) replaced each other.
---
 soil/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/soil/utils.py b/soil/utils.py
index 9155ed1..426624f 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -59,7 +59,12 @@ def try_backup(path, remove=False):
     backup_dir = os.path.join(outdir, "backup")
     if not os.path.exists(backup_dir):
         os.makedirs(backup_dir)
-    newpath = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    name = "{}@{}".format(os.path.basename(path), stamp)
+    newpath = os.path.join(backup_dir, name)
+    copies = 0
+    while os.path.exists(newpath):
+        copies += 1
+        newpath = os.path.join(backup_dir, "{}.{}".format(name, copies))
     if remove:
         move(path, newpath)
     else:
-- 
2.43.0


From 25f020b3b1aacc26a61816fcf7b3a4b4a9bac9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 23/58] fix: export networks with agents to GEXF

Agent objects in the nodes, and the 'edge_attr_dict' attribute that add_edge
set in every edge instead of the given attributes, could not be written.
---
 soil/agents/network_agents.py | 4 ++--
 soil/exporters.py             | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index f91b095..5237334 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -75,7 +75,7 @@ class NetworkAgent(BaseAgent):
         self.G.remove_node(self.node_id)
         self.node_id = None
 
-    def add_edge(self, other, edge_attr_dict=None, *edge_attrs):
+    def add_edge(self, other, edge_attr_dict=None, **edge_attrs):
         if self.node_id not in self.G.nodes(data=False):
             raise ValueError(
                 "{} not in list of existing agents in the network".format(
@@ -88,7 +88,7 @@ class NetworkAgent(BaseAgent):
             )
 
         self.G.add_edge(
-            self.node_id, other.node_id, edge_attr_dict=edge_attr_dict, *edge_attrs
+            self.node_id, other.node_id, **{**(edge_attr_dict or {}), **edge_attrs}
         )
 
     def die(self, remove=True):
diff --git a/soil/exporters.py b/soil/exporters.py
index 8986453..acd6e17 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -186,7 +186,11 @@ class gexf(Exporter):
             "[GEXF] Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
             with self.output("{}.gexf".format(env.id), mode="wb") as f:
-                nx.write_gexf(env.G, f)
+                # Agents cannot be represented in the file
+                G = env.G.copy()
+                for (_, data) in G.nodes(data=True):
+                    data.pop("agent", None)
+                nx.write_gexf(G, f)
 
 
 class dummy(Exporter):
-- 
2.43.0


From 9b5cbfc4ee261d567085b7de782882d13ad178d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 24/58] fix: create the output folder of the SQLite exporter

It only existed if another exporter had written to it before.
---
 soil/exporters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index acd6e17..b119169 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -134,6 +134,7 @@ class SQLite(Exporter):
             if os.path.exists(self.dbpath):
                 os.remove(self.dbpath)
         
+        os.makedirs(self.outdir, exist_ok=True)
         self.engine = create_engine(f"sqlite:///{self.dbpath}", echo=False)
 
         sim_dict = {k: serialize(v)[0] for (k,v) in self.simulation.to_dict().items()}
-- 
2.43.0


From 62044496871703742f2844b9f1573e4de755a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:06 +0000
Subject: [PATCH 25/58] fix: store each iteration in the database atomically

Every table was written in a transaction of its own. A crash or an error in the
middle left partial results that could not be told from complete ones.
---
 soil/exporters.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index b119169..d27ea43 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -151,14 +151,16 @@ class SQLite(Exporter):
             "Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
 
-            pd.DataFrame([{"simulation_id": self.simulation.id,
-                           "params_id": params_id,
-                           "iteration_id": env.id,
-                           "key": k,
-                           "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=self.engine, if_exists="append")
-
-            for (t, df) in self.get_dfs(env, params_id=params_id):
-                df.to_sql(t, con=self.engine, if_exists="append")
+            # Use a single transaction, so that an iteration is either stored completely, or not at all
+            with self.engine.begin() as con:
+                pd.DataFrame([{"simulation_id": self.simulation.id,
+                               "params_id": params_id,
+                               "iteration_id": env.id,
+                               "key": k,
+                               "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=con, if_exists="append")
+
+                for (t, df) in self.get_dfs(env, params_id=params_id):
+                    df.to_sql(t, con=con, if_exists="append")
 
 class csv(Exporter):
     """Export the state of each environment (and its agents) a CSV file for the simulation"""
-- 
2.43.0


From 9c8ed15d9c17b5878194f72c22e6d7767fa02f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 26/58] fix: store and read results without parameters or agent
 reporters

An empty set of parameters created a table without columns, which made any later
run with parameters fail. Results without an agents table could not be read.
---
 soil/analysis.py  | 5 ++++-
 soil/exporters.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index ab7164c..6f51133 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -46,7 +46,10 @@ def read_sql(fpath=None, name=None, include_agents=False):
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
-        agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        # There are no agents if there were no agent reporters
+        agents = None
+        if sqlalchemy.inspect(conn).has_table("agents"):
+            agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
         parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         try:
diff --git a/soil/exporters.py b/soil/exporters.py
index d27ea43..d4f4080 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -157,7 +157,8 @@ class SQLite(Exporter):
                                "params_id": params_id,
                                "iteration_id": env.id,
                                "key": k,
-                               "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=con, if_exists="append")
+                               "value": serialize(v)[0]} for (k,v) in params.items()],
+                             columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=con, if_exists="append")
 
                 for (t, df) in self.get_dfs(env, params_id=params_id):
                     df.to_sql(t, con=con, if_exists="append")
-- 
2.43.0


From 95f09da608c90f55959703beb187a5ab4e0d7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 27/58] fix: support state ids with two characters

They were unpacked as a (state, delay) tuple.
---
 soil/agents/fsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 85a5fb5..2517360 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -144,6 +144,8 @@ class FSM(BaseAgent, metaclass=MetaFSM):
         next_state = yield from self._state.step(self)
 
         try:
+            if isinstance(next_state, str):
+                raise TypeError("Ids should not be unpacked, even if they have two characters")
             next_state, when = next_state
         except (TypeError, ValueError) as ex:
             try:
-- 
2.43.0


From 76c738dd51244cecad8cfa29dda7600a80a1a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 28/58] fix: run the overridden version of an inherited default
 state

A subclass that overrode the default state without marking it as default again
kept running the original function in that state.
---
 soil/agents/fsm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 2517360..4349248 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -83,10 +83,9 @@ class MetaFSM(MetaAgent):
         default_state = None
         for i in bases:
             if isinstance(i, MetaFSM):
-                for state_id, state in i._states.items():
-                    if state.default:
-                        default_state = state
-                    states[state_id] = state
+                states.update(i._states)
+                if i._state is not None:
+                    default_state = i._state
 
         # Add new states
         for attr, func in namespace.items():
@@ -95,6 +94,10 @@ class MetaFSM(MetaAgent):
                     default_state = func
                 states[func.name] = func
 
+        # The default state may have been overridden
+        if default_state is not None:
+            default_state = states[default_state.name]
+
         namespace.update(
             {
                 "_state": default_state,
-- 
2.43.0


From aa34188384451ea0798f8409da991119243fc1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 29/58] fix: keep the limits of a simulation when none are
 given in the command line

max_time and max_steps were always replaced, so simulations with their own
limits could run forever.
---
 soil/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index a4ce59d..5312ddf 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -249,9 +249,13 @@ def main(
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            max_time = float(args.max_time) if args.max_time != "-1" else None
-            max_steps = float(args.max_steps) if args.max_steps != "-1" else None
-            res.append(sim.run(max_time=max_time, max_steps=max_steps))
+            # Use the limits in the simulation unless they are overridden
+            limits = {}
+            if args.max_time != "-1":
+                limits["max_time"] = float(args.max_time)
+            if args.max_steps != "-1":
+                limits["max_steps"] = float(args.max_steps)
+            res.append(sim.run(**limits))
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From 1dae3c7be6d3a17b0714684041cf8d407608c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:40 +0000
Subject: [PATCH 30/58] fix: honour the --output option of the command line

---
 soil/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 5312ddf..7d879c9 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -180,8 +180,7 @@ def main(
         sys.path.append(os.getcwd())
     if args.module:
         importlib.import_module(args.module)
-    if output is None:
-        output = args.output
+    output = args.output
 
     debug = debug or args.debug
 
-- 
2.43.0


From 58370801163e7030c9b95969466f4c41125ffd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 31/58] fix: combine the parameters of a simulation with each
 combination of its matrix

The parameters were run as a configuration of their own, without the values in
the matrix, and were missing from the rest. When a simulation was queued, the
whole matrix was run again for each of its combinations.
---
 soil/simulation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index d881a00..bfa9c2f 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -45,7 +45,8 @@ def do_not_run():
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
-        yield replace(cls, parameters=params)
+        # The parameters already include a combination of the values in the matrix
+        yield replace(cls, parameters=params, matrix={})
 
 
 # TODO: change documentation for simulation
@@ -174,12 +175,14 @@ class Simulation:
     def _collect_params(self):
 
         parameters = []
-        if self.parameters:
-            parameters.append(self.parameters)
         if self.matrix:
             assert isinstance(self.matrix, dict)
             for values in product(*(self.matrix.values())):
-                parameters.append(dict(zip(self.matrix.keys(), values)))
+                combination = dict(self.parameters or {})
+                combination.update(zip(self.matrix.keys(), values))
+                parameters.append(combination)
+        elif self.parameters:
+            parameters.append(self.parameters)
 
         if not parameters:
             parameters = [{}]
-- 
2.43.0


From 9b8e5dbe807171b4c10921ba66755e95d34ea10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:20 +0000
Subject: [PATCH 32/58] fix: leave nothing behind when a simulation file cannot
 be loaded

The simulations queued before the error were returned as part of the next file,
and the module and the folder stayed in sys.modules and sys.path.
---
 soil/simulation.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index bfa9c2f..3133c02 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -42,6 +42,19 @@ def do_not_run():
         _AVOID_RUNNING = False
 
 
+@contextmanager
+def _loading(module_name, folder):
+    """Leave nothing behind after loading a file, even if it fails"""
+    known = folder in sys.path
+    try:
+        yield
+    finally:
+        _QUEUED.clear()
+        sys.modules.pop(module_name, None)
+        if not known and folder in sys.path:
+            sys.path.remove(folder)
+
+
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
@@ -329,15 +342,13 @@ def from_config(conf_or_path):
 def iter_from_py(pyfile, module_name='imported_file', **kwargs):
     """Try to load every Simulation instance in a given Python file"""
     import importlib
-    added = False
     sims = []
+    folder = os.path.dirname(pyfile)
     assert not _AVOID_RUNNING
-    with do_not_run():
+    with do_not_run(), _loading(module_name, folder):
         assert _AVOID_RUNNING
         spec = importlib.util.spec_from_file_location(module_name, pyfile)
-        folder = os.path.dirname(pyfile)
         if folder not in sys.path:
-            added = True
             sys.path.append(folder)
         if not spec:
             raise ValueError(f"{pyfile} does not seem to be a Python module")
@@ -354,12 +365,9 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
                                                    issubclass(x, environment.Environment) and
                                                    (getattr(x, "__module__", None) != environment.__name__)):
                 sims.append(Simulation(model=env, **kwargs))
-        del sys.modules[module_name]
     assert not _AVOID_RUNNING
     if not sims:
         raise AttributeError(f"No valid configurations found in {pyfile}")
-    if added:
-        sys.path.remove(folder)
     for sim in sims:
         yield replace(sim, **kwargs)
 
-- 
2.43.0


From c5c36d2b9eb8608e923ae856797024c2f24edd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:39 +0000
Subject: [PATCH 33/58] fix: do not hang in lockstep when there is nothing to
 activate

The time-bucket scheduler does not move its clock if its queue is empty, so the
inner loop never ended.
---
 soil/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 5dacb99..fc4f372 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -231,7 +231,11 @@ class Lockstepper:
         end_time = self.time + self.default_interval
         res = None
         while self.scheduler.time < end_time:
+            last = (self.scheduler.time, self.scheduler.steps)
             res = self.scheduler.step()
+            if (self.scheduler.time, self.scheduler.steps) == last:
+                # There is nothing to activate
+                break
         self.time = end_time
         self.steps += 1
         return res
-- 
2.43.0


From 583834d31f2f1b46c2a49a707132348024afb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:29 +0000
Subject: [PATCH 34/58] fix: respect the nodes reserved while a network is
 being populated

An agent created by the init of another one could get the node reserved for a
third one, which would take it over later. The listing of network agents also
included the empty place of reserved nodes, and failed if the population changed
while it was iterated.
---
 soil/agents/network_agents.py | 2 +-
 soil/environment.py           | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 5237334..59bad69 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -11,7 +11,7 @@ class NetworkAgent(BaseAgent):
             nodes = list(self.G.nodes)
             self.random.shuffle(nodes)
             for n_id in nodes:
-                if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
+                if "agent" not in self.G.nodes[n_id]:
                     node_id = n_id
                     break
             else:
diff --git a/soil/environment.py b/soil/environment.py
index 371a300..2d88b53 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -336,11 +336,10 @@ class NetworkEnvironment(BaseEnvironment):
     @property
     def network_agents(self):
         """Return agents still alive and assigned to a node in the network."""
-        for (id, data) in self.G.nodes(data=True):
-            if "agent" in data:
-                agent = data["agent"]
-                if getattr(agent, "alive", True):
-                    yield agent
+        for (id, data) in list(self.G.nodes(data=True)):
+            agent = data.get("agent")
+            if agent is not None and getattr(agent, "alive", True):
+                yield agent
 
     def add_node(self, agent_class, unique_id=None, node_id=None, **kwargs):
         if unique_id is None:
-- 
2.43.0


From 853369b2c44c7f642846291d88a9bb91cb0bf742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:48 +0000
Subject: [PATCH 35/58] fix: refuse to place an agent in a node that is taken

The previous agent was left in a node that pointed to the new one.
---
 soil/agents/network_agents.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 59bad69..e4d3945 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -21,6 +21,9 @@ class NetworkAgent(BaseAgent):
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
+        current = self.G.nodes[node_id].get("agent")
+        if current is not None and getattr(current, "alive", True):
+            raise ValueError(f"Node {node_id} already has a different agent assigned to it: {current!r}")
         self.G.nodes[node_id]["agent"] = self
         self.node_id = node_id
         if init:
-- 
2.43.0


From 53dc07d7219a2d783cf5f7b978d19d669da2d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 36/58] fix: support data frames of agents when there were no
 agents at all

Pandas takes the names of the columns for rows if there are no records.
---
 soil/datacollection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index aa40e63..d6873d8 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -1,3 +1,5 @@
+import pandas as pd
+
 from mesa import DataCollector as MDC
 
 
@@ -17,3 +19,10 @@ class SoilCollector(MDC):
                          agent_reporters=agent_reporters,
                          tables=tables,
                          **kwargs)
+
+    def get_agent_vars_dataframe(self):
+        if self.agent_reporters and not any(self._agent_records.values()):
+            # There were no agents in any of the records
+            index = pd.MultiIndex.from_arrays([[], []], names=["Step", "AgentID"])
+            return pd.DataFrame(index=index, columns=list(self.agent_reporters))
+        return super().get_agent_vars_dataframe()
-- 
2.43.0


From c0ae94aab87cdbac5409714a262f68477cb1221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:13 +0000
Subject: [PATCH 37/58] fix: report failures of parallel tasks whose exceptions
 cannot be pickled

They made the whole run fail or hang.
---
 soil/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soil/utils.py b/soil/utils.py
index 426624f..4cae313 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -1,6 +1,7 @@
 import logging
 from time import time as current_time, strftime, gmtime, localtime
 import os
+import pickle
 import traceback
 
 from functools import partial
@@ -141,9 +142,15 @@ def run_and_return_exceptions(func, *args, **kwargs):
     except Exception as ex:
         if ex.__cause__ is not None:
             ex = ex.__cause__
-        ex.message = "".join(
+        message = "".join(
             traceback.format_exception(type(ex), ex, ex.__traceback__)[:]
         )
+        try:
+            pickle.loads(pickle.dumps(ex))
+        except Exception:
+            # It could not be sent back to the parent process
+            ex = RuntimeError(repr(ex))
+        ex.message = message
         return ex
 
 
-- 
2.43.0


From 59bc4981c1034bd123f192da7450b47d42e9c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:35 +0000
Subject: [PATCH 38/58] fix: do not hide the errors in a simulation file

A ValueError in a Python file made it be loaded as if it were YAML.
---
 soil/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 3133c02..15aa94e 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -311,9 +311,10 @@ class Simulation:
 
 def iter_from_file(*files, **kwargs):
     for f in files:
-        try:
+        # Do not hide the errors in a Python file by treating it as a configuration
+        if inspect.getmodulename(f):
             yield from iter_from_py(f, **kwargs)
-        except ValueError as ex:
+        else:
             yield from iter_from_config(f, **kwargs)
 
 
-- 
2.43.0


From 1fac77d28e5f68b393784da8c8c0740adcd7c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:11 +0000
Subject: [PATCH 39/58] fix: do not alter the values in lists when a simulation
 is converted

Numbers were turned into text, and empty lists and texts into dictionaries, so
a stored configuration could not be used again.
---
 soil/serialization.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6b70554..7215057 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -205,13 +205,25 @@ def serialize_dict(d, known_modules=KNOWN_MODULES):
         if isinstance(v, dict):
             d[k] = serialize_dict(v, known_modules=known_modules)
         elif isinstance(v, list):
-            for ix in range(len(v)):
-                v[ix] = serialize_dict(v[ix], known_modules=known_modules)
+            d[k] = _serialize_list(v, known_modules=known_modules)
         elif isinstance(v, type):
             d[k] = serialize(v, known_modules=known_modules)[1]
     return d
 
 
+def _serialize_list(lst, known_modules=KNOWN_MODULES):
+    res = []
+    for v in lst:
+        if isinstance(v, dict):
+            v = serialize_dict(v, known_modules=known_modules)
+        elif isinstance(v, list):
+            v = _serialize_list(v, known_modules=known_modules)
+        elif v is not None and not isinstance(v, (str, int, float)):
+            v = serialize(v, known_modules=known_modules)[0]
+        res.append(v)
+    return res
+
+
 IS_CLASS = re.compile(r"<class '(.*)'>")
 
 
-- 
2.43.0


From 981c63ba6b19bff83e1b001a3968f2ed9d2db2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 40/58] fix: read_sql failed or truncated values when a column
 had integers first and other numbers (e.g. inf) later

---
 soil/analysis.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index 6f51133..eb61433 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -30,6 +30,14 @@ def plot(env, agent_df=None, model_df=None, steps=False, ignore=["agent_count",
 Results = namedtuple("Results", ["config", "parameters", "env", "agents"])
 #TODO implement reading from CSV
 
+def _read_table(name, conn, index_col):
+    # The type of each column is that of the first values that were stored in
+    # it. Later values may be different (e.g., inf, or a float), so they should
+    # not be converted like pandas.read_sql_table does.
+    table = sqlalchemy.Table(name, sqlalchemy.MetaData(), autoload_with=conn)
+    return pd.read_sql_query(sqlalchemy.select(table), con=conn, index_col=index_col)
+
+
 def read_sql(fpath=None, name=None, include_agents=False):
     if not (fpath is None) ^ (name is None):
         raise ValueError("Specify either a path or a simulation name")
@@ -41,15 +49,14 @@ def read_sql(fpath=None, name=None, include_agents=False):
         fpath = f"sqlite:///{fpath}"
     engine = sqlalchemy.create_engine(fpath)
     with engine.connect() as conn:
-        env = pd.read_sql_table("env", con=conn,
-                                index_col="step").reset_index().set_index([
+        env = _read_table("env", conn, index_col="step").reset_index().set_index([
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
         # There are no agents if there were no agent reporters
         agents = None
         if sqlalchemy.inspect(conn).has_table("agents"):
-            agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+            agents = _read_table("agents", conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
         parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         try:
-- 
2.43.0


From 6820da4d75832cf6a88fef791b88cc0cad96e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:49 +0000
Subject: [PATCH 41/58] fix: the summary exporter broke the run with columns of
 different types

---
 soil/exporters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index d4f4080..d6bd170 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -243,7 +243,8 @@ class summary(Exporter):
             description = indent(str(df.describe()), tabs)
             last_line = indent(str(df.iloc[-1:]), tabs)
             # value_counts = indent(str(df.value_counts()), tabs)
-            value_counts = indent(str(df.apply(lambda x: x.value_counts()).T.stack()), tabs)
+            # Columns of different types cannot be put together, so they are converted to text
+            value_counts = indent(str(df.astype(str).apply(lambda x: x.value_counts()).T.stack()), tabs)
 
             msg += dedent("""
             Dataframe {t}:
-- 
2.43.0


From a745a20c0612ec1bf85e18dab8c2f41919dec2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:23 +0000
Subject: [PATCH 42/58] fix: the backup of a database left by a crashed run
 kept half of an iteration

---
 soil/exporters.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index d6bd170..63b3c84 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -1,4 +1,5 @@
 import os
+import sqlite3
 import sys
 from time import time as current_time
 from io import BytesIO
@@ -128,6 +129,7 @@ class SQLite(Exporter):
         self.dbpath = os.path.join(self.outdir, f"{self.simulation.name}.sqlite")
         logger.info("Dumping results to %s", self.dbpath)
         if self.simulation.backup:
+            self._recover()
             try_backup(self.dbpath, remove=True)
         
         if self.simulation.overwrite:
@@ -142,6 +144,23 @@ class SQLite(Exporter):
         df = pd.DataFrame([sim_dict])
         df.to_sql("configuration", con=self.engine, if_exists="append")
 
+    def _recover(self):
+        """
+        Undo the changes of an interrupted transaction (e.g., a crash of a previous run).
+        They can only be undone while the database is next to its journal.
+        """
+        if not os.path.exists(self.dbpath):
+            return
+        con = sqlite3.connect(self.dbpath)
+        try:
+            con.execute("SELECT * FROM sqlite_master").fetchall()
+        except sqlite3.OperationalError:
+            raise
+        except sqlite3.DatabaseError:
+            logger.warning("%s is not a valid database", self.dbpath)
+        finally:
+            con.close()
+
     def iteration_end(self, env, params, params_id, *args, **kwargs):
         if not self.dump:
             logger.info("Running in NO DUMP mode. Results will NOT be saved to a DB.")
-- 
2.43.0


From 6bf7a548a7f6f0879df8143aaf28ffb730a7a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:45 +0000
Subject: [PATCH 43/58] fix: do not share the attributes of a network given as
 a dictionary between iterations

---
 soil/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index 6fac221..f65aceb 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -19,7 +19,8 @@ def from_topology(topology, dir_path: str = None):
     # If it's a dict, assume it's a node-link graph
     if isinstance(topology, dict):
         try:
-            return nx.json_graph.node_link_graph(topology)
+            # The new graph shares its attributes with the dictionary
+            return nx.json_graph.node_link_graph(topology).copy()
         except Exception as ex:
             raise ValueError("Unknown topology format")
     
-- 
2.43.0


From b151896008d4d5d31a189b8b228dc555d90a8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:07 +0000
Subject: [PATCH 44/58] fix: let agents receive messages while they are being
 initialized

---
 soil/agents/evented.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index c1e9381..6123d84 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -7,9 +7,10 @@ from types import coroutine
 
 class EventedAgent(BaseAgent):
     def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+        # The agent may be told something during its own init
         self._inbox = deque()
         self._processed = 0
+        super().__init__(*args, **kwargs)
 
     def on_receive(self, *args, **kwargs):
         pass
-- 
2.43.0


From 2417f1af1af0e620f0014777058ac5f62bd995fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:29 +0000
Subject: [PATCH 45/58] fix: honour an expiration at time zero when waiting for
 messages

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 6123d84..8466918 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -17,7 +17,7 @@ class EventedAgent(BaseAgent):
 
     @coroutine
     def received(self, expiration=None, timeout=60, delay=1, process=True):
-        if not expiration:
+        if expiration is None:
             expiration = self.now + timeout
         while True:
             if self._inbox:
-- 
2.43.0


From 870854a62b01654705bf05865f094bb2dfa03985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:59 +0000
Subject: [PATCH 46/58] fix: identify equal parameters the same way, regardless
 of the order of their elements

---
 soil/simulation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 15aa94e..07af0fc 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -62,6 +62,17 @@ def _iter_queued():
         yield replace(cls, parameters=params, matrix={})
 
 
+def _in_order(value):
+    """Give equal values the same representation, whatever the order of their elements"""
+    if isinstance(value, dict):
+        return {k: _in_order(value[k]) for k in sorted(value, key=repr)}
+    if isinstance(value, (set, frozenset)):
+        return type(value).__name__, sorted((_in_order(v) for v in value), key=repr)
+    if type(value) in (list, tuple):
+        return type(value)(_in_order(v) for v in value)
+    return value
+
+
 # TODO: change documentation for simulation
 @dataclass
 class Simulation:
@@ -173,7 +184,7 @@ class Simulation:
             for (k, v) in params.items():
                 tqdm.write(f"  {k} = {v}")
             sha = hashlib.sha256()
-            sha.update(repr(sorted(params.items())).encode())
+            sha.update(repr(sorted((k, _in_order(v)) for (k, v) in params.items())).encode())
             params_id = sha.hexdigest()[:7]
             for env in self._run_iters_for_params(params):
                 for exporter in exporters:
-- 
2.43.0


From 60613cfba0a5b9d8848dfc9a789278e9b209382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 47/58] fix: override inherited states in the same order as
 methods

---
 soil/agents/fsm.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 4349248..fbec033 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -79,17 +79,17 @@ def default_state(func):
 class MetaFSM(MetaAgent):
     def __new__(mcls, name, bases, namespace):
         states = {}
-        # Re-use states from inherited classes
         default_state = None
-        for i in bases:
-            if isinstance(i, MetaFSM):
-                states.update(i._states)
-                if i._state is not None:
-                    default_state = i._state
-
-        # Add new states
-        for attr, func in namespace.items():
-            if isinstance(func, State):
+
+        namespace["_own_states"] = [func for func in namespace.values() if isinstance(func, State)]
+
+        cls = super(MetaFSM, mcls).__new__(
+            mcls=mcls, name=name, bases=bases, namespace=namespace
+        )
+
+        # Re-use states from inherited classes, which are overridden in the same order as methods
+        for i in reversed(cls.__mro__):
+            for func in vars(i).get("_own_states", []):
                 if func.default:
                     default_state = func
                 states[func.name] = func
@@ -98,16 +98,9 @@ class MetaFSM(MetaAgent):
         if default_state is not None:
             default_state = states[default_state.name]
 
-        namespace.update(
-            {
-                "_state": default_state,
-                "_states": states,
-            }
-        )
+        cls._state = default_state
+        cls._states = states
 
-        cls = super(MetaFSM, mcls).__new__(
-            mcls=mcls, name=name, bases=bases, namespace=namespace
-        )
         for (k, v) in states.items():
             setattr(cls, k, v)
         return cls
-- 
2.43.0


From 458d96b95994589d967ed94207f7f6438c5ccaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:34 +0000
Subject: [PATCH 48/58] fix: reject topology files without exactly one network

---
 soil/network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index f65aceb..9573824 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -37,7 +37,11 @@ def from_topology(topology, dir_path: str = None):
         method = getattr(nx.readwrite, "read_" + extension)
     except AttributeError:
         raise AttributeError("Unknown format")
-    return method(path, **kwargs)
+    G = method(path, **kwargs)
+    if not isinstance(G, nx.Graph):
+        # Some formats allow for any number of networks in the same file
+        raise ValueError(f"There should be exactly one network in {path}")
+    return G
 
 
 def from_params(generator, dir_path: str = None, **params):
-- 
2.43.0


From 32fec426c7b502c4fa4b51bc176af6b19d210650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:28 +0000
Subject: [PATCH 49/58] fix: use content_neutral for the content agents of
 SISaModel

---
 soil/agents/SISaModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index b5dbbe3..eebf9e0 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -64,7 +64,7 @@ class SISaModel(Agent):
             self.model.content_discontent, self.model.variance_c_d
         )
         self.content_neutral = random.normal(
-            self.model.discontent_neutral, self.model.standard_variance
+            self.model.content_neutral, self.model.standard_variance
         )
 
     @default_state
-- 
2.43.0


From 578f472b88f17eddabec63670b726b7ec9bc58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:55 +0000
Subject: [PATCH 50/58] fix: let content agents of SISaModel become discontent

---
 soil/agents/SISaModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index eebf9e0..1c645f0 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -106,5 +106,5 @@ class SISaModel(Agent):
         # Superinfected
         discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.content_discontent):
-            self.discontent
+            return self.discontent
         return self.content
-- 
2.43.0


From 9c55f22be8d6bd28c914865f077d95c8c46555ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:38 +0000
Subject: [PATCH 51/58] fix: count discontent neighbors in SISaModel

---
 soil/agents/SISaModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index 1c645f0..f6cf475 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -77,7 +77,7 @@ class SISaModel(Agent):
             return self.content
 
         # Infected
-        discontent_neighbors = self.count_neighbors(state_id=self.discontent)
+        discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.neutral_discontent_infected_prob):
             return self.discontent
         content_neighbors = self.count_neighbors(state_id=self.content.id)
-- 
2.43.0


From 743536999b433e47c2336f622dbc19a764771fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:00 +0000
Subject: [PATCH 52/58] fix: set nested parameters that are called like a
 method of dict from the command line

---
 soil/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 7d879c9..50b1aa8 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -237,9 +237,9 @@ def main(
                     if head:
                         for part in head[0].split("."):
                             try:
-                                target = getattr(target, part)
-                            except AttributeError:
                                 target = target[part]
+                            except TypeError:
+                                target = getattr(target, part)
                     try:
                         setattr(target, tail, v)
                     except AttributeError:
-- 
2.43.0


From 8abbc6f5ec620bc4b130b731f689162d01f7efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:23 +0000
Subject: [PATCH 53/58] fix: use each exporter once from the command line, and
 leave the given list as it was

---
 soil/__init__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 50b1aa8..cafd804 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -165,16 +165,14 @@ def main(
     if args.version:
         return
 
-    exporters = exporters or [
-        "default",
-    ]
+    exporters = list(exporters or ["default"])
+    if args.csv:
+        args.exporter.append("csv")
+    if args.graph:
+        args.exporter.append("gexf")
     for exp in args.exporter:
         if exp not in exporters:
             exporters.append(exp)
-    if args.csv:
-        exporters.append("csv")
-    if args.graph:
-        exporters.append("gexf")
 
     if os.getcwd() not in sys.path:
         sys.path.append(os.getcwd())
-- 
2.43.0


From af8df168be3576aa5f7fd4d2c63beb5b106f5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:21 +0000
Subject: [PATCH 54/58] fix: keep the type and attributes of a network without
 nodes

---
 soil/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 2d88b53..1029756 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -280,7 +280,8 @@ class NetworkEnvironment(BaseEnvironment):
         self.topology = topology
         self.network_generator = network_generator
         self.network_params = network_params
-        if topology or network_params or network_generator:
+        # A network without nodes (yet) is also a network
+        if topology or isinstance(topology, nx.Graph) or network_params or network_generator:
             self.create_network(topology, generator=network_generator, **network_params)
         else:
             self.G = nx.Graph()
-- 
2.43.0


From de56ea2e15cf7e8458ee9d76505814a344fd7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:43 +0000
Subject: [PATCH 55/58] fix: subgraph() of populations with agents that have no
 node

---
 soil/agents/network_agents.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index e4d3945..fb79f7d 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -69,7 +69,9 @@ class NetworkAgent(BaseAgent):
     def subgraph(self, center=True, **kwargs):
         include = [self] if center else []
         G = self.G.subgraph(
-            n.node_id for n in list(self.get_agents(**kwargs) + include)
+            n.node_id
+            for n in list(self.get_agents(**kwargs) + include)
+            if hasattr(n, "node_id")
         )
         return G
 
-- 
2.43.0


From aaf8eccd619488bba388e008a978156dd12bc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 56/58] fix: run_from_file called a method that does not exist

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 07af0fc..1bb9dae 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -391,7 +391,7 @@ def from_py(pyfile):
 def run_from_file(*files, **kwargs):
     for sim in iter_from_file(*files):
         logger.info(f"Using config(s): {sim.name}")
-        sim.run_simulation(**kwargs)
+        sim.run(**kwargs)
 
 def run(env, iterations=1, num_processes=1, dump=False, name="test", **kwargs):
     return Simulation(model=env, iterations=iterations, name=name, dump=dump, num_processes=num_processes, **kwargs).run()
\ No newline at end of file
-- 
2.43.0


From 6a3f3444ea0d6d0c341636b91560795ea7a276e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 57/58] fix: easy() was decorated as a context manager, and
 failed when the scenario had no results

---
 soil/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index cafd804..ee31d20 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -270,10 +270,10 @@ def main(
     return res
 
 
-@contextmanager
 def easy(cfg, pdb=False, debug=False, **kwargs):
     try:
-        return main(cfg, debug=debug, pdb=pdb, **kwargs)[0]
+        res = main(cfg, debug=debug, pdb=pdb, **kwargs)
+        return res[0] if res else None
     except Exception as e:
         if os.environ.get("SOIL_POSTMORTEM"):
             from .debugging import post_mortem
-- 
2.43.0


From 8ffadff6aef3118ec7e3ec53c5216cf4c69761c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:59 +0000
Subject: [PATCH 58/58] fix: networks whose nodes name their agents (agent_id)
 could not be used

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 1029756..e15a55d 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -373,7 +373,7 @@ class NetworkEnvironment(BaseEnvironment):
         """
         for (id, data) in self.G.nodes(data=True):
             if "agent_id" in data:
-                agent = self.get_agents(data["agent_id"])
+                agent = self.get_agents[data["agent_id"]]
                 self.G.nodes[id]["agent"] = agent
                 assert not getattr(agent, "node_id", None) or agent.node_id == id
                 agent.node_id = id
-- 
2.43.0

