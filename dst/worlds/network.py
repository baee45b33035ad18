"""Agents that live, move in and die on a network, and queries about them. Decides C13 and C14.

Ops are executed from outside, in the middle of the activation of an agent, or in the
init of a newborn one, and compared with an independent model of network and population.
"""
from collections import Counter

import networkx as nx

import soil.agents as sagents
from soil.agents.geo import Geo
from soil.environment import Environment, NetworkEnvironment

from .sched import SCHEDS

RULE = {
    "C13": "random networks and sequences of births (free, explicit, taken or new nodes; populating), deaths and links, outside and inside activations; non-trivial: at least five births, one death and one birth after it",
    "C14": "as C13, with queries by combinations of criteria, and births and deaths in the middle of iterations; non-trivial: at least four queries of which two returned a proper, non-empty part of the population",
}
COMPONENTS = {"real": ["soil.environment", "soil.network", "soil.agents", "soil.time", "mesa", "networkx"], "stub": ["wall clock", "global random generators"]}
BUDGET = 5000000
ASSUMPTIONS = ["in a directed network, the neighbours of an agent are those its own edges point to; whether a loop makes an agent its own neighbour is not specified",
               "whether the node of an agent that died but was kept in the network counts as free is not specified",
               "an agent that dies, or is born, during an iteration may or may not be returned by it"]
CLASSES = ["NetA", "NetB", "Fsm", "Plain", "Evt"]


def gen(rng, prop, idx):
    kind = rng.choice(["int", "str", "gap", "mixed", "pairs", "float"])
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8] if prop == "C13" else [2, 3, 4, 5, 6, 8, 8, 10])
    big = rng.random() < 0.06
    if big:
        n = rng.choice([15, 25, 40])
    names = {"int": list(range(n)), "str": [f"n{i}" for i in range(n)], "gap": [i * 2 + 1 for i in range(n)],
             "mixed": [(i if i % 2 else f"n{i}") for i in range(n)], "pairs": [[i // 3, i % 3] for i in range(n)], "float": [i / 2 for i in range(n)]}[kind]
    edges = [[a, b] for i, a in enumerate(names) for b in names[i + 1:] if rng.random() < 0.4]
    if big and rng.random() < 0.6:
        edges = [[names[0], b] for b in names[1:]]
    graph = rng.choice(["Graph"] * 6 + ["DiGraph", "DiGraph", "MultiGraph", "MultiDiGraph"])
    if graph != "Graph":
        edges = [e[::-1] if rng.random() < 0.5 else e for e in edges]
        edges += [rng.choice([e, e[::-1]]) for e in edges if rng.random() < 0.3]
    if rng.random() < 0.2 and names:
        edges += [[a, a] for a in rng.sample(names, rng.choice([1, min(2, n)]))]
    pos = None
    if prop == "C14" and rng.random() < 0.45:
        unit = rng.choice([1, 1, 1, -1, 0.5, 1000])
        pos = [unit, [None if rng.random() < 0.1 else [rng.randrange(5), rng.randrange(4)] + ([rng.randrange(2)] if three else []) for three in [rng.random() < 0.2] for _ in names]]
    p_query = 0.25 if prop == "C13" else 0.65

    def attrs(one=False):
        a = {}
        if rng.random() < 0.8:
            a["color"] = rng.choice([0, 1, 2])
        if one and rng.random() < 0.1:
            a["unique_id"] = "explicit"
        if rng.random() < 0.5:
            a["size"] = rng.choice(["s", "l", None, 0, "sl", [0, "s"], "sl", "", "0", "None", {"k": 1}])
        return a

    def birth():
        r = rng.random()
        if r < 0.40:
            return ["add_agent", rng.choice(CLASSES), rng.choice([None, None, None, "free"]), attrs(True), nested()]
        if r < 0.72:
            return ["add_node", rng.choice(["NetA", "NetB", "Fsm"]), rng.choice([None, None, "free", "new"]), attrs(True), nested()]
        if r < 0.82:
            return ["add_agents", rng.sample(CLASSES, rng.choice([1, 2])), rng.choice([1, 2, 3, None]), attrs()]
        if r < 0.92:
            return ["populate", rng.sample(["NetA", "NetB", "Fsm"], rng.choice([1, 2])), attrs(), nested()]
        return ["taken", rng.choice(["add_agent", "add_node"]), rng.choice(["NetA", "Fsm"]), rng.randrange(50)]

    depth = [0]

    def nested():
        """What the newborn does in its init."""
        if depth[0] or rng.random() > 0.12:
            return None
        depth[0] = 1
        try:
            return rng.choice([["add_agent", rng.choice(["NetA", "Fsm", "Plain"]), None, {}, None],
                               ["add_node", "NetB", None, {}, None]])
        finally:
            depth[0] = 0

    def death():
        return ["die", rng.randrange(50), rng.random() < 0.8]

    def criteria():
        keep = rng.sample(["ids", "cls", "state_id", "color", "size", "limit"], rng.choice([1, 1, 2, 2, 3, 6]))
        c = all_criteria()
        return {k: v for k, v in c.items() if k in keep or k == "asdict" or (k == "how" and "ids" in keep) or (k == "named" and "cls" in keep)}

    def all_criteria():
        c = {}
        if rng.random() < 0.5:
            c["ids"] = [rng.randrange(12 if not big else 45) for _ in range(rng.choice([0, 1, 1, 2, 4, 6]))]
            c["how"] = rng.choice(["list", "one", "args"])
        if rng.random() < 0.6:
            c["cls"] = rng.sample(CLASSES + ["Other"], rng.choice([1, 1, 2]))
            if rng.random() < 0.2:
                c["named"] = True
        if rng.random() < 0.5:
            c["state_id"] = rng.choice(["s0", "s1", ["s0", "s1"], ["s1"], "none", 0, "s10", ["s10", "s0"], "s", ["s10"]])
        if rng.random() < 0.5:
            c["color"] = rng.choice([0, 1, 2, [0, 1], [1, 2], [], 0, None])
        if rng.random() < 0.35:
            c["size"] = rng.choice(["s", "l", ["s", None], [0, "l"], None, "sl", "sl", ["tuple", 0, "s"], ["s", ["tuple", 0, "s"]], ["sl", "l"], "", ["", 0], "0", 0, "None", {"k": 1}, ["l", {"k": 1}], ["0", "s"]])
        if rng.random() < 0.3:
            c["limit"] = rng.choice([0, 1, 1, 2, 3, 100])
        if rng.random() < 0.15:
            c["asdict"] = True
        return c

    def query():
        who = rng.choice(["env", "agent", "nb", "agent", "nb"])
        if rng.random() < 0.3:
            return ["iter", who, rng.randrange(50), criteria() if rng.random() < 0.6 else {}, rng.randrange(4), [rng.choice([birth(), death(), death()]) for _ in range(rng.choice([1, 1, 2]))]]
        if rng.random() < 0.08:
            return ["subgraph", rng.randrange(50), {k: v for k, v in criteria().items() if k in ("color", "size", "state_id")}, rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.3]
        if pos and rng.random() < 0.2:
            return ["geo", rng.randrange(50), {k: v for k, v in criteria().items() if k in ("color", "size", "state_id", "cls", "ids", "how")}, rng.choice([0.3, 0.75, 1.2, 1.7, 2.6, 3.8, 50]), rng.choice([None, False, True]), rng.random() < 0.2]
        return ["query", who, rng.randrange(50), criteria() if rng.random() < 0.9 else {}, rng.randrange(6)]

    def op():
        r = rng.random()
        if r < p_query:
            return query()
        r = rng.random()
        if r < 0.5:
            return birth()
        if r < 0.72:
            return death()
        if r < 0.86:
            return ["edge", rng.randrange(50), rng.randrange(50), rng.choice([{}, {"w": 1}, {"w": 2, "color": "c"}]), rng.choice([None] * 6 + ["to", "from"])]
        return ["step", rng.randint(0, 3)]

    return {"linked": rng.sample(range(n), rng.choice([0, n // 2])) if prop == "C13" and n and rng.random() < 0.02 else None,
            "nodes": names, "edges": edges, "graph": graph, "env": rng.choice(["Environment", "NetworkEnvironment"]), "sched": rng.choice(list(SCHEDS)),
            "start": rng.choice([None, None, "agent_class", "populate"] if prop == "C13" else [None, "agent_class", "populate", "populate"]), "model_seed": rng.randrange(1 << 30),
            "nattrs": rng.random() < 0.4, "pos": pos, "color_env": rng.random() < 0.2,
            "ops": [op() for _ in range(rng.randint(3, 30 if prop == "C13" else 22))]}


def W(agent):
    return agent.model._w


class NetA(sagents.NetworkAgent):
    def init(self):
        W(self).newborn(self)

    def step(self):
        return W(self).acting(self)


class NetB(NetA, Geo):
    pass


class Fsm(sagents.Agent):
    def init(self):
        W(self).newborn(self)

    @sagents.state(default=True)
    def s0(self):
        W(self).acting(self)
        return W(self).transition(self, "s1", "s10")

    @sagents.state
    def s1(self):
        W(self).acting(self)
        return W(self).transition(self, "s10", "s0")

    @sagents.state
    def s10(self):
        W(self).acting(self)
        return W(self).transition(self, "s0", "s1")


class Plain(sagents.BaseAgent):
    def init(self):
        W(self).newborn(self)

    def step(self):
        return W(self).acting(self)


class Evt(sagents.EventedAgent):
    def init(self):
        W(self).newborn(self)

    def step(self):
        return W(self).acting(self)


class Other(sagents.BaseAgent):
    pass


def value(x):
    """Tuples do not survive in JSON: ["tuple", ...] in queries, any list in the attributes of the agents."""
    if isinstance(x, list) and x[:1] == ["tuple"]:
        return tuple(x[1:])
    return [value(v) for v in x] if isinstance(x, list) else x


def with_tuples(attrs):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in attrs.items()}


CLS = {c.__name__: c for c in (NetA, NetB, Fsm, Plain, Evt, Other)}
NETWORKED = (NetA, NetB, Fsm)


def edges_of(G):
    pair = tuple if G.is_directed() else frozenset
    return Counter((pair(e[:2]), tuple(sorted(e[2].items()))) for e in G.edges(data=True))


class Rec:
    __slots__ = ("agent", "uid", "cls", "alive", "node", "color", "size", "state", "serial")


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.recs = []
        self.by = {}
        self.free = set()       # nodes without an agent
        self.kept = set()       # nodes of dead agents that were kept
        self.reserved = set()
        self.pending = []       # what the next newborns do in their init
        self.queue = []         # ops for the agents that are activated
        self.names = 0
        self.births = self.deaths = self.after = self.parts = self.queries = 0
        self.expect_state = None
        self.depth = 0

    # -------------------------------------------------- reference

    def alive(self):
        return [r for r in self.recs if r.alive]

    def pick(self, i, net=False):
        a = [r for r in self.alive() if not net or isinstance(r.agent, NETWORKED)]
        return a[i % len(a)] if a else None

    def newborn(self, agent):
        """The agent exists, in the middle of its init: it already has a place."""
        r = Rec()
        r.agent, r.uid, r.cls, r.alive = agent, agent.unique_id, type(agent), True
        r.color = getattr(agent, "color", None)
        r.size = getattr(agent, "size", None)
        r.state = None
        r.node = None
        r.serial = len(self.recs)
        self.ctx.check(all(o.uid != r.uid for o in self.alive()), "C13 C14 C04", "duplicate-id", f"two live agents with id {r.uid}")
        if isinstance(agent, NETWORKED):
            self.place(r)
        self.inits.append(r)
        self.births += 1
        if self.deaths:
            self.after += 1
        # Before being added to the scheduler, so it is not part of the population yet
        todo = None
        if self.todo is not None:
            todo, self.todo = self.todo, None
        if todo:
            self.run(todo)
        r.state = agent.get("state_id", None) if isinstance(agent, Fsm) else None

    def place(self, r):
        node = r.agent.node_id
        ctx = self.ctx
        ctx.event("place", r.uid, repr(node))
        want = self.want
        ref = self.ref
        if want is not None and want[0] == "explicit":
            self.want = None
            ctx.check(node == want[1], "C13", "explicit-node", f"agent {r.uid} asked for node {want[1]!r} and got {node!r}")
            if node not in ref:
                ref.add_node(node)
        elif want is not None and want[0] == "populate":
            ctx.check(node in want[1], "C13", "populate-node", f"agent {r.uid} was placed in {node!r} when populating the nodes {sorted(want[1], key=repr)}")
            want[1].discard(node)
            self.reserved.discard(node)
        else:
            free = self.free - self.reserved
            if free:
                ctx.check(node in free | self.kept, "C13", "free-node", f"agent {r.uid} was placed in {node!r} when the free nodes were {sorted(free, key=repr)}")
            else:
                ctx.check(node not in ref or node in self.kept, "C13", "taken-node", f"agent {r.uid} was placed in the existing node {node!r} when no node was free")
                ctx.check(node in self.env.G, "C13", "no-node", f"agent {r.uid} was placed in {node!r}, which does not exist")
                if node not in ref:
                    ctx.check(not self.env.G.degree(node), "C13", "connected-node", f"the new node {node!r} of agent {r.uid} has neighbours")
                    ref.add_node(node)
        r.node = node
        self.free.discard(node)
        self.kept.discard(node)

    def check_network(self, where):
        ctx, env, ref = self.ctx, self.env, self.ref
        G = env.G
        ctx.check(set(G.nodes) == set(ref.nodes), "C13", "nodes", lambda: f"{where}: nodes are {list(G.nodes)} instead of {list(ref.nodes)}")
        ctx.check(G.is_directed() == ref.is_directed() and G.is_multigraph() == ref.is_multigraph(), "C13", "edges", lambda: f"{where}: the network is a {type(G)} instead of a {type(ref)}")
        ge, re = edges_of(G), edges_of(ref)
        ctx.check(ge == re, "C13", "edges", lambda: f"{where}: edges are {ge} instead of {re}")
        for n, d in ref.nodes(data=True):
            for k, v in d.items():
                ctx.check(G.nodes[n].get(k) == v, "C13", "node-attribute", f"{where}: attribute {k} of node {n!r} is {G.nodes[n].get(k)!r} instead of {v!r}")
        seen = {}
        for r in self.alive():
            if not isinstance(r.agent, NETWORKED):
                continue
            n = r.agent.node_id
            ctx.check(n == r.node, "C13", "moved", f"{where}: agent {r.uid} is in node {n!r} instead of {r.node!r}")
            ctx.check(n in G, "C13", "lost-node", f"{where}: agent {r.uid} is in node {n!r}, which is not in the network")
            ctx.check(G.nodes[n].get("agent") is r.agent, "C13", "back-reference", f"{where}: node {n!r} of agent {r.uid} points to {G.nodes[n].get('agent')!r}")
            ctx.check(n not in seen, "C13", "shared-node", f"{where}: agents {seen.get(n)} and {r.uid} share node {n!r}")
            ctx.check(env.agent_for_node_id(n) is r.agent, "C13", "back-reference", f"{where}: the agent for node {n!r} is not {r.uid}")
            ctx.check(r.agent.node is G.nodes[n] or r.agent.node == G.nodes[n], "C13", "back-reference", f"{where}: agent {r.uid} sees another node")
            seen[n] = r.uid
        if not self.reserved:
            for n in G.nodes:
                a = G.nodes[n].get("agent")
                if a is not None and getattr(a, "alive", True):
                    ctx.check(n in seen, "C13", "ghost", f"{where}: node {n!r} points to {a!r}, which is not there")
        got = sorted(a.unique_id for a in env.network_agents)
        ctx.check(got == sorted(seen.values()), "C13 C14", "network-agents", lambda: f"{where}: the network agents are {got} instead of {sorted(seen.values())}")

    def check_population(self, where):
        got = sorted(a.unique_id for a in self.env.get_agents())
        want = sorted(r.uid for r in self.alive())
        self.ctx.check(got == want, "C14 C13 C03", "population", lambda: f"{where}: the population is {got} instead of {want}")
        self.ctx.check(self.env.count_agents() == len(want), "C14 C03", "count", f"{where}: {self.env.count_agents()} agents instead of {len(want)}")

    def check_all(self, where):
        self.check_population(where)
        self.check_network(where)

    # -------------------------------------------------- behaviour of the agents

    def acting(self, agent):
        self.ctx.event("act", agent.unique_id)
        r = self.by.get(agent.unique_id)
        self.ctx.check(r is not None and r.alive and r.agent is agent, "C13 C14 C03", "dead-acts", f"agent {agent.unique_id} acts and it should not")
        if isinstance(agent, Fsm):
            self.ctx.check(agent.state_id == r.state, "C14 C07", "state", f"agent {agent.unique_id} is in {agent.state_id} instead of {r.state}")
        if self.queue and self.depth == 0:
            op = self.queue.pop(0)
            self.run(op, agent)
        return None

    def transition(self, agent, to, other):
        r = self.by[agent.unique_id]
        if not r.alive:
            return None
        if (agent.unique_id + self.births) % 3 == 0:
            return None
        if (agent.unique_id + self.births) % 4 == 0:
            to = other
        r.state = to
        return to

    # -------------------------------------------------- ops

    def birth(self, call, want=None, todo=None, k=1, attrs=None):
        """Run an operation that adds agents, and put them in the reference."""
        old = getattr(self, "want", None), getattr(self, "todo", None), getattr(self, "inits", None)
        self.want, self.todo, self.inits = want, todo, []
        try:
            res = call()
            got = self.inits
        finally:
            self.want, self.todo, self.inits = old
        return res, got

    def run(self, op, actor=None):
        self.depth += 1
        try:
            self._run(op, actor)
        finally:
            self.depth -= 1
        if self.depth == 0:
            self.check_all(f"after {op}")

    def added(self, recs):
        for r in recs:
            r.serial = len(self.recs)
            self.recs.append(r)
            self.by[r.uid] = r

    def _run(self, op, actor):
        ctx, env = self.ctx, self.env
        name = op[0]
        ctx.event(*[repr(x) for x in op])
        if name in ("add_agent", "add_node", "add_agents"):
            op = list(op)
            op[3] = with_tuples(op[3])
        elif name == "populate":
            op = [op[0], op[1], with_tuples(op[2]), op[3]]
        elif name in ("query", "iter"):
            op = [*op[:3], {k: value(v) if k == "size" else v for k, v in op[3].items()}, *op[4:]]
        elif name in ("subgraph", "geo"):
            op = [*op[:2], {k: value(v) if k == "size" else v for k, v in op[2].items()}, *op[3:]]
        ctx.count(name)
        if name in ("add_agent", "add_node"):
            _, cls, where, attrs, todo = op
            cls = CLS[cls]
            kw = dict(attrs)
            if kw.get("unique_id"):
                self.names += 1
                kw["unique_id"] = 1000 + 7 * self.names
            want = None
            if issubclass(cls, NETWORKED):
                if where == "free":
                    cands = sorted(self.free - self.reserved, key=repr)
                    if cands:
                        kw["node_id"] = cands[len(self.recs) % len(cands)]
                elif where == "new":
                    self.names += 1
                    kw["node_id"] = f"new{self.names}"
                if "node_id" in kw:
                    want = ("explicit", kw["node_id"])
            f = env.add_agent if name == "add_agent" else env.add_node
            a, got = self.birth(lambda: f(cls, **kw), want, todo)
            ctx.check(len(got) == 1 and got[0].agent is a, "C13 C14", "birth", f"{op} created {[g.uid for g in got]} and returned {a!r}")
            for k, v in kw.items():
                ctx.check(k == "node_id" or getattr(a, k, None) == v or v is None, "C14 C12", "attribute", f"{op}: {k} is {getattr(a, k, None)!r}")
            self.added(got)
        elif name == "add_agents":
            _, classes, k, attrs = op
            if k is None:
                # As many as nodes
                k = len(env.G)
                try:
                    _, got = self.birth(lambda: env.add_agents([CLS[c] for c in classes], **attrs))
                except ValueError:
                    ctx.check(k == 0, "C13 C14", "births", f"{op} failed with {k} nodes")
                    return
            else:
                _, got = self.birth(lambda: env.add_agents([CLS[c] for c in classes] if len(classes) > 1 or k == 2 else CLS[classes[0]], k=k, **attrs))
            ctx.check(len(got) == k and all(g.cls in [CLS[c] for c in classes] for g in got), "C13 C14", "births", f"{op} created {[g.uid for g in got]}")
            self.added(got)
        elif name == "populate":
            _, classes, attrs, todo = op
            if not self.free or self.reserved:
                return
            left = set(self.free)
            self.reserved = set(self.free)
            n = len(left)
            try:
                _, got = self.birth(lambda: env.populate_network([CLS[c] for c in classes], **attrs), ("populate", left), todo)
            finally:
                self.reserved = set()
            ctx.check(not left, "C13", "not-populated", f"{op} left the nodes {sorted(left, key=repr)} without an agent")
            ctx.check(len(got) == n, "C13", "births", f"{op} created {len(got)} agents for {n} nodes")
            self.added(got)
        elif name == "taken":
            r = self.pick(op[3], net=True)
            if r is None:
                return
            f = env.add_agent if op[1] == "add_agent" else env.add_node
            try:
                _, got = self.birth(lambda: f(CLS[op[2]], node_id=r.node), ("explicit", r.node))
            except Exception as ex:
                ctx.fault("taken node")
            else:
                ctx.fail("C13", "taken-accepted", f"a second agent was placed in the node {r.node!r} of agent {r.uid}")
        elif name == "die":
            r = self.pick(op[1])
            if r is None:
                return
            ctx.fault("death")
            r.alive = False
            self.deaths += 1
            if isinstance(r.agent, NETWORKED):
                if op[2]:
                    self.ref.remove_node(r.node)
                    r.agent.die()
                else:
                    self.kept.add(r.node)
                    r.agent.die(remove=False)
            else:
                r.agent.die()
        elif name == "edge":
            a, b = self.pick(op[1], True), self.pick(op[2], True)
            if a is None or b is None or a is b:
                return
            gone = [r for r in self.recs if not r.alive and r.node is not None and r.node not in self.ref]
            if op[4:5] and op[4] and gone:
                # Those that left the network do not come back
                dead = gone[op[2] % len(gone)]
                a, b = (a, dead) if op[4] == "to" else (dead, a)
                ctx.fault("link with the dead")
                try:
                    a.agent.add_edge(b.agent, **op[3])
                except Exception:
                    pass
                return
            a.agent.add_edge(b.agent, **op[3])
            self.ref.add_edge(a.node, b.node, **op[3])
        elif name == "query":
            self.query(op)
        elif name == "iter":
            self.iterate(op)
        elif name == "subgraph":
            self.subgraph(op)
        elif name == "geo":
            self.geo(op)

    # -------------------------------------------------- queries

    def matches(self, r, c, who):
        if "ids" in c and r.uid not in c["ids"]:
            return False
        if "cls" in c and not isinstance(r.agent, tuple(CLS[k] for k in c["cls"])):
            return False
        if "state_id" in c:
            s = c["state_id"] if isinstance(c["state_id"], list) else [c["state_id"]]
            if r.state not in s:
                return False
        for k in ("color", "size"):
            if k in c:
                vs = c[k] if isinstance(c[k], list) else [c[k]]
                if not any(getattr(r, k) == v for v in vs):
                    return False
        return True

    def call_args(self, c, who):
        kw = {k: c[k] for k in ("state_id", "color", "size", "limit") if k in c}
        if "cls" in c:
            cs = [CLS[k] for k in c["cls"]]
            kw["agent_class"] = cs[0] if len(cs) == 1 else cs
            if c.get("named") and len(cs) == 1:
                kw["agent_class"] = f"dst.worlds.network.{c['cls'][0]}"
        if c.get("asdict"):
            kw["state"] = {k: kw.pop(k) for k in ("color", "size") if k in kw}
        args = []
        if "ids" in c:
            if c["how"] == "args" and who == "env" and c["ids"]:
                args = c["ids"]
            elif c["how"] == "one" and len(c["ids"]) == 1:
                kw["unique_id"] = c["ids"][0]
            else:
                kw["unique_id"] = list(c["ids"])
        return args, kw

    def expected(self, who, r, c):
        pool = self.alive()
        if who == "nb":
            nbs = set(self.ref.neighbors(r.node))
            pool = [x for x in pool if isinstance(x.agent, NETWORKED) and x.node in nbs]
        return [x for x in pool if self.matches(x, c, who)]

    def target(self, who, i):
        if who == "env":
            return None
        return self.pick(i, net=(who == "nb"))

    def query(self, op):
        _, who, i, c, variant = op
        ctx, env = self.ctx, self.env
        r = self.target(who, i)
        if who != "env" and r is None:
            return
        if who != "env" and "ids" in c and c["how"] == "args":
            c = dict(c, how="list")
        args, kw = self.call_args(c, who)
        want = self.expected(who, r, c)
        ids = sorted(x.uid for x in want)
        if who == "env":
            got = list(env.get_agents(*args, **kw)) if variant < 3 else list(env.get_agents.filter(*args, **kw))
            n = env.count_agents(*args, **kw)
        elif who == "agent":
            got = list(r.agent.get_agents(*args, **kw)) if variant < 3 else list(r.agent.iter_agents(*args, **kw))
            n = r.agent.count_agents(*args, **kw)
        else:
            got = list(r.agent.get_neighbors(**kw)) if variant < 3 else list(r.agent.iter_neighbors(**kw))
            n = r.agent.count_neighbors(**kw)
        if who == "nb" and self.ref.has_edge(r.node, r.node):
            # Whether an agent is its own neighbour because of a loop is not specified
            n -= sum(a is r.agent for a in got)
            got = [a for a in got if a is not r.agent]
            want = [x for x in want if x is not r]
            ids = sorted(x.uid for x in want)
            c = dict(c, loop=True)
        gids = sorted(a.unique_id for a in got)
        ctx.event("query", who, repr(kw), gids)
        self.queries += 1
        desc = f"{who} query {args} {kw}"
        ctx.check(all(any(a is x.agent for x in self.alive()) for a in got), "C14 C03", "dead-returned", lambda: f"{desc} returned {gids}; the live agents are {[x.uid for x in self.alive()]}")
        if "limit" in c:
            ctx.check(len(gids) in {min(len(ids), max(0, k)) for k in ([c["limit"], c["limit"] - 1] if "loop" in c else [c["limit"]])} and len(set(gids)) == len(gids) and set(gids) <= set(ids), "C14", "limit", lambda: f"{desc} returned {gids} out of {ids}")
        else:
            ctx.check(gids == ids, "C14", "result", lambda: f"{desc} returned {gids} instead of {ids}")
        ctx.check(n == len(gids), "C14", "count", f"{desc} counted {n} and listed {len(gids)}")
        if 0 < len(gids) < len(self.alive()):
            self.parts += 1
        if who == "env" and variant == 5:
            view = env.get_agents
            ctx.check(len(view) == len(self.alive()), "C14", "view", f"the view has {len(view)} agents")
            ctx.check(sorted(a.unique_id for a in view) == sorted(x.uid for x in self.alive()), "C14", "view", "iterating the view does not give the population")
            for uid in range(len(self.recs) + 2):
                x = self.by.get(uid)
                there = x is not None and x.alive
                ctx.check((uid in view) == there, "C14", "view", f"looking for agent {uid} in the view gives {uid in view}")
                if there:
                    ctx.check(view[uid] is x.agent and x.agent in view, "C14", "view", f"agent {uid} of the view is {view[uid]!r}")
                    ctx.check(env.agent(uid) is x.agent, "C14", "view", f"agent {uid} is {env.agent(uid)!r}")
            if "limit" not in c and want:
                one = env.agent(*args, **kw)
                ctx.check(any(one is x.agent for x in want), "C14", "one", f"one agent for {desc} is {one!r}")

    def subgraph(self, op):
        _, i, c, center, near, typed = op
        r = self.pick(i, True)
        if r is None:
            return
        _, kw = self.call_args(c, "nb")
        if near:
            kw["limit_neighbors"] = True
        if typed:
            kw["agent_class"] = NETWORKED
        want = {x.node for x in self.expected("nb" if near else "agent", r, c) if isinstance(x.agent, NETWORKED)}
        if center:
            want.add(r.node)
        got = r.agent.subgraph(center=center, **kw)
        if near and self.ref.has_edge(r.node, r.node):
            want.discard(r.node) if r.node not in got else want.add(r.node)
        self.ctx.event("subgraph", r.uid, repr(sorted(map(repr, got.nodes))))
        self.ctx.check(set(got.nodes) == want, "C14", "subgraph", lambda: f"the subgraph of {r.uid} for {kw} has the nodes {list(got.nodes)} instead of {want}")
        edges = edges_of(self.ref.subgraph(want))
        self.ctx.check(edges_of(got) == edges, "C14 C13", "subgraph", lambda: f"the subgraph of {r.uid} for {kw} has the edges {list(got.edges)}")
        self.queries += 1

    def geo(self, op):
        """Nodes of the agents that match, closer than a radius that no distance is close to."""
        _, i, c, radius, center, near = op
        pos = nx.get_node_attributes(self.ref, "pos")
        cands = [x for x in self.alive() if isinstance(x.agent, Geo) and x.node in pos]
        if not cands:
            return
        r = cands[i % len(cands)]
        radius *= abs(self.sc["pos"][0])
        if c.get("how") == "args":
            c = dict(c, how="list")
        _, kw = self.call_args(c, "nb")
        if near:
            kw["limit_neighbors"] = True
        want = {x.node for x in self.expected("nb" if near else "agent", r, c)
                if isinstance(x.agent, NETWORKED) and x is not r and x.node in pos and sum((a - b) ** 2 for a, b in zip(pos[x.node], pos[r.node])) < radius ** 2}
        if center:
            want.add(r.node)
        got = r.agent.geo_search(radius, **kw) if center is None else r.agent.geo_search(radius, center=center, **kw)
        self.ctx.event("geo", r.uid, repr(sorted(map(repr, got))))
        self.ctx.count("searches by distance")
        self.ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "C14", "geo", lambda: f"the nodes closer than {radius} to {r.uid} for {kw} are {got} instead of {want}")
        self.queries += 1
        if want:
            self.parts += 1

    def iterate(self, op):
        _, who, i, c, at, ops = op
        ctx, env = self.ctx, self.env
        r = self.target(who, i)
        if who != "env" and r is None:
            return
        c = {k: v for k, v in c.items() if k != "limit"}
        if "ids" in c:
            c["how"] = "list"
        args, kw = self.call_args(c, who)
        before = self.expected(who, r, c)
        start = len(self.recs)
        if who == "env":
            it = [lambda: env.get_agents.filter(**kw), lambda: iter(env.get_agents(**kw)), lambda: env.get_agents.filter(**kw), lambda: (a for a in env.network_agents)][at % 4 if not kw else 0]()
            if at % 4 == 3 and not kw:
                before = [x for x in before if isinstance(x.agent, NETWORKED)]
        elif who == "agent":
            it = r.agent.iter_agents(**kw)
        else:
            it = r.agent.iter_neighbors(**kw)
        got = []
        for n, a in enumerate(it):
            got.append(a)
            if n == at or (n == 0 and at >= len(before)):
                for o in ops:
                    self.run(o)
                self.check_network("in the middle of an iteration")
            if n > 500:
                ctx.fail("C14", "endless", "the iteration does not end")
        gids = [a.unique_id for a in got]
        ctx.event("iter", who, repr(kw), sorted(gids))
        ctx.fault("population change while iterating")
        self.queries += 1
        ctx.check(len(set(gids)) == len(gids), "C14", "repeated", lambda: f"iteration of {who} {kw} with {ops} in the middle returned {gids}")
        lived = {x.uid for x in before if x.alive and not (who == "nb" and x is r)}
        ctx.check(lived <= set(gids), "C14", "missing", lambda: f"iteration of {who} {kw} with {ops} in the middle returned {gids}, without {sorted(lived - set(gids))}")
        new = {x.uid for x in self.recs[start:]}
        extra = set(gids) - {x.uid for x in before} - new
        if who == "nb" and r.alive and self.ref.has_edge(r.node, r.node):
            extra.discard(r.uid)
        ctx.check(not extra, "C14", "intruder", lambda: f"iteration of {who} {kw} with {ops} in the middle returned also {sorted(extra)}")
        if 0 < len(gids) < len(self.alive()):
            self.parts += 1


class Sitting(sagents.BaseAgent):
    def step(self):
        return 1


def linked(sc, ctx):
    """The network already says which agent is in each of its nodes."""
    g = getattr(nx, sc.get("graph", "Graph"))()
    nodes = [tuple(n) if isinstance(n, list) else n for n in sc["nodes"]]
    for i, n in enumerate(nodes):
        g.add_node(n, **({} if i in sc["linked"] else {"agent_id": i}))
    base = {"Environment": Environment, "NetworkEnvironment": NetworkEnvironment}[sc["env"]]
    env = base(topology=g, seed=sc["model_seed"], schedule_class=SCHEDS[sc["sched"]], agents={"agent_classes": [Sitting], "k": len(nodes)})
    for _ in range(2):
        pop = {a.unique_id: a for a in env.get_agents()}
        ctx.check(sorted(pop) == list(range(len(nodes))), "C13 C14", "population", f"the population is {sorted(pop)}")
        for i, n in enumerate(nodes):
            if i in sc["linked"]:
                ctx.check(getattr(pop[i], "node_id", None) is None and env.G.nodes[n].get("agent") is None, "C13", "ghost", f"node {n!r} points to {env.G.nodes[n].get('agent')!r}, and it is free")
            else:
                ctx.check(pop[i].node_id == n and env.G.nodes[n].get("agent") is pop[i], "C13", "back-reference", f"node {n!r} is that of agent {i}, and it points to {env.G.nodes[n].get('agent')!r}")
        env.step()
    ctx.count("linked")
    ctx.event("linked", len(nodes))


def run(sc, ctx):
    if sc.get("linked") is not None:
        return linked(sc, ctx)
    w = World(sc, ctx)
    base = {"Environment": Environment, "NetworkEnvironment": NetworkEnvironment}[sc["env"]]
    g = getattr(nx, sc.get("graph", "Graph"))()
    nodes = [tuple(n) if isinstance(n, list) else n for n in sc["nodes"]]
    edges = [[tuple(n) if isinstance(n, list) else n for n in e] for e in sc["edges"]]
    for n in nodes:
        g.add_node(n, **({"kind": f"k{n}"} if sc["nattrs"] else {}))
    if sc.get("pos"):
        unit, where = sc["pos"]
        for n, at in zip(nodes, where):
            if at is not None:
                g.nodes[n]["pos"] = tuple(x * unit for x in at)
    known = set(nodes)
    g.add_edges_from([e for e in edges if e[0] in known and e[1] in known], **({"w": 0} if sc["nattrs"] else {}))
    w.ref = g.copy()
    w.free = set(g.nodes)
    w.inits = []
    w.want = w.todo = None

    class Env(base):
        def __init__(self, **kw):
            self._w = w
            w.env = self
            if sc.get("color_env"):
                # Attributes of the model are not those of its agents
                self.color, self.size = 1, "s"
            super().__init__(**kw)

    start = sc["start"] if len(g) else None
    left = set(w.free)

    def make():
        e = Env(topology=g, seed=sc["model_seed"], schedule_class=SCHEDS[sc["sched"]], agent_class=NetA if start == "agent_class" else None)
        if start == "populate":
            e.populate_network([NetA, Fsm])
        return e

    if start:
        w.reserved = set(w.free)
        env, got = w.birth(make, ("populate", left))
        w.reserved = set()
        w.added(got)
        ctx.check(len(got) == len(g), "C13", "births", f"{len(got)} agents for {len(g)} nodes")
    else:
        env, got = w.birth(make)
    w.check_all("at the start")
    for op in sc["ops"]:
        if op[0] == "step":
            i = sc["ops"].index(op)
            w.queue = [o for o in sc["ops"][i + 1:i + 1 + op[1]] if o[0] != "step"]
            ctx.count("step")
            before = len(w.queue)
            if env.running:
                env.step()
                ctx.sim_time = env.now if env.now != float("inf") else ctx.sim_time
            ctx.count("ops inside an activation", before - len(w.queue))
            w.queue = []
            w.check_all("after a step")
            continue
        w.run(op)
    ctx.nontrivial = (w.births >= 5 and w.after >= 1) if ctx.prop == "C13" else (w.queries >= 4 and w.parts >= 2)
