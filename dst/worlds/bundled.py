"""The agents that come with soil, in changing networks and with extreme draws. Decides C28."""
import math

import networkx as nx

import soil.agents as sagents
import soil.time as stime
from soil.environment import Environment

from .weights import Extreme, bound

RULE = "random networks of counters and sentiment agents, with births, deaths and new edges between and during activations, under real and extreme random draws; non-trivial: at least 10 activations and either a change of the network or two different states"
COMPONENTS = {"real": ["soil.agents (SISaModel, CounterModel, AggregatedCounter, Ticker, prob)", "soil.environment", "soil.time", "mesa", "networkx"], "stub": ["generator of random numbers (real, or with injected extreme values)"]}
ASSUMPTIONS = ["the sentiment agents have no variance, and their settings are probabilities",
               "a difference with the probabilities is a violation when it is less likely than 1e-13 (a bound)"]
LIMIT = 30.0
BUDGET = 20000000
SCHEDS = ["TimedActivation", "PQueueActivation", "OrderedTimedActivation", "ShuffledTimedActivation"]
SETTINGS = ["neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob", "neutral_content_infected_prob", "discontent_neutral", "discontent_content", "content_discontent", "content_neutral"]


def gen(rng, prop, idx):
    atoms = rng.choice([[0, 1], [0, 0, 1], [0, 0.2, 0.5, 1], [0, 0.1, 0.3, 0.7]])
    kind = rng.choice(["count", "count", "sisa", "sisa", "prob"])
    n = rng.randint(1, 9)
    kinds = {"count": ["counter", "aggregated", "ticker"], "sisa": ["sisa", "sisa", "sisa", "counter"], "prob": ["prob"]}[kind]
    sc = {"kind": kind, "agents": [{"kind": rng.choice(kinds), "start": rng.choice([None, None, 5]), "every": rng.choice([1, 1, 1, 2, 0.5]), "state": rng.choice([None, None, "neutral", "content", "discontent"]),
                                      "p": [rng.choice([0, 1, 0.5, 0.3, 0.9, 1.5, -0.1]) for _ in range(3)]} for _ in range(n)],
            "edges": [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 2 * n))], "spare": rng.choice([0, 0, 1, 2]),
            "settings": {s: rng.choice(atoms) for s in SETTINGS}, "steps": rng.choice([3, 6, 12, 30]), "sched": rng.choice(SCHEDS), "extreme": rng.random() < 0.3,
            "ops": [[rng.randrange(12), rng.choice(["kill", "kill", "birth", "birth", "edge", "keep"]), rng.randrange(50), rng.randrange(50), rng.random() < 0.5] for _ in range(rng.choice([0, 1, 2, 4, 8]))]}
    if sc["extreme"] and sc["sched"] == "PQueueActivation":
        # Its order is random as well, and equal draws do not happen there
        sc["sched"] = "TimedActivation"
    return sc


W = None


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.recs = {}
        self.count = 0
        self.changes = 0
        self.groups = {}
        self.states = set()

    # ------------------------------------------------ reference

    def live(self):
        return [a for a in self.env.schedule.agents if a.alive]

    def near(self, agent):
        G = self.env.G
        out = []
        for n in G.neighbors(agent.node_id):
            a = G.nodes[n].get("agent")
            if a is not None and a.alive and not any(a is o for o in out):
                out.append(a)
        return out

    def before(self, agent):
        self.count += 1
        for op in self.sc["ops"]:
            if op[0] == self.count and not op[4]:
                self.change(op, agent)
        if not agent.alive:
            return None
        if isinstance(agent, sagents.SISaModel):
            return (agent.state_id, self.expected(agent))
        if isinstance(agent, sagents.NetworkAgent):
            return (len(self.near(agent)), len(self.live()))

    def after(self, agent, pre):
        ctx = self.ctx
        kind = type(agent).__name__
        if pre is None and not isinstance(agent, Tick):
            return
        r = self.recs.setdefault(agent.unique_id, {"times": 0, "neighbors": 0, "total": 0})
        if isinstance(agent, sagents.SISaModel):
            state, probs = pre
            new = agent.state_id
            self.states.add(new)
            ctx.event(agent.unique_id, agent.now, state, new)
            if self.sc["extreme"]:
                # Only what is certain
                probs = {k: (v if v in (0, 1) else None) for k, v in probs.items()}
            for k, v in probs.items():
                if v == 1:
                    ctx.check(new == k, "C28", "sentiment", f"agent {agent.unique_id} went from {state} to {new} instead of {k}, with {self.sc['settings']}")
                elif v == 0:
                    ctx.check(new != k, "C28", "sentiment", f"agent {agent.unique_id} went from {state} to {new}, which cannot happen with {self.sc['settings']}")
                elif v is not None:
                    g = self.groups.setdefault((state, k, v), [0, 0])
                    g[0] += new == k
                    g[1] += 1
            return
        start = agent.spec["start"] or 0
        r["times"] += 1
        if isinstance(agent, Tick):
            ctx.event(agent.unique_id, agent.now, agent.times)
            ctx.check(agent.times == start + r["times"], "C28", "ticks", f"ticker {agent.unique_id} counts {agent.times} instead of {start + r['times']}")
            return
        if isinstance(agent, Aggr):
            r["neighbors"] += pre[0]
            r["total"] += pre[1]
        else:
            r["neighbors"], r["total"] = pre
        got = (agent.times, agent.neighbors, agent.total)
        want = (start + r["times"], r["neighbors"], r["total"])
        ctx.event(agent.unique_id, agent.now, *got)
        ctx.check(got == want, "C28", "counts", f"{kind} {agent.unique_id} has (times, neighbors, total) = {got} instead of {want}")

    def expected(self, agent):
        """Probability of each of the next states."""
        s = self.sc["settings"]
        near = [a for a in self.near(agent) if isinstance(a, sagents.SISaModel)]
        count = lambda k: sum(a.state_id == k for a in near)
        one = lambda p: min(1, max(0, p))
        if agent.state_id == "neutral":
            a = one(s["neutral_discontent_spon_prob"])
            b = one(s["neutral_content_spon_prob"])
            c = one(s["neutral_discontent_infected_prob"] * count("discontent"))
            d = one(s["neutral_content_infected_prob"] * count("content"))
            disc = a + (1 - a) * (1 - b) * c
            cont = (1 - a) * b + (1 - a) * (1 - b) * (1 - c) * d
            if 1 in (a, c) and b == 0 or a == 1:
                disc, cont = 1, 0
            return {"discontent": disc, "content": cont, "neutral": (1 - a) * (1 - b) * (1 - c) * (1 - d)}
        if agent.state_id == "discontent":
            h, i, other = one(s["discontent_neutral"]), one(s["discontent_content"] * count("content")), "content"
        else:
            h, i, other = one(s["content_neutral"]), one(s["content_discontent"] * count("discontent")), "discontent"
        return {"neutral": h, other: (1 - h) * i, agent.state_id: (1 - h) * (1 - i)}

    # ------------------------------------------------ changes

    def change(self, op, current):
        _, what, x, y, _ = op
        env = self.env
        nets = [a for a in self.live() if isinstance(a, sagents.NetworkAgent)]
        if what in ("kill", "keep"):
            others = [a for a in self.live() if a is not current]
            if not others:
                return
            a = others[x % len(others)]
            self.ctx.fault("death")
            a.die(**({"remove": False} if what == "keep" and isinstance(a, sagents.NetworkAgent) else {}))
        elif what == "birth":
            spec = dict(self.sc["agents"][x % len(self.sc["agents"])], start=None)
            self.ctx.fault("birth")
            a = self.add(spec)
            if nets and isinstance(a, sagents.NetworkAgent):
                a.add_edge(nets[y % len(nets)])
        elif len(nets) > 1:
            self.ctx.fault("new edge")
            nets[x % len(nets)].add_edge(nets[y % len(nets)])
        self.changes += 1

    def add(self, spec, **kw):
        opts = {"spec": spec, **kw}
        if spec["start"] is not None and spec["kind"] in ("counter", "aggregated", "ticker"):
            opts["times"] = spec["start"]
        if spec["kind"] == "sisa" and spec["state"]:
            opts["state_id"] = spec["state"]
        if spec["kind"] in ("ticker", "prob"):
            opts.pop("node_id", None)
        return self.env.add_agent(KINDS[spec["kind"]], **opts)


class _Seen:
    spec = None

    def step(self):
        pre = W.before(self)
        if not self.alive:
            return float("inf")
        r = super().step()
        W.after(self, pre)
        for op in W.sc["ops"]:
            if op[0] == W.count and op[4]:
                W.change(op, self)
        return r if r is not None else self.spec["every"]


class Count(_Seen, sagents.CounterModel):
    pass


class Aggr(_Seen, sagents.AggregatedCounter):
    pass


class Tick(_Seen, sagents.Ticker):
    pass


class Sisa(_Seen, sagents.SISaModel):
    pass


class Prob(sagents.BaseAgent):
    spec = None

    def step(self):
        for p in self.spec["p"]:
            got = self.prob(p)
            W.count += 1
            W.ctx.event(self.unique_id, p, got)
            if p <= 0 or p >= 1:
                W.ctx.check(bool(got) == (p >= 1), "C28", "certain", f"something with probability {p} {'happened' if got else 'did not happen'}")
            else:
                g = W.groups.setdefault(("prob", True, p), [0, 0])
                g[0] += bool(got)
                g[1] += 1


KINDS = {"counter": Count, "aggregated": Aggr, "ticker": Tick, "sisa": Sisa, "prob": Prob}


class Model(Environment):
    standard_variance = variance_d_c = variance_c_d = 0

    def __init__(self, *a, **kw):
        if W.sc["extreme"]:
            r = Extreme()
            r.start(kw["seed"], W.ctx)
            self.random = r
        super().__init__(*a, **kw)

    def init(self):
        W.env = self
        for i, spec in enumerate(W.sc["agents"]):
            W.add(spec, node_id=i)


def run(sc, ctx):
    global W
    W = w = World(sc, ctx)
    g = nx.empty_graph(len(sc["agents"]) + sc["spare"])
    n = len(sc["agents"])
    g.add_edges_from((a % n, b % n) for a, b in sc["edges"])
    seeds = 1 if sc["kind"] == "count" else 6
    for s in range(seeds):
        w.recs = {}
        w.count = 0
        w.states = set()
        env = Model(seed=f"{sc['seed']}-{s}", topology=g.copy(), schedule_class=getattr(stime, sc["sched"]), **{k: v for k, v in sc["settings"].items()})
        for _ in range(sc["steps"]):
            if not env.running:
                break
            env.step()
        ctx.sim_time += env.now if env.now != float("inf") else 0
        ctx.nontrivial = ctx.nontrivial or w.count >= 10 and (w.changes > 0 or len(w.states) > 1 or sc["kind"] == "prob")
    if not sc["extreme"]:
        for (state, k, p), (got, total) in w.groups.items():
            if total:
                ctx.check(bound(got, total, p) < LIMIT, "C28", "chance", lambda: f"from {state} to {k}: {got} times out of {total}, with probability {p}")
    ctx.count("kind " + sc["kind"])
