"""Populations of several types, with weights, under many seeds and extreme draws. Decides C26."""
import math
import random

import networkx as nx

import soil.agents as sagents
from soil.environment import BaseEnvironment, Environment

RULE = "random types, weights, sizes and ways to create a population, each under many seeds; in a third of the runs, the generator of the model gives extreme values at random points; non-trivial: at least two types, one of them with a different weight"
COMPONENTS = {"real": ["soil.environment", "soil.agents", "soil.network", "mesa", "random"], "stub": ["generator of random numbers (real, or with injected extreme values)"]}
ASSUMPTIONS = ["weights are finite, not negative, and not all of them are zero",
               "a difference with the proportions is a violation when it is less likely than 1e-13 (a bound, not an approximation)"]
LIMIT = 30.0
BUDGET = 20000000
KINDS = ["add", "add", "populate", "populate", "param", "agents"]
ATOMS = [0, 0, 1, 1, 2, 3, 10, 0.5, 0.1, 0.25, 1e-6, 1e6, 100]


def gen(rng, prop, idx):
    m = rng.choice([1, 2, 2, 3, 3, 4, 5])
    how = rng.choice(KINDS)
    while True:
        weights = [rng.choice(ATOMS) for _ in range(m)]
        if sum(weights) > 0:
            break
    if rng.random() < 0.15 or how == "param":
        weights = None
    k = rng.choice([1, 2, 3, 5, 10, 30, 100, 100, 200])
    sc = {"how": how, "types": [rng.randrange(6) for _ in range(m)] if rng.random() < 0.2 else rng.sample(range(6), m), "weights": weights, "k": k, "as": rng.choice(["list", "tuple"]),
          "envs": max(4, min(60, 400 // k)), "extreme": rng.random() < 0.33, "base": rng.choice(["Environment", "BaseEnvironment"]), "given": rng.random() < 0.3,
          "before": rng.choice([0, 0, 1, 2]), "single": rng.random() < 0.1, "late": rng.random() < 0.3, "rounds": rng.choice([1, 1, 2]), "labelled": rng.random() < 0.2,
          "speed": [rng.choice([None, None, 0, 1]), rng.choice(["absent", "absent", "absent", None, 0, 5, "fast"])]}
    if sc["single"] and m == 1:
        sc["weights"] = None
    if rng.random() < 0.012:
        # Enough to notice small differences
        sc.update(k=2500, envs=10, extreme=False, rounds=1)
    return sc


class Basic(sagents.BaseAgent):
    given = None
    speed = 3
    bag = []

    def step(self):
        pass


class Netted(sagents.NetworkAgent):
    given = None
    speed = 3
    bag = []

    def step(self):
        pass


PLAIN = [type(f"Plain{i}", (Basic,), {}) for i in range(6)]
NET = [type(f"Net{i}", (Netted,), {}) for i in range(6)]


class Extreme(random.Random):
    """Gives values at the very ends of the range, at random points."""

    def start(self, seed, ctx):
        self.seed(seed)
        self.faults = random.Random(f"extreme {seed}")
        self.ctx = ctx

    def random(self):
        r = super().random()
        f = getattr(self, "faults", None)
        if f is not None and f.random() < 0.4:
            v = f.choice([0.0, 1 - 2 ** -53, 2 ** -53, 0.5, 0.25, 1 / 3, 2 / 3])
            self.ctx.fault(f"draw {v:.17g}")
            return v
        return r


CTX = None


class _Model:
    def __init__(self, *a, plan=None, **kw):
        self.plan = plan
        if plan["extreme"]:
            r = Extreme()
            r.start(plan["env_seed"], CTX)
            self.random = r
        super().__init__(*a, **kw)


class ModelB(_Model, BaseEnvironment):
    pass


class ModelE(_Model, Environment):
    pass


def bound(c, n, p):
    """Minus the logarithm of a bound of the probability of getting c or something farther out of n."""
    if p <= 0:
        return math.inf if c else 0.0
    if p >= 1:
        return math.inf if c < n else 0.0
    f = c / n
    out = 0.0
    if f > 0:
        out += f * math.log(f / p)
    if f < 1:
        out += (1 - f) * math.log((1 - f) / (1 - p))
    return n * max(0.0, out)


def run(sc, ctx):
    global CTX
    CTX = ctx
    how, k, m = sc["how"], sc["k"], len(sc["types"])
    net = how in ("populate", "param")
    pool = NET if net else PLAIN
    classes = [pool[i] for i in sc["types"]]
    base = ModelE if net or sc["base"] == "Environment" else ModelB
    weights = sc["weights"]
    given = {"given": "this"} if sc["given"] else {}
    asked, model = sc.get("speed", [None, "absent"])
    if asked is not None:
        given["speed"] = asked
    if how == "param":
        given = {}
    # The values given to the agents come first, then those of the model, then the defaults of the type
    speed = given.get("speed", 3 if model in ("absent", None) else model)
    p = {}
    for c, w in zip(classes, weights or [1] * m):
        p[c] = p.get(c, 0) + w
    total = sum(p.values())
    p = {c: w / total for c, w in p.items()}
    arg = list(classes) if sc["as"] == "list" else tuple(classes)
    if sc["single"] and m == 1:
        arg = classes[0]
    w = None if weights is None else (list(weights) if sc["as"] == "list" else tuple(weights))
    counts = {c: 0 for c in p}
    place = [dict(counts) for _ in range(min(k, 5))]
    drawn = 0
    envs = 0
    for n in range(sc["envs"]):
        seed = f"{sc['seed']}-{n}"
        opts = {"seed": seed, "plan": {"extreme": sc["extreme"], "env_seed": seed}}
        before = []
        if model != "absent":
            opts["speed"] = model
        if net:
            opts["topology"] = nx.path_graph(k + (sc["before"] if how == "populate" else 0))
            if sc.get("labelled"):
                # The attributes of the nodes are not those of the agents
                for v in list(opts["topology"])[::2]:
                    opts["topology"].nodes[v]["given"] = "that"
        if how == "param":
            opts["agent_class"] = arg
        if how == "agents":
            opts["agents"] = dict(agent_classes=arg, k=k, weights=w, **given)
        env = base(**opts)
        if how == "populate":
            before = [env.add_agent(Netted) for _ in range(sc["before"])]
        if sc["late"] and how in ("add", "populate"):
            if not env.schedule.agents:
                before.append(env.add_agent(Basic))
            env.step()
        rounds = sc["rounds"] if how == "add" else 1
        for _ in range(rounds):
            if how == "add":
                r = env.add_agents(arg, k=k, weights=w, **given)
            elif how == "populate":
                r = env.populate_network(arg, weights=w, **given)
        envs += 1
        new = [a for a in env.schedule.agents if not any(a is b for b in before)]
        ctx.check(len(new) == k * rounds, "C26", "number", lambda: f"{len(new)} agents were created instead of {k * rounds}")
        for i, a in enumerate(new):
            c = type(a)
            ctx.check(p.get(c, 0) > 0, "C26", "zero-weight", lambda: f"an agent of type {c.__name__} was created, out of {[(x.__name__, q) for x, q in p.items()]}")
            counts[c] += 1
            drawn += 1
            if i % k < len(place):
                place[i % k][c] += 1
            ctx.check(a.given == given.get("given"), "C26", "attributes", lambda: f"an agent was given {a.given!r} instead of {given}")
            ctx.check(a.speed == speed and type(a.speed) is type(speed), "C26", "attributes", lambda: f"an agent of a model with speed {model!r} was created with {given}, and its speed is {a.speed!r} instead of {speed!r}")
            ctx.check(a.bag == [], "C26", "attributes", lambda: f"an agent was created with {a.bag}, out of an empty default")
            if n % 2 and i < 3:
                a.bag.append(i)
        ctx.event(seed, [type(a).__name__ for a in new])
        if not sc["extreme"]:
            for c in p:
                got = sum(type(a) is c for a in new)
                ctx.check(bound(got, len(new), p[c]) < LIMIT, "C26", "proportion", lambda: f"{got} agents out of {len(new)} are of type {c.__name__}, with proportion {p[c]}")
    if not sc["extreme"]:
        n = drawn
        for c, got in counts.items():
            ctx.check(bound(got, n, p[c]) < LIMIT, "C26", "proportion", lambda: f"{got} agents out of {n} are of type {c.__name__}, with proportion {p[c]}")
        for i, cs in enumerate(place):
            n = sum(cs.values())
            for c, got in cs.items():
                ctx.check(bound(got, n, p[c]) < LIMIT, "C26", "proportion", lambda: f"agent number {i} was of type {c.__name__} {got} times out of {n}, with proportion {p[c]}")
    ctx.sim_time += envs
    ctx.count("agents created", drawn)
    ctx.count("how " + how)
    ctx.nontrivial = len(p) > 1 and len(set(p.values())) > 1
