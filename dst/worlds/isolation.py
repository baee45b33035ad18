"""The same iterations and configurations run alone, together, and in another order. Decides C12."""
import copy
import json
import logging
import os

import networkx as nx

import soil.agents as sagents
import soil.simulation as ssim
from soil.environment import Environment

from .. import scratch
from . import repro

RULE = "random stochastic simulations whose agents modify their networks, defaults, reporters and populations, run with more iterations, one configuration at a time, reordered, after others, and with the same objects; non-trivial: at least two configurations or iterations, and two variants"
COMPONENTS = {"real": ["soil.simulation", "soil.environment", "soil.agents", "soil.time", "soil.network", "soil.datacollection", "soil.exporters", "mesa", "networkx", "pandas"],
              "stub": ["wall clock", "global random generators", "scratch disk"]}
ASSUMPTIONS = ["the user's own model does not modify in place the values it gets as parameters, nor class attributes of its own, nor global variables"]
BUDGET = 10000000
VARIANTS = ["more", "alone", "reversed", "twice", "override", "others", "copy", "after-failure", "fewer"]


def gen(rng, prop, idx):
    agents = [{"kind": rng.choice(["hoarder", "hoarder", "child", "made", "fsm", "net", "net", "walker", "mail"]), "every": rng.choice([1, 1, 2, 0.5])} for _ in range(rng.randint(2, 7))]
    return {"agents": agents, "net": rng.choice(["graph", "graph", "strings", "digraph", "node_link", "file", None, ["erdos_renyi_graph", {"n": 6, "p": 0.4}]]), "nodes": rng.randint(3, 7),
            "sched": rng.choice(list(repro.SCHEDS)), "iterations": rng.choice([1, 2, 2, 3]), "model_seed": rng.choice(["a", "b", 5]), "max_steps": rng.choice([2, 4, 7]),
            "populate": rng.random() < 0.5, "matrix": rng.choice([[], [1, 2], ["x", "y", "z"], [0, None, 3]]), "births": rng.choice([0, 0.1, 0.2]), "deaths": rng.choice([0, 0.05, 0.2]),
            "matrix2": rng.choice([[], [], [10, 20]]), "graph_in": rng.choice(["parameters", "parameters", "matrix", "matrix", "blueprint"]), "reporters_in": rng.choice(["both", "simulation", "parameters", "matrix", "none"]),
            "extra_reporter": rng.choice([None, None, 1, 2]), "tables": rng.random() < 0.5, "model_reports": rng.random() < 0.5,
            "variants": rng.sample(VARIANTS, rng.choice([3, 4])), "default": rng.choice([[], [1], {"k": [0]}, {"a": {}}])}


class Hoarder(repro.Common, sagents.BaseAgent):
    """Its defaults are modified in place by each agent."""
    memory = []
    nested = {"deep": {"list": []}, "n": 0}
    seen = set()
    defaults = {"bag": [], "level2": {"x": []}}

    def step(self):
        me = self.unique_id
        self.memory.append(me)
        self.nested["deep"]["list"].append(me)
        self.nested["n"] += 1
        self.seen.add(me)
        self.bag.append(me)
        self.level2["x"].append(me)
        repro.note("hoard", me, list(self.memory), self.nested["n"], sorted(self.seen), list(self.bag), list(self.level2["x"]), list(self.nested["deep"]["list"]))
        if not self.act():
            return float("inf")
        return self.pause()


class Child(Hoarder):
    """Inherits them."""
    own = []

    def step(self):
        self.own.append(self.unique_id)
        repro.note("own", self.unique_id, list(self.own))
        return super().step()


Made = Child.w(own=[], nested={"deep": {"list": []}, "n": 10})
CLS = dict(repro.CLS, hoarder=Hoarder, child=Child, made=Made)
FAIL = False


class Broken(Exception):
    pass


def reporter_x(a):
    return getattr(a, "x", None)


def model_level(m):
    return m.schedule.get_agent_count() * 2


class Isolated(Environment):
    births = deaths = 0
    spec = None
    knob = None
    knob2 = None
    blueprint = None

    def init(self):
        sp = self.spec
        if self.blueprint is not None:
            # The model creates its network from one of its own parameters
            self.create_network(self.blueprint)
        repro.note("init", repr(self.knob), repr(self.knob2), self.id, round(self.random.random(), 12), [str(n) for n in self.G.nodes], sorted([str(x) for x in e] for e in self.G.edges),
                   [str(n) for n, d in self.G.nodes(data=True) if "agent" in d or "mark" in d], sorted(self.datacollector.model_reporters), sorted(self.datacollector.agent_reporters))
        for a in sp["agents"]:
            self.add_agent(CLS[a["kind"]], every=a["every"])
        if len(self.G) and sp["populate"] and any("agent" not in d for _, d in self.G.nodes(data=True)):
            self.populate_network([repro.Net])
        if sp["extra_reporter"] and (sp["extra_reporter"] == 1 or self.knob in (1, "x", 0)):
            # Only some of the configurations have it
            self.add_agent_reporter(f"extra {self.knob}", lambda a: a.unique_id)
            self.add_model_reporter(f"extra {self.knob}", lambda m: 1)
        for n in self.G:
            self.G.nodes[n]["mark"] = self.id
        for e in self.G.edges:
            self.G.edges[e]["mark"] = self.id
        if len(self.G) > 1:
            self.G.add_node(f"made by {self.id}", mark=1)
        self.G.graph["owner"] = self.id

    def step(self):
        super().step()
        if FAIL and self.schedule.steps >= 2:
            raise Broken()


class Reporting(Isolated):
    @property
    def twice(self):
        return self.schedule.get_agent_count() * 2


class World:
    def __init__(self, sc, base):
        self.sc = sc
        self.base = base
        self.fixed = {}
        n = sc["nodes"]
        kind = sc["net"]
        if kind in ("graph", "strings", "digraph"):
            g = nx.path_graph(n, create_using=nx.DiGraph if kind == "digraph" else nx.Graph)
            if kind == "strings":
                g = nx.relabel_nodes(g, {i: f"n{i}" for i in range(n)})
            g.graph["title"] = "mine"
            for x in g:
                g.nodes[x]["color"] = "red"
            self.graph = g
            self.net = {"topology": g}
        elif kind == "node_link":
            self.graph = None
            self.net = {"topology": nx.node_link_data(nx.cycle_graph(n))}
        elif kind == "file":
            self.graph = None
            p = os.path.join(base, f"net{n}.graphml")
            nx.write_graphml(nx.cycle_graph(n), p)
            self.net = {"topology": p}
        elif isinstance(kind, list):
            self.graph = None
            self.net = {"network_generator": kind[0], "network_params": dict(kind[1])}
        else:
            self.graph = None
            self.net = {}
        self.model_reporters = {"double": model_level}
        self.agent_reporters = {"x": reporter_x}
        self.tables = {"log": ["a", "b"]} if sc["tables"] else {}
        self.spec = {k: copy.deepcopy(sc[k]) for k in ("agents", "populate", "extra_reporter")}
        self.parameters = dict(spec=self.spec, births=sc["births"], deaths=sc["deaths"], schedule_class=repro.SCHEDS[sc["sched"]])
        self.matrix = {}
        if sc["matrix"]:
            self.matrix["knob"] = list(sc["matrix"])
        if sc["matrix2"]:
            self.matrix["knob2"] = list(sc["matrix2"])
        if sc["graph_in"] == "matrix" and "topology" in self.net:
            self.matrix["topology"] = [self.net["topology"]]
        elif sc["graph_in"] == "blueprint" and "topology" in self.net:
            self.parameters["blueprint"] = self.net["topology"]
        else:
            self.parameters.update(self.net)
        where = sc["reporters_in"]
        self.sim_reporters = {}
        if where == "simulation":
            self.sim_reporters = dict(model_reporters=self.model_reporters, agent_reporters=self.agent_reporters)
        elif where == "parameters":
            self.parameters.update(model_reporters=self.model_reporters, agent_reporters=self.agent_reporters)
        elif where == "matrix" and sc["matrix"]:
            # Only one of the configurations has reporters
            self.matrix["agent_reporters"] = [self.agent_reporters, {}]
        elif where == "both":
            self.sim_reporters = dict(model_reporters={"other": model_level}, agent_reporters={"y": reporter_x})
            if sc["matrix"]:
                self.matrix["agent_reporters"] = [self.agent_reporters, {}]
                self.parameters["model_reporters"] = self.model_reporters
            else:
                self.parameters.update(model_reporters=self.model_reporters, agent_reporters=self.agent_reporters)

    def user_objects(self):
        """Everything the user gave, as text."""
        g = self.graph
        return {
            "network": None if g is None else (dict(g.graph), [(n, sorted(d)) for n, d in g.nodes(data=True)], [(a, b, sorted(d)) for a, b, d in g.edges(data=True)]),
            "sim_reporters": repr({k: list(v) for k, v in self.sim_reporters.items()}), "model_reporters": list(self.model_reporters.items()), "agent_reporters": list(self.agent_reporters.items()), "tables": repr(self.tables), "spec": repr(self.spec),
            "parameters": [(k, v if isinstance(v, (int, float, str)) else id(v)) for k, v in self.parameters.items()], "matrix": [(k, len(v), [id(x) for x in v]) for k, v in self.matrix.items()],
            "net": repr(self.net if g is None else ""),
            "defaults": [repr(sorted(getattr(c, "_defaults", {}).items(), key=str)) for c in (Hoarder, Child, Made)],
            "class": [repr(sorted((k, repr(v)) for k, v in vars(c).items() if isinstance(v, (list, dict, set, int, float, str)) and k[:2] != "__" and k != "_abc_impl" and k[:4] != "_abc")) for c in (Isolated, Reporting)],
        }

    def kwargs(self, **over):
        sc = self.sc
        kw = dict(model=Reporting if sc["model_reports"] else Isolated, name="isolated", seed=sc["model_seed"], iterations=sc["iterations"], max_steps=sc["max_steps"], parameters=self.parameters,
                  matrix=self.matrix, exporters=[], dump=False, outdir=self.base, tables=self.tables, **self.sim_reporters)
        kw.update(over)
        return kw


def parts(sim, **over):
    """Runs a simulation. Returns what happened in each (configuration, iteration), in order."""
    repro.LOG = []
    envs = sim.run(**over)
    log, repro.LOG = repro.LOG, None
    res = []
    for ev in log:
        if ev[0] == "init":
            res.append([])
        res[-1].append(list(ev))
    out = {}
    for part, env in zip(res, envs):
        dc = env.datacollector
        part.append(["model", env.model_df().to_csv()])
        if dc.agent_reporters:
            part.append(["agents", env.agent_df().to_csv()])
        part.append(["network", [str(n) for n in env.G.nodes], [[str(a), str(b), sorted((k, str(v)) for k, v in d.items())] for a, b, d in env.G.edges(data=True)], repr(sorted(env.G.graph.items()))])
        part.append(["population", [a.unique_id for a in env.schedule.agents]])
        key = json.dumps([part[0][1], part[0][2], sorted(part[0][9]), env.id])
        n = 0
        while (key, n) in out:
            n += 1
        out[(key, n)] = json.loads(json.dumps(part, default=str))
    return out, envs


def run(sc, ctx):
    global FAIL
    base = scratch.new()
    lev = logging.getLogger("soil").level
    w = World(sc, base)
    before = copy.deepcopy(w.user_objects())
    try:
        first, envs = parts(ssim.Simulation(**w.kwargs()))
        for k, part in first.items():
            for ev in part:
                ctx.event(*ev)
        ctx.sim_time = float(len(first) * sc["max_steps"])
        untouched(ctx, w, before, "a run")
        separate(ctx, w, envs)
        for n, v in enumerate(sc["variants"]):
            ctx.fault("variant: " + v)
            strict = True
            if v == "more":
                got, _ = parts(ssim.Simulation(**w.kwargs(iterations=sc["iterations"] + 2)))
            elif v == "fewer":
                got, _ = parts(ssim.Simulation(**w.kwargs(iterations=1)))
                strict = False
            elif v == "alone":
                got = {}
                m = w.matrix
                names = list(m)
                combos = [{}]
                for k in names:
                    combos = [dict(c, **{k: [x]}) for c in combos for x in m[k]]
                for c in combos:
                    g, _ = parts(ssim.Simulation(**w.kwargs(matrix={k: list(x) for k, x in c.items()})))
                    for (k, i), part in g.items():
                        while (k, i) in got:
                            i += 1
                        got[(k, i)] = part
            elif v == "reversed":
                got, _ = parts(ssim.Simulation(**w.kwargs(matrix={k: list(reversed(x)) for k, x in w.matrix.items()})))
            elif v == "twice":
                sim = ssim.Simulation(**w.kwargs())
                state = settings(sim)
                got, _ = parts(sim)
                compare(ctx, first, got, v, strict)
                got, _ = parts(sim)
                ctx.check(settings(sim) == state, "C12", "simulation", lambda: f"the simulation changed from {state} to {settings(sim)} after running it")
            elif v == "override":
                sim = ssim.Simulation(**w.kwargs())
                state = settings(sim)
                parts(sim, iterations=1, seed="override", max_steps=1)
                ctx.check(settings(sim) == state, "C12", "simulation", lambda: f"the simulation changed from {state} to {settings(sim)} after running it with other options")
                got, _ = parts(sim)
            elif v == "others":
                other = World(dict(sc, seed="q", births=0.3, nodes=sc["nodes"] + 2, model_reports=not sc["model_reports"]), base)
                parts(ssim.Simulation(**other.kwargs(seed="zzz", iterations=2)))
                got, _ = parts(ssim.Simulation(**w.kwargs()))
            elif v == "copy":
                # New objects with the same contents
                w2 = World(sc, base)
                got, _ = parts(ssim.Simulation(**w2.kwargs()))
            elif v == "after-failure":
                FAIL = True
                try:
                    parts(ssim.Simulation(**w.kwargs()))
                except Broken:
                    ctx.fault("model that fails")
                finally:
                    FAIL = False
                got, _ = parts(ssim.Simulation(**w.kwargs()))
            compare(ctx, first, got, v, strict)
            untouched(ctx, w, before, f"variant {v}")
        ctx.nontrivial = len(first) >= 2 and len(sc["variants"]) >= 2
    finally:
        FAIL = False
        repro.LOG = None
        logging.getLogger("soil").setLevel(lev)


def settings(sim):
    return {k: (getattr(sim, k) if isinstance(getattr(sim, k), (int, str, float, type(None))) else id(getattr(sim, k))) for k in
            ("name", "seed", "iterations", "max_steps", "max_time", "dump", "dry_run", "group", "outdir", "parameters", "matrix", "model_reporters", "agent_reporters", "tables", "level")}


def compare(ctx, first, got, variant, strict):
    for k, part in first.items():
        if k not in got:
            ctx.check(not strict, "C12 C20", "missing", lambda: f"{variant}: no results for {k}; there are {list(got)}")
            continue
        for j, (x, y) in enumerate(zip(part, got[k])):
            ctx.check(x == y, "C12", "different", lambda: f"{variant}: configuration and iteration {k}, event {j}: {str(y)[:400]} instead of {str(x)[:400]}")
        ctx.check(len(part) == len(got[k]), "C12", "different", lambda: f"{variant}: {len(got[k])} events instead of {len(part)} in {k}")


def untouched(ctx, w, before, where):
    now = w.user_objects()
    for k, v in before.items():
        ctx.check(now[k] == v, "C12", "user-object", lambda: f"after {where}, the {k} of the user changed from {str(v)[:300]} to {str(now[k])[:300]}")


def separate(ctx, w, envs):
    """Nothing is shared between iterations or agents."""
    nets = [id(e.G) for e in envs]
    ctx.check(len(set(nets)) == len(nets) and (w.graph is None or id(w.graph) not in nets), "C12", "shared-network", "two iterations share the same network object")
    for e in envs:
        for n, d in e.G.nodes(data=True):
            a = d.get("agent")
            ctx.check(a is None or a.model is e, "C12", "shared-node", f"node {n!r} of an iteration has an agent of another one")
        for a in e.schedule.agents:
            if isinstance(a, Hoarder):
                own = set(a.memory) | set(a.nested["deep"]["list"]) | a.seen | set(a.bag) | set(a.level2["x"]) | set(getattr(a, "own", []))
                ctx.check(own <= {a.unique_id}, "C12", "shared-default", f"agent {a.unique_id} got {sorted(own)} in its own lists")
    seen = {}
    for n, e in enumerate(envs):
        for a in e.schedule.agents:
            if isinstance(a, Hoarder):
                for v in (a.memory, a.nested, a.nested["deep"], a.seen, a.bag, a.level2, a.level2["x"]):
                    ctx.check(id(v) not in seen, "C12", "shared-default", "two agents share the same default object")
                    seen[id(v)] = v


def cleanup():
    scratch.cleanup()
