"""The same simulation in different surroundings. Decides C11.

The trajectory of a seeded, stochastic simulation is recorded, and recorded again with
another hash seed and memory layout (in a helper process), wall clock, state of the
global random generators, log level, exporters, and things that ran before.
"""
import gc
import json
import logging
import os
import random
import subprocess
import sys

import networkx as nx
import numpy as np

import soil
import soil.agents as sagents
import soil.simulation as ssim
import soil.time as stime
from soil.environment import Environment
from soil.events import TimedOut
from soil.exporters import Exporter

from .. import scratch, seams

RULE = "random stochastic simulations (networks, state machines, generators, coroutines, messages, births, deaths), each repeated under four to six perturbations of its surroundings; non-trivial: at least 20 random choices and two of the kinds of agents"
COMPONENTS = {"real": ["soil.simulation", "soil.environment", "soil.agents", "soil.time", "soil.network", "soil.datacollection", "soil.exporters", "mesa", "networkx", "pandas"],
              "stub": ["wall clock (perturbed)", "global random generators (perturbed)", "hash seed (helper processes with another one)", "scratch disk"]}
ASSUMPTIONS = ["the user's model takes every random choice from the model's generator, directly or through its agents",
               "identifiers that carry the wall clock (of the simulation) are not part of the trajectory"]
BUDGET = 10000000
KINDS = ["walker", "fsm", "gen", "coro", "mail", "net", "net", "fsm", "asker", "asker"]
SCHEDS = {n: getattr(stime, n) for n in ("PQueueActivation", "TimedActivation", "ShuffledTimedActivation", "OrderedTimedActivation") if hasattr(stime, n)}
NETS = [None, "path", "strings", "tuples", ["erdos_renyi_graph", {"n": 6, "p": 0.4}], ["barabasi_albert_graph", {"n": 7, "m": 2}], ["watts_strogatz_graph", {"n": 6, "k": 2, "p": 0.5}],
        ["newman_watts_strogatz_graph", {"n": 6, "k": 2, "p": 0.4}], ["complete_graph", {"n": 4}]]
PERTURB = ["again", "hash", "hash", "clock", "global", "level", "exporters", "prior", "garbage", "fresh", "hash", "cli"]


def gen(rng, prop, idx):
    agents = [{"kind": rng.choice(KINDS), "every": rng.choice([0.5, 1, 1, 1, 2])} for _ in range(rng.randint(2, 8))]

    def perturb(p):
        d = {"what": p}
        if p == "hash":
            d["hash"] = 1 + (idx // 25) % 5
        if p in ("clock", "prior"):
            d["clock"] = rng.choice(["frozen", "back", "jump", "tick"])
            d["start"] = rng.choice([1.0, 1700000000.0, 1e9, 4e9])
        if p in ("exporters", "prior"):
            d["exporters"] = rng.sample(["default", "SQLite", "csv", "summary", "gexf", "dummy", "YAML"], rng.choice([1, 2, 3]))
            d["dump"] = rng.random() < 0.7
        if p in ("global", "prior", "hash"):
            d["global"] = rng.randrange(1000)
        if p == "level":
            d["level"] = rng.choice([10, 10, 30, 50])
        if p == "garbage":
            d["garbage"] = rng.randrange(1, 5000)
        return d

    return {"agents": agents, "net": rng.choice(NETS), "nodes": rng.randint(3, 7), "sched": rng.choice(list(SCHEDS)), "iterations": rng.choice([1, 2, 2, 3]), "model_seed": rng.choice(["a", "default", "long seed ñ", 7, 0, 3.5]),
            "max_steps": rng.choice([3, 6, 10]), "populate": rng.random() < 0.5, "matrix": rng.choice([[], [], [1, 2], ["x", "y"]]), "births": rng.choice([0, 0.1, 0.2]), "deaths": rng.choice([0, 0.05, 0.1]),
            "weights": rng.choice([None, [1, 2], [0.1, 0.9]]), "perturb": [perturb(p) for p in rng.sample(PERTURB, rng.choice([4, 5]))], "reporters": rng.random() < 0.6,
            "by_node": rng.choice([0, 0, 1, 2, 3]), **({"iterations": rng.choice([11, 12, 25]), "max_steps": 2, "matrix": []} if rng.random() < 0.06 else {})}


LOG = None


def note(*ev):
    LOG.append(ev)


class Common:
    every = 1

    def act(self, *more):
        m = self.model
        r = self.random.random()
        note("act", self.unique_id, m.now, round(r, 12), self.get("state_id", None) or "", *more)
        if m.births and m.random.random() < m.births and m.schedule.get_agent_count() < 14:
            if m.spec.get("by_node") and m.random.random() < 0.5:
                a = m.add_node(m.random.choice([Net, Net2]))
                note("node", str(a.node_id))
            else:
                a = m.add_agent(m.random.choice([Walker, Net, Mail]))
            note("birth", a.unique_id)
        if m.deaths and self.prob(m.deaths) and m.schedule.get_agent_count() > 2:
            note("death", self.unique_id)
            self.die()
            return False
        return True

    def pause(self):
        return self.every * self.random.choice([1, 1, 2, 0.5])


class Walker(Common, sagents.BaseAgent):
    x = 0

    def step(self):
        others = [a.unique_id for a in self.get_agents()]
        self.x = self.random.choice(others)
        if not self.act(tuple(others), self.x):
            return float("inf")
        return self.pause()


class Fsm(Common, sagents.FSM):
    @sagents.state(default=True)
    def calm(self):
        if not self.act():
            return None
        if self.prob(0.5):
            return self.angry

    @sagents.state
    def angry(self):
        if not self.act():
            return None
        if self.prob(0.3):
            return "calm", self.pause()
        if self.prob(0.2):
            return self.wild.delay(2)

    @sagents.state
    def wild(self):
        self.act()
        yield 1
        self.act("wild")
        return self.calm


class Gen(Common, sagents.BaseAgent):
    def step(self):
        total = 0
        while True:
            total += self.random.randint(0, 9)
            if not self.act(total):
                return
            yield self.pause()


class Coro(Common, sagents.BaseAgent):
    async def step(self):
        for k in range(3):
            if not self.act(k):
                return
            await self.delay(self.pause())


class Asker(Common, sagents.EventedAgent):
    """Asks whoever reads its messages, and waits for what they say."""

    async def step(self):
        while True:
            mates = list(self.model.get_agents(agent_class=Mail))
            if mates:
                mate = self.random.choice(mates)
                try:
                    reply = await mate.ask((self.unique_id, self.random.randint(0, 99)), timeout=self.random.choice([0, 2, 5]), delay=0.5)
                    note("reply", self.unique_id, self.model.now, reply)
                except TimedOut:
                    note("no reply", self.unique_id, self.model.now)
            if not self.act(len(mates)):
                return
            await self.delay(self.pause())


class Mail(Common, sagents.EventedAgent):
    def step(self):
        if self.prob(0.4):
            self.process_messages()
        mates = list(self.model.get_agents(agent_class=sagents.EventedAgent))
        if mates:
            self.random.choice(mates).tell(self.random.randint(0, 99), sender=self)
        if self.prob(0.3):
            self.model.broadcast(("all", self.random.randint(0, 99)), sender=self)
        if not self.act(len(mates)):
            return float("inf")
        return self.pause()

    def on_receive(self, msg, sender=None):
        note("got", self.unique_id, self.model.now, msg, getattr(sender, "unique_id", None), round(self.random.random(), 12))
        return self.random.randint(1, 99)


class Net(Common, sagents.Agent):
    friends = 0

    @sagents.state(default=True)
    def alone(self):
        near = [a.unique_id for a in self.get_neighbors()]
        others = [a for a in self.iter_agents(agent_class=Net) if a is not self]
        if others and self.prob(0.5):
            other = self.random.choice(others)
            self.add_edge(other, weight=self.random.randint(1, 5))
            self.friends += 1
        if not self.act(tuple(near), str(self.node_id)):
            return None
        if near:
            return self.social, self.pause()

    @sagents.state
    def social(self):
        near = [a.unique_id for a in self.get_neighbors(state_id="social")]
        self.process_messages()
        if not self.act(tuple(near)):
            return None
        if not near:
            return "alone"
        self.model.agent(self.random.choice(near)).tell("hello", sender=self)

    def on_receive(self, msg, sender=None):
        note("got", self.unique_id, str(msg), getattr(sender, "unique_id", None))


CLS = {"walker": Walker, "fsm": Fsm, "gen": Gen, "coro": Coro, "mail": Mail, "net": Net, "asker": Asker}


class Repro(Environment):
    births = deaths = 0
    spec = None
    knob = None

    def init(self):
        note("init", [round(self.random.random(), 12) for _ in range(2)], [str(n) for n in self.G.nodes], [[str(x) for x in e] for e in self.G.edges])
        for a in self.spec["agents"]:
            self.add_agent(CLS[a["kind"]], every=a["every"])
        if self.spec.get("by_node"):
            note("nodes", [str(self.add_node(self.random.choice([Net, Net2])).node_id) for _ in range(self.spec["by_node"])])
        if len(self.G) and self.spec["populate"]:
            if any("agent" not in d for _, d in self.G.nodes(data=True)):
                self.populate_network([Net, Net2], weights=self.spec["weights"])
        if self.spec["weights"]:
            self.add_agents([Walker, Mail], k=3, weights=self.spec["weights"])
        if self.spec["reporters"]:
            self.add_agent_reporter("state_id")
            self.add_agent_reporter("friends", agent_type=Net)
            self.add_model_reporter("edges", lambda m: m.G.number_of_edges())
            self.add_model_reporter("luck", lambda m: round(m.random.random(), 12))


class Net2(Net):
    pass


class Identify(Exporter):
    """Records how each configuration is identified."""

    def iteration_end(self, env, params, params_id, *args, **kwargs):
        IDS.append(params_id)


IDS = []


def topology(sc):
    n = sc["nodes"]
    if sc["net"] == "path":
        return {"topology": nx.path_graph(n)}
    if sc["net"] == "strings":
        g = nx.cycle_graph(n)
        return {"topology": nx.relabel_nodes(g, {i: f"node {i * 7919 % 101}" for i in range(n)})}
    if sc["net"] == "tuples":
        g = nx.star_graph(n)
        return {"topology": nx.relabel_nodes(g, {i: (str(i), i) for i in g})}
    if isinstance(sc["net"], list):
        return {"network_generator": sc["net"][0], "network_params": dict(sc["net"][1])}
    return {}


def trajectory(sc, p, out, seed=None):
    """Runs the simulation and returns, for each iteration, everything that can be observed."""
    global LOG
    LOG = []
    del IDS[:]
    what = p.get("what")
    kw = dict(
        model=Repro, name="repro", seed=sc["model_seed"] if seed is None else seed, iterations=sc["iterations"], max_steps=sc["max_steps"],
        parameters=dict(spec={k: sc[k] for k in ("agents", "populate", "weights", "reporters", "by_node")}, births=sc["births"], deaths=sc["deaths"], schedule_class=SCHEDS[sc["sched"]], **topology(sc)),
        matrix={"knob": sc["matrix"]} if sc["matrix"] else {}, exporters=[Identify] + p.get("exporters", []), dump=p.get("dump", False), outdir=out, level=p.get("level", logging.INFO))
    if what == "cli" and isinstance(kw["seed"], str):
        # The same seed, given in the command line
        argv = sys.argv
        sys.argv = ["soil", "--seed", kw["seed"], "--no-dump", "-o", out]
        try:
            envs = soil.main(ssim.Simulation(**dict(kw, seed="not this one")), exporters=[Identify])[0]
        finally:
            sys.argv = argv
    else:
        envs = ssim.Simulation(**kw).run()
    log, LOG = LOG, None
    res = []
    part = []
    for ev in log:
        if ev[0] == "init" and part:
            res.append(part)
            part = []
        part.append(ev)
    res.append(part)
    res = [[list(ev) for ev in part] for part in res]
    for part, env in zip(res, envs):
        dc = env.datacollector
        part.append(["model", env.model_df().to_csv()])
        if dc.agent_reporters:
            part.append(["agents", env.agent_df().to_csv()])
        part.append(["network", [str(n) for n in env.G.nodes], [[str(a), str(b), sorted((k, str(v)) for k, v in d.items())] for a, b, d in env.G.edges(data=True)]])
        part.append(["population", [a.unique_id for a in env.schedule.agents]])
    if "topology" not in kw["parameters"]:
        # A graph is identified by its address
        for part, i in zip(res, IDS):
            part.append(["configuration", i])
    return json.loads(json.dumps(res, default=str))


# ------------------------------------------------------------------ helper processes

_helpers = {}


def serve():
    """The helper: runs trajectories with its own hash seed, as told through its standard input."""
    inp, outp = os.fdopen(os.dup(0), "r"), os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    # Memory is not laid out as in the main process
    junk = [bytearray(i % 977) for i in range(20000)]
    del junk[::2]
    for line in inp:
        q = json.loads(line)
        out = scratch.new()
        sys.stdout, sys.stderr = open(os.devnull, "w"), open(os.devnull, "w")
        try:
            perturb_globals(q["p"])
            res = {"ok": trajectory(q["sc"], q["p"], out)}
        except BaseException as ex:  # noqa: B902
            res = {"error": repr(ex)}
        scratch.cleanup()
        outp.write(json.dumps(res) + "\n")
        outp.flush()


def helper(seed):
    # One at a time for each process
    key = (os.getpid(), seed)
    if key not in _helpers:
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env = dict(os.environ, DST_HASHSEED=str(seed))
        env.pop("DST_BOOT", None)
        _helpers[key] = subprocess.Popen([sys.executable, os.path.join(here, "check.py"), "--serve", "repro"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, close_fds=True)
    return _helpers[key]


def elsewhere(sc, p):
    h = helper(p["hash"])
    h.stdin.write(json.dumps({"sc": sc, "p": p}) + "\n")
    h.stdin.flush()
    line = h.stdout.readline()
    if not line:
        raise RuntimeError("the helper process died")
    res = json.loads(line)
    if "error" in res:
        return res["error"]
    return res["ok"]


# ------------------------------------------------------------------ run

def perturb_globals(p):
    if "global" in p:
        random.seed(p["global"])
        np.random.seed(p["global"])
        for _ in range(p["global"] % 7):
            random.random()
    if "clock" in p:
        seams.CLOCK.reset(now=p["start"], mode=p["clock"], rng=random.Random(1))


def run(sc, ctx):
    base = scratch.new()
    lev = logging.getLogger("soil").level
    try:
        first = trajectory(sc, {}, os.path.join(base, "first"))
        draws = sum(len(part) for part in first)
        total = sc["iterations"] * max(1, len(sc["matrix"]))
        ctx.check(len(first) == total, "C11 C20", "iterations", f"{len(first)} iterations instead of {total}")
        for part in first:
            for ev in part:
                ctx.event(*ev)
        ctx.sim_time = float(total * sc["max_steps"])
        # Different iterations make different choices
        for i in range(0, total, sc["iterations"]):
            inits = [json.dumps(part[0][1]) for part in first[i:i + sc["iterations"]]]
            ctx.check(len(set(inits)) == len(inits), "C11", "same-choices", f"the first random numbers of the iterations are {inits}")
        for n, p in enumerate(sc["perturb"]):
            out = os.path.join(base, f"p{n}")
            ctx.fault("perturbation: " + p["what"])
            keep = None
            if p["what"] == "hash":
                got = elsewhere(sc, p)
                if isinstance(got, str):
                    ctx.fail("C11", "different", f"it ends with {got} in a process with another hash seed")
            elif p["what"] == "fresh":
                # Another seed does make a difference
                other = trajectory(sc, p, out, seed="another seed")
                ctx.check(other[0][0][1] != first[0][0][1], "C11", "same-choices", f"the first random numbers are {first[0][0][1]} with two seeds")
                continue
            else:
                perturb_globals(p)
                if "garbage" in p:
                    keep = [object() for _ in range(p["garbage"])]
                    del keep[::3]
                    gc.collect()
                if p["what"] == "prior":
                    other = dict(sc, model_seed="prior", agents=list(reversed(sc["agents"])), births=0.2, max_steps=2)
                    trajectory(other, p, out + "-prior")
                got = trajectory(sc, p, out)
            compare(ctx, first, got, p)
            seams.CLOCK.reset()
        kinds = {a["kind"] for a in sc["agents"]}
        ctx.nontrivial = draws >= 20 and len(kinds) >= 2
    finally:
        seams.CLOCK.reset()
        logging.getLogger("soil").setLevel(lev)


def compare(ctx, first, got, p):
    ctx.check(len(first) == len(got), "C11", "different", f"{len(got)} iterations instead of {len(first)} with {p}")
    for i, (a, b) in enumerate(zip(first, got)):
        for j, (x, y) in enumerate(zip(a, b)):
            ctx.check(x == y, "C11", "different", lambda: f"iteration {i}, event {j}: {str(y)[:400]} instead of {str(x)[:400]} with {p}")
        ctx.check(len(a) == len(b), "C11", "different", lambda: f"iteration {i}: {len(b)} events instead of {len(a)} with {p}")


def cleanup():
    scratch.cleanup()
