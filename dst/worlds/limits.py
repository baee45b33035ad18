"""Runs with limits, from code, from files and from the command line. Decides C05."""
import functools
import os
import sys

import soil
import soil.agents as sagents
import soil.simulation as ssim
import soil.time as stime
from soil.environment import BaseEnvironment, Environment

from .. import scratch
from .sched import SCHEDS, INF

RULE = "random agents with finite or endless scripts, births, deaths and stops, with time and step limits given in code, files or command line; non-trivial: a limit cut the run when activations were still pending, or the run had to end by itself after three instants"
COMPONENTS = {"real": ["soil.simulation", "soil.__init__ (command line)", "soil.environment", "soil.time", "soil.agents", "soil.serialization", "mesa"],
              "stub": ["wall clock", "global random generators", "command line arguments", "exporters write to a scratch folder"]}
BUDGET = 5000000
ASSUMPTIONS = ["agents due at the same instant as the one that stops the model may or may not be activated",
               "step limits are counted in steps of the scheduler"]
HORIZON = 300


def gen(rng, prop, idx):
    delays = rng.choice([[1], [1, 2, 3], [0.5, 1, 2.25], [1, 7], [0.1, 0.3], [None, 2]])
    limits = {}
    mode = rng.choice(["time", "time", "steps", "steps", "both", "none", "stop"])
    if mode in ("time", "both"):
        limits["max_time"] = rng.choice([0, 0.5, 1, 2, 3, 4.5, 5, 7, 10, 12.25, 20])
    if mode in ("steps", "both"):
        limits["max_steps"] = rng.choice([0, 1, 2, 3, 5, 8, 13])
    agents = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4])):
        endless = rng.random() < 0.5 if limits else False
        script = [rng.choice(delays) for _ in range(rng.randint(0, 8))]
        end = "endless" if endless else rng.choice(["inf", "die", "inf", "die"])
        a = {"values": script, "end": end, "loop": rng.choice([d for d in delays if d] or [1])}
        if "max_steps" not in limits and rng.random() < 0.2 and script:
            a["birth"] = [rng.randrange(len(script)), {"values": [rng.choice(delays) for _ in range(rng.randint(0, 4))], "end": rng.choice(["inf", "die"]), "loop": 1}]
        if "max_steps" not in limits and rng.random() < 0.25:
            a["first"] = rng.choice([0.5, 1, 3, 6])
            if "birth" in a:
                a["birth"][1]["first"] = rng.choice([None, 1, 4])
        if rng.random() < 0.05:
            a = {"values": [], "end": "inf", "loop": 1, "first": INF}
        agents.append(a)
    stop = None
    if len(agents) > 1 and "max_steps" not in limits and not any("birth" in a for a in agents) and rng.random() < 0.3:
        agents[0]["kill"] = rng.randint(0, 5)
    if agents and (mode == "stop" or rng.random() < 0.1):
        stop = [rng.randrange(len(agents)), rng.randint(0, 5)]
    given = dict(limits)
    override = {}
    # Where each limit is given: in the simulation, or replaced later
    how = rng.choice(["sim", "sim", "run", "class", "module", "main_sim", "file", "file", "yaml", "cli", "cli", "cli_yaml"])
    if how in ("run", "file", "cli", "yaml", "cli_yaml", "main_sim"):
        for k in list(limits):
            r = rng.random()
            if r < 0.4:
                override[k] = given.pop(k)
            elif r < 0.7:
                override[k] = given[k]
                given[k] = rng.choice([1, 2, 6, 30])
    return {"agents": agents, "stop": stop, "limits": limits, "given": given, "override": override, "how": how,
            "sched": rng.choice(list(SCHEDS)), "iterations": rng.choice([1, 1, 1, 2, 3]), "interval": rng.choice([None, None, 2, 0.5]),
            "base": rng.choice(["BaseEnvironment", "Environment"]), "dump": rng.random() < 0.15, "cls": rng.choice(["plain", "gen"]),
            "twice": rng.random() < 0.15}


W = None


class Script(sagents.BaseAgent):
    def init(self):
        self.pos = 0

    def step(self):
        return W.turn(self)


class GenScript(sagents.BaseAgent):
    def init(self):
        self.pos = 0

    def step(self):
        while True:
            yield W.turn(self)


class _Mixin:
    def init(self):
        W.setup(self)


class LimitModel(_Mixin, BaseEnvironment):
    pass


class LimitModelE(_Mixin, Environment):
    pass


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.runs = []

    def setup(self, env):
        env._log = []
        env._labels = 0
        self.runs.append(env)
        for i, a in enumerate(self.sc["agents"]):
            self.spawn(env, a, str(i))

    def spawn(self, env, spec, label):
        cls = GenScript if self.sc["cls"] == "gen" else Script
        if spec.get("first"):
            a = cls(unique_id=env.next_id(), model=env)
            env.schedule.add(a, when=env.now + spec["first"])
        else:
            a = env.add_agent(cls)
        a._spec, a._label = spec, label
        return a

    def turn(self, agent):
        env = agent.model
        spec = agent._spec
        env._log.append((agent._label, agent.now))
        self.ctx.event("act", env.id, agent._label, agent.now)
        if len(env._log) > 4000:
            self.ctx.fail("C05", "endless", f"more than {len(env._log)} activations")
        stop = self.sc["stop"]
        n = agent.pos
        agent.pos += 1
        if stop and agent._label == str(stop[0]) and n == stop[1]:
            env.running = False
        if spec.get("kill") == n:
            for a in list(env.agents):
                if a._label == "1":
                    self.ctx.event("kill", env.id, agent.now)
                    self.ctx.count("killed")
                    a.die()
        b = spec.get("birth")
        if b and b[0] == n:
            self.spawn(env, b[1], agent._label + "b")
        if n < len(spec["values"]):
            return spec["values"][n]
        if spec["end"] == "endless":
            return spec["loop"]
        if spec["end"] == "die":
            return float(agent.die())
        return INF

    # ---------------------------------------------- reference

    def expected(self):
        """All the activations before the horizon, without limits: (label, time)."""
        out = []
        interval = self.sc["interval"] or 1

        def script(spec, label, t):
            n = 0
            while t < HORIZON and n < 3000:
                out.append((label, t, n))
                b = spec.get("birth")
                if b and b[0] == n:
                    script(b[1], label + "b", t + (b[1].get("first") or 0))
                if n < len(spec["values"]):
                    d = spec["values"][n]
                    t = t + (d if d is not None else interval)
                elif spec["end"] == "endless":
                    t = t + spec["loop"]
                else:
                    break
                n += 1

        for i, a in enumerate(self.sc["agents"]):
            script(a, str(i), a.get("first") or 0)
        return out

    def verdict(self, env):
        ctx, sc = self.ctx, self.sc
        lim = sc["limits"]
        exp = self.expected()
        must = {(l, t) for l, t, n in exp}
        may = set()
        cut = False
        kills = [t for l, t, n in exp if l == "0" and sc["agents"][0].get("kill") == n]
        if kills:
            may = {(l, t) for l, t in must if l == "1" and t == kills[0]}
            must = {(l, t) for l, t in must if l != "1" or t < kills[0]}
            exp = [(l, t, n) for l, t, n in exp if (l, t) in must or (l, t) in may]
        if sc["stop"]:
            ts = [t for l, t, n in exp if l == str(sc["stop"][0]) and n == sc["stop"][1]]
            if ts:
                cut = cut or any(t > ts[0] for _, t in must)
                maybe = (str(sc["stop"][0]), ts[0]) in may
                late = {(l, t) for l, t in must if t > ts[0]} if maybe else set()
                may = {(l, t) for l, t in must | may if t == ts[0]} | {x for x in may if x[1] < ts[0]} | late
                must = {(l, t) for l, t in must if t < ts[0]} | (set() if maybe else {(str(sc["stop"][0]), ts[0])})
                may -= must
        if "max_time" in lim:
            cut = cut or any(t >= lim["max_time"] for _, t in must)
            must = {(l, t) for l, t in must if t < lim["max_time"]}
            may = {(l, t) for l, t in may if t < lim["max_time"]}
        instants = sorted({t for _, t in must | may})
        if "max_steps" in lim:
            keep = set(instants[:lim["max_steps"]])
            cut = cut or len(keep) < len(instants)
            must = {(l, t) for l, t in must if t in keep}
            may = {(l, t) for l, t in may if t in keep}
        got = env._log
        gs = set(got)
        ctx.check(len(gs) == len(got), "C05", "repeated", lambda: f"repeated activations: {got}")
        late = sorted(gs - must - may, key=lambda x: x[1])
        ctx.check(not late, "C05", "beyond-limit", lambda: f"limits {lim}, stop {sc['stop']}: activations beyond the end: {late[:5]}")
        missing = sorted(must - gs, key=lambda x: x[1])
        ctx.check(not missing, "C05", "cut-short", lambda: f"limits {lim}, stop {sc['stop']}: the run ended before {missing[:5]}; it did {got[-5:]}")
        if "max_steps" in lim:
            ctx.check(env.schedule.steps <= lim["max_steps"], "C05", "steps", f"{env.schedule.steps} steps with a limit of {lim['max_steps']}")
        births = any("birth" in a or a.get("first") or "kill" in a for a in sc["agents"])
        if not births:
            done = sorted({t for _, t in gs})
            ctx.check(env.schedule.steps == len(done), "C05", "steps", f"{env.schedule.steps} steps to serve {len(done)} instants")
        if cut or len(instants) >= 3:
            ctx.nontrivial = True
        t = [x for _, x in got]
        ctx.sim_time += max(t) if t else 0
        ctx.count("limit reached" if cut else "ended by itself")


FILE = '''
from soil import Simulation
import dst.worlds.limits as L

class TheModel(L.{base}):
    {body}

{sim}
'''


def run(sc, ctx):
    global W
    W = w = World(sc, ctx)
    base = {"BaseEnvironment": LimitModel, "Environment": LimitModelE}[sc["base"]]
    attrs = {"schedule_class": SCHEDS[sc["sched"]]}
    if sc["interval"]:
        attrs["default_interval"] = sc["interval"]
    how = sc["how"]
    given, override = sc["given"], sc["override"]
    out = scratch.new()
    opts = dict(iterations=sc["iterations"], dump=sc["dump"], outdir=os.path.join(out, "out"), name="lim", **given)
    # Files find the model by name
    for b in (LimitModel, LimitModelE):
        for k in ("schedule_class", "default_interval"):
            if k in b.__dict__:
                delattr(b, k)
        for k, v in attrs.items():
            setattr(b, k, v)
    n = sc["iterations"]
    level = __import__("logging").getLogger("soil").level
    argv, path = sys.argv, list(sys.path)
    flags = []
    for k, v in override.items():
        flags += [f"--{k}", str(v)]
    if not sc["dump"]:
        flags.append("--no-dump")
    flags += ["-o", os.path.join(out, "out")]
    try:
        if how == "sim":
            envs = ssim.Simulation(model=base, **opts).run()
        elif how == "run":
            sim = ssim.Simulation(model=base, **opts)
            envs = sim.run(**override)
            if sc["twice"] and not override:
                envs = envs + sim.run()
        elif how == "class":
            envs = base.run(**opts)
        elif how == "module":
            envs = ssim.run(base, **opts)
        elif how == "main_sim":
            sys.argv = ["soil"] + flags
            envs = sum(soil.main(ssim.Simulation(model=base, **opts)), [])
        elif how in ("file", "cli"):
            pyfile = os.path.join(out, "sim_file.py")
            with open(pyfile, "w") as f:
                args = ", ".join(f"{k}={v!r}" for k, v in opts.items())
                f.write(FILE.format(base=base.__name__, body="pass", sim=f"sim = Simulation(model=TheModel, {args})"))
            if how == "file":
                envs = sum((s.run() for s in ssim.iter_from_file(pyfile, **override)), [])
            else:
                sys.argv = ["soil", pyfile] + flags
                envs = sum(soil.main(), [])
        else:
            yml = os.path.join(out, "sim_file.yml")
            with open(yml, "w") as f:
                f.write(f"model: dst.worlds.limits.{base.__name__}\n")
                for k, v in opts.items():
                    f.write(f"{k}: {str(v).lower() if isinstance(v, bool) else v}\n")
            if how == "yaml":
                envs = sum((s.run() for s in ssim.iter_from_file(yml, **override)), [])
            else:
                sys.argv = ["soil", yml] + flags
                envs = sum(soil.main(), [])
    finally:
        sys.argv = argv
        sys.path[:] = path
        __import__("logging").getLogger("soil").setLevel(level)
    total = n * 2 if (how == "run" and sc["twice"] and not override) else n
    ctx.check(len(envs) == total and len(w.runs) == total, "C05", "runs", f"{len(envs)} environments returned and {len(w.runs)} run, out of {total}")
    ctx.count("how " + how)
    for env in envs:
        w.verdict(env)


def cleanup():
    scratch.cleanup()
