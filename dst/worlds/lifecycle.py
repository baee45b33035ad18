"""Simulations with parameters, matrices and exporters. Decides C20."""
import os
import sys

import soil
import soil.agents as sagents
import soil.simulation as ssim
from soil.environment import BaseEnvironment, Environment
from soil.exporters import Exporter

from .. import scratch

RULE = "random fixed parameters, matrices, iterations, exporters and ways to start the run, one or more runs per process; non-trivial: at least two different combinations or two iterations"
COMPONENTS = {"real": ["soil.simulation", "soil.exporters", "soil.serialization", "soil.__init__ (command line)", "soil.environment", "soil.utils", "mesa"],
              "stub": ["wall clock", "global random generators", "command line arguments", "recording exporters"]}
BUDGET = 5000000
ASSUMPTIONS = ["the values of a matrix are different from each other, and each list has at least one",
               "two different sets of parameters may get the same identifier by chance, once"]

VALUES = [0, 1, 2, -5, 0.5, "a", "b", "", None, True, [1, 2], [], {"k": 1}, {"k": {"z": [3]}}, {"a": 1, "b": [{"x": 1, "y": 2}], "c": {"d": 1, "e": 2}}, "long string " * 3,
          "1", "0", "True", "None", "0.5", "[1, 2]", {"k": "1"}, ["1", "2"], "é", "a" * 60 + "x", "a" * 60 + "y",
          {"set": [0, 8, 16]}, {"set": [8, 0]}, {"k": [{"set": [3, 11, 19]}]}, {"set": ["a", "b", "c"]}, {"set": []}]


def canon(v):
    """The same text for equal values."""
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k!r}: {canon(v[k])}" for k in sorted(v)) + "}"
    if isinstance(v, set):
        return "set(" + ", ".join(sorted(canon(i) for i in v)) + ")"
    if isinstance(v, list):
        return "[" + ", ".join(canon(i) for i in v) + "]"
    return repr(v)


def decode(v):
    """There are no sets in JSON."""
    if isinstance(v, dict):
        return set(v["set"]) if set(v) == {"set"} else {k: decode(x) for k, x in v.items()}
    return [decode(i) for i in v] if isinstance(v, list) else v


def backwards(v):
    if isinstance(v, dict):
        return {k: backwards(v[k]) for k in reversed(list(v))}
    if isinstance(v, list):
        return [backwards(i) for i in v]
    return v


def twin(v, rng):
    """Almost the same value."""
    if isinstance(v, dict):
        return {k: twin(v[k], rng) for k in v}
    if isinstance(v, list) and v:
        return [twin(i, rng) for i in v]
    if isinstance(v, str):
        return {"1": 1, "0": 0, "True": True, "None": None, "0.5": 0.5}.get(v, v + " ")
    return str(v)


def gen(rng, prop, idx):
    def distinct(n):
        out = []
        pool = list(VALUES)
        if rng.random() < 0.5:
            pool = [10, 11, 12, 13, 14]
        rng.shuffle(pool)
        for v in pool:
            if all(repr(v) != repr(o) and v != o for o in out):
                out.append(v)
            if len(out) == n:
                break
        return out

    def one():
        names = ["p1", "p2", "p3", "zeta", "alpha"]
        rng.shuffle(names)
        params = {n: rng.choice(VALUES) for n in names[:rng.choice([0, 0, 1, 2, 3])]}
        matrix = {}
        for n in rng.sample(names, rng.choice([0, 0, 1, 1, 2, 3])):
            matrix[n] = distinct(rng.choice([1, 2, 2, 3]))
        if rng.random() < 0.05:
            matrix = {n: distinct(rng.choice([1, 2])) for n in rng.sample(names, rng.choice([4, 5]))}
        how = rng.choice(["sim", "sim", "run", "class", "module", "cli", "file", "main_sim"])
        r = {"parameters": params, "matrix": matrix, "iterations": rng.choice([1, 1, 2, 3, 5]), "how": how,
             "exporters": [rng.choice(["One", "Two", "Strong"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
             "exp_as": rng.choice(["class", "name"]), "seed": rng.choice(["default", "x", "1"]),
             "dump": rng.random() < 0.3, "dry": rng.random() < 0.06,
             "again": rng.random() < 0.2}
        if rng.random() < 0.03:
            r["iterations"] = rng.choice([11, 12, 25, 101])
        if rng.random() < 0.03:
            r["matrix"] = rng.choice([{"p1": list(range(12))}, {"p1": list(range(4)), "p2": list(range(4)), "p3": [0, 1]}, {n: [0, 1] for n in ("p1", "p2", "p3", "zeta", "alpha")}])
            r["iterations"] = rng.choice([1, 1, 2])
        if how == "run":
            o = {}
            if rng.random() < 0.5:
                o["iterations"] = rng.choice([1, 2, 4])
            if rng.random() < 0.4:
                o["matrix"] = {"p1": distinct(2)}
            if rng.random() < 0.4:
                o["parameters"] = {"p2": rng.choice(VALUES)}
            r["override"] = o
        if how == "cli":
            r["cli_iterations"] = rng.choice([None, 2, 3])
            r["set"] = {"extra": rng.choice([1, "s", 2.5])} if rng.random() < 0.3 else {}
        return r

    runs = [one() for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(runs) > 1 and rng.random() < 0.2:
        for k in ("parameters", "matrix"):
            runs[-1][k] = twin(runs[0][k], rng)
        runs[-1].pop("override", None)
        if runs[-1]["how"] == "run":
            runs[-1]["how"] = "sim"
    elif len(runs) > 1 and rng.random() < 0.5:
        # The same parameters, in another order
        for k in ("parameters", "matrix"):
            runs[-1][k] = backwards(runs[0][k])
        runs[-1].pop("override", None)
        if runs[-1]["how"] == "run":
            runs[-1]["how"] = "sim"
    return {"runs": runs, "base": rng.choice(["BaseEnvironment", "Environment"])}


W = None


class Quick(sagents.BaseAgent):
    def step(self):
        return float(self.die())


class _Mixin:
    def __init__(self, **kw):
        known = {k: kw[k] for k in kw if k in ("p1", "p2", "p3", "zeta", "alpha", "extra")}
        self._received = canon(known)
        W.built(self, known)
        super().__init__(**kw)

    def init(self):
        self.add_agent(Quick)


class ModelB(_Mixin, BaseEnvironment):
    pass


class ModelE(_Mixin, Environment):
    pass


class Recorder(Exporter):
    def __init__(self, simulation, outdir=None, dump=True, copy_to=None, **kw):
        super().__init__(simulation, outdir=outdir, dump=dump, copy_to=copy_to)
        self.events = []
        self.extra = kw
        W.exporters.append(self)

    def note(self, *ev):
        self.events.append(ev)
        W.sequence.append((len(W.exporters), id(self), ev[0]))

    def sim_start(self):
        self.note("sim_start", None)

    def iteration_end(self, env, params, params_id):
        self.note("iteration_end", env, canon(params), params_id)

    def sim_end(self):
        self.note("sim_end", None)


class One(Recorder):
    pass


class Two(Recorder):
    pass


class Strong(Recorder):
    """Takes any argument."""

    def iteration_end(self, env, params, params_id, *args, **kwargs):
        super().iteration_end(env, params, params_id)


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.envs = []
        self.exporters = []
        self.sequence = []
        self.ids = {}
        self.clashes = 0
        self.pairs = 0

    def built(self, env, known):
        self.envs.append(env)
        self.ctx.event("run", canon(known))

    def combos(self, params, matrix):
        out = [dict(params)]
        for k, vs in matrix.items():
            out = [dict(c, **{k: v}) for c in out for v in vs]
        return out

    def verdict(self, r, envs, combos, iterations, sims=1):
        """All that a single execution of a simulation has to show."""
        ctx = self.ctx
        want = sorted(canon(c) for c in combos for _ in range(iterations))
        got = sorted(e._received for e in self.envs)
        if r["dry"]:
            want = []
        ctx.check(got == want, "C20", "runs", lambda: f"the model was run with {got} instead of {want}")
        ctx.check(len(envs) == len(self.envs) and {id(e) for e in envs} == {id(e) for e in self.envs}, "C20", "returned", f"{len(envs)} environments returned, {len(self.envs)} run")
        nexp = len(r["exporters"]) + (1 if r["how"] in ("cli", "main_sim") else 0)
        recs = self.exporters
        expected = len(r["exporters"]) * sims
        ctx.check(len(recs) == expected, "C20", "exporters", f"{len(recs)} exporters were created instead of {expected}")
        for x in recs:
            names = [e[0] for e in x.events]
            ctx.check(x.simulation.name == "life" and str(x.simulation.seed) == r["seed"], "C20", "simulation", lambda: f"{type(x).__name__} was given the simulation {x.simulation.name!r} with seed {x.simulation.seed!r}")
            ctx.check(names.count("sim_start") == 1 and names[:1] == ["sim_start"], "C20", "sim-start", f"{type(x).__name__} was told {names}")
            ctx.check(names.count("sim_end") == 1 and names[-1:] == ["sim_end"], "C20", "sim-end", f"{type(x).__name__} was told {names}")
        # Several simulations (one per combination) may come from one file
        groups = [recs] if sims == 1 else [recs[i::len(r["exporters"])] for i in range(len(r["exporters"]))]
        if sims == 1:
            groups = [[x] for x in recs]
        for g in groups:
            its = [e for x in g for e in x.events if e[0] == "iteration_end"]
            ctx.check(sorted(id(e[1]) for e in its) == sorted(id(e) for e in self.envs), "C20", "iteration-end", lambda: f"{type(g[0]).__name__} was told about {len(its)} iterations, out of {len(self.envs)}")
            for e in its:
                ctx.check(e[2] == e[1]._received, "C20", "parameters", lambda: f"an iteration with {e[1]._received} was exported with {e[2]}")
                self.identify(e[2], e[3])
        # Nobody hears about an iteration before everyone was told about the start
        if sims == 1 and recs:
            names = [n for _, _, n in self.sequence]
            first = names.index("iteration_end") if "iteration_end" in names else len(names)
            ctx.check(names[:first].count("sim_start") == len(recs) or first == len(names), "C20", "order", f"exporters were told {names}")

    def identify(self, params, pid):
        ctx = self.ctx
        for p, i in self.ids.items():
            if p == params:
                ctx.check(i == pid, "C20", "id-changes", lambda: f"{params} was identified as {i} and {pid}")
            elif i == pid:
                self.clashes += 1
        if params not in self.ids:
            self.pairs += len(self.ids)
        self.ids[params] = pid


FILE = '''
from soil import Simulation
import dst.worlds.lifecycle as L

class TheModel(L.{base}):
    pass

{sim}
'''


def run(sc, ctx):
    global W
    W = w = World(sc, ctx)
    base = {"BaseEnvironment": ModelB, "Environment": ModelE}[sc["base"]]
    out = scratch.new()
    import logging
    level = logging.getLogger("soil").level
    argv, path = sys.argv, list(sys.path)
    try:
        for n, r in enumerate(sc["runs"]):
            one(w, sc, ctx, base, r, os.path.join(out, str(n)))
    finally:
        sys.argv = argv
        sys.path[:] = path
        logging.getLogger("soil").setLevel(level)
    ctx.check(w.clashes == 0 or (w.clashes == 1 and w.pairs > 6), "C20", "id-clash", lambda: f"different parameters got the same identifier: {w.ids}")


def one(w, sc, ctx, base, r, out):
    os.makedirs(out)
    w.envs, w.exporters, w.sequence = [], [], []
    names = {"One": One, "Two": Two, "Strong": Strong}
    exps = [names[e] if r["exp_as"] == "class" else f"dst.worlds.lifecycle.{e}" for e in r["exporters"]]
    params, matrix, iterations = decode(r["parameters"]), decode(r["matrix"]), r["iterations"]
    opts = dict(parameters=params, matrix=matrix, iterations=iterations, name="life", seed=r["seed"], dump=r["dump"], dry_run=r["dry"], outdir=out)
    how = r["how"]
    ctx.count("how " + how)
    sims = 1
    uniq = None
    if how == "sim":
        sim = ssim.Simulation(model=base, exporters=exps, **opts)
        envs = sim.run()
        if r["again"]:
            w.verdict(r, envs, w.combos(params, matrix), iterations)
            w.envs, w.exporters, w.sequence = [], [], []
            envs = sim.run()
    elif how == "run":
        sim = ssim.Simulation(model=base, exporters=exps, **opts)
        o = decode(r["override"])
        envs = sim.run(**o)
        params, matrix, iterations = o.get("parameters", params), o.get("matrix", matrix), o.get("iterations", iterations)
    elif how == "class":
        envs = base.run(exporters=exps, **opts)
    elif how == "module":
        envs = ssim.run(base, exporters=exps, **opts)
    elif how == "main_sim":
        sys.argv = ["soil", "-o", out] + (["--no-dump"] if not r["dump"] else []) + (["--dry-run"] if r["dry"] else [])
        opts.pop("dump"), opts.pop("outdir"), opts.pop("dry_run")
        envs = soil.main(ssim.Simulation(model=base, **opts), exporters=list(exps) or ["dummy"])
        ctx.check(len(envs) == 1, "C20", "returned", "more than one simulation")
        envs = envs[0]
    else:
        pyfile = os.path.join(out, "sim_file.py")
        opts.pop("outdir"), opts.pop("dump"), opts.pop("dry_run")
        args = ", ".join(f"{k}={v!r}" for k, v in opts.items())
        with open(pyfile, "w") as f:
            f.write(FILE.format(base=base.__name__, sim=f"sim = Simulation(model=TheModel, {args})" if how == "cli" else f"Simulation(model=TheModel, {args}).run()"))
        if how == "cli":
            sys.argv = ["soil", pyfile, "-o", out] + (["--no-dump"] if not r["dump"] else []) + (["--dry-run"] if r["dry"] else [])
            if r["cli_iterations"]:
                sys.argv += ["--iterations", str(r["cli_iterations"])]
                iterations = r["cli_iterations"]
            for k, v in r["set"].items():
                sys.argv += ["--set", f"{k}={v!r}"]
                params = dict(params, **{k: v})
            envs = sum(soil.main(exporters=[f"dst.worlds.lifecycle.{e}" for e in r["exporters"]] or ["dummy"]), [])
        else:
            loaded = list(ssim.iter_from_file(pyfile, exporters=exps, outdir=out, dump=r["dump"], dry_run=r["dry"]))
            ctx.check(not w.envs, "C20 C22", "ran", "loading a file ran it")
            envs = sum((s.run() for s in loaded), [])
            sims = len(loaded)
    combos = w.combos(params, matrix)
    if how == "file":
        ctx.check(sims == len(combos), "C20 C22", "loaded", f"{sims} simulations for {len(combos)} combinations")
    w.verdict(r, envs, combos, iterations, sims=sims)
    if len(combos) * iterations > 1:
        ctx.nontrivial = True
    ctx.count("executions", len(w.envs))
    ctx.sim_time += len(w.envs)


def cleanup():
    scratch.cleanup()
