"""Sequences of commands in one process, against the same simulations run from code. Decides C29."""
import contextlib
import csv as pycsv
import io
import os
import sqlite3
import sys

import yaml

import soil
import soil.agents as sagents
import soil.simulation as ssim
from soil.environment import Environment
from soil.exporters import Exporter

from .. import scratch
from .lifecycle import canon

RULE = "random sequences of commands (files, instances, options, wrong options, failing files, models and exporters) in the same process; non-trivial: at least one run through the command with two or more options, and another command before or after it"
COMPONENTS = {"real": ["soil.__init__ (command line)", "soil.simulation", "soil.serialization", "soil.exporters", "soil.environment", "soil.time", "argparse", "PyYAML", "mesa", "SQLite"],
              "stub": ["command line arguments", "wall clock", "global random generators", "files and outputs in a scratch folder", "recording exporters"]}
ASSUMPTIONS = ["the command always decides the exporters, the output folder, and whether results are stored, with its own defaults",
               "parameters set for a simulation with a matrix are not in the matrix", "a simulation given as an object is only used once"]
BUDGET = 10000000
REC = ["One", "Two"]
FAULTS = ["option", "model", "exporter", "file", "missing", "set", "unknown-exporter", "module"]


def gen(rng, prop, idx):
    def sim(i):
        params = {k: rng.choice([1, 2, "x", 0.5]) for k in rng.sample(["pa", "pb"], rng.choice([0, 1, 2]))}
        params["deep"] = {"k": 1, "values": {"z": 2}}
        s = {"name": f"sim{i}", "parameters": params}
        if rng.random() < 0.4:
            s["matrix"] = {"ma": rng.sample([1, 2, 3], rng.choice([1, 2]))}
        for k, v in (("seed", rng.choice(["mine", "other", "", "7", "007"])), ("iterations", rng.choice([1, 2, 3])), ("group", "grp"), ("description", "text")):
            if rng.random() < 0.5:
                s[k] = v
        s[rng.choice(["max_steps", "max_time"])] = rng.choice([1, 3, 4, 6])
        if rng.random() < 0.2:
            s["max_time"], s["max_steps"] = rng.choice([2, 5, 2.5]), rng.choice([2, 4])
        return s

    def one():
        o = {}
        if rng.random() < 0.4:
            o["seed"] = rng.choice(["given", "0", "x y", "", "007", "1.50", "None", "-5", " s "])
        if rng.random() < 0.4:
            o["iterations"] = rng.choice([1, 2, 4])
        if rng.random() < 0.3:
            o["max_steps"] = rng.choice([0, 1, 2, 5])
        if rng.random() < 0.3:
            o["max_time"] = rng.choice([0, 1, 2.5, 4])
        sets = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            sets.append([rng.choice(["pa", "pa", "pb", "deep.k", "deep.new", "deep.values.z", "deep.values", "pc"]), rng.choice([0, 7, "text", None, True, [1, 2], {"a": 1}, 2.5, "a=b", "k.v"])])
        flags = [f for f in ("--csv", "--graph") if rng.random() < 0.25]
        k = {"file": rng.choice(["py", "py", "yaml", "yaml", "instance"]), "sims": [sim(i) for i in range(rng.choice([1, 1, 2, 3] if rng.random() < 0.95 else [4, 7, 12]))], "options": o, "set": sets, "flags": flags,
             "e": [rng.choice(REC + ["csv", "dummy"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))], "main": rng.choice([None, None, "shared", "shared", "own"]), "main_list": [rng.choice(REC + ["csv"])],
             "mode": rng.choice(["", "", "", "", "", "", "--no-dump", "--dry-run", "--dry-run --no-dump", "--only-convert", "--version"]), "out": rng.choice([True, True, False]), "level": rng.choice([None, None, "debug", "ERROR"]),
             "kwargs": rng.choice([{}, {}, {}, {"backup": True}, {"description": "kw"}]), "fault": None, "declared": rng.choice(["named", "run"])}
        if k["file"] == "instance":
            k["sims"] = k["sims"][:1]
        k["via"] = rng.choice(["main", "main", "main", "easy", "run_from_file"])
        if k["via"] == "run_from_file" and k["file"] == "instance":
            k["via"] = "easy"
        if rng.random() < 0.3:
            k["fault"] = rng.choice(FAULTS)
        return k

    return {"commands": [one() for _ in range(rng.choice([1, 2, 2, 3, 4]))], "shared": [rng.choice(REC)]}


W = None


class Walker(sagents.BaseAgent):
    def step(self):
        self.model.draws.append(round(self.model.random.random(), 12))
        W.steps += 1
        if W.fail_at is not None and W.steps > W.fail_at:
            raise Broken("the model fails")
        return 1


class Broken(Exception):
    pass


class CliModel(Environment):
    def __init__(self, **kw):
        self.received = canon({k: kw[k] for k in kw if k in ("pa", "pb", "pc", "ma", "deep")})
        self.draws = []
        W.envs.append(self)
        super().__init__(**kw)

    def init(self):
        self.G.add_edge(0, 1)
        self.add_agent(Walker)
        self.add_agent(Walker)

    def trace(self):
        return (self.received, self.id, tuple(self.draws), self.schedule.steps, self.schedule.time)


class Recorder(Exporter):
    def __init__(self, simulation, **kw):
        super().__init__(simulation, **kw)
        self.events = []
        W.exporters.append(self)

    def sim_start(self):
        self.events.append("start")

    def iteration_end(self, env, params, params_id):
        self.events.append(id(env))
        if W.fail_export:
            raise Broken("the exporter fails")

    def sim_end(self):
        self.events.append("end")


class One(Recorder):
    pass


class Two(Recorder):
    pass


class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.envs, self.exporters = [], []
        self.steps = 0
        self.fail_at = None
        self.fail_export = False


def full(name):
    return f"dst.worlds.cli.{name}" if name in REC else name


def apply(params, sets):
    for path, v in sets:
        *head, last = path.split(".")
        target = params
        for p in head:
            target = target[p]
        target[last] = v


def reachable(c):
    """The paths that are set have to exist, also after the previous ones."""
    out = []
    import copy
    for s in c["sims"]:
        s["parameters"].setdefault("deep", {"k": 1, "values": {"z": 2}})
    for path, v in c["set"]:
        try:
            for s in c["sims"]:
                p = copy.deepcopy(s["parameters"])
                apply(p, out + [[path, v]])
        except (TypeError, KeyError):
            continue
        out.append([path, v])
    return out


def write(c, base, n):
    path = os.path.join(base, f"command_{n}." + ("py" if c["file"] == "py" else "yml"))
    with open(path, "w") as f:
        if c["file"] == "yaml":
            f.write("---\n".join(yaml.dump({"model": "dst.worlds.cli.CliModel", **s}) for s in c["sims"]))
            if c["fault"] == "file":
                f.write("---\n}{\n")
        else:
            f.write("from soil import Simulation\nfrom dst.worlds.cli import CliModel as C\n")
            for i, s in enumerate(c["sims"]):
                if c["declared"] == "named" or s.get("matrix"):
                    f.write(f"s{i} = Simulation(model=C, **{s!r})\n")
                else:
                    f.write(f"Simulation(model=C, **{s!r}).run()\n")
            if c["fault"] == "file":
                f.write("raise RuntimeError('boom')\n")
    return path


def run(sc, ctx):
    global W
    W = w = World()
    base = scratch.new()
    import logging
    level = logging.getLogger("soil").level
    argv, path, cwd = sys.argv, list(sys.path), os.getcwd()
    shared = [full(e) for e in sc["shared"]]
    done = 0
    try:
        os.chdir(base)
        for n, c in enumerate(sc["commands"]):
            w.reset()
            c["set"] = reachable(c)
            done += command(w, ctx, c, n, base, shared)
            ctx.check(shared == [full(e) for e in sc["shared"]], "C29", "exporters-changed", f"command {n} changed the list of exporters it was given to {shared}")
        ctx.nontrivial = done > 0 and len(sc["commands"]) > 1
    finally:
        os.chdir(cwd)
        sys.argv = argv
        sys.path[:] = path
        logging.getLogger("soil").setLevel(level)


def run_files(w, ctx, c, n, base):
    """Every simulation in some files, with options given as arguments."""
    import copy
    fault = c["fault"] if c["fault"] in ("file", "model", "exporter") else None
    c = dict(c, fault=fault)
    parts = [c]
    if len(c["sims"]) > 1:
        parts = [dict(c, sims=c["sims"][:1], fault=None), dict(c, sims=c["sims"][1:])]
    files = [write(x, base, f"{n}_{i}") for i, x in enumerate(parts)]
    kw = {k: v for k, v in c["options"].items()}
    kw.update(c["kwargs"])
    if n % 2:
        kw["name"] = "given"
    shown = f"running the files of command {n} with {kw}"
    if fault == "model":
        w.fail_at = len(c["sims"])
    w.fail_export = fault == "exporter"
    error = None
    try:
        ssim.run_from_file(*files, exporters=[full(e) for e in REC], dump=False, outdir=base, **kw)
    except Exception as ex:
        error = ex
    w.fail_at, w.fail_export = None, False
    envs, recs = w.envs, w.exporters
    ctx.event("files", repr(kw), type(error).__name__, len(envs))
    ctx.count("run_from_file")
    w.reset()
    if fault:
        ctx.fault("files: " + fault)
    want = []
    for s in copy.deepcopy(c["sims"]):
        s.update(kw)
        want += [e.trace() for e in ssim.Simulation(model=CliModel, **s, exporters=[], dump=False).run()]
    if fault == "file" or fault == "exporter" and want or fault == "model" and sum(len(t[2]) for t in want) > len(c["sims"]):
        ctx.check(error is not None, "C29", "silent", f"{shown}: the {fault} failed, and there was no error")
        return
    if error is not None:
        raise error
    got = [e.trace() for e in envs]
    ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "C29", "runs", lambda: f"{shown}: the runs are {got}, and from code {want}")
    ctx.check(sorted(type(x).__name__ for x in recs) == sorted(REC * len(c["sims"])), "C29", "exporters", f"{shown}: the exporters were {recs}")
    for name in REC:
        told = sorted(i for x in recs if type(x).__name__ == name for i in x.events[1:-1])
        ctx.check(told == sorted(map(id, envs)), "C29", "exporters", f"{shown}: {name} was told about {len(told)} iterations out of {len(envs)}")


def command(w, ctx, c, n, base, shared):
    if c.get("via") == "run_from_file":
        run_files(w, ctx, c, n, base)
        return 0
    where = f"command {n}"
    fault = c["fault"]
    if fault == "missing" and c["file"] == "instance":
        fault = None
    if fault == "file" and c["file"] == "instance":
        fault = None
    out = os.path.join(base, f"out{n}") if c["out"] else os.path.join(base, "soil_output")
    args = []
    o = c["options"]
    for k in o:
        args += [f"--{k}={o[k]}"] if (n + len(k)) % 2 or o[k] == "" else [f"--{k}", str(o[k])]
    for p, v in c["set"]:
        args += ["--set", f"{p}={v!r}"]
    for e in c["e"]:
        args += ["-e", full(e)]
    args += c["flags"]
    if c["out"]:
        args += ["-o", out]
    if c["level"]:
        args += ["--level", c["level"]]
    if c["mode"]:
        args += c["mode"].split()
    if fault == "option":
        args += ["--no-such-option"]
    if fault == "set":
        args += ["--set", "deep.nothing.here=1"]
    if fault == "unknown-exporter":
        args += ["-e", "no_such_exporter"]
    if fault == "module":
        args += ["-m", "no_such_module_anywhere"]
    kw = dict(c["kwargs"])
    exporters = ["default"]
    if c["main"] == "shared":
        kw["exporters"] = shared
        exporters = list(shared)
    elif c["main"] == "own":
        kw["exporters"] = [full(e) for e in c["main_list"]]
        exporters = list(kw["exporters"])
    for e in [full(e) for e in c["e"]] + [f[2:].replace("graph", "gexf") for f in c["flags"]]:
        if e not in exporters:
            exporters.append(e)

    target = []
    if c["file"] == "instance":
        import copy
        target = [ssim.Simulation(model=CliModel, **copy.deepcopy(c["sims"][0]))]
        sys.argv = ["soil"] + args
    else:
        path = write(c, base, n)
        if fault == "missing":
            os.remove(path)
        sys.argv = ["soil", path] + args if n % 2 else ["soil"] + args + [path]
    total = sum(1 for _ in c["sims"])
    if fault == "model":
        w.fail_at = len(c["sims"])
    w.fail_export = fault == "exporter"
    shown = where + ": " + " ".join(sys.argv[1:]).replace(base, "")
    error, res = None, None
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said) if c["mode"] == "--only-convert" else contextlib.nullcontext():
            if c.get("via") == "easy":
                one = soil.easy(*(target or [sys.argv.pop(1 if n % 2 else -1)]), **kw)
                res = None if one is None else [one]
            else:
                res = soil.main(*target, **kw)
    except (Exception, SystemExit) as ex:
        error = ex
    w.fail_at, w.fail_export = None, False
    envs, recs = w.envs, w.exporters
    ctx.event("command", sys.argv[1:] and [a.replace(base, "") for a in sys.argv[1:]], type(error).__name__, len(envs))
    quiet = c["mode"] in ("--dry-run", "--dry-run --no-dump", "--only-convert", "--version")
    if fault:
        ctx.fault("command: " + fault)
    if fault == "option":
        ctx.check(isinstance(error, SystemExit) and not envs, "C29", "wrong-option", f"{shown}: a wrong option was accepted")
        return 0
    if c["mode"] == "--version":
        if error is not None:
            raise error
        ctx.check(not envs, "C29", "ran", f"{shown}: it ran something")
        return 0
    if fault == "missing":
        ctx.check(not envs and not res, "C29", "ran", f"{shown}: the file does not exist, and it ran something")
        return 0
    if fault in ("file", "module", "set"):
        ctx.check(error is not None and (not envs or fault == "set"), "C29", "silent", f"{shown}: no error, and {len(envs)} runs")
        return 0
    if fault == "unknown-exporter" and c["mode"] != "--only-convert":
        ctx.check(error is not None and not envs, "C29", "silent", f"{shown}: no error, and {len(envs)} runs")
        return 0

    # The same, from code
    w.reset()
    want = []
    import copy
    for s in copy.deepcopy(c["sims"]):
        s.update({k: v for k, v in o.items()})
        s.update(c["kwargs"])
        apply(s["parameters"], c["set"])
        if not quiet:
            want.append([e.trace() for e in ssim.Simulation(model=CliModel, **s, exporters=[], dump=False).run()])
    steps = sum(len(t[2]) for x in want for t in x)
    some = sum(len(x) for x in want)
    if fault == "model" and steps > len(c["sims"]) or fault == "exporter" and some and any(e.rsplit(".", 1)[-1] in REC for e in exporters):
        ctx.check(isinstance(error, Broken), "C29", "silent", f"{shown}: the {fault} failed, and the command ended with {error!r}")
        return 0
    if error is not None:
        raise error
    if quiet:
        ctx.check(not envs, "C29", "ran", f"{shown}: it ran something")
        if c["mode"] == "--only-convert":
            names = sorted(l.split(":", 1)[1].strip(" '\"") for l in said.getvalue().splitlines() if l.startswith("name:"))
            ctx.check(names == sorted(s["name"] for s in c["sims"]), "C29", "converted", f"{shown}: the configurations of {names} were shown")
        else:
            ctx.check([list(r) for r in res] == [[] for _ in c["sims"]][:1 if c.get("via") == "easy" else None], "C29", "returned", f"{shown}: it returned {res!r}")
        ctx.check(not c["out"] or not os.path.exists(out), "C29", "stored", f"{shown}: something was stored")
        return 0
    if c.get("via") == "easy":
        # Only the results of one of the simulations are returned
        ctx.count("easy")
        ctx.check(any(sorted(repr(e.trace()) for e in res[0]) == sorted(map(repr, x)) for x in want), "C29", "returned", f"{shown}: it returned {res!r}")
        ctx.check(all(any(e is x for x in envs) for e in res[0]), "C29", "returned", f"{shown}: it returned environments that were not run")
        got, res = [e.trace() for e in envs], [envs]
        ctx.check(sorted(map(repr, got)) == sorted(repr(t) for x in want for t in x), "C29", "runs", lambda: f"{shown}: the runs are {got}, and from code {want}")
    else:
        got = [[e.trace() for e in r] for r in res]
        ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "C29", "runs", lambda: f"{shown}: the runs are {got}, and from code {want}")
    ctx.check(sorted(id(e) for r in res for e in r) == sorted(map(id, envs)), "C29", "returned", f"{shown}: {sum(map(len, res))} environments returned, {len(envs)} run")
    if sum(1 for x in want) > 0:
        mine = sorted(type(x).__name__ for x in recs)
        named = sorted(e.rsplit(".", 1)[1] for e in exporters if e.startswith("dst.")) * len(c["sims"])
        ctx.check(mine == sorted(named), "C29", "exporters", f"{shown}: the exporters were {mine} instead of {sorted(named)}")
        for x in recs:
            ctx.check(len(x.events) >= 2 and x.events[0] == "start" and x.events[-1] == "end", "C29", "exporters", f"{shown}: {type(x).__name__} was told {x.events}")
        told = sorted(i for x in recs if type(x).__name__ == (recs and type(recs[0]).__name__) for i in x.events[1:-1])
        ctx.check(not recs or told == sorted(map(id, envs)), "C29", "exporters", f"{shown}: an exporter was told about {len(told)} iterations out of {len(envs)}")
    stored = c["mode"] != "--no-dump"
    if c["out"] or not stored:
        outputs(ctx, c, shown, out, stored, exporters, want)
    ctx.count("runs through the command", some)
    ctx.sim_time += sum(t[4] for x in want for t in x if t[4] != float("inf"))
    return int(len(o) + len(c["set"]) + len(c["e"]) + len(c["flags"]) > 1)


def outputs(ctx, c, shown, out, stored, exporters, want):
    if not stored:
        ctx.check(not c["out"] or not os.path.exists(out), "C29", "stored", f"{shown}: something was stored")
        return
    per = {}
    for s, x in zip(c["sims"], want):
        per[s["name"]] = [os.path.join(out, s.get("group", ""), s["name"]), x]
    for name, (folder, x) in per.items():
        if "csv" in exporters:
            rows = 0
            for f in os.listdir(folder) if os.path.isdir(folder) else []:
                if f.endswith(".env.csv"):
                    with open(os.path.join(folder, f)) as fh:
                        rows += sum(1 for r in pycsv.reader(fh) if r and r[0] != "step")
            expected = sum(t[3] + 1 for t in x)
            ctx.check(rows == expected, "C29", "csv", f"{shown}: {rows} records of the model in the CSV files of {name}, instead of {expected}")
        if "default" in exporters:
            db = os.path.join(folder, name + ".sqlite")
            rows = 0
            if os.path.exists(db):
                con = sqlite3.connect(db)
                rows = con.execute("SELECT count(*) FROM env").fetchone()[0] if x else 0
                con.close()
            expected = sum(t[3] + 1 for t in x)
            ctx.check(rows == expected, "C29", "default", f"{shown}: {rows} records of the model in the database of {name}, instead of {expected}")
        if "gexf" in exporters and x:
            files = sorted(f for f in os.listdir(folder) if f.endswith(".gexf"))
            expected = sorted({f"{t[1]}.gexf" for t in x})
            ctx.check(files == expected, "C29", "graph", f"{shown}: the networks are {files} instead of {expected}")


def cleanup():
    scratch.cleanup()
