"""Sequences of loads of good and failing simulation files. Decides C22."""
import os
import sys

import yaml

import soil.agents as sagents
import soil.simulation as ssim
from soil.environment import Environment

from .. import scratch, seams

RULE = "random sequences of generated files (instances, requests to run, environment classes; failing at random statements) loaded one after another or together, with runs in between; non-trivial: at least two loads, one of which failed or asked to run something"
COMPONENTS = {"real": ["soil.simulation", "soil.serialization", "soil.environment", "importlib", "PyYAML"], "stub": ["wall clock", "global random generators", "files are generated in a scratch folder"]}
BUDGET = 5000000
ASSUMPTIONS = ["a simulation that is both named and asked to run, or has two names, is not generated",
               "modules that a file imports from its folder have different names in different folders"]

FAULTS = {
    "ValueError": "raise ValueError('boom')",
    "RuntimeError": "raise RuntimeError('boom')",
    "KeyError": "{}['boom']",
    "ImportError": "import no_such_module_at_all",
    "SystemExit": "raise SystemExit(3)",
    "KeyboardInterrupt": "raise KeyboardInterrupt('boom')",
    "AttributeError": "Simulation.no_such_thing",
    "SyntaxError": "def broken(:",
    "TypeError": "Simulation(no_such_option=1)",
    "ZeroDivisionError": "1 / 0",
    "AssertionError": "assert False",
    "StopIteration": "next(iter(()))",
}


def gen(rng, prop, idx):
    files = []
    counter = [0]

    def attrs():
        if rng.random() < 0.5:
            return {}
        return {k: v for k, v in (("max_steps", 5), ("max_time", 6.5), ("iterations", 4), ("dump", True), ("seed", "mine"), ("group", "mygroup"), ("backup", True), ("overwrite", True), ("description", "text"), ("dry_run", True), ("dir_path", "/no/such/folder")) if rng.random() < 0.5}

    def item():
        counter[0] += 1
        r = rng.random()
        nm = f"s{counter[0]}"
        params = {k: rng.choice([1, 2, "x"]) for k in rng.sample(["pa", "pb"], rng.choice([0, 1, 2]))}
        matrix = {}
        if rng.random() < 0.4:
            matrix = {k: rng.sample([10, 20, 30], rng.choice([1, 2, 3])) for k in rng.sample(["ma", "mb"], rng.choice([1, 2]))}
        if r < 0.4:
            return {"kind": "instance", "name": nm, "parameters": params, "matrix": matrix, "attrs": attrs(), "var": rng.choice(["sim_{}", "sim_{}", "_sim_{}", "{}", "SIM_{}", "__{}"]),
                    "equals": rng.choice([0, 0, 0, 1, 2])}
        if r < 0.7:
            return {"kind": "run", "name": nm, "parameters": params, "matrix": matrix, "attrs": attrs(), "extra": rng.choice([None, {"iterations": 2}, {"max_steps": 3}]), "loop": rng.random() < 0.3}
        if r < 0.8:
            return {"kind": "class_run", "name": nm, "loop": rng.random() < 0.3}
        return {"kind": "env", "name": nm}

    pattern = rng.choice([None] * 15 + ["*/conf_*.yml", "**/*.yml", "f1/*.yml"])
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5]) if not pattern else rng.choice([2, 4, 6, 9])):
        kind = rng.choice(["py"] * 7 + ["missing", "yaml", "yaml"]) if not pattern else "yaml"
        items = [item() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        fault = None
        if kind == "yaml":
            items = [dict(item(), kind="template" if rng.random() < 0.3 else "doc", lists={k: rng.sample([1, 2, "x", "y"], rng.choice([1, 2, 3])) for k in rng.sample(["la", "lb"], rng.choice([0, 1, 1, 2]))},
                          bounds=rng.sample(["ba", "bb"], rng.choice([1, 1, 2])), n=rng.choice([1, 2, 3]), text=rng.random() < 0.5) for _ in range(rng.choice([1, 1, 2, 3]))]
            for i in items:
                i.setdefault("parameters", {})
                i.setdefault("matrix", {})
            if rng.random() < 0.4 and not pattern:
                fault = [rng.choice(["syntax", "unknown-model", "unknown-option", "eio", "no-vars", "named", "many"]), rng.randint(0, len(items))]
        if kind == "py" and rng.random() < 0.4:
            fault = [rng.choice(list(FAULTS)), rng.randint(0, len(items))]
        files.append({"kind": kind, "body": items, "fault": fault, "folder": rng.choice(["f1", "f2", "f3"] if not pattern else ["f1", "f2", "f1/deep", "f2/in/side"]), "helper": rng.random() < 0.2,
                      "how": rng.choice(["file", "py", "from_file", "from_py", "file"]),
                      "options": rng.choice([{}, {}, {"max_time": 7}, {"iterations": 3, "dump": False}, {"seed": "other"}, {"max_steps": 2, "group": "g"},
                                         {"max_steps": 0, "dump": False}, {"group": "", "backup": False, "seed": ""}, {"max_time": 0, "iterations": 1, "overwrite": False}, {"exporters": [], "description": None}]),
                      "run": rng.random() < 0.4, "normal": rng.random() < 0.3})
    sources = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
        sources.append({"at": rng.randrange(len(files)), "folder": rng.choice(["g1", "g2"]), "file": rng.choice(["a", "b"]), "fault": rng.choice([None, None, None, "ValueError", "SyntaxError", "missing", "no-class", "init", "step", "KeyboardInterrupt"]),
                        "relative": rng.random() < 0.3, "iterations": rng.choice([1, 1, 2]), "again": rng.random() < 0.3})
    return {"files": files, "together": rng.random() < 0.15, "sources": sources, "pattern": pattern}


W = None


class Quick(sagents.BaseAgent):
    def step(self):
        return float(self.die())


class LoadModel(Environment):
    def init(self):
        W.ran.append(type(self).__name__)
        self.add_agent(Quick)


# Not one of the classes that a loaded file could claim as its own
HEADER = '''
import sys
import dst.worlds.loader as L
from soil import Simulation, Environment
from dataclasses import dataclass
{helper}


@dataclass
class Settings:
    # Needs to find the module it is in
    size: "int" = 1


L.W.loading.append(__name__)
'''


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.ran = []
        self.loading = []
        self.loads = self.special = 0
        self.extra = {}
        self.marks = 0


def used(it, call):
    """A file may look at the results of what it runs, even when there are none yet."""
    return f"for env in {call}:\n    print(env.now)\ntry:\n    del env\nexcept NameError:\n    pass" if it.get("loop") else call


def combos(params, matrix):
    out = [dict(params)]
    for k, vs in matrix.items():
        out = [dict(c, **{k: v}) for c in out for v in vs]
    return out


def given(it):
    return "".join(f", {k}={v!r}" for k, v in it.get("attrs", {}).items())


YAML_FAULTS = {
    "syntax": "a: [1, 2\nb: }\n",
    "unknown-model": "model: no.such.Model\nname: x\n",
    "unknown-option": "model: dst.worlds.loader.LoadModel\nno_such_option: 1\n",
    "eio": "# the disk fails\nmodel: dst.worlds.loader.LoadModel\nname: unreadable\n",
    "no-vars": "template: 'model: dst.worlds.loader.LoadModel'\n",
    "named": "template: |\n  model: dst.worlds.loader.LoadModel\n  name: x\nvars:\n  bounds:\n    ba: [0, 1]\nsampler:\n  method: dst.worlds.loader.sampler\n  N: 1\n",
    "many": "template: |\n  model: dst.worlds.loader.LoadModel\n  ---\n  model: dst.worlds.loader.LoadModel\nvars:\n  bounds:\n    ba: [0, 1]\nsampler:\n  method: dst.worlds.loader.sampler\n  N: 1\n",
}


def sampler(problem, N):
    return [[i + 0.5 * (name == "bb") for name in problem["names"]] for i in range(N)]


def write(f, n, base):
    folder = os.path.join(base, f["folder"])
    os.makedirs(folder, exist_ok=True)
    if f["kind"] == "missing":
        return os.path.join(folder, f"missing_{n}.py"), []
    expected = []
    if f["kind"] == "yaml":
        path = os.path.join(folder, f"conf_{n}.yml")
        docs = []
        for i, it in enumerate(f["body"]):
            if f["fault"] and f["fault"][1] == i:
                docs.append(YAML_FAULTS[f["fault"][0]])
            nm = f"{it['name']}_{n}"
            d = {"model": "dst.worlds.loader.LoadModel", "parameters": it["parameters"], **it.get("attrs", {})}
            if it["matrix"]:
                d["matrix"] = it["matrix"]
            if it["kind"] == "doc":
                W.extra[nm] = it.get("attrs", {})
                for _ in range(1 + it.get("equals", 0)):
                    docs.append(yaml.dump({**d, "name": nm}, sort_keys=len(nm) % 2 == 0))
                    expected.append((nm, repr(sorted(it["parameters"].items())), repr(sorted(it["matrix"].items()))))
                continue
            # All of these are called like their model
            W.extra[nm] = {k: v for k, v in it.get("attrs", {}).items() if k != "group"}
            names = list(it["lists"]) + it["bounds"]
            d.pop("group", None)
            d["parameters"] = {**it["parameters"], **{k: "{{ %s }}" % k for k in names}, "who": nm}
            body = yaml.dump(d)
            for k in names:
                body = body.replace("'{{ %s }}'" % k, "{{ %s }}" % k)
            conf = {"template": body if it["text"] else d, "vars": {"bounds": {k: [0, 10] for k in it["bounds"]}}, "sampler": {"method": "dst.worlds.loader.sampler", "N": it["n"]}}
            if it["lists"]:
                conf["vars"]["lists"] = it["lists"]
            docs.append(yaml.dump(conf, sort_keys=False))
            for c in combos({}, it["lists"]):
                for row in sampler({"num_vars": len(it["bounds"]), "names": it["bounds"], "bounds": []}, it["n"]):
                    params = {**c, **dict(zip(it["bounds"], row))}
                    if not it["text"]:
                        params = {k: str(v) for k, v in params.items()}
                    params = {**it["parameters"], **params, "who": nm}
                    expected.append(("dst.worlds.loader.LoadModel", repr(sorted(params.items())), repr(sorted(it["matrix"].items()))))
        if f["fault"] and f["fault"][1] >= len(f["body"]):
            docs.append(YAML_FAULTS[f["fault"][0]])
        with open(path, "w") as fh:
            fh.write("---\n".join(docs))
        return path, expected
    path = os.path.join(folder, f"sim_{n}.py")
    lines = [HEADER.format(helper=f"import helper_{f['folder']}_{n} as helper\nassert helper.VALUE == {n}" if f["helper"] else "")]
    if f["helper"]:
        with open(os.path.join(folder, f"helper_{f['folder']}_{n}.py"), "w") as fh:
            fh.write(f"VALUE = {n}\n")
    envs = []
    for i, it in enumerate(f["body"]):
        if f["fault"] and f["fault"][1] == i:
            lines.append(FAULTS[f["fault"][0]])
        nm = f"{it['name']}_{n}"
        cls = f"Model_{nm}"
        lines.append(f"class {cls}(L.LoadModel):\n    pass\n")
        envs.append(cls)
        if it["kind"] == "instance":
            W.extra[nm] = it.get("attrs", {})
            for twin in range(1 + it.get("equals", 0)):
                # Others that are equal to it, but not the same one
                var = it.get("var", "sim_{}").format(nm) + ("" if not twin else f"_{twin}")
                lines.append(f"{var} = Simulation(model={cls}, name='{nm}', parameters={it['parameters']!r}, matrix={it['matrix']!r}{given(it)})")
                expected.append((nm, repr(sorted(it["parameters"].items())), repr(sorted(it["matrix"].items()))))
        elif it["kind"] == "run":
            extra = it["extra"] or {}
            W.extra[nm] = {**it.get("attrs", {}), **extra}
            call = f"Simulation(model={cls}, name='{nm}', parameters={it['parameters']!r}, matrix={it['matrix']!r}{given(it)}).run({', '.join(f'{k}={v!r}' for k, v in extra.items())})"
            lines.append(used(it, call))
            for c in combos(it["parameters"], it["matrix"]):
                expected.append((nm, repr(sorted(c.items())), repr([])))
        elif it["kind"] == "class_run":
            lines.append(used(it, f"{cls}.run(name='{nm}')"))
            expected.append((nm, repr([]), repr([])))
    if f["fault"] and f["fault"][1] >= len(f["body"]):
        lines.append(FAULTS[f["fault"][0]])
    if not expected:
        expected = [(c, repr([]), repr([])) for c in envs]
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return path, expected


def snapshot():
    return list(sys.path), set(sys.modules)


def show(s):
    return (s.name, repr(sorted((s.parameters or {}).items())), repr(sorted((s.matrix or {}).items())))


def run(sc, ctx):
    global W
    W = w = World(sc, ctx)
    base = scratch.new()
    path = list(sys.path)
    mods = set(sys.modules)
    try:
        paths = [write(f, n, base) for n, f in enumerate(sc["files"])]
        if sc["together"]:
            together(w, sc, ctx, paths)
        else:
            for n, f in enumerate(sc["files"]):
                one(w, sc, ctx, f, n, *paths[n])
                for s in sc.get("sources", []):
                    if s["at"] == n:
                        source(w, ctx, s, base)
        if sc.get("pattern"):
            by_pattern(w, sc, ctx, paths, base)
        ctx.nontrivial = w.loads >= 2 and w.special >= 1
    finally:
        sys.path[:] = path
        for m in list(sys.modules):
            if m not in mods and (m.startswith("helper_f") or m == "imported_file"):
                del sys.modules[m]


def fails(f, expected):
    return f["kind"] == "missing" or f["fault"] is not None or not expected


def normal_run(ctx, where):
    before = len(W.ran)
    envs = ssim.Simulation(model=LoadModel, name="normal", exporters=[], dump=False).run()
    ctx.check(len(envs) == 1 and len(W.ran) == before + 1, "C22", "cannot-run", f"{where}: a normal simulation does not run")
    W.ran.pop()


def check_clean(ctx, before, f, path, where):
    p, m = before
    helper = {x for x in set(sys.modules) - m if x.startswith("helper_")}
    left = set(sys.modules) - m - helper
    mine = {x for x in left if getattr(sys.modules[x], "__file__", None) == path or x == "imported_file"}
    ctx.check(not mine, "C22", "module-left", f"{where}: modules {sorted(mine)} stay loaded")
    if f["kind"] != "yaml":
        ctx.check(sys.path == p, "C22", "path-left", lambda: f"{where}: the import path was {p} and now it is {sys.path}")


def verify(ctx, sims, expected, options, where):
    got = sorted(show(s) for s in sims)
    ctx.check(got == sorted(expected), "C22", "simulations", lambda: f"{where}: the simulations are {got} instead of {sorted(expected)}")
    for s in sims:
        for k, v in {**W.extra.get((s.parameters or {}).get("who", s.name), {}), **options}.items():
            ctx.check(getattr(s, k) == v, "C22", "options", f"{where}: {k} is {getattr(s, k)!r} instead of {v!r}")


def one(w, sc, ctx, f, n, path, expected):
    where = f"file {n} ({f['kind']}, {f['fault']})"
    before = snapshot()
    ran = len(w.ran)
    how = f["how"]
    if f["kind"] == "yaml":
        how = {"py": "config", "from_py": "from_config"}.get(how, how)
        if how == "from_config" and (len(expected) != 1 or f["fault"]):
            how = "config"
    options = f["options"]
    if how in ("from_py", "from_config"):
        options = {}
    error, sims = None, []
    if f["kind"] == "yaml" and f["fault"] and f["fault"][0] == "eio":
        seams.DISK.reset(root=os.path.dirname(path), plan={"target": "read", "kind": "eio", "at": 1 + f["fault"][1] % 2})
    try:
        if how == "file":
            for s in ssim.iter_from_file(path, **options):
                sims.append(s)
        elif how == "from_file":
            sims = ssim.from_file(path, **options)
        elif how == "py":
            sims = list(ssim.iter_from_py(path, **options))
        elif how == "config":
            for s in ssim.iter_from_config(path, **options):
                sims.append(s)
        elif how == "from_config":
            sims = [ssim.from_config(path)]
        else:
            sims = [ssim.from_py(path)]
    except BaseException as ex:
        error = ex
    seams.DISK.reset()
    ctx.event("load", n, how, type(error).__name__, len(sims))
    ctx.check(len(w.ran) == ran, "C22", "ran", f"{where}: loading it ran {w.ran[ran:]}")
    w.loads += 1
    if fails(f, expected):
        w.special += 1
        ctx.fault("failing file: " + (f["fault"][0] if f["fault"] else f["kind"]))
        ctx.check(error is not None and (f["kind"] == "yaml" or not sims), "C22", "silent", f"{where}: no error, and {len(sims)} simulations")
        if f["fault"] and f["kind"] == "yaml":
            # Those before the failure may be known already
            early = [show(s) for s in sims]
            ctx.check(all(early.count(s) <= expected.count(s) for s in early), "C22", "simulations", lambda: f"{where}: the simulations are {early}, out of {expected}")
        elif f["fault"]:
            names = {f["fault"][0]} | ({"ModuleNotFoundError"} if f["fault"][0] == "ImportError" else set())
            if f["fault"][0] == "StopIteration":
                names.add("RuntimeError")
            chain, e = set(), error
            while e is not None and len(chain) < 10:
                chain.add(type(e).__name__)
                e = e.__cause__ or e.__context__
            ctx.check(names & chain, "C22", "masked", lambda: f"{where}: the error is {error!r}")
    else:
        if error is not None:
            raise error
        w.special += any(i["kind"] in ("run", "class_run") for i in f["body"])
        if how in ("from_py", "from_config"):
            got = show(sims[0])
            ctx.check(got in expected, "C22", "simulations", lambda: f"{where}: the first simulation is {got}, out of {expected}")
        else:
            verify(ctx, sims, expected, options, where)
        if f["kind"] == "yaml":
            for s in sims:
                given_path = W.extra.get((s.parameters or {}).get("who", s.name), {}).get("dir_path", os.path.dirname(path))
                ctx.check(s.dir_path == given_path, "C22", "folder", f"{where}: the folder of {s.name} is {s.dir_path} instead of {given_path}")
    check_clean(ctx, before, f, path, where)
    if f["run"] and sims:
        start = len(w.ran)
        total = 0
        for s in sims:
            s.exporters = []
            envs = s.run(dump=False, dry_run=False)
            k = s.iterations
            for v in (s.matrix or {}).values():
                k *= len(v)
            ctx.check(len(envs) == k, "C22", "later-run", f"{where}: {len(envs)} environments from {show(s)} instead of {k}")
            total += k
        ctx.check(len(w.ran) - start == total, "C22", "later-run", f"{where}: {len(w.ran) - start} runs instead of {total}")
    if f["normal"] or fails(f, expected):
        normal_run(ctx, "after " + where)


SOURCE = '''
import dst.worlds.loader as L
MARK = {mark!r}
{fault}

class Worker(L.Quick):
    def step(self):
        {step}
        return super().step()

class {cls}(L.LoadModel):
    mark = MARK

    def init(self):
        {init}
        L.W.ran.append(MARK)
        self.add_agent(Worker)
'''


def source(w, ctx, s, base):
    """A simulation whose classes come from a file of their own, which may fail."""
    folder = os.path.join(base, s["folder"])
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, s["file"] + ".py")
    where = f"source file {s['folder']}/{s['file']}.py ({s['fault']})"
    w.marks += 1
    mark = f"mark {w.marks}"
    fault = s["fault"]
    if fault == "missing":
        if os.path.exists(path):
            os.remove(path)
    else:
        with open(path, "w") as fh:
            fh.write(SOURCE.format(mark=mark, cls="Other" if fault == "no-class" else "TheModel", fault=FAULTS.get(fault, ""),
                                   step="raise RuntimeError('boom')" if fault == "step" else "pass", init="raise RuntimeError('boom')" if fault == "init" else "pass"))
        # A file that changes within a second is not taken from the cache of compiled files
        os.utime(path, (1e9 + 10 * w.marks, 1e9 + 10 * w.marks))
    before = snapshot()
    kw = dict(model="TheModel", name="sourced", iterations=s["iterations"], exporters=[], dump=False)
    kw.update({"source_file": s["file"] + ".py", "dir_path": folder} if s["relative"] else {"source_file": path})
    start = len(w.ran)
    error, envs, sim = None, [], None
    try:
        sim = ssim.Simulation(**kw)
        ctx.check(len(w.ran) == start, "C22", "ran", f"{where}: loading it ran {w.ran[start:]}")
        envs = sim.run()
        if s["again"]:
            envs += sim.run()
    except BaseException as ex:
        error = ex
    ctx.event("source", s["fault"], type(error).__name__, len(envs))
    total = s["iterations"] * (2 if s["again"] else 1)
    if fault:
        w.special += 1
        ctx.fault("failing source file: " + fault)
        ctx.check(error is not None, "C22", "silent", f"{where}: no error, and {len(envs)} environments")
    else:
        if error is not None:
            raise error
        ran = w.ran[start:]
        ctx.check(ran == [mark] * total and [e.mark for e in envs] == ran, "C22", "simulations", lambda: f"{where}: ran {ran} instead of {[mark] * total}")
    w.loads += 1
    check_clean(ctx, before, {"kind": "py"}, path, where)
    del w.ran[start:]
    # Its names mean nothing to others
    for what in ("TheModel", "Other", "Worker"):
        try:
            other = ssim.Simulation(model=what, name="unrelated", exporters=[], dump=False)
        except Exception:
            continue
        ctx.fail("C22", "leak", f"{where}: {what} is still known to other simulations, as {other.model!r}")
    normal_run(ctx, "after " + where)


def by_pattern(w, sc, ctx, paths, base):
    """Every file that matches."""
    want = [s for f, (p, e) in zip(sc["files"], paths) if {"**": True, "*/": "/" not in f["folder"], "f1": f["folder"] == "f1"}[sc["pattern"][:2]] for s in e]
    sims = list(ssim.iter_from_file(os.path.join(base, sc["pattern"])))
    ctx.event("pattern", len(sims))
    verify(ctx, sims, want, {}, f"files like {sc['pattern']}")
    w.loads += 1
    w.special += 1


def together(w, sc, ctx, paths):
    """All in one call, up to the first one that fails."""
    before = snapshot()
    files = sc["files"]
    options = files[0]["options"]
    want = []
    bad = None
    early = []
    for n, (f, (p, e)) in enumerate(zip(files, paths)):
        if f["kind"] == "yaml" and f["fault"] and f["fault"][0] == "eio":
            continue
        if fails(f, e):
            bad = n
            if f["kind"] == "yaml":
                early = e
            break
        want += e
    sims, error = [], None
    try:
        for s in ssim.iter_from_file(*[p for f, (p, _) in zip(files, paths) if not (f["kind"] == "yaml" and f["fault"] and f["fault"][0] == "eio")], **options):
            sims.append(s)
    except BaseException as ex:
        error = ex
    ctx.event("load all", type(error).__name__, len(sims))
    ctx.check(not w.ran, "C22", "ran", f"loading files ran {w.ran}")
    ctx.check((error is not None) == (bad is not None), "C22", "silent", f"error {error!r}; the file that fails is {bad}")
    if bad is not None and early:
        extra = [show(s) for s in sims[len(want):]]
        ctx.check(all(extra.count(s) <= early.count(s) for s in extra), "C22", "simulations", lambda: f"several files: the simulations are {extra}, out of {early}")
        sims = sims[:len(want)]
    verify(ctx, sims, want, options, "several files")
    if not any(f["kind"] == "yaml" for f in files):
        ctx.check(sys.path == before[0], "C22", "path-left", f"the import path was {before[0]} and now it is {sys.path}")
    normal_run(ctx, "after several files")
    w.loads += len(files)
    w.special += 1


def cleanup():
    scratch.cleanup()
