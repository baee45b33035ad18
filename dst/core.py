"""Seeded search, replay, minimisation and evidence."""
import argparse
import copy
import hashlib
import importlib
import io
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOIL_REPO", "/repo")
REAL_TIME = seams.REAL_TIME

# property -> (module, quick runs, thorough runs, chunk)
REGISTRY = {}


def register(prop, module, quick, thorough, chunk=25, **kw):
    REGISTRY[prop] = dict(module=module, quick=quick, thorough=thorough, chunk=chunk, **kw)


from . import registry  # noqa: E402,F401


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, props, kind, message):
        super().__init__(message)
        self.props = props
        self.kind = kind
        self.message = message


class Foreign(Exception):
    """A different property was broken in this run."""


class Ctx:
    """What a world gets to report about its run."""

    def __init__(self, prop):
        self.prop = prop
        self.history = []
        self.stats = {}
        self.faults = {}
        self.sim_time = 0.0
        self.nontrivial = False
        self.digest = hashlib.blake2b(digest_size=8)

    def event(self, *ev):
        """Record an event of the observable history."""
        self.history.append(ev)
        self.digest.update(repr(ev).encode())

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def fail(self, props, kind, message):
        """Report that `props` (a string of ids) do not hold."""
        props = props.split() if isinstance(props, str) else props
        if self.prop in props:
            raise Violation(props, kind, message)
        raise Foreign(f"{props}: {kind}: {message}")

    def check(self, cond, props, kind, message):
        if not cond:
            self.fail(props, kind, message() if callable(message) else message)


def derive(*parts):
    return int.from_bytes(hashlib.blake2b(":".join(str(p) for p in parts).encode(), digest_size=8).digest(), "big")


_loaded = False


def load_soil():
    """Install the seams and import the code under test from its working tree."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    sys.path.insert(0, REPO)
    seams.install()
    import soil
    real = os.path.realpath(soil.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"soil was imported from {real}, not from {REPO}")
    import soil.simulation, soil.exporters, soil.environment, soil.agents, soil.time, soil.utils  # noqa
    import pandas, sqlalchemy, networkx, yaml  # noqa
    seams.BUDGET.install(os.path.join(REPO, "soil"))
    import logging
    logging.raiseExceptions = False


def world_for(prop):
    return importlib.import_module("dst.worlds." + REGISTRY[prop]["module"])


def quiet():
    """Soil writes to the terminal; nobody reads it."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def execute(prop, scenario):
    """One simulated run. Returns a JSON-able result."""
    world = world_for(prop)
    ctx = Ctx(prop)
    seams.CLOCK.reset()
    seams.DISK.reset()
    seams.seed_everything(scenario.get("seed", 0))
    res = {"violation": None, "foreign": None}
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    import logging
    h = logging.getLogger().handlers
    for x in h:
        if isinstance(x, logging.StreamHandler):
            x.setStream(io.StringIO())
    seams.BUDGET.start(world.BUDGET if hasattr(world, "BUDGET") else 400000)
    try:
        world.run(copy.deepcopy(scenario), ctx)
    except Violation as v:
        res["violation"] = {"kind": v.kind, "message": v.message}
    except Foreign as v:
        res["foreign"] = str(v)
    except seams.SimHang as v:
        res["violation"] = {"kind": "hang", "message": f"no progress: {v}"}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as v:  # noqa: B902
        if isinstance(v, OSError) and v.errno == 28 and "injected" not in str(v):
            raise
        tb = traceback.format_exc()
        frames = [f for f in traceback.extract_tb(v.__traceback__) if f.filename.startswith((REPO, HERE))]
        where = f"{os.path.basename(frames[-1].filename)}:{frames[-1].name}" if frames else "?"
        res["violation"] = {"kind": f"exception:{type(v).__name__}:{where}", "message": "unexpected " + tb[-3000:]}
    finally:
        used = seams.BUDGET.stop()
        seams.DISK.reset()
        sys.stdout, sys.stderr = out, err
        for f in (getattr(world, "cleanup", None),):
            if f:
                f()
    res.update(
        digest=ctx.digest.hexdigest(), stats=ctx.stats, faults=ctx.faults, sim_time=ctx.sim_time,
        nontrivial=ctx.nontrivial, events=len(ctx.history), loops=used,
        tail=[repr(e) for e in ctx.history[-25:]] if res["violation"] else [],
    )
    return res


def generate(prop, seed, idx):
    world = world_for(prop)
    s = derive(seed, prop, idx)
    rng = random.Random(s)
    scenario = world.gen(rng, prop, idx)
    scenario.setdefault("seed", s % (1 << 31))
    return scenario


# ---------------------------------------------------------------- processes

def in_child(fn, timeout=600):
    """Run fn in a forked child and return its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, w)
    os.close(w)
    return _collect(pid, r, timeout)


def _child(fn, w):
    code = 0
    try:
        quiet()
        res = fn()
    except BaseException:
        res = {"harness_error": traceback.format_exc()}
        code = 3
    try:
        data = json.dumps(res).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
    finally:
        os._exit(code)


def _collect(pid, r, timeout):
    data = b""
    end = REAL_TIME() + timeout
    while True:
        left = end - REAL_TIME()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"timeout": True}
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return {"died": status}
    return json.loads(data)


def run_chunk(prop, seed, idxs):
    """Several runs one after another in a fresh process."""
    out = []
    for i in idxs:
        sc = generate(prop, seed, i)
        res = execute(prop, sc)
        res["idx"] = i
        if res["violation"]:
            res["scenario"] = sc
        out.append(res)
        if res["violation"]:
            break
    return out


def parallel_chunks(prop, seed, chunks, jobs, wall, chunk_timeout):
    """Yield the results of each chunk, in any order, with one process per chunk."""
    running = {}
    pending = list(reversed(chunks))
    start = REAL_TIME()
    stop = False
    try:
        while running or (pending and not stop):
            while pending and len(running) < jobs and not stop:
                idxs = pending.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _child(lambda: run_chunk(prop, seed, idxs), w)
                os.close(w)
                running[r] = [pid, idxs, b"", REAL_TIME() + chunk_timeout]
            ready, _, _ = select.select(list(running), [], [], 1.0)
            now = REAL_TIME()
            for r in list(running):
                pid, idxs, data, end = running[r]
                if r in ready:
                    part = os.read(r, 1 << 20)
                    if part:
                        running[r][2] += part
                        continue
                    os.close(r)
                    del running[r]
                    _, status = os.waitpid(pid, 0)
                    res = json.loads(data) if data else {"died": status}
                    got = yield idxs, res
                    if got:
                        stop = True
                elif now > end:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del running[r]
                    yield idxs, {"timeout": True}
            if REAL_TIME() - start > wall:
                stop = True
    finally:
        for r, (pid, *_x) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
            except OSError:
                pass


# ---------------------------------------------------------------- minimisation

SHRINK_LISTS = {"agents", "turns", "pre", "ops", "runs", "acts", "handlers", "queries", "files", "items", "tasks",
                "states", "values", "reporters", "exporters", "perturb", "nodes", "edges", "chain", "body"}


def _paths(node, path=()):
    if isinstance(node, dict):
        for k, v in node.items():
            if isinstance(v, list) and k in SHRINK_LISTS:
                yield path + (k,), v
            yield from _paths(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _paths(v, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def shrink(prop, scenario, kind, deadline, timeout=120):
    """Greedy minimisation: drop parts and simplify numbers while the property still fails."""
    def fails(sc):
        res = in_child(lambda: execute(prop, sc), timeout)
        v = res.get("violation")
        return bool(v) and v["kind"] == kind

    best = copy.deepcopy(scenario)
    tried = 0
    improved = True
    while improved and REAL_TIME() < deadline:
        improved = False
        for path, lst in sorted(_paths(best), key=lambda x: -len(json.dumps(x[1]))):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and REAL_TIME() < deadline:
                i = 0
                while i < len(_get(best, path)) and REAL_TIME() < deadline:
                    cand = copy.deepcopy(best)
                    del _get(cand, path)[i:i + size]
                    tried += 1
                    if fails(cand):
                        best = cand
                        improved = True
                    else:
                        i += size
                size //= 2
    return best, tried


# ---------------------------------------------------------------- replay files

def write_replay(prop, seed, idx, body):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{seed}-{idx}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run_sequence(prop, scenarios):
    res = None
    for sc in scenarios:
        res = execute(prop, sc)
        if res["violation"]:
            return res
    return res


def replay(path):
    with open(path) as f:
        body = json.load(f)
    prop = body["property"]
    load_soil()
    a = in_child(lambda: run_sequence(prop, body["scenarios"]))
    b = in_child(lambda: run_sequence(prop, body["scenarios"]))
    v = a.get("violation")
    print("first :", a.get("digest"), json.dumps(a.get("violation"))[:2000])
    print("second:", b.get("digest"), "identical" if a == b else "DIFFERENT")
    for line in a.get("tail", []):
        print("   ", line)
    if v:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if "violation" not in a:
        print("the replay ended abnormally:", {k: a[k] for k in a if k != "tail"})
        return 2
    return 0


# ---------------------------------------------------------------- main

def run_check(prop, tier, seed, runs=None, jobs=None, wall=None):
    start = REAL_TIME()
    reg = REGISTRY[prop]
    world = world_for(prop)
    n = runs or reg[tier]
    jobs = jobs or min(8, os.cpu_count() or 1)
    wall = wall or (150 if tier == "quick" else 3600)
    chunk = reg["chunk"]
    idxs = list(range(n))
    chunks = [idxs[i:i + chunk] for i in range(0, n, chunk)]
    agg = dict(evaluations=0, foreign=0, events=0, loops=0, top=0, sim_time=0.0)
    stats, faults = {}, {}
    distinct, nontrivial = set(), set()
    digests = {}
    bad = []
    problems = []
    foreign_samples = []

    gen = parallel_chunks(prop, seed, chunks, jobs, wall, chunk_timeout=reg.get("timeout", 400))
    try:
        item = next(gen)
        while True:
            ids, res = item
            stop = False
            if isinstance(res, dict):
                if res.get("timeout"):
                    bad.append((ids[0], ids, None, {"kind": "stuck", "message": "the run did not finish in the allotted time"}))
                    stop = True
                else:
                    problems.append((ids, res))
                    stop = len(problems) > 3
            else:
                for r in res:
                    agg["evaluations"] += 1
                    agg["events"] += r["events"]
                    agg["loops"] += r["loops"]
                    agg["top"] = max(agg["top"], r["loops"])
                    agg["sim_time"] += r["sim_time"]
                    distinct.add(r["digest"])
                    digests[r["idx"]] = r["digest"]
                    if r["nontrivial"]:
                        nontrivial.add(r["digest"])
                    if r["foreign"]:
                        agg["foreign"] += 1
                        if len(foreign_samples) < 3:
                            foreign_samples.append((r["idx"], r["foreign"][:300]))
                    for k, v in r["stats"].items():
                        stats[k] = stats.get(k, 0) + v
                    for k, v in r["faults"].items():
                        faults[k] = faults.get(k, 0) + v
                    if r["violation"]:
                        bad.append((r["idx"], ids, r["scenario"], r["violation"]))
                        stop = True
            item = gen.send(stop)
    except StopIteration:
        pass

    # The whole-batch oracle of the worlds that compare processes or count occurrences
    explore_s = REAL_TIME() - start
    final = getattr(world, "batch", None)
    extra = {}
    if final and not bad and not problems:
        b = final(prop, tier, seed)
        extra = b.get("coverage", {})
        for k, v in b.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        agg["evaluations"] += b.get("evaluations", 0)
        nontrivial |= set(b.get("digests", []))
        distinct |= set(b.get("digests", []))
        if b.get("violation"):
            bad.append((b["violation"].get("idx", 0), None, b["violation"].get("scenario"), b["violation"]))

    # Determinism: run some of the seeds again in fresh processes
    again = same = 0
    if not bad and not problems:
        pick = sorted(digests)[:: max(1, len(digests) // 6)][:6]
        for i in pick:
            r = in_child(lambda: [execute(prop, generate(prop, seed, i))])
            if isinstance(r, list):
                again += 1
                same += r[0]["digest"] == digests[i]

    violation = None
    if bad:
        bad.sort(key=lambda x: x[0])
        idx, ids, scenario, v = bad[0]
        body = {"property": prop, "verif_seed": seed, "run": idx, "kind": v["kind"], "message": v["message"]}
        tried = 0
        if scenario is None and ids:
            scenarios = [generate(prop, seed, i) for i in ids]
        else:
            alone = in_child(lambda: run_sequence(prop, [scenario]))
            if alone.get("violation"):
                small, tried = shrink(prop, scenario, alone["violation"]["kind"], REAL_TIME() + (25 if tier == "quick" else 120))
                final_res = in_child(lambda: run_sequence(prop, [small]))
                if final_res.get("violation"):
                    scenarios = [small]
                    body.update(kind=final_res["violation"]["kind"], message=final_res["violation"]["message"], history_tail=final_res["tail"])
                else:
                    scenarios = [scenario]
            else:
                # It needs what ran before in the process
                scenarios = [generate(prop, seed, i) for i in ids if i < idx] + [scenario] if ids else [scenario]
                i = 0
                end = REAL_TIME() + 25
                while i < len(scenarios) - 1 and REAL_TIME() < end:
                    cand = scenarios[:i] + scenarios[i + 1:]
                    if in_child(lambda: run_sequence(prop, cand)).get("violation"):
                        scenarios = cand
                    else:
                        i += 1
        body["shrink_steps"] = tried
        body["scenarios"] = scenarios
        path = write_replay(prop, seed, idx, body)
        violation = (path, body)

    wall_s = REAL_TIME() - start
    samples = []
    for i in sorted(digests)[:2]:
        sc = generate(prop, seed, i)
        text = json.dumps(sc)
        samples.append(sc if len(text) < 6000 else {"run": i, "truncated": text[:6000]})
    cov = dict(
        evaluations=agg["evaluations"],
        distinct_nontrivial=len(nontrivial),
        rule=world.RULE[prop] if isinstance(world.RULE, dict) else world.RULE,
        samples=samples,
        distinct_histories=len(distinct),
        distinct_measure="64-bit digest of the recorded history of the run (activations, messages, operations and their simulated times, in order)",
        events=agg["events"],
        soil_loop_iterations=agg["loops"],
        most_loop_iterations_in_a_run=agg["top"], loop_iterations_allowed=getattr(world, "BUDGET", 400000),
        simulated_time=round(agg["sim_time"], 3),
        runs_per_hour=int(agg["evaluations"] / max(explore_s, 1e-6) * 3600),
        seeds_per_hour=int(agg["evaluations"] / max(explore_s, 1e-6) * 3600),
        faults_injected=dict(sorted(faults.items())),
        occurrences=dict(sorted(stats.items())),
        runs_cut_short_by_another_property=agg["foreign"],
        determinism={"seeds_run_again": again, "identical_histories": same},
        components=getattr(world, "COMPONENTS", {"real": ["soil", "mesa", "networkx", "pandas"], "stub": ["wall clock", "global random generators"]}),
        planned_runs=n,
    )
    cov.update(extra)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall_s, 2),
        violations=1 if violation else 0,
        assumptions=getattr(world, "ASSUMPTIONS", []),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{prop} tier={tier} seed={seed}: {agg['evaluations']} runs ({len(distinct)} distinct histories, "
          f"{len(nontrivial)} non-trivial, {agg['foreign']} cut short), determinism {same}/{again}, {wall_s:.1f}s")
    for s in foreign_samples:
        print("  cut short:", s)
    if violation:
        path, body = violation
        print(f"  {body['kind']}: {body['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        print("harness problem:", json.dumps(problems[0])[:3000])
        return 2
    if agg["evaluations"] == 0:
        print("nothing was run")
        return 2
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--serve", help=argparse.SUPPRESS)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--show", type=int, help="print the scenario of a run, and run it")
    args = ap.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    if args.replay:
        return replay(args.replay)
    load_soil()
    if args.serve:
        importlib.import_module("dst.worlds." + args.serve).serve()
        return 0
    if args.selftest:
        for p in REGISTRY:
            world_for(p)
        print("ok:", len(REGISTRY), "checks")
        return 0
    if args.show is not None:
        sc = generate(args.property, args.seed, args.show)
        print(json.dumps(sc, indent=1))
        print(json.dumps(in_child(lambda: execute(args.property, sc)), indent=1)[:6000])
        return 0
    return run_check(args.property, tier, args.seed, args.runs, args.jobs, args.wall)
