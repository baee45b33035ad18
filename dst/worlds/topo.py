"""Networks from files (which may fail), dictionaries and generators. Decides C27."""
import copy
import importlib
import io
import os
import random
import sys
import warnings

import networkx as nx

import soil.agents as sagents
import soil.simulation as ssim
from soil.environment import Environment

from .. import scratch, seams

RULE = "random sequences of networks, each one through a file format, a dictionary, a graph or a generator, loaded in several ways; files are missing, truncated, replaced, or fail when they are read; non-trivial: at least two loads, with a fault or the same file twice"
COMPONENTS = {"real": ["soil.network", "soil.environment", "soil.simulation", "soil.serialization", "networkx"], "stub": ["files (real ones in a scratch folder, with injected read errors and short reads)", "wall clock", "global random generators"]}
BUDGET = 5000000
ASSUMPTIONS = ["the nodes of GEXF files are integers",
               "a truncated file yields what networkx makes of it, or an error if it makes nothing of it"]

FORMATS = ["gexf", "gexf", "graphml", "gml", "edgelist", "adjlist", "weighted_edgelist", "multiline_adjlist", "graph6", "sparse6"]
PLAIN = ("edgelist", "adjlist", "weighted_edgelist", "multiline_adjlist", "graph6", "sparse6")
GENERATORS = [["complete_graph", {"n": 4}], ["path_graph", {"n": 5}], ["star_graph", {"n": 3}], ["cycle_graph", {"n": 6}], ["balanced_tree", {"r": 2, "h": 2}], ["grid_2d_graph", {"m": 2, "n": 3}],
              ["empty_graph", {"n": 3}], ["barbell_graph", {"m1": 3, "m2": 1}], ["ladder_graph", {"n": 3}], ["complete_graph", {"n": 0}], ["networkx.generators.classic.wheel_graph", {"n": 5}],
              ["complete_graph", {"n": 4, "create_using": "DiGraph"}], ["path_graph", {"n": 1}]]
RANDOM = [["erdos_renyi_graph", {"n": 6, "p": 0.5}], ["erdos_renyi_graph", {"n": 5, "p": 0}], ["erdos_renyi_graph", {"n": 5, "p": 1}], ["barabasi_albert_graph", {"n": 7, "m": 2}], ["watts_strogatz_graph", {"n": 8, "k": 2, "p": 0.3}],
          ["random_regular_graph", {"d": 2, "n": 6}], ["gnm_random_graph", {"n": 6, "m": 7}]]
CUSTOM = ["custom", "custom_noseed", "custom_kw", "custom_fails", "custom_type_error", "no_such_generator"]


def gen(rng, prop, idx):
    loads = []
    for _ in range(rng.choice([1, 2, 3, 4, 5])):
        form = rng.choice(["file"] * 6 + ["dict", "dict", "graph", "generator", "random", "custom", "unknown"])
        via = rng.choice(["env", "env", "create", "sim", "yaml"])
        d = {"form": form, "via": via, "g": rng.randrange(1 << 20), "n": rng.choice([1, 2, 3, 5, 8]), "relative": rng.random() < 0.4, "iterations": rng.choice([1, 2])}
        if form in ("file", "unknown"):
            d["format"] = rng.choice(FORMATS) if form == "file" else rng.choice(["xyz", "", "txt", "py"])
            d["name"] = rng.choice(["a", "b", "with.dot", "two words"])
            d["folder"] = rng.choice(["f1", "f2"])
            d["directed"] = d["format"] not in PLAIN and rng.random() < 0.4
            d["key"] = rng.choice(["topology", "topology", "path"])
            r = rng.random()
            if form == "file":
                if r < 0.12:
                    d["fault"] = ["missing"]
                elif r < 0.3:
                    d["fault"] = ["truncated", rng.random()]
                elif r < 0.45:
                    d["fault"] = ["eio", rng.choice([1, 1, 2, 3, 5, 8])]
                elif r < 0.6:
                    d["fault"] = ["short"]
        elif form == "dict":
            d["directed"] = rng.random() < 0.4
            d["multi"] = rng.random() < 0.2
            d["bad"] = rng.choice([None, None, None, "no nodes", "no links", "text"])
        elif form == "graph":
            d["directed"] = rng.random() < 0.4
            d["multi"] = rng.random() < 0.3
        elif form == "generator":
            d["gen"] = copy.deepcopy(rng.choice(GENERATORS))
        elif form == "random":
            d["gen"] = copy.deepcopy(rng.choice(RANDOM))
        else:
            d["gen"] = [rng.choice(CUSTOM + ["local", "local"]), {"n": rng.randint(1, 6), "word": rng.choice(["x", "", None])}]
        if form in ("graph", "dict") and rng.random() < 0.1:
            d["n"] = 0
        if form in ("graph", "dict") and rng.random() < 0.3:
            d["gattrs"] = {"name": "net", "year": 2020}
        if form == "dict" and rng.random() < 0.15:
            d["drop"] = rng.choice(["directed", "multigraph", "graph"])
        if form == "file" and d["relative"] and rng.random() < 0.4:
            d["decoy"] = True
        d["gap"] = rng.choice([0, 0, 0.3])
        d["as_function"] = rng.random() < 0.4
        loads.append(d)
    return {"loads": loads}


W = None


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []
        self.built = []


def _made(n):
    g = nx.path_graph(n)
    g.add_node("extra", color="blue")
    return g


def custom(n, word, seed=None):
    W.calls.append((n, word, seed is not None))
    return _made(n)


def custom_noseed(n, word):
    W.calls.append((n, word, None))
    return _made(n)


def custom_kw(**kw):
    W.calls.append((kw["n"], kw["word"], "seed" in kw))
    return _made(kw["n"])


def custom_fails(n, word, seed=None):
    raise ValueError("failing generator")


def custom_type_error(n, word, seed=None):
    raise TypeError("failing generator")


class Still(sagents.BaseAgent):
    def step(self):
        return float(self.die())


class Model(Environment):
    def init(self):
        W.built.append(self)
        self.add_agent(Still)


def make(d):
    r = random.Random(d["g"])
    cls = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[bool(d.get("directed")), bool(d.get("multi"))]
    g = cls(**d.get("gattrs", {}))
    n = d["n"]
    fmt = d.get("format")
    if fmt in ("edgelist", "weighted_edgelist"):
        n = max(n, 2)
    start = 0 if fmt in ("graph6", "sparse6") else r.choice([0, 0, 1, 10])
    nodes = list(range(start, start + n))
    attrs = fmt not in PLAIN
    for v in nodes:
        g.add_node(v, **({"color": r.choice(["red", "blue"]), "size": r.randint(0, 9)} if attrs and r.random() < 0.7 else {}))
    for i in range(n - 1):
        # Some nodes without edges, in the formats that keep them
        if fmt in ("edgelist", "weighted_edgelist") or not d.get("gap") or r.random() > d["gap"]:
            g.add_edge(nodes[i], nodes[i + 1])
    for _ in range(r.randint(0, n)):
        a, b = r.choice(nodes), r.choice(nodes)
        if a != b:
            g.add_edge(a, b)
    if attrs or fmt == "edgelist":
        for e in g.edges:
            if r.random() < 0.6:
                g.edges[e]["weight"] = r.choice([1, 2, 7])
    if fmt == "weighted_edgelist":
        for e in g.edges:
            g.edges[e]["weight"] = r.choice([1.0, 2.5, 7.0])
    return g


def shape(g, kind=None, skip=()):
    conv = kind or (lambda x: x)
    return (g.is_directed(), g.is_multigraph(),
            sorted((repr(conv(n)), sorted((k, v) for k, v in d.items() if k not in skip)) for n, d in g.nodes(data=True)),
            sorted((sorted([repr(conv(a)), repr(conv(b))]) if not g.is_directed() else [repr(conv(a)), repr(conv(b))], sorted((k, v) for k, v in d.items() if k not in skip)) for a, b, d in g.edges(data=True)))


def write(g, fmt, path):
    m = getattr(nx, "write_" + fmt)
    if fmt == "gexf":
        m(g, path, version="1.2draft")
    else:
        m(g, path)


def read(fmt, path):
    kw = {"version": "1.2draft", "node_type": int} if fmt == "gexf" else {}
    return getattr(nx, "read_" + fmt)(path, **kw)


def run(sc, ctx):
    global W
    W = w = World(ctx)
    base = scratch.new()
    path = list(sys.path)
    seen = set()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for n, d in enumerate(sc["loads"]):
                seams.DISK.reset(root=base)
                f = one(w, ctx, d, base, n)
                where = (d.get("folder"), d.get("name"), d.get("format"))
                if n and (f or (d["form"] == "file" and where in seen)):
                    ctx.nontrivial = True
                seen.add(where)
    finally:
        sys.path[:] = path
        for m in [m for m in sys.modules if m.startswith("made")]:
            del sys.modules[m]
        seams.DISK.reset()


def load(d, base, folder, value, params, n):
    """One or more environments with that network."""
    via = d["via"]
    kw = {"topology": value} if params is None else dict(network_generator=params[0], network_params=params[1])
    if d.get("key") == "path":
        kw = {"network_params": {"path": value}}
    if via == "env":
        return [Model(dir_path=folder, **kw)]
    if via == "create":
        env = Model(dir_path=folder)
        if params is not None:
            env.create_network(generator=params[0], **params[1])
        elif d.get("key") == "path":
            env.create_network(path=value)
        else:
            env.create_network(value)
        return [env]
    opts = dict(model=Model, name="topo", dir_path=folder, iterations=d["iterations"], exporters=[], dump=False)
    if via == "yaml" and isinstance(value, (str, dict, type(None))) and (params is None or isinstance(params[0], str)) and "create_using" not in (params or [0, {}])[1]:
        import yaml
        conf = os.path.join(folder, f"conf{n}.yml")
        with open(conf, "w") as fh:
            yaml.dump(dict(model="dst.worlds.topo.Model", name="topo", iterations=d["iterations"], exporters=[], parameters=kw), fh)
        return sum((s.run() for s in ssim.iter_from_file(conf)), [])
    return ssim.Simulation(parameters=kw, **opts).run()


def one(w, ctx, d, base, n):
    form = d["form"]
    folder = os.path.join(base, d.get("folder", "f1"))
    os.makedirs(folder, exist_ok=True)
    where = f"load {n} ({form} {d.get('format', d.get('gen', ''))}, {d['via']}, {d.get('fault')})"
    want = error = None
    value = params = None
    fault = d.get("fault")
    keep = None
    skip = ()
    plan = gattrs = None
    cwd = os.getcwd()
    if form in ("file", "unknown"):
        fmt = d["format"]
        path = os.path.join(folder, d["name"] + ("." + fmt if fmt else ""))
        g = make(d)
        if form == "unknown":
            with open(path, "w") as fh:
                fh.write("0 1\n")
            error = "an unknown format"
        else:
            write(g, fmt, path)
            skip = ("label", "id") if fmt in ("gexf", "gml", "graphml") else ()
            kind = None if fmt in ("gexf", "graph6", "sparse6") else str
            want = shape(g, kind, skip)
            if fault and fault[0] == "missing":
                os.remove(path)
                error = "a missing file"
            elif fault and fault[0] == "truncated":
                size = os.path.getsize(path)
                os.truncate(path, int(size * fault[1]))
                try:
                    want = shape(read(fmt, path), None, skip)
                except Exception:
                    error = "a truncated file"
            elif fault and fault[0] == "eio":
                plan = {"kind": "eio", "target": "read", "at": fault[1]}
            elif fault and fault[0] == "short":
                plan = {"kind": "short-read", "target": "read", "at": 1}
        value = path
        if d["relative"]:
            value = os.path.basename(path) if d["g"] % 2 else os.path.join("..", d["folder"], os.path.basename(path))
    elif form == "dict":
        g = make(d)
        want = shape(g)
        value = nx.node_link_data(g)
        if d["bad"] == "no nodes":
            value.pop("nodes")
        elif d["bad"] == "no links":
            value.pop("links")
        elif d["bad"] == "text":
            value = {"nodes": "abc", "links": 7}
        if d["bad"]:
            error = "a wrong dictionary"
        else:
            if d.get("drop"):
                value.pop(d["drop"], None)
            g = nx.node_link_graph(copy.deepcopy(value))
            want = shape(g)
            gattrs = dict(g.graph)
        keep = copy.deepcopy(value)
    elif form == "graph":
        value = make(d)
        want = shape(value)
        gattrs = dict(value.graph)
    elif form in ("generator", "random"):
        name, p = d["gen"]
        p = dict(p)
        if p.get("create_using"):
            p["create_using"] = getattr(nx, p["create_using"])
        params = [name, p]
        fn = getattr(nx, name.rsplit(".", 1)[-1])
        if d["as_function"]:
            params[0] = fn
        if form == "generator":
            want = shape(fn(**p))
    else:
        name, p = d["gen"]
        params = ["dst.worlds.topo." + name, dict(p)]
        if d["as_function"] and name not in ("no_such_generator", "local"):
            params[0] = globals()[name]
        if name == "local":
            # In a module beside the simulation
            mod = f"made{d['g']}_{n}"
            with open(os.path.join(folder, mod + ".py"), "w") as fh:
                fh.write("from dst.worlds import topo\ndef local(n, word):\n    return topo.custom_noseed(n, word)\n")
            importlib.invalidate_caches()
            params[0] = mod + ".local"
            ctx.count("generators beside the simulation")
        if "fails" in name or "error" in name or name == "no_such_generator":
            error = "a failing generator"
        want = shape(_made(p["n"]))
    if d.get("decoy"):
        # There is another network with the same relative name in the current folder
        decoy = os.path.join(base, "current")
        os.makedirs(decoy, exist_ok=True)
        write(make(dict(d, g=d["g"] + 2, n=d["n"] + 1)), d["format"], os.path.join(decoy, os.path.basename(value)))
        os.chdir(decoy)
        ctx.count("decoys")
    w.calls = []
    got = problem = None
    if plan:
        seams.DISK.reset(root=base, plan=plan)
    try:
        got = load(d, base, folder, value, params, n)
    except Exception as ex:
        problem = ex
    finally:
        os.chdir(cwd)
    fired = seams.DISK.fired
    seams.DISK.reset(root=base)
    if plan and fired:
        ctx.fault("read: " + plan["kind"])
        if plan["kind"] == "eio":
            error = "a read error"
    elif fault and not plan:
        ctx.fault("file: " + fault[0])
    ctx.event("load", n, form, type(problem).__name__, [repr(shape(e.G)[2:]) for e in got or []] if form != "custom" else None)
    if error:
        ctx.check(problem is not None, "C27", "silent", lambda: f"{where}: {error}, but no error; the network is {[list(e.G.nodes) for e in got]}")
        return True
    if problem is not None:
        raise problem
    ctx.check(len(got) >= 1, "C27", "nothing", f"{where}: no environments")
    for env in got:
        if want is not None:
            mine = shape(env.G, None, skip)
            ctx.check(mine == want, "C27", "network", lambda: f"{where}: the network is {mine} instead of {want}")
            ctx.check(gattrs is None or dict(env.G.graph) == gattrs, "C27", "network", lambda: f"{where}: the attributes of the network are {dict(env.G.graph)} instead of {gattrs}")
        else:
            name, p = d["gen"]
            ctx.check(len(env.G) == p["n"], "C27", "network", lambda: f"{where}: {len(env.G)} nodes instead of {p['n']}")
            edges = {"erdos_renyi_graph": {0: 0, 1: p["n"] * (p["n"] - 1) // 2}.get(p.get("p")), "barabasi_albert_graph": (p["n"] - p.get("m", 0)) * p.get("m", 0),
                     "watts_strogatz_graph": p["n"] * p.get("k", 0) // 2, "random_regular_graph": p["n"] * p.get("d", 0) // 2, "gnm_random_graph": p.get("m")}[name]
            if edges is not None:
                ctx.check(env.G.number_of_edges() == edges, "C27", "network", lambda: f"{where}: {env.G.number_of_edges()} edges instead of {edges}")
    if keep is not None:
        ctx.check(value == keep, "C27", "modified", f"{where}: the dictionary was modified")
    if form == "custom":
        name, p = d["gen"]
        ctx.check(len(w.calls) == len(got) and all(c[:2] == (p["n"], p["word"]) for c in w.calls), "C27", "arguments", lambda: f"{where}: the generator was called with {w.calls} instead of {p}")
    return bool(plan and fired)


def cleanup():
    scratch.cleanup()
