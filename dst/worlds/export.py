"""Sequences of runs that store their results on a simulated disk. Decides C16, C17, C18 and C19.

The disk is real (a scratch folder), behind a seam that injects errors and crashes at
any operation. A crash takes a copy of the disk at that very moment, and everything
goes on from the copy. Reference: rows computed from the environments themselves.
"""
import ast
import csv as pycsv
import itertools
import os
import shutil
import sqlite3
import sys
from collections import Counter

import networkx as nx
import yaml

import soil
import soil.agents as sagents
import soil.analysis as sanalysis
import soil.simulation as ssim
from soil.environment import Environment
from soil.exporters import Exporter

from .. import scratch, seams

RULE = {
    "C16": "random models, configurations and exporters, with and without an error at a random disk or database operation; non-trivial: at least two iterations were stored, or an injected error was reported",
    "C17": "as C16, with a crash at a random disk or database operation, recovery from the copy of the disk and a new run on it; non-trivial: the crash happened after some operation on the database",
    "C18": "two to four runs on the same folders, with backups, overwriting, strange clocks, errors and crashes; non-trivial: at least two runs stored results with the same name",
    "C19": "runs without storing and dry runs, with any exporters and previous results, on a disk that refuses every change; non-trivial: the model was run or there were previous results",
}
COMPONENTS = {"real": ["soil.exporters", "soil.simulation", "soil.utils", "soil.serialization", "soil.analysis", "soil.environment", "soil.datacollection", "pandas", "SQLAlchemy", "SQLite", "networkx", "PyYAML"],
              "stub": ["disk operations and database statements go through a fault-injecting seam to a scratch folder", "wall clock and file creation times", "global random generators"]}
ASSUMPTIONS = ["a crash of the process loses nothing that was already given to the operating system", "SQLite itself keeps its promises",
               "runs of simulations with the same name have the same reporters", "network snapshots (GEXF) and log-like outputs are not records: they show the last state",
               "two runs started at the very same clock reading share the name of their configuration file", "CSV files may repeat header lines, and keep a torn line after a failed write"]
BUDGET = 10000000
EXPORTERS = ["default", "SQLite", "csv", "YAML", "gexf", "dummy", "summary"]
VALUES = [0, 1, 2.5, "a", "text with, comma", "quote\"d", None, True, -7, "", "ñ", "two\nlines", "a\ttab and 'quotes'", 2 ** 53 + 1, "x" * 1500, "😀", "1", "None", [1, "b"], {"k": [1, 2]}, -0.001, 1e-12, "  padded ", " "]


def gen(rng, prop, idx):
    schema = {}
    for key in (("a", None), ("b", None), ("a", "g"), ("g", None), ("ab", None), ("a", "gg")):
        schema["/".join(str(k) for k in key)] = {
            "table": rng.random() < 0.4, "table2": rng.random() < 0.4, "odd": rng.random() < 0.4, "agents": rng.random() < 0.75, "more": rng.random() < 0.4, "state": rng.random() < 0.3,
            "aodd": rng.random() < 0.35}
        if rng.random() < 0.1:
            schema["/".join(str(k) for k in key)].update(agents=False, aodd=True, state=False)
    folders = rng.sample(list(schema), rng.choice([1, 1, 2] if prop != "C18" else [1, 1, 1, 2, 3]))

    if prop == "C18" and rng.random() < 0.2:
        folders = rng.choice([["a/None", "ab/None"], ["a/g", "a/gg"], ["a/None", "a/g"]])

    big = rng.random() < 0.03

    def one(i, last):
        mode = "plain"
        if prop == "C18":
            mode = rng.choice(["plain", "plain", "backup", "backup", "overwrite", "both"])
        elif rng.random() < 0.15:
            mode = rng.choice(["backup", "overwrite", "both"])
        exps = rng.sample(EXPORTERS, rng.choice([1, 1, 2, 3, 7] if prop == "C19" else [1, 1, 2, 3]))
        if prop in ("C17", "C18") and not {"default", "SQLite"} & set(exps) and rng.random() < 0.85:
            exps.append(rng.choice(["default", "SQLite"]))
        if "default" in exps:
            exps = [e for e in exps if e not in ("SQLite", "YAML")]
        params = {k: rng.choice(VALUES) for k in rng.sample(["pa", "pb", "pc"], rng.choice([0, 1, 1, 2]))}
        matrix = {}
        if rng.random() < 0.35:
            matrix = {"ma": rng.sample([1, 2, 3, "x"], rng.choice([1, 2]))}
        r = {"folder": rng.choice(folders), "mode": mode, "exporters": exps, "parameters": params, "matrix": matrix, "iterations": rng.choice([1, 1, 2, 3]),
             "max_steps": rng.choice([1, 2, 3, 5]), "agents": rng.choice([1, 2, 3]), "births": rng.random() < 0.3, "nodes": rng.choice([0, 0, 3, 4]), "seed": rng.choice(["s1", "s2"]),
             "clock": rng.choice(["tick", "tick", "frozen", "back", "jump"] if prop == "C18" else ["tick", "tick", "tick", "frozen", "jump"]),
             "same_start": rng.random() < (0.5 if prop == "C18" else 0.1), "dump": True, "dry": False, "fault": None, "level": rng.choice([20, 20, 10])}
        r["spill"] = rng.random() < 0.4
        if rng.random() < (0.7 if big else 0.02):
            r.update(rng.choice([{"iterations": rng.choice([11, 12, 21])}, {"iterations": 12, "max_steps": 1}, {"iterations": 11, "max_steps": 1}, {"max_steps": rng.choice([40, 70, 130]), "stamina": 200}, {"agents": rng.choice([15, 40])},
                                 {"max_steps": 20, "stamina": 15, "agents": 12}, {"matrix": {"ma": list(range(11))}}]))
        size = r["iterations"] * max(1, len(matrix.get("ma", [1])))
        sql_ops = 2 + 8 * size
        r["outdir"] = rng.choice(["given", "given", "default", "default", "relative"])
        p_fault = {"C16": 0.6 if last else 0.15, "C17": 0.95 if i == 0 or rng.random() < 0.3 else 0.1, "C18": 0.3, "C19": 0}[prop]
        if rng.random() < p_fault:
            target = rng.choice(["sql", "sql", "file", "dir", "any"])
            if prop == "C17" and rng.random() < 0.6:
                target = "sql"
            kind = {"C16": rng.choice(["enospc", "eio", "locked", "short"]), "C17": "crash", "C18": rng.choice(["enospc", "eio", "locked", "crash"])}.get(prop, "eio")
            top = {"sql": sql_ops, "file": 2 + 5 * size, "dir": 4, "any": sql_ops + 6}[target]
            r["fault"] = {"kind": kind, "at": rng.randint(1, max(1, top)), "target": target, "sticky": rng.random() < 0.4 and kind not in ("crash", "short")}
            if kind == "short":
                r["fault"]["target"] = "file"
                r["fault"]["at"] = rng.randint(1, 6)
            elif kind != "crash":
                r["fault"]["torn"] = rng.choice([None, 0.5])
            if kind == "crash":
                r["fault"]["after"] = rng.random() < 0.3
                r["fault"]["torn"] = rng.choice([None, 0.0, 0.5, 0.9])
        return r

    if prop == "C19":
        runs = [one(0, False) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        for _ in range(rng.choice([1, 1, 2])):
            q = one(1, True)
            q.update(dump=rng.random() < 0.3, dry=False, fault=None, how=rng.choice(["sim", "sim", "run", "cli", "class"]), disk=rng.choice(["readonly", "readonly", "enospc"]),
                     copy_to=rng.random() < 0.3, twin=rng.random() < 0.3)
            if q["dump"]:
                q["dry"] = True
            runs.append(q)
    else:
        n = {"C16": rng.choice([1, 1, 2, 2, 3] if rng.random() < 0.97 else [4, 6]), "C17": rng.choice([1, 1, 2]), "C18": rng.choice([2, 2, 3, 4] if rng.random() < 0.97 else [7, 9])}[prop]
        runs = [one(i, i == n - 1) for i in range(n)]
        if prop == "C17":
            runs = [r for r in ([dict(one(9, False), fault=None)] if rng.random() < 0.4 else [])] + runs
            runs.append(dict(one(9, True), fault=None, folder=runs[-1]["folder"], mode=rng.choice(["plain", "plain", "plain", "backup"])))
    return {"runs": runs, "schema": schema, "stray": rng.random() < 0.5, "place": rng.choice(["soil_output"] * 4 + ["results", "my runs/out.d", "soil_output2"])}


W = None


def level_of(m):
    return m.level


ODD = [1, None, 2.5, True, float("inf"), -3, "", 10 ** 12, "text", "t" * 700, "two\nlines", "😀, \"x\""]


def odd_of(m):
    return ODD[m.schedule.steps * (2 + len(str(m.id)) % 3) % len(ODD)]


def odd_agent(a):
    return ODD[(a.x * 3 + a.unique_id) % len(ODD)] if a.unique_id % 2 else None


class Worker(sagents.NetworkAgent):
    x = 0
    mood = "calm"

    def step(self):
        m = self.model
        self.x += 1
        self.mood = m.random.choice(["calm", "angry"])
        m.level += m.random.random()
        if "log" in m.datacollector.tables:
            m.datacollector.add_table_row("log", {"who": self.unique_id, "what": f"step {self.x}"})
        if "notes" in m.datacollector.tables and self.x % 2 == 0:
            m.datacollector.add_table_row("notes", {"at": m.now, "value": ODD[self.x % len(ODD)]})
        if m.births and self.x == 2:
            m.add_agent(Worker)
        if self.x > m.stamina:
            return float(self.die())


class ExportModel(Environment):
    level = 0.0
    births = False
    n_agents = 1
    stamina = 4

    def init(self):
        W.models += 1
        for _ in range(self.n_agents):
            self.add_agent(Worker)


class Probe(Exporter):
    def sim_start(self):
        W.probe(self.KIND, "start", self.simulation)

    def iteration_end(self, env, params, params_id, *a, **k):
        W.probe(self.KIND, "iteration", self.simulation, env, dict(params), params_id)

    def sim_end(self):
        W.probe(self.KIND, "end", self.simulation)


class Before(Probe):
    KIND = "before"


class After(Probe):
    KIND = "after"


# ------------------------------------------------------------------ rows

def norm(v):
    """One text for each value, however it is stored."""
    if v is None or v != v or (isinstance(v, str) and v == ""):
        return ""
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, bytes):
        return repr(v)
    if v in ("True", "False"):
        v = v == "True"
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return str(v)


def row(table, d):
    return (table,) + tuple(sorted((k, norm(v)) for k, v in d.items()))


def expected_rows(sim, env, params, pid):
    """The rows of one iteration: (with parameters, as in the database), (as in CSV)."""
    ident = {"simulation_id": sim.id, "iteration_id": env.id, "params_id": pid}
    data = []
    dc = env.datacollector
    n = max(len(v) for v in dc.model_vars.values())
    for i in range(n):
        data.append(row("env", dict({k: v[i] for k, v in dc.model_vars.items()}, step=i, **ident)))
    names = list(dc.agent_reporters)
    for rec in itertools.chain.from_iterable(dc._agent_records.values()):
        data.append(row("agents", dict(zip(names, rec[2:]), step=rec[0], agent_id=rec[1], **ident)))
    for t, cols in dc.tables.items():
        cols = dict(cols)
        for i in range(len(next(iter(cols.values()), []))):
            data.append(row(t, dict({k: v[i] for k, v in cols.items()}, **ident)))
    pars = [row("parameters", dict(key=k, value=v if isinstance(v, str) else repr(v), **ident)) for k, v in params.items()]
    return data + pars, data


def read_db(path):
    rows, configs = Counter(), []
    # Looking at a database may repair it (SQLite rolls back what a crash left), so this looks at a copy
    peek = scratch.new()
    for suffix in ("", "-journal"):
        if os.path.exists(path + suffix):
            shutil.copyfile(path + suffix, os.path.join(peek, "db" + suffix))
    con = seams.REAL_CONNECT(os.path.join(peek, "db"))
    try:
        tables = [t for (t,) in con.execute("select name from sqlite_master where type='table'")]
        for t in tables:
            cur = con.execute(f'select * from "{t}"')
            cols = [c[0] for c in cur.description]
            for r in cur:
                d = dict(zip(cols, r))
                if t == "configuration":
                    configs.append({k: v for k, v in d.items()})
                    continue
                rows[row(t, {k: v for k, v in d.items() if k not in ("index", "level_0")})] += 1
    finally:
        con.close()
        scratch.drop(peek)
    return rows, configs


CSV_COLS = {"env": {"step", "simulation_id", "iteration_id", "params_id"}, "agents": {"step", "agent_id", "simulation_id", "iteration_id", "params_id"},
            "log": {"simulation_id", "iteration_id", "params_id", "who", "what"}, "notes": {"simulation_id", "iteration_id", "params_id", "at", "value"}}


def read_csv(path, table, torn=False):
    """Rows of a CSV file and number of lines that make no sense."""
    rows, odd = Counter(), 0
    with seams.REAL_OPEN(path, newline="", encoding="utf-8", errors="replace") as f:
        if torn:
            # A torn line may end inside quotes, so any line may be the first one of a record
            text = f.readlines()
            lines = [next(pycsv.reader(itertools.islice(text, i, i + 20)), []) for i in range(len(text))]
        else:
            lines = list(pycsv.reader(f))
    header = next((l for l in lines if CSV_COLS[table] <= set(l)), None)
    if torn:
        # It may have been written after a torn line
        first = "step" if "step" in CSV_COLS[table] else ""
        whole = [[first] + l[i + 1:] for l in lines for i in range(len(l)) if l[i].endswith(first) and CSV_COLS[table] <= {first, *l[i + 1:]} and not CSV_COLS[table] <= set(l[i + 2:])]
        header = min(whole, key=len, default=header)
    for l in lines:
        if l == header:
            continue
        if header is None or len(l) != len(header):
            odd += 1
            continue
        rows[row(table, {k: v for k, v in zip(header, l) if k not in ("", "Unnamed: 0", "level_0", "index")})] += 1
    return rows, odd


class Folder:
    """What the outputs of one simulation name have to contain."""

    def __init__(self):
        self.db = Counter()          # rows that must be in the database or its backups
        self.main = Counter()        # ... in the database itself
        self.cfg = Counter()
        self.optional = []           # groups of rows: all or none
        self.unfinished = set()
        self.loose = Counter()       # rows that may be there
        self.loose_cfg = Counter()
        self.csv = Counter()
        self.csv_loose = Counter()
        self.csv_torn = False
        self.gexf = []               # contents that have to be somewhere
        self.runs = 0


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.models = 0
        self.log = []
        self.folders = {}
        self.stored = 0
        self.reported = 0
        self.crashed = None

    def probe(self, kind, what, sim, env=None, params=None, pid=None):
        self.log.append((kind, what, sim, env, params, pid))

    def folder(self, key):
        return self.folders.setdefault(key, Folder())

    def path(self, key):
        name, group = key.split("/")
        return os.path.join(self.out, group if group != "None" else "", name)


def direct_files(path):
    """Files of a simulation: those in its folder, and in its backup folder."""
    out = {}
    for d in (path, os.path.join(path, "backup")):
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    with seams.REAL_OPEN(p, "rb") as fh:
                        out[p] = fh.read()
    return out


def db_files(path, name):
    main = os.path.join(path, name + ".sqlite")
    back = []
    b = os.path.join(path, "backup")
    if os.path.isdir(b):
        back = sorted(os.path.join(b, f) for f in os.listdir(b) if f.startswith(name + ".sqlite") and not f.endswith("-journal"))
    return (main if os.path.exists(main) else None), back


def simulation(w, r):
    name, group = r["folder"].split("/")
    sch = w.sc["schema"][r["folder"]]
    params = dict(r["parameters"])
    kw = dict(
        model=ExportModel, name=name, group=None if group == "None" else group, iterations=r["iterations"], max_steps=r["max_steps"], seed=r["seed"],
        parameters=dict(params, births=r["births"], n_agents=r["agents"], **({"stamina": r["stamina"]} if "stamina" in r else {})), matrix=r["matrix"], outdir=w.out, dump=r["dump"], dry_run=r["dry"],
        backup=r["mode"] in ("backup", "both"), overwrite=r["mode"] in ("overwrite", "both"), level=r["level"],
        model_reporters=dict({"level": level_of} if sch["more"] else {}, **({"odd": odd_of} if sch["odd"] else {})), agent_reporters=dict({"x": "x"} if sch["agents"] else {}, **({"mood": "mood"} if sch["state"] and sch["agents"] else {}), **({"aodd": odd_agent} if sch.get("aodd") else {})),
        tables=dict({"log": ["who", "what"]} if sch["table"] else {}, **({"notes": ["at", "value"]} if sch["table2"] else {})),
    )
    if r["outdir"] == "default" and not r.get("how") and w.place == "soil_output":
        del kw["outdir"]
    elif r["outdir"] == "relative":
        kw["outdir"] = w.place
    if "gexf" in r["exporters"] and r["nodes"]:
        kw["parameters"]["network_generator"] = "path_graph"
        kw["parameters"]["network_params"] = {"n": r["nodes"]}
    return kw, [Before] + r["exporters"] + [After]


def set_clock(r, n):
    start = 1700000000.0 if r["same_start"] else 1700000000.0 + 1000 * n
    import random
    seams.CLOCK.reset(now=start, mode=r["clock"], rng=random.Random(n))
    if r["clock"] != "tick":
        seams.CLOCK.ctimes = 1700000000


def run(sc, ctx):
    global W
    W = w = World(sc, ctx)
    base = scratch.new()
    w.disk = os.path.join(base, "disk0")
    os.makedirs(w.disk)
    w.place = sc.get("place", "soil_output")
    w.out = os.path.join(w.disk, w.place)
    if sc["stray"]:
        os.makedirs(w.out)
        with open(os.path.join(w.out, "notes.txt"), "w") as f:
            f.write("mine")
        os.makedirs(os.path.join(w.out, "a"))
        with open(os.path.join(w.out, "a", "notes.txt"), "w") as f:
            f.write("mine too")
    import logging
    level = logging.getLogger("soil").level
    argv, path, cwd = sys.argv, list(sys.path), os.getcwd()
    os.chdir(w.disk)
    try:
        for n, r in enumerate(sc["runs"]):
            if r.get("how"):
                quiet_run(w, sc, ctx, r, n)
            else:
                storing_run(w, sc, ctx, r, n, base)
    finally:
        seams.DISK.reset()
        seams.CLOCK.reset()
        os.chdir(cwd)
        sys.argv = argv
        sys.path[:] = path
        logging.getLogger("soil").setLevel(level)
    if ctx.prop == "C16":
        ctx.nontrivial = w.stored >= 2 or w.reported > 0
    elif ctx.prop == "C17":
        ctx.nontrivial = w.crashed in ("sql", "file")
    elif ctx.prop == "C18":
        ctx.nontrivial = any(f.runs >= 2 for f in w.folders.values())


# ------------------------------------------------------------------ runs that store

def storing_run(w, sc, ctx, r, n, base):
    key = r["folder"]
    name = key.split("/")[0]
    path = w.path(key)
    fold = w.folder(key)
    w.log = []
    set_clock(r, n)
    others = {k: direct_files(w.path(k)) for k in sc["schema"] if k != key}
    old_files = direct_files(path)
    stray = [p for p in (os.path.join(w.out, "notes.txt"), os.path.join(w.out, "a", "notes.txt")) if os.path.exists(p)]
    kw, exps = simulation(w, r)
    image = os.path.join(base, f"disk{n + 1}")

    def on_crash():
        shutil.copytree(w.disk, image)

    seams.DISK.reset(root=w.disk, plan=r["fault"], on_crash=on_crash, spill=r.get("spill", False))
    error = None
    crashed = False
    try:
        envs = ssim.Simulation(exporters=exps, **kw).run()
    except seams.SimCrash:
        crashed = True
    except Exception as ex:
        error = ex
    fired = seams.DISK.fired
    if fired and fired[0] == "crash":
        # The libraries may turn it into something else, but nobody is left to see it
        crashed, error = True, None
    ops = dict(seams.DISK.counts)
    seams.DISK.reset()
    ctx.event("run", n, type(error).__name__ if error else "crash" if crashed else "ok", repr(fired), repr(sorted(ops.items())))
    if fired:
        ctx.fault(f"{fired[0]} in {fired[1]} operation")
    if r["clock"] != "tick":
        ctx.fault("clock: " + r["clock"])
    if error is not None and not fired:
        raise error
    if crashed:
        w.crashed = fired[1]
        # What survives is the disk as it was at the crash
        os.chdir(image)
        rel = [os.path.relpath(p, w.disk) for p in stray]
        others = {k: {os.path.join(image, os.path.relpath(p, w.disk)): v for p, v in d.items()} for k, d in others.items()}
        old_files = {os.path.join(image, os.path.relpath(p, w.disk)): v for p, v in old_files.items()}
        w.disk = image
        w.out = os.path.join(image, w.place)
        stray = [os.path.join(image, x) for x in rel]
        path = w.path(key)
    if error is not None:
        w.reported += 1
        text = ""
        e, k = error, 0
        while e is not None and k < 10:
            text += f"{e!r} {e} "
            e, k = e.__cause__ or e.__context__, k + 1
        ctx.check("injected" in text, "C16", "masked", lambda: f"{fired}: the error was replaced by {error!r}")
    good = error is None and not crashed
    done = [x for x in w.log if x[0] == "after" and x[1] == "iteration"]
    begun = [x for x in w.log if x[0] == "before" and x[1] == "iteration"]
    started = any(x[0] == "after" and x[1] == "start" for x in w.log)
    attempted = any(x[0] == "before" and x[1] == "start" for x in w.log)
    ctx.sim_time += sum(x[3].schedule.steps for x in begun)
    sql = {"default", "SQLite"} & set(r["exporters"])
    configs = r["iterations"] * max(1, len(r["matrix"].get("ma", [1])))
    if good:
        ctx.check(len(done) == configs and len(envs) == configs, "C16 C20", "iterations", f"{len(done)} iterations stored and {len(envs)} returned, out of {configs}")
    fold.runs += bool(done)
    w.stored += len(done)
    where = f"after run {n} ({r['mode']}, {r['exporters']}, {'ok' if good else 'crash' if crashed else 'error'} {fired or ''})"
    lost = "C18" if good else ("C18 C17" if crashed else "C18 C16")

    # ---- other simulations and files
    for k, d in others.items():
        now = direct_files(w.path(k))
        for p, v in d.items():
            ctx.check(now.get(p) == v, lost, "other", lambda: f"{where}: {os.path.relpath(p, w.out)}, of another simulation, is {'different' if p in now else 'gone'}")
        extra = set(now) - set(d)
        ctx.check(not extra, lost, "other", lambda: f"{where}: new files {sorted(os.path.relpath(p, w.out) for p in extra)} in the folder of another simulation")
    for p in stray:
        ok = os.path.exists(p) and seams.REAL_OPEN(p).read().startswith("mine")
        ctx.check(ok, lost, "stray", f"{where}: the file {os.path.relpath(p, w.out)} is not as it was")

    # ---- database
    backup, overwrite = r["mode"] in ("backup", "both"), r["mode"] in ("overwrite", "both")
    main, backs = db_files(path, name)
    read, main_rows, cfg_all, main_cfg = Counter(), Counter(), Counter(), []
    for p in ([main] if main else []) + backs:
        try:
            rows, cfgs = read_db(p)
        except sqlite3.DatabaseError:
            # An incomplete backup. If something was lost, it will be missing
            rows, cfgs = Counter(), []
            ctx.count("unreadable databases")
        read += rows
        cfg_all += Counter(c["simulation_id"] for c in cfgs)
        if p == main:
            main_rows, main_cfg = rows, cfgs
    if sql and attempted:
        if overwrite and not backup:
            # What was in the database itself may be gone
            for rw, k in fold.main.items():
                fold.db[rw] -= k
            fold.db = +fold.db
            if not good:
                fold.loose += fold.main
            fold.loose_cfg += fold.cfg
            fold.cfg = Counter()
            fold.main = Counter()
            fold.optional = []
        elif backup:
            if not good:
                # It may have failed when it had been copied, and not removed yet
                fold.loose += fold.main
                fold.loose_cfg += fold.cfg
            fold.main = Counter()
    new_done = Counter()
    if sql:
        for _, _, sim, env, params, pid in done:
            new_done += Counter(expected_rows(sim, env, params, pid)[0])
        for x in begun[len(done):]:
            g = Counter(expected_rows(x[2], *x[3:])[0])
            if crashed:
                fold.optional.append(g)
                fold.unfinished.update(g)
            else:
                fold.loose += g
        if started:
            fold.cfg[next(x[2].id for x in w.log)] += 1
        elif attempted:
            fold.loose_cfg[next(x[2].id for x in w.log)] += 1
    missing = fold.db - read
    ctx.check(not missing, lost, "lost", lambda: f"{where}: {sum(missing.values())} records of previous runs are gone, such as {next(iter(missing))}")
    fold.db += new_done
    missing = fold.db - read
    tag = "C16" if good else ("C17" if crashed else "C16")
    ctx.check(not missing, tag, "missing", lambda: f"{where}: {sum(missing.values())} records that had been stored are missing, such as {next(iter(missing))}")
    if sql and good:
        fold.main += new_done
        missing = fold.main - main_rows
        ctx.check(not missing, "C16 C18", "not-in-place", lambda: f"{where}: {sum(missing.values())} records are not in the database, such as {next(iter(missing))}")
    rest = read - fold.db
    rest = resolve(fold, rest)
    is_partial = any(rw in fold.unfinished for rw in rest)
    ctx.check(not rest, "C17 C18" if is_partial else "C16 C18", "partial" if is_partial else "extra",
              lambda: f"{where}: {sum(rest.values())} records {'of an incomplete iteration' if is_partial else 'too many'}, such as {next(iter(rest))}")
    missing = fold.cfg - cfg_all
    ctx.check(not missing, lost if not good else "C16 C18", "configuration-lost", lambda: f"{where}: the configurations are {dict(cfg_all)} instead of {dict(fold.cfg)}")
    extra = cfg_all - fold.cfg - fold.loose_cfg
    ctx.check(not extra, "C16 C18", "configuration-extra", lambda: f"{where}: the configurations are {dict(cfg_all)} instead of {dict(fold.cfg)}")
    sim = w.log[0][2] if w.log else None
    if sql and good:
        mine = [c for c in main_cfg if c["simulation_id"] == sim.id]
        ctx.check(any(literal(c["parameters"]) == kw["parameters"] and literal(c["matrix"]) == kw["matrix"] and c["name"] == name for c in mine), "C16", "configuration",
                  lambda: f"{where}: the stored configuration is {[(c['parameters'], c['matrix']) for c in mine]} instead of {(kw['parameters'], kw['matrix'])}")
        read_back(w, ctx, where, main, main_rows, done, cfg_all)
    if sql:
        fold.main = fold.db & main_rows
    if overwrite and not backup and sql and good:
        gone = main_rows - fold.main
        ctx.check(not gone, "C16 C18", "not-overwritten", lambda: f"{where}: the database should have been overwritten, and it has {next(iter(gone))}")

    # ---- CSV
    if "csv" in r["exporters"] and attempted:
        if overwrite and not backup:
            fold.csv_loose += fold.csv
            fold.csv = Counter()
        for _, _, s, env, params, pid in done:
            fold.csv += Counter(expected_rows(s, env, params, pid)[1])
        if not good:
            fold.csv_torn = True
    if os.path.isdir(path):
        found, odd = Counter(), 0
        for p in sorted(direct_files(path)):
            b = os.path.basename(p)
            parts = b.split(".")
            if len(parts) >= 3 and parts[2].split("@")[0] == "csv" and parts[1] in CSV_COLS:
                rows, o = read_csv(p, parts[1], fold.csv_torn)
                found += rows
                odd += o
        missing = fold.csv - found
        ctx.check(not missing, "C16 C18" if good else lost, "csv-missing", lambda: f"{where}: {sum(missing.values())} records are missing in the CSV files, such as {next(iter(missing))}")
        if not fold.csv_torn:
            extra = found - fold.csv - fold.csv_loose
            ctx.check(not extra and not odd, "C16", "csv-extra", lambda: f"{where}: {sum(extra.values())} records too many (and {odd} strange lines) in the CSV files, such as {next(iter(extra), None)}")

    # ---- configuration files
    now_files = direct_files(path)
    for p, v in old_files.items():
        if p.endswith(".dumped.yml") and (sim is None or os.path.basename(p) != sim.id + ".dumped.yml"):
            ctx.check(now_files.get(p) == v, lost, "yaml-lost", f"{where}: the file {os.path.basename(p)} changed")
        if os.sep + "backup" + os.sep in p:
            ctx.check(now_files.get(p) == v, lost, "backup-lost", f"{where}: the backup {os.path.basename(p)} {'changed' if p in now_files else 'is gone'}")
    if {"default", "YAML"} & set(r["exporters"]) and good:
        p = os.path.join(path, sim.id + ".dumped.yml")
        ctx.check(os.path.exists(p), "C16", "yaml-missing", f"{where}: no configuration file")
        if os.path.exists(p):
            d = yaml.load(seams.REAL_OPEN(p).read(), Loader=yaml.UnsafeLoader)
            ok = isinstance(d, dict) and all(d.get(k) == v for k, v in (("name", name), ("parameters", kw["parameters"]), ("matrix", kw["matrix"]), ("iterations", r["iterations"]), ("max_steps", r["max_steps"])))
            ctx.check(ok, "C16", "yaml-wrong", lambda: f"{where}: the configuration file has {d}")

    # ---- networks and notes
    if "gexf" in r["exporters"] and good:
        last = {}
        for x in done:
            last[x[3].id] = x[3]
        for i, env in last.items():
            p = os.path.join(path, f"{i}.gexf")
            ctx.check(os.path.exists(p), "C16", "gexf-missing", f"{where}: no network for iteration {i}")
            g = nx.read_gexf(p)
            want_n = sorted(str(x) for x in env.G.nodes)
            want_e = sorted(tuple(sorted((str(a), str(b)))) for a, b in env.G.edges)
            ctx.check(sorted(g.nodes) == want_n and sorted(tuple(sorted(e)) for e in g.edges) == want_e, "C16", "gexf-wrong", lambda: f"{where}: the stored network is {list(g.nodes)} {list(g.edges)}")
    if "gexf" in r["exporters"] and backup and done:
        for p, v in old_files.items():
            # Replaced files have to be in the backups
            if p.endswith(".gexf") and os.path.basename(p) in {f"{x[3].id}.gexf" for x in done} and os.sep + "backup" + os.sep not in p:
                kept = [q for q, c in now_files.items() if c == v]
                ctx.check(kept, "C18", "gexf-backup", f"{where}: the previous {os.path.basename(p)} is not in the backups")
    if "dummy" in r["exporters"] and good:
        p = os.path.join(path, "dummy")
        ctx.check(os.path.exists(p) and "simulation ended" in seams.REAL_OPEN(p).read(), "C16", "dummy", f"{where}: the end was not noted")


def literal(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError, TypeError):
        return text


def resolve(fold, rest):
    """Take out of `rest` the optional groups that are complete, and what is allowed to be there."""
    if not rest:
        fold.optional = []
        return rest
    groups = [g for g in fold.optional if g]
    if not groups:
        return rest - fold.loose
    best = rest
    for k in range(len(groups), -1, -1):
        for comb in itertools.combinations(range(len(groups)), k):
            total = Counter()
            for i in comb:
                total += groups[i]
            if total - rest:
                continue
            left = rest - total - fold.loose
            if not left:
                # They are there, and have to stay
                fold.db += total
                fold.optional = []
                return left
            if sum(left.values()) < sum(best.values()):
                best = left
    return best


def read_back(w, ctx, where, main, main_rows, done, cfg_all):
    name = os.path.basename(main).split(".")[0]
    usual = os.path.join("soil_output", name, name + ".sqlite")
    if os.path.exists(usual) and os.path.samefile(usual, main):
        res = sanalysis.read_sql(name=name)
    else:
        res = sanalysis.read_sql(fpath=main)
    for t, df in (("env", res.env), ("agents", res.agents)):
        if df is None:
            continue
        got = Counter(row(t, {k: v for k, v in d.items() if k not in ("index", "level_0")}) for d in df.reset_index().to_dict("records"))
        want = Counter({k: v for k, v in main_rows.items() if k[0] == t})
        ctx.check(got == want, "C16", "read-back", lambda: f"{where}: read back {next(iter(got - want), None)} instead of {next(iter(want - got), None)}")
    n_env = sum(k for rw, k in main_rows.items() if rw[0] == "env")
    n_agents = sum(k for rw, k in main_rows.items() if rw[0] == "agents")
    ctx.check(len(res.env) == n_env, "C16", "read-back", f"{where}: {len(res.env)} records of the model read back, out of {n_env}")
    ctx.check((len(res.agents) if res.agents is not None else 0) == n_agents, "C16", "read-back", f"{where}: {len(res.agents) if res.agents is not None else None} records of agents read back, out of {n_agents}")
    con = sqlite3.connect(main)
    keys = Counter(con.execute("SELECT simulation_id, params_id, iteration_id, key FROM parameters"))
    con.close()
    table = max(keys.values(), default=0) == 1
    for _, _, sim, env, params, pid in done:
        if cfg_all[sim.id] > 1:
            continue
        ctx.check(sim.id in res.config.index, "C16", "read-back", f"{where}: the configuration cannot be read back")
        sub = res.env.loc[(sim.id, pid, env.id)]
        ctx.check(len(sub) == len(env.datacollector.model_vars["time"]) and [norm(x) for x in sub["time"]] == [norm(x) for x in env.datacollector.model_vars["time"]],
                  "C16", "read-back", lambda: f"{where}: times {list(sub['time'])} read back instead of {env.datacollector.model_vars['time']}")
        if table and params:
            ctx.count("parameters read back")
            ctx.check(set(params) <= set(res.parameters.columns), "C16", "read-back", lambda: f"{where}: the parameters read back are {list(res.parameters.columns)} instead of {list(params)}")
            got = res.parameters.loc[(env.id, pid, sim.id)]
            for k, v in params.items():
                t = v if isinstance(v, str) else repr(v)
                ctx.check(got[k] == t, "C16", "read-back", lambda: f"{where}: parameter {k} was read back as {got[k]!r} instead of {t!r}")


# ------------------------------------------------------------------ runs that must not store

def quiet_run(w, sc, ctx, r, n):
    set_clock(r, n)
    w.log = []
    kw, exps = simulation(w, r)
    before = scratch.tree(w.disk)
    models = w.models
    seams.DISK.reset(root=w.disk, readonly=r["disk"] == "readonly", plan=None if r["disk"] == "readonly" else {"kind": "enospc", "at": 1, "target": "any", "sticky": True})
    where = f"run {n} ({'dry run' if r['dry'] else 'no dump'}, {r['mode']}, {r['exporters']}, {r['how']})"
    try:
        if r["how"] == "sim":
            envs = ssim.Simulation(exporters=exps, **kw).run()
        elif r["how"] == "run":
            kw.update(dump=True, dry_run=False)
            envs = ssim.Simulation(exporters=exps, **kw).run(dump=r["dump"], dry_run=r["dry"])
        elif r["how"] == "class":
            m = kw.pop("model")
            envs = m.run(exporters=exps, **kw)
        else:
            sys.argv = ["soil", "-o", w.out] + (["--dry-run"] if r["dry"] else ["--no-dump"])
            envs = soil.main(ssim.Simulation(**kw), exporters=exps)[0]
    except OSError as ex:
        if "injected" not in str(ex):
            raise
        ctx.fail("C19", "write", f"{where}: it tried to change the disk: {seams.DISK.log[-3:]}")
    log = list(seams.DISK.log)
    seams.DISK.reset()
    ctx.event("quiet", n, len(envs), len(log))
    ctx.fault("disk that refuses writes: " + r["disk"])
    ctx.check(not log, "C19", "write", lambda: f"{where}: it tried to change the disk: {log[:5]}")
    after = scratch.tree(w.disk)
    diff = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
    ctx.check(not diff, "C19", "changed", lambda: f"{where}: changes in {diff[:5]}")
    total = r["iterations"] * max(1, len(r["matrix"].get("ma", [1])))
    if r["dry"]:
        ctx.check(w.models == models and not envs, "C19", "executed", f"{where}: the model was executed")
    else:
        ctx.check(len(envs) == total and w.models == models + total, "C19", "iterations", f"{where}: {len(envs)} environments out of {total}")
    ctx.nontrivial = ctx.nontrivial or not r["dry"] or len(before) > 1
    if r["twin"] and not r["dry"]:
        kw2, exps2 = simulation(w, dict(r, dump=True))
        kw2["outdir"] = os.path.join(w.disk, "twin")
        envs2 = ssim.Simulation(exporters=exps2, **kw2).run()
        a = [[rw for rw in expected_rows(FakeSim, e, {}, "")[0]] for e in envs]
        b = [[rw for rw in expected_rows(FakeSim, e, {}, "")[0]] for e in envs2]
        ctx.check(a == b, "C19", "results", f"{where}: the results are not the same as those of a run that stores them")


class FakeSim:
    id = ""


def cleanup():
    scratch.cleanup()
