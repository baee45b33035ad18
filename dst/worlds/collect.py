"""Data collection against values sampled independently after every step. Decides C15."""
import functools
import math

import soil.agents as sagents
import soil.simulation as ssim
from soil.decorators import report
from soil.environment import BaseEnvironment, Environment

from .sched import SCHEDS, INF

RULE = "random models and agents whose values change at every activation, with births, deaths, delays and steps at the same instant, and random sets of reporters; non-trivial: at least four records and a change in the population"
COMPONENTS = {"real": ["soil.environment", "soil.datacollection", "soil.decorators", "soil.simulation", "soil.time", "soil.agents", "mesa", "pandas"], "stub": ["wall clock", "global random generators"]}
BUDGET = 5000000
ASSUMPTIONS = ["reporters return immutable values, and are added before the first record", "a missing value and a null one are the same"]

VALUES = [0, 1, -3, 2.5, "a", "", None, True, 7, 1e300, 0.1 + 0.2, 1e-12, 2 ** 40 + 1, "0", INF]


def gen(rng, prop, idx):
    vals = rng.choice([[0, 1, 2, 3], [0, 1], [0.5, 1.25, -2], ["a", "b", "c"], VALUES])

    delays = rng.choice([[1, 1, 2, 0.5, None, -1, 1.5]] * 3 + [[1 / 3, 0.1, 1e-5, 1, None], [1e-7, 1, 1000.001]])

    def agent(depth=0):
        acts = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            do = []
            if r < 0.6:
                do.append(["x", rng.choice(vals)])
            if rng.random() < 0.4:
                do.append(["y", rng.choice(vals)])
            if rng.random() < 0.3:
                do.append(["level", rng.choice(vals)])
            if rng.random() < 0.2:
                do.append(["other", rng.randrange(50), rng.choice(vals)])
            if depth < 2 and rng.random() < 0.15:
                do.append(["birth", agent(depth + 1)])
            if rng.random() < 0.12:
                do.append(["kill", rng.randrange(50)])
            acts.append({"acts": do, "d": rng.choice(delays)})
        return {"cls": rng.choice(["A", "B", "F", "BB", "FF"]), "x": rng.choice(vals), "turns": acts, "end": rng.choice(["inf", "die", "die", "loop"]),
                "first": rng.choice([None, None, None, 2, 1 / 3])}

    agents = [agent() for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    how = rng.choice(["steps", "steps", "sim", "sim_params"])
    if not agents and how != "steps":
        how = "steps"
    reps = []
    for where in ("ctor", "init"):
        for k in ("m_attr", "m_func", "m_missing", "a_attr", "a_func", "a_type_attr", "a_type_func", "a_name", "m_name", "a_list", "a_missing", "a_type_missing", "m_count"):
            if rng.random() < 0.35:
                reps.append([where, k])
    outlier = {}
    if agents and rng.random() < 0.02:
        outlier = {"max": rng.choice([40, 120])}
        for a in agents:
            a["end"] = "loop"
    elif agents and rng.random() < 0.02:
        outlier = {"agents": agents * 12}
    return {**{"agents": agents, "how": how, "reporters": reps, "env": rng.choice(["plain", "report", "sub"]), "sched": rng.choice(list(SCHEDS)),
            "base": rng.choice(["BaseEnvironment", "Environment"]), "max": rng.randint(1, 12), "iterations": rng.choice([1, 1, 2]), "interval": rng.choice([None, 2]),
            "debug": rng.random() < 0.15, "redefine": rng.choice([None, None, None, None, "yes", "type"])}, **outlier}


class Body:
    def step(self):
        return self.model._w.turn(self)


class A(Body, sagents.BaseAgent):
    def step(self):
        return self.model._w.turn(self)


class B(sagents.EventedAgent):
    def step(self):
        while True:
            yield self.model._w.turn(self)


class F(sagents.FSM):
    @sagents.state(default=True)
    def one(self):
        d = self.model._w.turn(self)
        return "two" if d is None else ("two", d)

    @sagents.state
    def two(self):
        d = self.model._w.turn(self)
        return "one" if d is None else ("one", d)


class BB(B):
    pass


class FF(F):
    pass


CLS = {"A": A, "B": B, "F": F, "BB": BB, "FF": FF}


def double(a):
    return repr((a.x, a.x))


def total(m):
    return m.changes * 2


class World:
    """One iteration."""

    def __init__(self, sc, ctx, env):
        self.sc, self.ctx, self.env = sc, ctx, env
        self.agents = []
        self.records = []
        self.changed = False

    def spawn(self, spec):
        cls = CLS[spec["cls"]]
        kw = {"x": spec["x"], "y": 0}
        if spec["first"]:
            a = cls(unique_id=self.env.next_id(), model=self.env, **kw)
            self.env.schedule.add(a, when=self.env.now + spec["first"])
        else:
            a = self.env.add_agent(cls, **kw)
        a._spec, a._pos = spec, 0
        self.agents.append(a)

    def turn(self, a):
        self.ctx.event("act", a.unique_id, a.now)
        spec = a._spec
        n, a._pos = a._pos, a._pos + 1
        if n >= len(spec["turns"]):
            if spec["end"] == "die":
                self.kill(a)
                return INF
            if spec["end"] == "inf":
                return INF
            return 1
        t = spec["turns"][n]
        for act in t["acts"]:
            if act[0] in ("x", "y"):
                setattr(a, act[0], act[1])
            elif act[0] == "level":
                self.env.level = act[1]
                self.env.changes += 1
            elif act[0] == "other" and self.agents:
                self.agents[act[1] % len(self.agents)].x = act[2]
            elif act[0] == "birth" and len(self.agents) < 40:
                self.changed = True
                self.spawn(act[1])
            elif act[0] == "kill" and self.agents:
                self.kill(self.agents[act[1] % len(self.agents)])
        return t["d"]

    def kill(self, a):
        if any(a is x for x in self.agents):
            self.agents = [x for x in self.agents if x is not a]
            self.changed = True
            a.die()

    # -------------------------------------------------- reporters

    def expected_names(self):
        m, a = {}, {}
        for where, k in self.sc["reporters"]:
            n = f"{k}_{where}"
            if k == "m_attr":
                m[n] = lambda: self.env.level
            elif k == "m_func":
                m[n] = lambda: self.env.changes * 2
            elif k == "m_missing":
                m[n] = lambda: None
            elif k == "m_name":
                m["level"] = lambda: self.env.level
            elif k == "m_count":
                m["agent_count"] = lambda: self.env.changes * 2
            elif k == "a_attr":
                a[n] = lambda x: x.x
            elif k == "a_func":
                a[n] = lambda x: repr((x.x, x.x))
            elif k == "a_type_attr" and where == "init":
                a[n] = lambda x: x.x if isinstance(x, B) else None
            elif k == "a_type_func" and where == "init":
                a[n] = lambda x: repr((x.x, x.x)) if isinstance(x, F) else None
            elif k == "a_name":
                a["y"] = lambda x: x.y
            elif k == "a_list":
                a[n] = lambda x: repr((x.x, 5))
            elif k == "a_missing" or (k == "a_type_missing" and where == "init"):
                a[n] = lambda x: None
        if self.sc["env"] in ("report", "sub"):
            m["rep_prop"] = lambda: f"p{self.env.changes}"
            m["rep_method"] = lambda: self.env.changes + 100 if self.sc["env"] == "report" else self.env.changes + 200
        if self.sc["env"] == "sub":
            m["rep_more"] = lambda: f"more{len(self.agents)}"
        m.setdefault("agent_count", lambda: len(self.agents))
        m["time"] = lambda: self.env.now
        return m, a

    def ctor(self):
        m, a = {}, {}
        for where, k in self.sc["reporters"]:
            if where != "ctor":
                continue
            n = f"{k}_{where}"
            if k == "m_attr":
                m[n] = "level"
            elif k == "m_func":
                m[n] = total
            elif k == "m_missing":
                m[n] = "no_such_attribute"
            elif k == "m_name":
                m["level"] = "level"
            elif k == "m_count":
                m["agent_count"] = total
            elif k == "a_attr":
                a[n] = "x"
            elif k == "a_func":
                a[n] = double
            elif k == "a_name":
                a["y"] = "y"
            elif k == "a_list":
                a[n] = [lambda x, v: repr((x.x, v)), [5]]
            elif k == "a_missing":
                a[n] = "changes"  # an attribute of the model, not of the agents
        return m, a

    def init(self):
        env = self.env
        for where, k in self.sc["reporters"]:
            if where != "init":
                continue
            n = f"{k}_{where}"
            if self.sc.get("redefine"):
                # Only the last definition counts
                if k[0] == "m":
                    env.add_model_reporter({"m_name": "level", "m_count": "agent_count"}.get(k, n), lambda m: "old")
                else:
                    env.add_agent_reporter({"a_name": "y"}.get(k, n), lambda a: "old", **({"agent_type": A} if self.sc["redefine"] == "type" else {}))
            if k == "m_attr":
                env.add_model_reporter(n, "level")
            elif k == "m_func":
                env.add_model_reporter(n, total)
            elif k == "m_missing":
                env.add_model_reporter(n, "no_such_attribute")
            elif k == "m_name":
                env.add_model_reporter("level")
            elif k == "m_count":
                env.add_model_reporter("agent_count", total)
            elif k == "a_attr":
                env.add_agent_reporter(n, "x")
            elif k == "a_func":
                env.add_agent_reporter(n, double)
            elif k == "a_type_attr":
                env.add_agent_reporter(n, "x", agent_type=B)
            elif k == "a_type_func":
                env.add_agent_reporter(n, double, agent_type=F)
            elif k == "a_name":
                env.add_agent_reporter("y")
            elif k == "a_list":
                env.add_agent_reporter(n, [lambda x, v: repr((x.x, v)), [5]])
            elif k == "a_missing":
                env.add_agent_reporter(n, "changes")
            elif k == "a_type_missing":
                env.add_agent_reporter(n, "changes", agent_type=sagents.BaseAgent)
        for spec in self.sc["agents"]:
            self.spawn(spec)

    def sample(self):
        m, a = self.expected_names()
        self.records.append((self.env.now, {k: f() for k, f in m.items()}, {x.unique_id: {k: f(x) for k, f in a.items()} for x in self.agents}))
        self.ctx.event("sample", self.env.now, len(self.agents))

    # -------------------------------------------------- verdict

    def verdict(self):
        ctx, env, recs = self.ctx, self.env, self.records
        m, a = self.expected_names()
        df = env.model_df()
        ctx.check(len(df) == len(recs), "C15", "model-rows", lambda: f"{len(df)} records of the model instead of {len(recs)}")
        ctx.check(list(df.index) == [t for t, _, _ in recs] and df.index.name == "time", "C15", "model-times", lambda: f"the times of the model are {list(df.index)} instead of {[t for t, _, _ in recs]}")
        ctx.check([int(s) for s in df["step"]] == list(range(len(recs))), "C15", "model-steps", lambda: f"the steps of the model are {list(df['step'])}")
        dfs = env.model_df(steps=True)
        ctx.check(list(dfs.index) == list(range(len(recs))), "C15", "model-steps", lambda: f"the steps of the model are {list(dfs.index)}")
        ctx.check(set(dfs.columns) == set(m), "C15", "model-reporters", lambda: f"the reporters of the model are {sorted(dfs.columns)} instead of {sorted(m)}")
        for i, (t, mv, av) in enumerate(recs):
            for k, v in mv.items():
                got = dfs[k].iloc[i]
                ctx.check(same(got, v), "C15", "model-value", lambda: f"{k} at step {i} (time {t}) is {got!r} instead of {v!r}")
                if k != "time":
                    got = df[k].iloc[i]
                    ctx.check(same(got, v), "C15", "model-value", lambda: f"{k} at time {t} (step {i}) is {got!r} instead of {v!r}")
        if not a:
            return
        want = [(i, uid, vals) for i, (_, _, av) in enumerate(recs) for uid, vals in av.items()]
        for steps in (True, False):
            adf = env.agent_df(steps=steps)
            keys = [(i if steps else recs[i][0], uid) for i, uid, _ in want]
            got = [(x[0], x[1]) for x in adf.index]
            ctx.check(sorted(got) == sorted(keys), "C15", "agent-rows", lambda: f"agent records (steps={steps}) are {got[:20]} instead of {keys[:20]}")
            ctx.check(list(adf.index.names) == (["step", "agent_id"] if steps else ["time", "agent_id"]), "C15", "agent-index", f"the index of the agents is {adf.index.names}")
            ctx.check(set(adf.columns) == set(a), "C15", "agent-reporters", lambda: f"the agent reporters are {sorted(adf.columns)} instead of {sorted(a)}")
            # Steps in order; any order of the agents in each of them
            ctx.check([x[0] for x in got] == [x[0] for x in sorted(keys, key=lambda k: k[0])], "C15", "agent-order", lambda: f"the records are not in order: {got[:20]}")
            by = {}
            if steps:
                for row, (i, uid) in enumerate(got):
                    by[(i, uid)] = row
            else:
                # Same order of steps
                row = 0
                for i, (_, _, av) in enumerate(recs):
                    for _ in av:
                        by[(i, got[row][1])] = row
                        row += 1
            for i, uid, vals in want:
                ctx.check((i, uid) in by, "C15", "agent-rows", f"no record of agent {uid} at step {i}")
                for k, v in vals.items():
                    g = adf[k].iloc[by[(i, uid)]]
                    ctx.check(same(g, v), "C15", "agent-value", lambda: f"{k} of agent {uid} at step {i} (steps={steps}) is {g!r} instead of {v!r}")


def same(got, want):
    if want is None or (isinstance(want, float) and math.isnan(want)):
        return got is None or got != got
    if isinstance(want, bool) or isinstance(want, str):
        return got == want
    if got is None or isinstance(got, str):
        return False
    return got == want


def make(sc, ctx, worlds):
    base = {"BaseEnvironment": BaseEnvironment, "Environment": Environment}[sc["base"]]

    class M(base):
        schedule_class = SCHEDS[sc["sched"]]
        level = 0
        changes = 0

        def __init__(self, **kw):
            self._w = World(sc, ctx, self)
            worlds.append(self._w)
            super().__init__(**kw)
            self._w.sample()

        def init(self):
            self._w.init()

        def step(self):
            super().step()
            self._w.sample()
            ctx.sim_time += 1

    if sc["interval"]:
        M.default_interval = sc["interval"]
    if sc["env"] == "plain":
        return M

    class R(M):
        @report
        @property
        def rep_prop(self):
            return f"p{self.changes}"

        @report
        def rep_method(self):
            return self.changes + 100

    if sc["env"] == "report":
        return R

    class S(R):
        @report
        def rep_method(self):
            return self.changes + 200

        @report
        @property
        def rep_more(self):
            return f"more{len(self._w.agents)}"

    return S


def run(sc, ctx):
    import logging
    log = logging.getLogger("soil")
    level = log.level
    worlds = []
    cls = make(sc, ctx, worlds)
    m, a = World(sc, ctx, None).ctor()
    try:
        if sc["debug"]:
            log.setLevel(logging.DEBUG)
        if sc["how"] == "steps":
            env = cls(seed="s", model_reporters=m, agent_reporters=a)
            for _ in range(sc["max"]):
                if not env.running:
                    break
                env.step()
        else:
            kw = dict(model=cls, name="c", max_steps=sc["max"], iterations=sc["iterations"], dump=False, exporters=[], level=logging.DEBUG if sc["debug"] else logging.INFO)
            if sc["how"] == "sim":
                kw.update(model_reporters=m, agent_reporters=a)
            else:
                kw.update(parameters=dict(model_reporters=m, agent_reporters=a))
            envs = ssim.Simulation(**kw).run()
            ctx.check(len(envs) == sc["iterations"], "C15", "iterations", f"{len(envs)} environments")
    finally:
        log.setLevel(level)
    for w in worlds:
        w.verdict()
        if len(w.records) >= 4 and w.changed:
            ctx.nontrivial = True
        ctx.count("records", len(w.records))
        ctx.count("agent records", sum(len(r[2]) for r in w.records))
