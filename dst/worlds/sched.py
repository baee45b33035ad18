"""Agents of every flavour on every discrete-event scheduler, against a model of due times.

Decides C01, C02, C03, C04 and C06.
"""
import functools
import math

import mesa
from soil import time as stime
from soil import agents as sagents
from soil.environment import Environment

INF = float("inf")

RULE = {
    "C01": "random population (plain, generator, coroutine, FSM, network, mesa agents) on a random scheduler variant; non-trivial: at least two agents were due at the same instant and at least three different kinds of request were made",
    "C02": "as C01, with past and negative requests; non-trivial: at least three different instants, and an instant with several agents or a request for the past",
    "C03": "as C01, with kills, suicides and removals from inside activations; non-trivial: some agent died or was removed while it still had a pending wake-up, or while paused",
    "C04": "as C01, with births from inside activations, with and without an explicit time; non-trivial: some agent was born during the run while others had pending wake-ups",
    "C06": "generator and coroutine agents with nested pauses; non-trivial: two agents paused in their bodies at the same time, and some body ended and started again",
}
COMPONENTS = {"real": ["soil.time", "soil.agents", "soil.environment", "mesa"], "stub": ["wall clock", "global random generators"]}
BUDGET = 5000000
ASSUMPTIONS = ["times are multiples of 2^-10 when absolute times are used, so that float arithmetic is exact",
               "a wake-up left behind by a dead agent may still move the clock, without activating anyone",
               "a delay of zero is not specified"]

SCHEDS = {
    "pq_shuffle": stime.PQueueActivation,
    "pq_ordered": functools.partial(stime.PQueueActivation, shuffle=False),
    "timed_shuffle": stime.TimedActivation,
    "timed_ordered": functools.partial(stime.TimedActivation, shuffle=False),
    "shuffled": stime.ShuffledTimedActivation,
    "ordered": stime.OrderedTimedActivation,
}

# ------------------------------------------------------------------ generator

KINDS = ["plain", "gen", "async", "fsm", "net", "mesa", "subgen", "meth", "topgen", "topasync"]
GENS = ("gen", "subgen", "async", "topgen", "topasync")


def gen(rng, prop, idx):
    decimals = rng.random() < 0.2
    if decimals:
        delays = [0.1, 0.2, 0.3, 0.7, 1, 1, 1.1, 2]
    else:
        delays = rng.choice([[1, 1, 2, 3], [0.5, 1, 1.5, 2, 4], [0.25, 0.5, 1, 1, 1, 7], [2 ** -10, 0.125, 1, 3, 1000.5], [1],
                             [1, 1 + 2 ** -34, 1 + 2 ** -33, 2], [2 ** -40, 2 ** -20, 1, 1], [1 - 2 ** -30, 2 ** -30, 1]])
    sc = {
        "sched": rng.choice(list(SCHEDS)),
        "interval": rng.choice([None, None, None, 2, 0.5, 3.25]),
        "model_seed": rng.randrange(1 << 30),
        "pop": rng.choice(["list", "count"]),
    }
    if not decimals and rng.random() < 0.08:
        # A long way to go
        delays = rng.choice([[1, 2 ** 20, 2 ** 31, 2.5], [1, 1000003, 1e9, 0.5], [86400, 365 * 86400, 60, 1], [2 ** 40, 2 ** 33, 1]])
        sc["interval"] = None
    marathon = rng.random() < 0.03
    if rng.random() < 0.01:
        # Many different instants
        delays = [1 + k / 32 for k in range(150)]
        decimals = False
        sc["interval"] = rng.choice([None, 0.5])
        crowd = True
    else:
        crowd = False
    w = {"C01": (0.10, 0.12, 0.1), "C02": (0.12, 0.15, 0.25), "C03": (0.35, 0.12, 0.05), "C04": (0.12, 0.4, 0.05), "C06": (0.08, 0.12, 0.02)}[prop]
    pkill, pspawn, ppast = w
    kinds = KINDS if prop != "C06" else ["gen", "async", "subgen", "gen", "async", "plain", "topgen", "topasync"]
    if rng.random() < 0.35:
        kinds = rng.sample(kinds, rng.choice([1, 2]))
    budget = [rng.choice([4, 8, 14, 30])]

    def end(kind):
        r = rng.random()
        d = rng.choice(delays)
        if r < ppast:
            if rng.random() < 0.5 and not decimals and kind != "mesa":
                return ["past", d]
            return ["neg", d]
        r = rng.random()
        if r < 0.22:
            return ["none"]
        if r < 0.42:
            return ["num", d]
        if r < 0.62:
            return ["delay", d]
        if r < 0.80:
            return ["at", d] if not decimals else ["delay", d]
        if r < 0.84:
            return ["inf"]
        if r < 0.84 + pkill * 0.4:
            return rng.choice([["die"], ["die_ret", d], ["remove", d]])
        return ["num", d]

    def agent(depth):
        budget[0] -= 1
        kind = rng.choice(kinds)
        turns = []
        for _ in range(rng.choice([40, 120]) if marathon and depth == 0 and rng.random() < 0.5 else rng.randint(1, 6 if depth == 0 else 4)):
            pre = []
            while rng.random() < pkill:
                pre.append(rng.choice([["kill", rng.randrange(50)], ["kill", rng.randrange(50)], ["unsched", rng.randrange(50)]]))
                if rng.random() < 0.6:
                    break
            if depth < 3 and rng.random() < pspawn and budget[0] > 0:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    pre.append(["spawn", agent(depth + 1)])
            rng.shuffle(pre)
            turns.append({"pre": pre, "end": end(kind), "restart": rng.random() < 0.25,
                          "sub": rng.choice([0, 0, 0, 1, 2, 3]), "depth": rng.choice([1, 1, 2, 3])})
        first = None
        r = rng.random()
        if r < (0.5 if prop == "C04" else 0.25):
            first = rng.choice([0, 0, rng.choice(delays), rng.choice(delays), rng.choice(delays) * 2, "inf" if rng.random() < 0.3 else rng.choice(delays)])
        return {"kind": kind, "turns": turns, "first": first, "how": rng.choice(["add_agent", "schedule"])}

    sc["agents"] = [agent(0) for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 8] if rng.random() < 0.97 else [20, 40, 80]) if not crowd else rng.choice([90, 140]))]
    return sc


# ------------------------------------------------------------------ agents

def W(agent):
    return agent.model._w


class Plain(sagents.BaseAgent):
    def step(self):
        return W(self).plain(self)


class Meth(Plain):
    """Inherits its step, and calls the one of its parent."""

    def step(self):
        return super().step()


class Gen(sagents.BaseAgent):
    def step(self):
        w = W(self)
        local = w.fresh(self)
        t = w.activate(self, local)
        while True:
            if t.get("restart"):
                return w.value(self, t, ends=True)
            if t.get("sub"):
                want = t["sub"]
                t, n = yield from self.nested(local, t, want, t.get("depth", 1))
                w.nested_result(self, n, want)
            else:
                got = yield w.value(self, t)
                w.resumed_with(self, got)
                t = w.activate(self, local)

    def nested(self, local, t, n, depth):
        if depth > 1:
            return (yield from self.nested(local, t, n, depth - 1))
        w = W(self)
        done = 0
        for _ in range(n):
            yield w.value(self, t)
            done += 1
            t = w.activate(self, local)
        return t, done


class SubGen(Gen):
    """A generator agent whose step is inherited as it is."""


class Async(sagents.BaseAgent):
    async def step(self):
        w = W(self)
        local = w.fresh(self)
        t = w.activate(self, local)
        while True:
            if t.get("restart"):
                return w.value(self, t, ends=True)
            if t.get("sub"):
                want = t["sub"]
                t, n = await self.nested(local, t, want, t.get("depth", 1))
                w.nested_result(self, n, want)
            else:
                got = await w.awaitable(self, t)
                w.resumed_with(self, got)
                t = w.activate(self, local)

    async def nested(self, local, t, n, depth):
        if depth > 1:
            return await self.nested(local, t, n, depth - 1)
        w = W(self)
        done = 0
        for _ in range(n):
            await w.awaitable(self, t)
            done += 1
            t = w.activate(self, local)
        return t, done


class TopGen(Gen):
    """Sees when each of its activations starts and ends."""

    def step(self):
        return W(self).whole(self, super().step)


class TopAsync(Async):
    def step(self):
        return W(self).whole(self, super().step)


class Fsm(sagents.FSM):
    @sagents.default_state
    @sagents.state
    def one(self):
        return W(self).fsm(self, self.two)

    @sagents.state
    def two(self):
        return W(self).fsm(self, self.one)


class Net(sagents.Agent):
    @sagents.default_state
    @sagents.state
    def one(self):
        return W(self).fsm(self, self.two)

    @sagents.state
    def two(self):
        return W(self).fsm(self, self.one)


class Mesa(mesa.Agent):
    def step(self):
        return self.model._w.plain(self)


CLASSES = {"plain": Plain, "meth": Meth, "gen": Gen, "subgen": SubGen, "async": Async, "topgen": TopGen, "topasync": TopAsync, "fsm": Fsm, "net": Net, "mesa": Mesa}


class Rec:
    """What the reference model knows about an agent."""
    __slots__ = ("tag", "spec", "agent", "alive", "due", "turn", "first", "expect_local", "paused", "key", "expect")

    def __init__(self, tag, spec):
        self.tag = tag
        self.spec = spec
        self.agent = None
        self.alive = True
        self.due = None
        self.turn = 0
        self.first = True
        self.expect_local = None
        self.paused = False
        self.key = None


class World:
    def __init__(self, sc, ctx):
        self.sc = sc
        self.ctx = ctx
        self.recs = []
        self.by_id = {}
        self.interval = sc["interval"] or 1
        self.last = 0
        self.instant = None
        self.births = self.deaths = 0
        self.per_instant = {}
        self.kinds_of_request = set()
        self.current = None
        self.acts = 0
        self.no_model = False
        ns = {"default_interval": sc["interval"]} if sc["interval"] else {}
        cls = type("Env", (Environment,), ns)
        self.env = cls(seed=sc["model_seed"], schedule_class=SCHEDS[sc["sched"]])
        self.env._w = self
        self.prepare()
        for spec in sc["agents"]:
            self.spawn(spec)

    def prepare(self):
        pass

    # -------------------------------------------------- operations

    @property
    def now(self):
        return self.env.now

    def spawn(self, spec):
        rec = Rec(f"a{len(self.recs)}", spec)
        self.recs.append(rec)
        cls = CLASSES[spec["kind"]]
        first = spec["first"]
        now = self.now
        if first == "inf":
            rec.due = None
            first = INF
        elif first is None:
            rec.due = now
        else:
            first = now + first
            rec.due = first
        if spec["first"] is None and spec["how"] == "add_agent":
            kw = {} if spec["kind"] == "mesa" else {"tag": rec.tag}
            a = self.env.add_agent(cls, **kw)
        else:
            kw = {} if spec["kind"] == "mesa" else {"tag": rec.tag}
            a = cls(unique_id=self.env.next_id(), model=self.env, **kw)
            if first is None:
                self.env.schedule.add(a)
            else:
                self.env.schedule.add(a, when=first)
        rec.agent = a
        self.by_id[a.unique_id] = rec
        if self.current is not None:
            self.births += 1
            self.ctx.event("born", rec.tag, now)
            self.ctx.count("births_during_activation")

    def rec(self, agent):
        return self.by_id[agent.unique_id]

    def alive(self):
        return [r for r in self.recs if r.alive]

    def kill(self, i, how):
        pool = self.alive()
        if not pool:
            return
        r = pool[i % len(pool)]
        if r is self.current:
            return
        self.dead(r)
        self.ctx.count("killed_by_others")
        if how == "kill" and r.spec["kind"] != "mesa":
            r.agent.die()
        else:
            self.env.schedule.remove(r.agent)

    def dead(self, r):
        if r.due is not None and r is not self.current:
            self.ctx.count("died_with_pending_wakeup")
        if r.paused:
            self.ctx.count("died_paused")
        r.alive = False
        r.due = None
        self.deaths += 1
        self.ctx.event("dead", r.tag, self.now)

    # -------------------------------------------------- activations

    def tags(self, base):
        """The properties contradicted by a wrong activation in the present circumstances."""
        t = set(base.split())
        if self.births:
            t.add("C04")
        if self.deaths:
            t.add("C03")
        return sorted(t)

    def activate(self, agent, local=None):
        r = self.rec(agent)
        now = self.now
        ctx = self.ctx
        ctx.event("act", r.tag, now)
        self.acts += 1
        if not r.alive:
            ctx.fail("C03", "dead-activated", f"{r.tag} ({r.spec['kind']}) was activated at {now} after its death")
        self.clock(now)
        mine = getattr(agent, "now", now)
        if mine != now:
            ctx.fail("C01 C02", "two-clocks", f"{r.tag} reads {mine} in its clock, and the environment {now}")
        if self.instant is None:
            self.instant = now
        elif self.instant != now:
            ctx.fail("C02", "two-instants", f"activations at {self.instant} and {now} in the same step")
        if r.due is None:
            ctx.fail(self.tags("C01 C06" if r.spec["kind"] in GENS else "C01"), "never-activated", f"{r.tag} ({r.spec['kind']}) was activated at {now}, but it had asked to never be (or was already served)")
        if now != r.due:
            what = "C01 C02"
            if r.first:
                what += " C04"
            if r.spec["kind"] in GENS:
                what += " C06"
            ctx.fail(self.tags(what), "wrong-time", f"{r.tag} ({r.spec['kind']}) was activated at {now}, and it was due at {r.due}"
                     + (" (first activation)" if r.first else ""))
        for o in self.recs:
            if o.alive and o.due is not None and o.due < now:
                ctx.fail(self.tags("C01 C02 C06" if o.spec["kind"] in GENS else "C01 C02"), "skipped", f"{o.tag} ({o.spec['kind']}) was due at {o.due}, and it is already {now}")
        self.per_instant[now] = self.per_instant.get(now, 0) + 1
        # Program counter
        if local is not None:
            if r.expect_local is not local:
                ctx.fail("C06", "wrong-frame", f"{r.tag}: the body that was resumed is not the one that had paused")
            if local != r.expect:
                ctx.fail("C06", "wrong-locals", f"{r.tag}: resumed with locals {local}, expected {r.expect}")
            local.append(r.turn)
            r.expect = list(local)
        r.first = False
        r.due = "running"
        r.paused = False
        self.current = r
        turns = r.spec["turns"]
        if r.turn < len(turns):
            t = turns[r.turn]
        else:
            t = {"pre": [], "end": ["inf"]}
        r.turn += 1
        for act in t["pre"]:
            if act[0] == "spawn":
                self.spawn(act[1])
            else:
                self.kill(act[1], act[0])
        return t

    def whole(self, agent, inner):
        """An activation runs the body up to its next pause, and no further."""
        r = self.rec(agent)
        before = r.turn
        v = inner()
        self.ctx.check(r.turn == before + 1, "C06", "too-far", lambda: f"{r.tag} ({r.spec['kind']}) ran {r.turn - before} parts of its body in one activation")
        return v

    def fresh(self, agent):
        """A new execution of the body of a generator or coroutine."""
        r = self.rec(agent)
        if r.expect_local is not None:
            self.ctx.fail("C06", "restarted", f"{r.tag}: the body started again before it had finished")
        r.expect_local = []
        r.expect = []
        return r.expect_local

    def nested_result(self, agent, n, want):
        # The nested generator has to hand over its own results
        self.ctx.check(n == want, "C06", "nested-result", f"the nested body returned {n} instead of {want}")

    def resumed_with(self, agent, got):
        self.ctx.check(got is None, "C06", "resumed-with", f"resumed with {got!r}")

    def _value(self, agent, t, r):
        now = self.now
        end = t["end"]
        op = end[0]
        self.kinds_of_request.add(op)
        soilish = r.spec["kind"] != "mesa"
        if op == "none":
            r.due = now + self.interval
            return None
        if op in ("num", "delay", "at"):
            d = end[1]
            r.due = d + now
            if op == "num" or not soilish:
                return d
            if op == "delay":
                return agent.delay(d)
            return agent.at(now + d)
        if op in ("neg", "past"):
            d = end[1]
            r.due = now
            self.ctx.count("requests_for_the_past")
            if op == "neg" or not soilish:
                return -d
            return agent.at(now - d)
        if op == "inf":
            r.due = None
            return INF if not soilish else agent.delay(INF)
        if op == "die":
            self.dead(r)
            self.ctx.count("suicides")
            if not soilish:
                self.env.schedule.remove(agent)
                return INF
            return agent.die()
        if op in ("die_ret", "remove"):
            self.dead(r)
            self.ctx.count("suicides")
            if op == "remove" or not soilish:
                self.env.schedule.remove(agent)
            else:
                agent.die()
            return end[1]
        raise AssertionError(op)

    def value(self, agent, t, ends=False):
        r = self.rec(agent)
        v = self._value(agent, t, r)
        if isinstance(v, tuple):  # FSM-style death
            v = v[1]
        if ends:
            r.expect_local = None
            self.ctx.count("bodies_finished")
        else:
            r.paused = r.expect_local is not None
            if sum(1 for x in self.recs if x.paused and x.alive) > 1:
                self.ctx.count("paused_together")
        self.current = None
        return v

    def awaitable(self, agent, t):
        v = self.value(agent, t)
        if v is None:
            v = self.interval
        return v if isinstance(v, stime.Delay) else stime.Delay(v)

    def plain(self, agent):
        t = self.activate(agent)
        r = self.rec(agent)
        v = self._value(agent, t, r)
        self.current = None
        return v

    def fsm(self, agent, other):
        t = self.activate(agent)
        r = self.rec(agent)
        op = t["end"][0]
        v = self._value(agent, t, r)
        self.current = None
        if isinstance(v, tuple) or not r.alive:
            return v
        mode = r.turn % 3
        if mode == 0:
            return v
        if v is None:
            return other
        if mode == 1:
            return other, v
        if op == "delay":
            return other.delay(float(v))
        return other.id, v

    # -------------------------------------------------- driver

    def clock(self, now):
        if now < self.last:
            self.ctx.fail("C02", "backwards", f"the clock went from {self.last} back to {now}")
        self.last = now

    def population(self):
        ctx = self.ctx
        want = sorted(r.agent.unique_id for r in self.alive())
        if self.sc["pop"] == "list":
            got = sorted(a.unique_id for a in self.env.get_agents())
            ctx.check(got == want, "C03 C04", "population", lambda: f"the population is {got}, expected {want}")
        else:
            n = self.env.schedule.get_agent_count()
            ctx.check(n == len(want), "C03 C04", "count", lambda: f"{n} agents, expected {len(want)}")
            n = self.env.count_agents()
            ctx.check(n == len(want), "C03 C04", "count", lambda: f"count_agents() is {n}, expected {len(want)}")

    def pending(self):
        return [r.due for r in self.recs if r.alive and r.due is not None]

    def step(self):
        ctx = self.ctx
        self.instant = None
        before = self.now
        self.clock(before)
        self.env.step()
        after = self.now
        self.clock(after)
        for r in self.recs:
            if r.due == "running":
                raise AssertionError(f"{r.tag} never finished its turn")
        due = self.pending()
        if due and after > min(due):
            late = [r.tag for r in self.recs if r.alive and r.due is not None and r.due < after]
            what = "C01 C02"
            if any(r.alive and r.due is not None and r.due < after and r.spec["kind"] in GENS and not r.first for r in self.recs):
                what += " C06"
            ctx.fail(self.tags(what), "jumped", f"the clock moved to {after}, and {late} are due before that (at {min(due)})")
        self.population()
        return after

    def drive(self):
        ctx = self.ctx
        self.population()
        steps = 0
        idle = 0
        while self.pending():
            acts = self.acts
            before = self.now
            after = self.step()
            steps += 1
            idle = 0 if (self.acts > acts or after > before) else idle + 1
            if idle > 5 + self.deaths:
                due = {r.tag: r.due for r in self.recs if r.alive and r.due is not None}
                ctx.fail(self.tags("C01 C02 C05 C06"), "stuck", f"nothing happens any more at {after}, and there are agents due: {due}")
        left = 10 + self.deaths
        while self.env.running and left:
            self.step()
            left -= 1
        if left == 0 and self.recs:
            ctx.fail("C05", "endless", "the model is still running, and no agent is ever due")
        for _ in range(3):
            self.step()
        finite = [t for t in self.per_instant]
        ctx.sim_time = max(finite) if finite else 0.0
        ctx.count("activations", self.acts)
        ctx.count("steps", steps)
        ctx.count("sched_" + self.sc["sched"])
        both = max(self.per_instant.values(), default=0)
        st = ctx.stats
        ctx.nontrivial = {
            "C01": both >= 2 and len(self.kinds_of_request) >= 3,
            "C02": len(finite) >= 3 and (both >= 2 or "requests_for_the_past" in st),
            "C03": "died_with_pending_wakeup" in st or "died_paused" in st,
            "C04": self.births > 0 and len(finite) > 1,
            "C06": "paused_together" in st and "bodies_finished" in st,
        }.get(ctx.prop, both >= 2)


def run(sc, ctx):
    World(sc, ctx).drive()
