"""Random state machines, with inheritance, against a reference machine. Decides C07."""
import soil.agents as sagents
from soil.environment import Environment

from .sched import SCHEDS, INF

RULE = "random chains of state-machine classes (states inherited, added and overridden; plain, generator and coroutine states) and several machines of each on a random scheduler; non-trivial: at least four transitions in at least three different forms"
COMPONENTS = {"real": ["soil.agents.fsm", "soil.agents", "soil.time", "soil.environment", "mesa"], "stub": ["wall clock", "global random generators"]}
BUDGET = 5000000
ASSUMPTIONS = ["a delay of zero is not specified", "returning something that is neither a state nor a delay is not specified"]

NAMES = ["a", "b", "ab", "ba", "idle", "go", "waiting", "x"]
FORMS = ["none", "num", "delay", "at", "id", "state", "id_num", "state_num", "id_delay", "state_delay", "bound_delay", "bound_at", "none_num", "list", "same", "id_none", "state_none", "id_past", "state_neg"]


def gen(rng, prop, idx):
    names = rng.sample(NAMES, rng.choice([2, 2, 3, 4, 5]))
    chain = []
    depth = rng.choice([1, 1, 2, 3, 3, 4])
    dag = rng.random() < 0.5
    for level in range(depth):
        if level == 0:
            here = names[: rng.randint(1, len(names))] if depth > 1 else list(names)
        else:
            here = [n for n in names if rng.random() < 0.5]
        chain.append({"states": [{"name": n, "body": rng.choice(["plain", "plain", "gen", "async"]), "deco": rng.choice(["bare", "call", "named", "renamed"])} for n in here], "default": None,
                      "parents": (rng.sample(range(level), min(level, rng.choice([0, 1, 2, 2, 3]))) if level > 1 else list(range(level))) if dag and level > 0 and rng.random() < 0.8 else [level - 1] if level else []})
    # the default: always one in the first level, maybe another one later
    chain[0]["default"] = rng.choice(chain[0]["states"])["name"]
    if rng.random() < 0.5:
        # a second parent for the last class, with states of its own
        chain[-1]["mixin"] = {"states": [{"name": n, "body": rng.choice(["plain", "gen", "async"]), "deco": "bare"} for n in rng.sample(["mix", "zz", "other"] + names, rng.choice([1, 2]))],
                              "first": rng.random() < 0.5}
    for c in chain[1:]:
        if c["states"] and rng.random() < 0.3:
            c["default"] = rng.choice(c["states"])["name"]
    delays = rng.choice([[1], [1, 2], [0.5, 1, 3]])
    agents = []

    def agent(born):
        turns = []
        for _ in range(rng.randint(2, 8)):
            form = rng.choice(FORMS)
            if rng.random() < 0.04:
                form = rng.choice(["die", "die", "die", "id_inf", "bound_inf"])
            turns.append({"form": form, "to": rng.randrange(20), "d": rng.choice(delays), "pauses": [rng.choice(delays) for _ in range(rng.choice([0, 0, 1, 2, 3]))]})
            if not born and rng.random() < 0.05:
                turns[-1]["spawn"] = agent(True)
        return ({"level": rng.randrange(depth) if rng.random() < 0.4 else depth - 1,
                       "start": rng.choice([None, None, None, "kwarg", "kwarg_state", "init", "own_init", "own_init"]), "start_to": rng.randrange(20), "turns": turns})
    agents = [agent(False) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < 0.08:
        for c in chain:
            c["default"] = None
        for a in agents:
            a["start"] = rng.choice(["kwarg", "kwarg_state"])
    return {"sched": rng.choice(list(SCHEDS)), "base": rng.choice(["FSM", "Agent", "FSM"]), "chain": chain, "agents": agents,
            "interval": rng.choice([None, None, None, 2, 0.5]), "model_seed": rng.randrange(1 << 30)}


def W(agent):
    return agent.model._w


def make_plain(level, name):
    def f(self):
        w = W(self)
        t = w.enter(self, level, name)
        return w.leave(self, t)
    return f


def make_gen(level, name):
    def f(self):
        w = W(self)
        t = w.enter(self, level, name)
        mine = [name, 0]
        for p in t["pauses"]:
            yield w.pause(self, p)
            mine[1] += 1
            w.resume(self, level, name, mine)
        return w.leave(self, t)
    return f


def make_async(level, name):
    async def f(self):
        w = W(self)
        t = w.enter(self, level, name)
        mine = [name, 0]
        for p in t["pauses"]:
            await w.pause(self, p)
            mine[1] += 1
            w.resume(self, level, name, mine)
        return w.leave(self, t)
    return f


MAKE = {"plain": make_plain, "gen": make_gen, "async": make_async}


class Rec:
    pass


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.interval = sc.get("interval") or 1
        cls = type("FsmModel", (Environment,), {"default_interval": self.interval}) if sc.get("interval") else Environment
        self.env = cls(seed=sc["model_seed"], schedule_class=SCHEDS[sc["sched"]])
        self.env._w = self
        root = getattr(sagents, sc["base"])

        def own_init(agent):
            to = getattr(agent, "wanted", None)
            if to is not None:
                self.ctx.count("set_in_init")
                agent.set_state(to)

        root = type(root)("Root", (root,), {"__module__": __name__, "init": own_init})
        self.classes = []
        self.shadows = []
        self.defs = []
        self.defaults = []
        for level, c in enumerate(sc["chain"]):
            ns = {"__module__": __name__}
            # The reference: plain classes with the same ancestors, whose attributes tell where each state comes from
            shadow_ns = {}
            parents = c.get("parents", [level - 1] if level else [])
            parents = [i for i in parents if i < level]
            bases = tuple(self.classes[i] for i in parents) or (root,)
            shadow_bases = tuple(self.shadows[i] for i in parents) or (object,)
            try:
                type("Try", shadow_bases, {})
            except TypeError:
                # These ancestors cannot be combined in that order
                bases, shadow_bases = bases[:1], shadow_bases[:1]
            if len(bases) > 1:
                self.ctx.count("classes_with_several_parents")
            if c.get("mixin"):
                mns = {"__module__": __name__}
                mshadow = {}
                for s in c["mixin"]["states"]:
                    f = MAKE[s["body"]](level + 100, s["name"])
                    f.__name__ = s["name"]
                    mns[s["name"]] = sagents.state(f)
                    mshadow["s_" + s["name"]] = level + 100
                mixin = type(sagents.FSM)("Mixin", (sagents.FSM,), mns)
                shadow = type("ShadowMixin", (), mshadow)
                first = c["mixin"]["first"] or not parents
                bases = (mixin, *bases) if first else (*bases, mixin)
                shadow_bases = tuple(b for b in shadow_bases if b is not object)
                shadow_bases = (shadow, *shadow_bases) if first else (*shadow_bases, shadow)
            for s in c["states"]:
                f = MAKE[s["body"]](level, s["name"])
                f.__name__ = s["name"]
                is_default = c["default"] == s["name"]
                if s["deco"] == "bare":
                    st = sagents.state(f)
                    if is_default:
                        st = sagents.default_state(st)
                elif s["deco"] == "call":
                    st = sagents.state(default=is_default)(f)
                else:
                    f.__name__ = s["name"] if s["deco"] == "named" else "fun_" + s["name"]
                    st = sagents.state(s["name"], default=is_default)(f)
                ns[f.__name__] = st
                shadow_ns["s_" + s["name"]] = level
                if is_default:
                    shadow_ns["default"] = s["name"]
            self.classes.append(type(root)(f"Machine{level}", bases, ns))
            shadow = type(f"Shadow{level}", shadow_bases, shadow_ns)
            self.shadows.append(shadow)
            self.defs.append({n[2:]: getattr(shadow, n) for n in dir(shadow) if n.startswith("s_")})
            self.defaults.append(getattr(shadow, "default", None))
        self.recs = []
        self.by_id = {}
        self.forms = set()
        self.transitions = 0
        for spec in sc["agents"]:
            self.add(spec)

    def add(self, spec):
        level = min(spec["level"], len(self.classes) - 1)
        names = sorted(self.defs[level])
        if not names or (self.defaults[level] is None and not str(spec["start"]).startswith("kwarg")):
            return
        r = Rec()
        r.level, r.spec, r.turn, r.alive, r.mid = level, spec, 0, True, None
        r.state = self.defaults[level]
        kw = {}
        if spec["start"] == "kwarg":
            r.state = kw["state_id"] = names[spec["start_to"] % len(names)]
        if spec["start"] == "kwarg_state":
            r.state = names[spec["start_to"] % len(names)]
            kw["state_id"] = getattr(self.classes[level], r.state)
        if spec["start"] == "own_init" and not self.env.now:
            r.state = names[spec["start_to"] % len(names)]
            kw["wanted"] = r.state
        a = self.env.add_agent(self.classes[level], **kw)
        if spec["start"] == "init" and not self.env.now:
            r.state = names[spec["start_to"] % len(names)]
            a.set_state(r.state)
        r.agent = a
        r.due = self.env.now
        r.tag = f"m{len(self.recs)}"
        self.recs.append(r)
        self.by_id[a.unique_id] = r
        self.where(r)

    def where(self, r):
        got = r.agent.state_id
        if r.alive and got != r.state:
            self.ctx.fail("C07", "state-id", f"{r.tag} says it is in state {got!r}, expected {r.state!r}")

    def on_time(self, r):
        now = self.env.now
        if not r.alive:
            self.ctx.fail("C07 C03", "dead", f"{r.tag} ran a state after its death")
        if now != r.due:
            self.ctx.fail("C07 C01", "wrong-time", f"{r.tag} was activated at {now}, expected at {r.due} (state {r.state!r})")

    def enter(self, agent, level, name):
        r = self.by_id[agent.unique_id]
        self.ctx.event("enter", r.tag, level, name, self.env.now)
        self.on_time(r)
        if r.mid is not None:
            self.ctx.fail("C07 C06", "left-early", f"{r.tag} entered {name!r} before the body of {r.mid[0]!r} had finished")
        if name != r.state:
            self.ctx.fail("C07", "wrong-state", f"{r.tag} ran the function of state {name!r}, and it should be in {r.state!r}")
        want = self.defs[r.level][name]
        if level != want:
            self.ctx.fail("C07", "wrong-function", f"{r.tag} ran the function of {name!r} defined in level {level}, expected that of level {want}")
        self.where(r)
        turns = r.spec["turns"]
        t = turns[r.turn] if r.turn < len(turns) else {"form": "end", "pauses": [], "to": 0, "d": 1}
        r.turn += 1
        r.mid = [name, 0]
        r.due = "running"
        if t.get("spawn"):
            self.ctx.count("born_later")
            self.add(t["spawn"])
        return t

    def pause(self, agent, p):
        r = self.by_id[agent.unique_id]
        r.due = self.env.now + p
        return agent.delay(p)

    def resume(self, agent, level, name, mine):
        r = self.by_id[agent.unique_id]
        self.ctx.event("resume", r.tag, name, mine[1], self.env.now)
        self.on_time(r)
        r.mid[1] += 1
        if mine != r.mid:
            self.ctx.fail("C07 C06", "wrong-frame", f"{r.tag} resumed {mine}, expected {r.mid}")
        if r.state != name:
            self.ctx.fail("C07", "wrong-state", f"{r.tag} continued in state {name!r}, and it should be in {r.state!r}")
        self.where(r)
        self.ctx.count("resumed_states")

    def leave(self, agent, t):
        r = self.by_id[agent.unique_id]
        now = self.env.now
        r.mid = None
        names = sorted(self.defs[r.level])
        to = names[t["to"] % len(names)]
        form, d = t["form"], t["d"]
        self.forms.add(form)
        if form == "end":
            r.due = None
            return agent.delay(INF)
        if form == "die":
            r.alive, r.due = False, None
            return agent.die()
        if form == "same":
            to = r.state
        moves = form not in ("none", "num", "delay", "at", "none_num")
        r.due = now + (d if form in ("num", "delay", "at", "id_num", "state_num", "id_delay", "state_delay", "bound_delay", "bound_at", "none_num", "list") else self.interval)
        if form in ("id_past", "state_neg"):
            r.due = now
        if form in ("id_inf", "bound_inf"):
            r.due = None
        if moves:
            if to != r.state:
                self.transitions += 1
            r.state = to
        st = getattr(agent, to)
        return {
            "none": lambda: None, "num": lambda: d, "delay": lambda: agent.delay(d), "at": lambda: agent.at(now + d),
            "id": lambda: to, "same": lambda: to, "state": lambda: st, "id_num": lambda: (to, d), "state_num": lambda: (st, d),
            "id_delay": lambda: (to, agent.delay(d)), "state_delay": lambda: (st, agent.delay(d)),
            "bound_delay": lambda: st.delay(d), "bound_at": lambda: st.at(now + d), "none_num": lambda: (None, d), "list": lambda: [to, d],
            "id_past": lambda: (to, agent.at(now - d)), "state_neg": lambda: (st, -d), "id_inf": lambda: (to, INF), "bound_inf": lambda: st.delay(INF),
            "id_none": lambda: (to, None), "state_none": lambda: (st, None),
        }[form]()

    def drive(self):
        ctx = self.ctx
        n = 0
        while any(r.alive and r.due is not None for r in self.recs):
            last = self.env.now
            self.env.step()
            n += 1
            for r in self.recs:
                self.where(r)
                if r.alive and r.due is not None and r.due < self.env.now:
                    ctx.fail("C07 C01 C02", "skipped", f"{r.tag} was due at {r.due}, and it is {self.env.now}")
            if n > 2000:
                ctx.fail("C07", "stuck", "the machines do not progress")
        ctx.sim_time = max([0] + [h[-1] for h in ctx.history if h[0] in ("enter", "resume")])
        ctx.count("transitions", self.transitions)
        ctx.nontrivial = self.transitions >= 4 and len(self.forms) >= 3


def run(sc, ctx):
    World(sc, ctx).drive()
