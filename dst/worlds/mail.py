"""Agents that message each other, against reference mailboxes. Decides C08, C09 and C10."""
import soil.agents as sagents
from soil.environment import Environment
from soil.events import TimedOut

from .sched import SCHEDS, INF

RULE = {
    "C08": "random senders and receivers, with handlers that send messages or fail; non-trivial: at least four messages were handled, and some handler sent a message or failed",
    "C09": "as C08, with broadcasts to part of the population, with and without expiry; non-trivial: at least one message expired before it was processed, and one with an expiry was handled",
    "C10": "as C08, with requests and waits with deadlines and polling intervals; non-trivial: some wait lasted more than one check and ended with an answer, or timed out",
}
COMPONENTS = {"real": ["soil.agents.evented", "soil.events", "soil.environment", "soil.agents", "soil.time", "mesa"], "stub": ["wall clock", "global random generators"]}
BUDGET = 5000000
ASSUMPTIONS = ["a message that arrives while the receiver is processing its messages may be handled in that round or in the next one",
               "a null reply is the same as no reply", "the sender shown for a request is not specified"]

PAYLOADS = ["ping", "ping", "ping", "pong", 0, "", None, False, 1, 1.5, [], ["ping"], {"k": "ping"}]
REPLIES = [0, "", False, [], {}, 1, "yes", 2.5, {"k": 1}, [0]]
HORIZON = 80


class Boom(Exception):
    """A handler fails."""


def gen(rng, prop, idx):
    delays = rng.choice([[1], [1, 2], [0.5, 1, 1, 3], [1, 1.5, 2]])
    p_bcast = {"C08": 0.2, "C09": 0.6, "C10": 0.25}[prop]
    p_wait = {"C08": 0.12, "C09": 0.06, "C10": 0.6}[prop]

    def expiry():
        r = rng.random()
        if r < (0.25 if prop == "C09" else 0.6):
            return None
        if r < 0.7:
            return ["ttl", rng.choice([0, 0.5, 1, 1, 2, 3])]
        return ["exp", rng.choice([-1, 0, 0.5, 1, 2, 5])]

    def send():
        if rng.random() < p_bcast:
            f = rng.choice([None, None, ["color", rng.randrange(2)], ["cls", rng.choice(["evented", "net", "deaf", "asyn"])], ["both", rng.randrange(2), rng.randrange(3)], ["colors"], ["ids", rng.randrange(50), rng.randrange(50)],
                            ["classes", rng.sample(["evented", "net", "deaf", "asyn"], 2)], ["classes", rng.sample(["evented", "net", "deaf", "asyn"], 3)], ["base", rng.choice(["evented", "any"])], ["mixed", rng.sample(["evented", "net", "deaf", "asyn"], 3), rng.randrange(2)]])
            return ["bcast", expiry(), rng.random() < 0.8, f]
        return ["tell", rng.randrange(50), rng.random() < 0.8]

    def agent(depth):
        handlers = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            acts = []
            if rng.random() < 0.35:
                acts.append(rng.choice([["self"], send(), send(), ["process"]]))
            handlers.append({"acts": acts, "raise": rng.random() < (0.15 if prop == "C08" else 0.04), "reply": rng.randrange(len(REPLIES))})
        turns = []
        for _ in range(rng.randint(1, 7)):
            acts = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                r = rng.random()
                if r < p_wait:
                    if rng.random() < 0.5:
                        acts.append(["ask", rng.randrange(50), rng.choice([None, ["timeout", rng.choice([0, 0.5, 1, 2, 3, 5, 10])], ["exp", rng.choice([0, 0.5, 1, 2, 4, 8])]]), rng.choice(delays)])
                    else:
                        acts.append(["received", rng.choice([["timeout", rng.choice([0, 0.5, 1, 2, 3, 5, 10])], ["exp", rng.choice([0, 0.5, 1, 2, 4, 8])]]), rng.choice(delays), rng.random() < 0.8])
                elif r < p_wait + 0.3:
                    acts.append(["process"])
                elif r < p_wait + 0.34:
                    acts.append(["kill", rng.randrange(50)])
                elif r < p_wait + 0.38 and depth < 2:
                    acts.append(["spawn", agent(depth + 1)])
                elif r < p_wait + 0.383:
                    acts.append(["flood", rng.randrange(50), rng.choice([11, 40, 70, 110, 150, 270, 520])])
                else:
                    acts.append(send())
            turns.append({"acts": acts, "d": rng.choice(delays)})
        return {"cls": rng.choice(["evented", "evented", "net", "asyn", "deaf"]), "color": rng.randrange(2), "size": rng.randrange(3), "handlers": handlers, "turns": turns,
                "first": rng.choice([None, None, 0.5, 1]), "init": rng.random() < 0.1}

    agents = [agent(0) for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 6] if rng.random() < 0.95 else [12, 25]))]
    return {"sched": rng.choice(list(SCHEDS)), "agents": agents, "model_seed": rng.randrange(1 << 30),
            "names": rng.choice([None, None, None, None, None, None, None, "same", "few"]), "scale": rng.choice([1] * 20 + [50, 1500, 1000000]),
            "payloads": [rng.choice(PAYLOADS) for _ in range(rng.choice([1, 3, 7]))] if rng.random() < 0.5 else None}


def W(agent):
    return agent.model._w


def kw_wait(limit, agent):
    if limit is None:
        return {}
    t = limit[1] * W(agent).scale
    return {"timeout": t} if limit[0] == "timeout" else {"expiration": agent.now + t}


def script(self):
    """The behaviour of every agent, as a generator."""
    w = W(self)
    for t in w.turns(self):
        for act in t["acts"]:
            if act[0] == "received":
                if not w.start_wait(self, act):
                    continue
                try:
                    msgs = yield from self.received(delay=act[2] * w.scale, process=act[3], **kw_wait(act[1], self))
                except TimedOut:
                    w.wait_done(self, "timeout")
                except Boom:
                    w.wait_done(self, "boom")
                else:
                    w.wait_done(self, "return", msgs)
            elif act[0] == "ask":
                target = w.start_ask(self, act)
                if target is None:
                    continue
                try:
                    reply = yield from target.ask(w.payload, delay=act[3] * w.scale, **kw_wait(act[2], self))
                except TimedOut:
                    w.wait_done(self, "timeout")
                else:
                    w.wait_done(self, "return", reply)
            else:
                w.op(self, act)
        yield w.sleep(self, t["d"])
    while True:
        yield w.sleep(self, INF)


class Evented(sagents.EventedAgent):
    def init(self):
        W(self).born(self)

    def on_receive(self, msg, sender=None):
        return W(self).handle(self, msg, sender)

    def step(self):
        return (yield from script(self))


class EventedTop(Evented):
    def step(self):
        return W(self).activation(self, super().step)


class Net(sagents.Agent):
    def init(self):
        W(self).born(self)

    def on_receive(self, msg, sender=None):
        return W(self).handle(self, msg, sender)

    def step(self):
        return (yield from script(self))


class NetTop(Net):
    def step(self):
        return W(self).activation(self, super().step)


class Asyn(sagents.EventedAgent):
    """The same behaviour, as a coroutine."""

    def init(self):
        W(self).born(self)

    def on_receive(self, msg, sender=None):
        return W(self).handle(self, msg, sender)

    async def step(self):
        w = W(self)
        for t in w.turns(self):
            for act in t["acts"]:
                if act[0] == "received":
                    if not w.start_wait(self, act):
                        continue
                    try:
                        msgs = await self.received(delay=act[2] * w.scale, process=act[3], **kw_wait(act[1], self))
                    except TimedOut:
                        w.wait_done(self, "timeout")
                    except Boom:
                        w.wait_done(self, "boom")
                    else:
                        w.wait_done(self, "return", msgs)
                elif act[0] == "ask":
                    target = w.start_ask(self, act)
                    if target is None:
                        continue
                    try:
                        reply = await target.ask(w.payload, delay=act[3] * w.scale, **kw_wait(act[2], self))
                    except TimedOut:
                        w.wait_done(self, "timeout")
                    else:
                        w.wait_done(self, "return", reply)
                else:
                    w.op(self, act)
            await w.sleep(self, t["d"])
        while True:
            await w.sleep(self, INF)


class AsynTop(Asyn):
    def step(self):
        return W(self).activation(self, super().step)


class Deaf(sagents.BaseAgent):
    def step(self):
        w = W(self)
        for t in w.turns(self):
            for act in t["acts"]:
                if act[0] in ("tell", "bcast", "kill", "spawn", "flood"):
                    w.op(self, act)
            yield w.sleep(self, t["d"])
        while True:
            yield w.sleep(self, INF)


class DeafTop(Deaf):
    def step(self):
        return W(self).activation(self, super().step)


CLS = {"evented": EventedTop, "net": NetTop, "asyn": AsynTop, "deaf": DeafTop}


class Msg:
    __slots__ = ("payload", "sender", "exp", "ask", "how", "at")

    def expired(self, now):
        return self.exp is not None and self.exp < now


def same(a, b):
    return repr(a) == repr(b)


class Rec:
    pass


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.scale = sc.get("scale", 1)  # the same history, with all the times multiplied
        self.env = Environment(seed=sc["model_seed"], schedule_class=SCHEDS[sc["sched"]])
        self.env._w = self
        self.recs = []
        self.by_id = {}
        self.sent = self.flooded = 0
        self.payload = None
        self.handled = {}
        for spec in sc["agents"]:
            self.spawn(spec)

    def spawn(self, spec):
        r = Rec()
        r.spec, r.alive, r.box, r.wait, r.processing, r.nh = spec, True, [], None, None, 0
        r.boomed = False
        r.deaf = spec["cls"] == "deaf"
        r.tag = f"m{len(self.recs)}"
        cls = CLS[spec["cls"]]
        uid = self.env.next_id()
        self.by_id[uid] = r
        r.agent = cls(unique_id=uid, model=self.env, color=spec["color"], size=spec["size"], **self.name(len(self.recs)))
        r.due = self.now + (spec["first"] or 0) * self.scale
        self.env.schedule.add(r.agent, when=r.due)
        self.recs.append(r)

    def name(self, n):
        # Names do not have to be different
        how = self.sc.get("names")
        return {} if not how else {"name": "twin" if how == "same" else f"twin {n % 2}"}

    def born(self, agent):
        r = self.by_id[agent.unique_id]
        if r.spec.get("init"):
            m = self.new("tell", agent)
            r.box.append(m)
            agent.tell(m.payload, sender=agent)
            self.ctx.count("told_at_birth")

    @property
    def now(self):
        return self.env.now

    def rec(self, agent):
        return self.by_id[agent.unique_id]

    def turns(self, agent):
        r = self.rec(agent)
        yield from r.spec["turns"]
        yield {"acts": [["process"]], "d": 1}

    # ------------------------------------------------ activations

    def activation(self, agent, inner):
        r = self.rec(agent)
        now = self.now
        self.ctx.event("act", r.tag, now)
        if not r.alive:
            self.ctx.fail("C03", "dead", f"{r.tag} was activated after its death")
        if now != r.due:
            self.ctx.fail("C10" if r.wait else "C01", "wrong-time", f"{r.tag} was activated at {now}, expected at {r.due}"
                          + (f" (it was waiting: {r.wait['op']}, checking every {r.wait['delay']})" if r.wait else ""))
        r.due = None
        r.boomed = False
        if r.wait:
            r.wait["checks"] += 1
            self.expect(r)
        res = inner()
        if r.wait:
            # It is still waiting
            if r.wait["expected"] not in ("wait", "any"):
                self.ctx.fail("C10", "no-answer", f"{r.tag} keeps waiting at {now} ({r.wait['op']}), and it should have got: {r.wait['expected']}")
            r.due = now + r.wait["delay"]
        return res

    def sleep(self, agent, d):
        r = self.rec(agent)
        d *= self.scale
        r.due = None if d == INF else self.now + d
        return agent.delay(d)

    # ------------------------------------------------ sending

    def new(self, how, sender, exp=None):
        m = Msg()
        self.sent += 1
        m.payload, m.sender, m.exp, m.how, m.ask, m.at = self.content(), sender, exp, how, None, self.now
        return m

    def content(self):
        """Messages with the same content are different messages."""
        options = self.sc.get("payloads")
        if not options or self.sent % 5 == 0:
            return f"p{self.sent}"
        return options[self.sent * 7 // 3 % len(options)]

    def target(self, i, mailbox=True):
        pool = [r for r in self.recs if r.alive and not r.deaf]
        return pool[i % len(pool)] if pool else None

    def op(self, agent, act):
        r = self.rec(agent)
        now = self.now
        op = act[0]
        if op == "process":
            self.begin(r)
            try:
                valid = agent.process_messages()
            except Boom:
                self.end(r, failed=True)
            else:
                self.end(r, valid)
        elif op == "kill":
            pool = [x for x in self.recs if x.alive and x is not r]
            if pool:
                x = pool[act[1] % len(pool)]
                self.ctx.event("kill", x.tag)
                x.alive, x.due, x.wait = False, None, None
                x.agent.die()
                self.ctx.count("killed")
        elif op == "flood":
            # Many messages for one agent in one go
            pool = [x for x in self.recs if x.alive and not x.deaf and not any(a[0] == "process" for h in x.spec["handlers"] for a in h["acts"])]
            if pool and self.flooded < 1200:
                x = pool[act[1] % len(pool)]
                self.ctx.event("flood", r.tag, x.tag, act[2], now)
                for _ in range(act[2]):
                    m = self.new("tell", agent)
                    x.box.append(m)
                    x.agent.tell(m.payload, sender=agent)
                self.flooded += act[2]
                self.ctx.count("floods")
        elif op == "spawn":
            if len(self.recs) < 40:
                self.ctx.event("spawn", r.tag, now)
                self.ctx.count("born")
                self.spawn(act[1])
        else:
            if self.sent - self.flooded > 150:
                return
            if op == "self":
                m = self.new("tell", agent)
                r.box.append(m)
                agent.tell(m.payload, sender=agent)
                self.ctx.count("told_itself")
            elif op == "tell":
                x = self.target(act[1])
                if x is None:
                    return
                m = self.new("tell", agent if act[2] else None)
                x.box.append(m)
                self.ctx.event("tell", r.tag, x.tag, m.payload, now)
                x.agent.tell(m.payload, sender=m.sender)
            elif op == "bcast":
                self.broadcast(r, act)

    def broadcast(self, r, act):
        now = self.now
        _, expiry, as_sender, flt = act
        kw, exp = {}, None
        if expiry:
            ttl = expiry[1] * self.scale
            exp = now + ttl
            kw = {"ttl": ttl} if expiry[0] == "ttl" else {"expiration": exp}
        match = lambda x: True  # noqa: E731
        if flt:
            if flt[0] == "color":
                kw["color"] = flt[1]
                match = lambda x: x.spec["color"] == flt[1]  # noqa: E731
            elif flt[0] == "colors":
                kw["color"] = [0, 1]
            elif flt[0] == "cls":
                kw["agent_class"] = CLS[flt[1]]
                match = lambda x: x.spec["cls"] == flt[1]  # noqa: E731
            elif flt[0] in ("classes", "mixed"):
                kw["agent_class"] = [CLS[c] for c in flt[1]]
                match = lambda x: x.spec["cls"] in flt[1]  # noqa: E731
                if flt[0] == "mixed":
                    kw["state"] = {"color": flt[2]}
                    match = lambda x: x.spec["cls"] in flt[1] and x.spec["color"] == flt[2]  # noqa: E731
            elif flt[0] == "base":
                kw["agent_class"] = sagents.EventedAgent if flt[1] == "evented" else sagents.BaseAgent
            elif flt[0] == "both":
                kw.update(color=flt[1], size=flt[2])
                match = lambda x: x.spec["color"] == flt[1] and x.spec["size"] == flt[2]  # noqa: E731
            elif flt[0] == "ids":
                ids = sorted({self.recs[i % len(self.recs)].agent.unique_id for i in flt[1:]})
                kw["unique_id"] = ids
                match = lambda x: x.agent.unique_id in ids  # noqa: E731
        m = self.new("bcast", r.agent if as_sender else None, exp)
        to = [x for x in self.recs if x.alive and not x.deaf and match(x) and not (as_sender and x is r)]
        for x in to:
            x.box.append(m)
        self.ctx.event("bcast", r.tag, m.payload, exp, [x.tag for x in to], now)
        self.ctx.count("broadcasts")
        self.env.broadcast(m.payload, sender=m.sender, **kw)

    # ------------------------------------------------ receiving

    def begin(self, r):
        # A handler may process messages too
        r.processing = {"start": list(r.box), "handled": [], "outer": r.processing}

    def end(self, r, valid=None, failed=False):
        p, r.processing = r.processing, r.processing["outer"]
        now = self.now
        if not failed:
            for m in p["start"]:
                if m in r.box:
                    if m.expired(now):
                        r.box.remove(m)
                        self.ctx.count("expired")
                    else:
                        props = "C08 C09 C10" if m.ask or r.wait else "C08 C09"
                        self.ctx.fail(props, "not-handled", f"{r.tag} processed its messages at {now}, and {m.payload} (sent at {m.at}, {m.how}, expires {m.exp}) was not handled")
            if valid is not None:
                got = [getattr(x, "payload", x) for x in valid]
                if not same(got, [m.payload for m in p["handled"]]):
                    self.ctx.fail("C08 C10", "wrong-result", f"{r.tag} was given {got} as the messages processed, and they were {[m.payload for m in p['handled']]}")

    def handle(self, agent, payload, sender):
        r = self.rec(agent)
        now = self.now
        ctx = self.ctx
        ctx.event("handle", r.tag, payload, now)
        if not r.alive:
            ctx.fail("C03 C08", "dead", f"{r.tag} handled {payload} after its death")
        if r.processing is None and r.wait and r.wait["op"] == "received" and r.wait["process"]:
            self.begin(r)
        if r.processing is None:
            ctx.fail("C08", "unsolicited", f"{r.tag} handled {payload} when it was not processing its messages")
        key = (r.tag, repr(payload))
        live = [m for m in r.box if not m.expired(now)]
        head = live[0] if live else None
        mine = next((m for m in live + r.box if same(m.payload, payload)), None)
        if mine is None:
            if key in self.handled:
                ctx.fail("C08 C09", "twice", f"{r.tag} handled {payload} again at {now}; it had been handled at {self.handled[key]}")
            ctx.fail("C08 C09", "not-for-it", f"{r.tag} handled {payload!r} at {now}, which was never sent to it")
        if mine.expired(now):
            ctx.fail("C09", "expired", f"{r.tag} handled {payload} at {now}, and it had expired at {mine.exp}")
        if mine is not head:
            ctx.fail("C08", "disorder", f"{r.tag} handled {payload} at {now} before {head.payload}, which was sent earlier")
        if not mine.ask and sender is not mine.sender:
            ctx.fail("C08", "sender", f"{r.tag} got {payload} from {sender!r}, and it was sent by {mine.sender!r}")
        r.box.remove(mine)
        r.processing["handled"].append(mine)
        self.handled[key] = now
        ctx.count("handled")
        if mine.exp is not None:
            ctx.count("handled_with_expiry")
            if mine.exp == now:
                ctx.count("handled_at_the_last_instant")
        hs = r.spec["handlers"]
        h = hs[r.nh % len(hs)] if hs else {"acts": [], "raise": False, "reply": 0}
        r.nh += 1
        for act in h["acts"]:
            self.op(agent, act)
            ctx.count("sent_by_handlers" if act[0] != "process" else "processed_by_handlers")
        if h["raise"]:
            r.boomed = True
            ctx.fault("failing_handler")
            raise Boom()
        reply = REPLIES[h["reply"]]
        if mine.ask:
            mine.ask["reply"] = reply
            mine.ask["replied"] = True
            ctx.count("replies")
            if not reply:
                ctx.count("falsy_replies")
        return reply

    # ------------------------------------------------ waiting

    def deadline(self, limit):
        return INF if limit is None else self.now + limit[1] * self.scale

    def start_wait(self, agent, act):
        r = self.rec(agent)
        r.wait = {"op": "received", "delay": act[2] * self.scale, "process": act[3], "deadline": self.deadline(act[1]), "checks": 1, "started": self.now}
        self.expect(r)
        return True

    def start_ask(self, agent, act):
        x = self.target(act[1])
        if x is None:
            return None
        r = self.rec(agent)
        m = self.new("ask", None)
        m.ask = {"replied": False, "reply": None}
        x.box.append(m)
        self.payload = m.payload
        self.ctx.event("ask", r.tag, x.tag, m.payload, self.now)
        r.wait = {"op": "ask", "delay": act[3] * self.scale, "deadline": self.deadline(act[2]), "ask": m.ask, "checks": 1, "started": self.now}
        self.expect(r)
        self.ctx.count("asks")
        return x.agent

    def expect(self, r):
        w, now = r.wait, self.now
        if w["op"] == "ask":
            ready = w["ask"]["replied"]
        else:
            ready = any(not m.expired(now) for m in r.box)
            if ready and w["process"]:
                self.begin(r)
            elif not ready and r.box and not w["process"]:
                w["expected"] = "any"  # only expired messages, that nobody has processed
                return
            elif not ready and r.box and w["process"]:
                self.begin(r)
        w["expected"] = "return" if ready else "timeout" if now >= w["deadline"] else "wait"

    def wait_done(self, agent, how, result=None):
        r = self.rec(agent)
        w, r.wait = r.wait, None
        now = self.now
        ctx = self.ctx
        ctx.event("done", r.tag, w["op"], how, now)
        p = r.processing
        exp = w["expected"]
        if how == "boom" and r.boomed:
            self.end(r, failed=True)
            return
        if exp != "any" and how != exp:
            ctx.fail("C10", "wrong-end", f"{r.tag} was waiting since {w['started']} ({w['op']}, until {w['deadline']}): it got {how} at {now}, expected {exp}")
        if how == "return" and w["op"] == "ask":
            if not same(result, w["ask"]["reply"]):
                ctx.fail("C10", "wrong-reply", f"{r.tag} got the reply {result!r}, and the handler returned {w['ask']['reply']!r}")
        if how == "return" and w["op"] == "received":
            got = [getattr(x, "payload", x) for x in list(result)] if result is not None else None
            if w["process"]:
                want = [m.payload for m in p["handled"]]
                if not same(got, want):
                    ctx.fail("C10", "wrong-messages", f"{r.tag} received {got}, and the messages handled were {want}")
            else:
                want = [m.payload for m in r.box if not m.expired(now)]
                if any(x not in (got or []) for x in want):
                    ctx.fail("C10", "wrong-messages", f"{r.tag} received {got}, and the messages waiting are {want}")
        if p is not None:
            self.end(r)
        if w["checks"] > 1:
            ctx.count("long_waits_" + how)
        ctx.count(f"{w['op']}_{how}")

    # ------------------------------------------------ driver

    def drive(self):
        ctx = self.ctx
        n = 0
        while any(r.alive and r.due is not None for r in self.recs) and self.now < HORIZON * self.scale:
            self.env.step()
            n += 1
            for r in self.recs:
                if r.alive and r.processing is not None and r.wait:
                    # the poll found only expired messages and dropped them
                    self.end(r)
                if r.alive and r.due is not None and r.due < self.now:
                    ctx.fail("C10 C01 C02" if r.wait else "C01 C02", "skipped", f"{r.tag} was due at {r.due}, and it is {self.now}")
            if n > 5000:
                ctx.fail("C08 C09 C10", "stuck", "the simulation does not progress")
        ctx.sim_time = min(self.now, HORIZON * self.scale)
        s = ctx.stats
        ctx.nontrivial = {
            "C08": s.get("handled", 0) >= 4 and ("sent_by_handlers" in s or "failing_handler" in ctx.faults),
            "C09": "expired" in s and "handled_with_expiry" in s,
            "C10": "long_waits_return" in s or "long_waits_timeout" in s,
        }[ctx.prop]


def run(sc, ctx):
    World(sc, ctx).drive()
