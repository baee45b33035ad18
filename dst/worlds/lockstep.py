"""A scheduler wrapped to advance in fixed intervals, against its unwrapped twin. Decides C23."""
import soil.time as stime

from . import sched

RULE = "random population that uses relative delays, on a random scheduler, alone and wrapped in lockstep; non-trivial: some interval groups several instants, and some agent skips an interval"
COMPONENTS = sched.COMPONENTS
BUDGET = 5000000
ASSUMPTIONS = ["agents use relative delays: in lockstep, the clock they read is the start of the interval"]


def relative(spec):
    for t in spec["turns"]:
        if t["end"][0] in ("at", "past"):
            t["end"] = ["delay", t["end"][1]]
        for act in t["pre"]:
            if act[0] == "spawn":
                relative(act[1])


def gen(rng, prop, idx):
    while True:
        sc = sched.gen(rng, rng.choice(["C01", "C03", "C04", "C06"]), idx)
        for a in sc["agents"]:
            relative(a)
        sc["lock"] = rng.choice([0.25, 0.5, 1, 1, 2, 3, 10])
        sc["warm"] = rng.choice([0, 0, 0, 1, 2, 4])
        text = repr(sc)
        if "0.1" in text and ("0.1," in text or "0.1]" in text) or "0.7" in text or "0.3]" in text or "1000.5" in text or "0.0009" in text:
            continue  # decimal fractions are not exact, and very different scales take too many steps
        return sc


class Base(sched.World):
    def activate(self, agent, local=None):
        t = super().activate(agent, local)
        return t


class Plain(sched.World):
    def prepare(self):
        self.seq = []

    def activate(self, agent, local=None):
        self.seq.append((self.rec(agent).tag, self.now))
        return super().activate(agent, local)


class Locked(sched.World):
    """The reference clock is the due time of the agent that is running."""

    def prepare(self):
        self.seq = []
        self.true = 0
        self.wrapped = False
        if not self.sc.get("warm"):
            self.wrap()

    def wrap(self):
        self.wrapped = True
        self.locked = stime.Lockstepper(self.env.schedule, self.sc["lock"])
        self.env.schedule = self.locked

    @property
    def now(self):
        return self.true

    def activate(self, agent, local=None):
        r = self.rec(agent)
        ctx = self.ctx
        ctx.event("act", r.tag, r.due)
        if not r.alive or r.due is None:
            ctx.fail("C23", "extra", f"{r.tag} was activated in lockstep, and it was not due")
        if self.wrapped and not (self.start <= r.due < self.end):
            ctx.fail("C23", "wrong-interval", f"{r.tag} was due at {r.due}, and it was activated in the interval [{self.start}, {self.end})")
        if r.due < self.true:
            ctx.fail("C23", "disorder", f"{r.tag}, due at {r.due}, was activated after agents due at {self.true}")
        self.true = r.due
        self.seq.append((r.tag, r.due))
        r.first = False
        if local is not None:
            local.append(r.turn)
            r.expect = list(local)
        r.due = "running"
        self.current = r
        self.acts += 1
        turns = r.spec["turns"]
        t = turns[r.turn] if r.turn < len(turns) else {"pre": [], "end": ["inf"]}
        r.turn += 1
        for act in t["pre"]:
            if act[0] == "spawn":
                self.spawn(act[1])
            else:
                self.kill(act[1], act[0])
        return t

    def drive(self):
        ctx = self.ctx
        lock = self.sc["lock"]
        k = 0
        extra = 3
        t0 = 0
        if not self.wrapped:
            # It is wrapped when it has been running for a while
            for _ in range(self.sc["warm"]):
                if self.env.running:
                    self.env.step()
            t0 = self.env.now
            if t0 == sched.INF:
                return False
            ctx.count("wrapped_later")
            self.wrap()
        grouped = skipped = False
        while extra:
            if not self.pending():
                extra -= 1
            self.start, self.end = t0 + k * lock, t0 + (k + 1) * lock
            n = len(self.seq)
            if self.env.now != self.start:
                ctx.fail("C23", "clock", f"the lockstep clock is {self.env.now} after {k} steps of {lock}")
            self.env.step()
            k += 1
            if self.env.now != self.end or self.env.schedule.steps != k:
                ctx.fail("C23", "clock", f"the lockstep clock is {self.env.now} after {self.env.schedule.steps} steps of {lock}, expected {self.end} after {k}")
            late = [(r.tag, r.due) for r in self.recs if r.alive and r.due is not None and r.due < self.end]
            if late:
                ctx.fail("C23", "missed", f"{late} were due before {self.end}, and were not activated in the interval [{self.start}, {self.end})")
            instants = {t for _, t in self.seq[n:]}
            grouped = grouped or len(instants) > 1
            skipped = skipped or not instants
            if k > 3000:
                break
        ctx.sim_time = k * lock
        return grouped and skipped


def run(sc, ctx):
    twin = Plain(sc, ctx)
    twin.drive()
    if max((t for _, t in twin.seq), default=0) / sc["lock"] > 2500:
        return
    w = Locked(sc, ctx)
    ctx.nontrivial = w.drive()
    ctx.check(w.seq == twin.seq, "C23", "different",
              lambda: f"activations in lockstep {w.seq[:40]} differ from those of the scheduler on its own {twin.seq[:40]}")
