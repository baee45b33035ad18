"""The order of simultaneous agents over many seeds. Decides C24."""
import itertools

from . import sched

RULE = "the same population under many seeds; non-trivial: at least one instant with two or more agents (ordered schedulers: three seeds compared; shuffled schedulers: 200 seeds, every permutation of 2 to 4 agents counted)"
COMPONENTS = sched.COMPONENTS
ASSUMPTIONS = ["a fair shuffle misses one of the counted orders in all the seeds of a scenario with a probability below 1e-9"]
BUDGET = 20000000
SEEDS = 200


def gen(rng, prop, idx):
    if idx % 4:
        sc = sched.gen(rng, rng.choice(["C01", "C03", "C04", "C06"]), idx)
        sc["sched"] = rng.choice(["pq_ordered", "timed_ordered", "ordered"])
        sc["mode"] = "ordered"
        sc["seeds"] = [rng.randrange(1 << 30) for _ in range(3)]
        return sc
    n = rng.choice([2, 3, 3, 4, 4, 9, 17, 33])
    if rng.random() < 0.1:
        n = rng.choice([2, 2, 3])
        long, start = rng.choice([30, 60]), rng.choice([0, 0.25])
    else:
        long, start = None, rng.choice([0, 0, 0, 0.25, 1 / 3])
    delays = rng.choice([[1] * n, [1, 2, 3, 6][:n], [2, 3, 1, 1][:n], [0.5] * n, [1, 1, 2, 2][:n]]) if n < 5 else [rng.choice([1, 2, 3])] * n
    if long:
        delays = [1] * n
    lcm = 6
    kinds = rng.choice([["plain"], ["gen"], ["async"], ["fsm"], ["mesa"], ["plain", "gen", "fsm", "mesa"]])
    sc = {"mode": "shuffled", "sched": rng.choice(["pq_shuffle", "timed_shuffle", "shuffled"]), "interval": None, "model_seed": 0, "pop": "count",
          "base": rng.randrange(1 << 30), "lcm": lcm, "n": n,
          "agents": [{"kind": rng.choice(kinds), "first": start or rng.choice([None, None, 0]), "how": "add_agent",
                      "turns": [{"pre": [], "end": [rng.choice(["num", "num", "delay"]), d]} for _ in range(int((long or 2 * lcm) / d) + 2)]} for d in delays]}
    return sc


class World(sched.World):
    def prepare(self):
        self.seq = []

    def activate(self, agent, local=None):
        self.seq.append((self.rec(agent).tag, self.now))
        return super().activate(agent, local)


def once(sc, ctx, seed, ctx_events=True):
    s = dict(sc, model_seed=seed)
    w = World(s, ctx)
    w.drive()
    return w.seq


def orders(seq, n):
    per = {}
    for tag, now in seq:
        per.setdefault(now, []).append(tag)
    return per


def run(sc, ctx):
    if sc["mode"] == "ordered":
        first = None
        for seed in sc["seeds"]:
            seq = once(sc, ctx, seed)
            if first is None:
                first = seq
            elif seq != first:
                d = next((i for i, (a, b) in enumerate(zip(first, seq)) if a != b), min(len(first), len(seq)))
                ctx.fail("C24", "seed-dependent", f"ordered scheduler {sc['sched']}: with another seed, activation {d} is {seq[d:d+1]} instead of {first[d:d+1]}")
        ctx.count("ordered_populations")
        ctx.nontrivial = any(len(v) > 1 for v in orders(first or [], 0).values())
        return
    n = len(sc["agents"])
    seen = {}
    changes = 0
    pairs = 0
    moves = {}
    for i in range(SEEDS):
        seq = once(sc, ctx, sc["base"] + i)
        if i < 3:
            again = once(sc, ctx, sc["base"] + i)
            ctx.check(seq == again, "C24", "not-repeatable", "the same seed gave two different orders")
        per = orders(seq, n)
        prev = None
        for t in sorted(per):
            if len(per[t]) != n or len(set(per[t])) != n:
                continue
            p = tuple(per[t])
            seen.setdefault(t, {}).setdefault(p, 0)
            seen[t][p] += 1
            if prev is not None:
                pairs += 1
                changes += prev != p
                at = moves.setdefault(t, [0, 0])
                at[0] += 1
                at[1] += prev != p
            prev = p
    ctx.count("shuffled_populations")
    ctx.nontrivial = n > 1 and bool(seen)
    if n < 2:
        return
    for t, (times, moved) in sorted(moves.items()):
        ctx.check(times < 100 or moved, "C24", "constant-order", lambda: f"{sc['sched']}: the order of the agents at {t} is always the one they had before, in {times} seeds")
    total = {}
    if n > 4:
        # Too many orders to see them all: every agent has to be first and last, and every pair in both orders
        firsts, lasts, pos, triples = set(), set(), set(), {}
        for t, ps in seen.items():
            for p in ps:
                firsts.add(p[0])
                lasts.add(p[-1])
        tags = [f"a{i}" for i in range(n)]
        some = [p for t in sorted(seen) for p in sorted(seen[t])][:300]
        for p in some:
            at = {x: i for i, x in enumerate(p)}
            pos |= {(x, y) for x in tags for y in tags if at[x] < at[y]}
            for j in range(n):
                tri = (tags[j], tags[(j + 1) % n], tags[(j * 3 + 4) % n])
                if len(set(tri)) == 3:
                    triples.setdefault(tri, set()).add(tuple(sorted(tri, key=at.get)))
        if sum(sum(ps.values()) for ps in seen.values()) >= 1000:
            for x in tags:
                ctx.check(x in firsts, "C24", "never-first", f"{sc['sched']}: {x} was never the first of {n} simultaneous agents")
                ctx.check(x in lasts, "C24", "never-last", f"{sc['sched']}: {x} was never the last of {n} simultaneous agents")
            for x in tags:
                for y in tags:
                    ctx.check(x == y or (x, y) in pos or len(some) < 300, "C24", "never-before", f"{sc['sched']}: of {n} simultaneous agents, {x} never ran before {y}")
            for tri, got in sorted(triples.items()):
                missing = set(itertools.permutations(tri)) - got
                ctx.check(not missing or len(some) < 300, "C24", "impossible-order", lambda: f"{sc['sched']}: of {n} simultaneous agents, {tri} never ran in the order {sorted(missing)[0]}")
        if pairs >= 100 and not changes:
            ctx.fail("C24", "constant-order", f"{sc['sched']}: the order of simultaneous agents never changes from one instant to the next")
        return
    allp = set(itertools.permutations([f"a{i}" for i in range(n)]))
    for t, ps in seen.items():
        for p, c in ps.items():
            total[p] = total.get(p, 0) + c
        if n <= 3 and sum(ps.values()) >= SEEDS:
            missing = allp - set(ps)
            if missing:
                ctx.fail("C24", "impossible-order", f"{sc['sched']}: the agents due at {t} never ran in the order {sorted(missing)[0]} in {sum(ps.values())} seeds")
    if sum(total.values()) >= 600:
        missing = allp - set(total)
        if missing:
            ctx.fail("C24", "impossible-order", f"{sc['sched']}: simultaneous agents never ran in the order {sorted(missing)[0]} in {sum(total.values())} instants")
    if pairs >= 100 and not changes:
        ctx.fail("C24", "constant-order", f"{sc['sched']}: the order of simultaneous agents never changes from one instant to the next")
