"""C18: phase and event counters."""
import copy as copymod
import json
import pickle

from ..execu import Env
from .. import simcase, userlib

ID, LEVEL = "C18", "exploration"
COUNTS = {"quick": 3000, "thorough": 200000}
REAL = ["aspsim.counter"]
RULE = ("A case is one to four tasks (as the processors of as many simulations), each advancing up to three phase and event counters, some made from the same definition, "
        "adding events, changing the definitions afterwards, copying and pickling counters, interleaved after every step by the seeded scheduler; some tasks are "
        "aborted.  After every step every counter of every task is compared with the closed-form model.  Non-trivial: a phase was left or an event happened.")
STUBS = ["the simulations which would call the counters are the tasks"]
ASSUMPTIONS = ["phase lengths are whole numbers or infinite, periods are positive whole numbers"]

INF = float("inf")


def gen_def(rng):
    if rng.random() < 0.55:
        names = rng.sample(["init", "wait", "process", "a", "b", "None", "phase 6", "z"], rng.choice([0, 1, 1, 2, 3, 4, 6]))
        d = []
        for n in names:
            d.append([n, rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 30, "inf" if rng.random() < 0.5 else 4, -1 if rng.random() < 0.3 else 2])])
        return {"kind": "phase", "def": d, "verbose": rng.random() < 0.1}
    names = rng.sample(["e1", "e2", "update", "save", "x"], rng.choice([0, 1, 2, 3, 5]))
    return {"kind": "event", "def": [[n, rng.randrange(1, 13), rng.randrange(-5, 20)] for n in names]}


def gen(rng, tier, i):
    defs = [gen_def(rng) for _ in range(rng.choice([1, 2, 3]))]
    tasks = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        counters = [rng.randrange(len(defs)) for _ in range(rng.choice([1, 1, 2, 3]))]
        steps = []
        for _ in range(rng.choice([3, 10, 30, 60])):
            c = rng.randrange(len(counters))
            r = rng.random()
            if r < 0.88:
                steps.append(["progress", c, rng.choice([1, 1, 1, 2, 7])])
            elif r < 0.92:
                steps.append(["add", c, rng.choice(["e1", "new", "n2", "save"]), rng.randrange(1, 9), rng.randrange(-3, 9)])
            elif r < 0.95:
                steps.append(["copy", c])
            elif r < 0.97:
                steps.append(["pickle", c])
            elif r < 0.985:
                steps.append(["change", c])
            elif r < 0.99:
                steps.append(["abort", c])
            else:
                steps.append(["progress", c, 200])
        tasks.append({"counters": counters, "steps": steps})
    return {"defs": defs, "tasks": tasks, "share": rng.random() < 0.5, "sched": simcase.gen_sched(rng, (0.1, 0.5, 0.8))}


class Model:
    """Phases and events by closed form."""

    def __init__(self, d):
        self.kind = d["kind"]
        self.k = 0
        if self.kind == "phase":
            self.ranges, at = [], 0
            for n, ln in d["def"]:
                ln = INF if ln == "inf" or ln < 0 else ln
                self.ranges.append((n, at, at + ln))
                at += ln
            self.end = at
        else:
            self.events = {n: (f, o) for n, f, o in d["def"]}

    def phase(self):
        for n, a, b in self.ranges:
            if a <= self.k < b:
                return n, self.k == a
        return None, self.k == self.end

    def event(self):
        return sorted(n for n, (f, o) in self.events.items() if (self.k - o) % f == 0) if self.k else []


def plain(d):
    if d["kind"] == "phase":
        return {n: INF if ln == "inf" else ln for n, ln in d["def"]}
    return {n: (f, o) for n, f, o in d["def"]}


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("shared")
        C = node.mods.counter
        shared = [plain(d) for d in case["defs"]]
        live = []            # [owner, counter, model]

        def check(who):
            for owner, c, m in live:
                if m.kind == "phase":
                    ph, first = m.phase()
                    if c.phase != ph or bool(c.first_sample) != first or any(bool(c.current_phase_is(n)) != (n == ph) for n, _, _ in m.ranges):
                        env.fail("phase", f"after {who}: counter of {owner} {m.ranges} at {m.k} is in phase {c.phase!r}, first {c.first_sample}; should be {ph!r}, {first}")
                        return
                elif sorted(c.event) != m.event():
                    env.fail("event", f"after {who}: counter of {owner} {m.events} at {m.k} lists {c.event}, should be {m.event()}")
                    return

        def make(i):
            d = case["defs"][i]
            arg = shared[i] if case["share"] else plain(d)
            c = C.PhaseCounter(arg, d["verbose"]) if d["kind"] == "phase" else C.EventCounter(arg)
            return c, Model(d), arg

        def program(t, token):
            def go():
                mine = []
                for i in t["counters"]:
                    c, m, arg = make(i)
                    mine.append([c, m, arg])
                    live.append((token, c, m))
                    check(f"{token} created a counter")
                for st in t["steps"]:
                    c, m, arg = mine[st[1]]
                    userlib._hook(token, " ".join(map(str, st)))
                    if st[0] == "progress":
                        for _ in range(st[2]):
                            c.progress()
                            m.k += 1
                            before = len(env.violations)
                            check(f"{token} {st}")
                            if len(env.violations) > before:
                                return
                        if m.kind == "phase" and m.ranges and m.phase()[0] != m.ranges[0][0] or m.kind == "event" and m.event():
                            env.probe("changes")
                    elif st[0] == "add" and m.kind == "event":
                        c.add_event(st[2], st[3], st[4])
                        m.events[st[2]] = (st[3], st[4])
                        c.progress()
                        m.k += 1
                        env.probe("events added")
                    elif st[0] in ("copy", "pickle"):
                        # the copy goes on, and so does the original now and then
                        c2 = copymod.deepcopy(c) if st[0] == "copy" else pickle.loads(pickle.dumps(c))
                        m2 = copymod.deepcopy(m)
                        live.append((token + " copy", c2, m2))
                        mine.append([c2, m2, dict(arg)])
                        mine[st[1]], mine[-1] = mine[-1], mine[st[1]]
                        c.progress()
                        m.k += 1
                        env.probe("copies")
                    elif st[0] == "change" and not case["share"]:
                        # the user goes on using his definition
                        arg.clear()
                        arg["other"] = 7 if m.kind == "phase" else (1, 0)
                    elif st[0] == "abort":
                        return
                    check(f"{token} {st}")
            return go
        tasks = [env.spawn(f"t{n}", program(t, f"t{n}"), node) for n, t in enumerate(case["tasks"])]
        env.run()
        for t in tasks:
            env.unexpected(t)
        env.kernel.hash.update(json.dumps([[m.k, m.kind] for _, _, m in live]).encode())
        env.probe("counters", len(live))
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and out["probes"].get("changes", 0) > 0


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, t in enumerate(case["tasks"]):
        if len(case["tasks"]) > 1:
            c = copy()
            del c["tasks"][i]
            yield c
        n = len(t["steps"])
        for a, b in ((0, n // 2), (n // 2, n)):
            if b > a and n > 1:
                c = copy()
                del c["tasks"][i]["steps"][a:b]
                yield c
        for k in range(n):
            c = copy()
            del c["tasks"][i]["steps"][k]
            yield c
        if len(t["counters"]) > 1:
            for k in range(len(t["counters"])):
                c = copy()
                del c["tasks"][i]["counters"][k]
                c["tasks"][i]["steps"] = [[s[0], s[1] - (s[1] > k)] + s[2:] for s in t["steps"] if s[1] != k]
                yield c
    for i, d in enumerate(case["defs"]):
        for k in range(len(d["def"])):
            c = copy()
            del c["defs"][i]["def"][k]
            yield c
    if case["share"]:
        c = copy()
        c["share"] = False
        yield c
