"""Random fault plans for the processes of a run."""
from .simfs import FAULTS_OF

# operation kind -> (weight, how many of these a program makes, roughly)
SESSION_OPS = {"mkdir": (2, 2), "open-w": (3, 4), "write": (6, 6), "open-r": (3, 6), "read": (3, 12), "listdir": (1, 2),
               "stat": (2, 20), "clock": (1, 2), "callback": (1, 20)}
ERRORS = ("eio", "enospc", "emfile")


def gen_plan(rng, ops, kinds=None, n=(1,)):
    """A plan with a few faults, aimed at operations where they mean something."""
    plan = {}
    names = sorted(ops)
    for _ in range(rng.choice(n)):
        op = rng.choices(names, [ops[k][0] for k in names])[0]
        ok = [k for k in FAULTS_OF[op] if kinds is None or k in kinds]
        if ok:
            plan[f"{op} {rng.randrange(1, ops[op][1] + 1)}"] = {"kind": rng.choice(ok), "frac": rng.choice([0.0, 0.2, 0.5, 0.8, 0.99])}
    return plan


def gen_clock(rng, events=400):
    """Jumps of the clock."""
    if rng.random() < 0.6:
        return {}
    return {str(rng.randrange(1, events)): rng.choice([-7200.0, -60.0, -1.0, 0.5, 61.0, 86400.0, 4e7]) for _ in range(rng.choice([1, 2, 3]))}


def set_clock(env, case):
    env.kernel.clock_events = {int(k): v for k, v in case.get("clock", {}).items()}
    env.kernel.tick = case.get("tick", 0.001)


def had_errors(node):
    return any(k in ERRORS for k in node.faults)


def had_errors_since(node, n):
    return any(k in ERRORS for k in node.faults[n:])
