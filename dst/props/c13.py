"""C13: the session folder under crashes, disk faults and concurrent use."""
import json
import pathlib
import random

import numpy as np

from .. import faults, simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0
from . import c12

ID, LEVEL = "C13", "exploration"
COUNTS = {"quick": 700, "thorough": 30000}
REAL = REAL0 + ["dill, yaml and json on the simulated disk"]
RULE = ("A case is one to three rounds of one to three programs each, running at once on one session folder with two or three "
        "different setups, interleaved at every disk operation; some are killed at a chosen or random operation (in the middle of a "
        "write too), some meet disk errors, full disks, short reads and writes, the clock jumps, and between rounds the power may "
        "fail (what was written but never synced is cut off or zeroed from some place on).  Then every setup is run again twice without faults: "
        "no program may fail because of the others, every path and signal must be that of the reference model, and what was "
        "saved completely must be reused, unchanged.  Non-trivial: at least one fault fired, or two programs saved at once.")
STUBS = ["the disk and the clock are simulated on top of real files in a scratch directory", "sources, processors and trajectories are user code of the check"]
ASSUMPTIONS = ["as C12", "a killed program keeps what it handed to the operating system and loses its own buffers",
               "in a power failure files keep a prefix, the rest is missing or zero; directories survive"]


def gen(rng, tier, i):
    base = None
    while base is None or not any(simcase.pair_type(base, s, m) in ("ism", "random", "modified", "direct") for s in world.sources_of(base)
                                  for m in world.mics_of(base)):
        base = c12.gen_base(rng)
    base["cfg"]["rt60"] = 0.0
    world.set_total(base, rng.choice([1, 2, 4]))
    base["cfg"]["sim_buffer"] = max(4, 2 * (base["proc"]["bs"] if base["proc"] else 1))
    specs = [base]
    for _ in range(rng.choice([1, 1, 2])):
        s = c12.vary(rng, base)[1]
        if not c12.directional(s):
            s["cfg"]["tot_samples"] = min(s["cfg"]["tot_samples"], 6)
            specs.append(s)
    calm = rng.random() < 0.25              # only interleavings
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        progs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            plan = {}
            if not calm and rng.random() < 0.7:
                plan = faults.gen_plan(rng, faults.SESSION_OPS, rng.choice([None, ("crash", "torn"), ("crash", "torn"), faults.ERRORS + ("short",)]),
                                       (1, 1, 1, 2, 3))
                if rng.random() < 0.2:
                    plan[f"op {rng.randrange(1, 60)}"] = {"kind": "crash"}
            progs.append({"spec": rng.randrange(len(specs)), "plan": plan, "np_seed": rng.randrange(1000)})
        rounds.append({"progs": progs, "power": None if calm or rng.random() < 0.75 else rng.randrange(10 ** 6)})
    return {"specs": specs, "rounds": rounds, "fs_seed": rng.randrange(1000), "clock": {} if calm else faults.gen_clock(rng),
            "tick": rng.choice([0.0, 0.001, 1.0]), "junk": rng.sample(c12.JUNK, rng.choice([0, 0, 1])),
            "sched": simcase.gen_sched(rng, (0.05, 0.2, 0.5, 0.8))}


def content(folder):
    """session folder -> its files."""
    return {d: {p.name: p.read_bytes() for p in sorted((folder / d).iterdir()) if p.is_file()} for d in c12.sessions(folder)}


def power_failure(env, folder, seed):
    """Files lose their ends; returns the folders touched."""
    rng = random.Random(seed)
    hit = set()
    for d in c12.sessions(folder):
        for p in sorted((folder / d).iterdir()):
            if not p.is_file() or rng.random() < 0.5:
                continue
            data = p.read_bytes()
            cut = rng.choice([0, len(data) // 2, rng.randrange(len(data) + 1), max(0, len(data) - 1)])
            p.write_bytes(data[:cut] + (b"\0" * (len(data) - cut) if rng.random() < 0.4 else b""))
            hit.add(d)
    env.kernel.event(f"power failure {len(hit)}")
    env.fs.fired["power failure"] = env.fs.fired.get("power failure", 0) + 1
    return hit


def run(case):
    env = Env(case["sched"], fs=True, fs_seed=case["fs_seed"])
    faults.set_clock(env, case)
    try:
        folder = pathlib.Path(env.root) / "sessions"
        folder.mkdir()
        c12.put_junk(folder, case["junk"])
        done = {}          # spec index -> [paths of programs that completed and whose sessions must be there]
        complete = {}      # session folder -> files, of sessions which must not change any more
        keys = [c12.key(s) for s in case["specs"]]
        total = 0

        def programs(progs, what):
            """Runs programs at once; judges each."""
            nonlocal total
            jobs, tasks = [], []
            for n, p in enumerate(progs):
                node = env.node(f"{what}.{n}", True, p["np_seed"])
                node.plan = p["plan"]
                j = simcase.SimJob(env, node, case["specs"][p["spec"]], f"{what}.{n}", session=folder)
                jobs.append(j)
                tasks.append(env.spawn(j.token, j, node))
            env.run()
            for p, j, t in zip(progs, jobs, tasks):
                total += 1
                err = faults.had_errors(j.node)
                if t.crashed:
                    env.probe("programs killed")
                    continue
                if not env.unexpected(t, OSError if err else ()):
                    env.probe("programs failed with the disk's error" if err else "programs failed")
                    continue
                env.probe("programs completed despite disk errors" if err else "programs completed")
                ref = simcase.reference(env, j)
                if ref is not None:
                    simcase.check_recorded(env, j, ref)
                if not err:
                    done.setdefault(keys[p["spec"]], []).append(j.sim_paths)
            return jobs

        def unchanged():
            now = content(folder)
            for d, files in complete.items():
                if now.get(d) != files:
                    env.fail("session changed", f"{d} was complete, now it differs: {sorted(files)} -> {sorted(now.get(d, []))}")
            return now

        for r, rd in enumerate(case["rounds"]):
            before = set(content(folder))
            programs(rd["progs"], f"round{r}")
            if env.violations:
                return env.outcome()
            now = unchanged()
            if len(set(now) - before) > 1:
                env.probe("rounds with several sessions saved")
            if all(not p["plan"] for p in rd["progs"]):
                complete.update({d: f for d, f in now.items() if d not in before})
            if rd["power"] is not None:
                hit = power_failure(env, folder, rd["power"])
                complete = {d: f for d, f in complete.items() if d not in hit}
                if hit:
                    done.clear()
        for again in (0, 1):
            for k in range(len(case["specs"])):
                before = content(folder)
                must = done.get(keys[k], [])
                j, = programs([{"spec": k, "plan": {}, "np_seed": 100 + k + 10 * again}], f"final{again}.{k}")
                if env.violations:
                    return env.outcome()
                now = unchanged()
                new = sorted(set(now) - set(before))
                complete.update({d: now[d] for d in new})
                if must:
                    env.probe("session reused")
                    if new:
                        env.fail("not reused", f"{j.token} saved {new} although a program with the same setup had completed")
                    elif not any(all(np.array_equal(h, q[p]) for p, h in j.sim_paths.items()) for q in must):
                        env.fail("not reused", f"{j.token} has the paths of none of the {len(must)} programs that completed")
                elif len(new) > 1:
                    env.fail("saved", f"{j.token} saved {new}")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and (bool(out["fired"]) or out["probes"].get("rounds with several sessions saved", 0) > 0)


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, rd in enumerate(case["rounds"]):
        if len(case["rounds"]) > 1:
            c = copy()
            del c["rounds"][i]
            yield c
        for n, p in enumerate(rd["progs"]):
            if len(rd["progs"]) > 1:
                c = copy()
                del c["rounds"][i]["progs"][n]
                yield c
            for k in p["plan"]:
                c = copy()
                del c["rounds"][i]["progs"][n]["plan"][k]
                yield c
        if rd["power"] is not None:
            c = copy()
            c["rounds"][i]["power"] = None
            yield c
    for i in range(1, len(case["specs"])):
        c = copy()
        del c["specs"][i]
        for rd in c["rounds"]:
            rd["progs"] = [dict(p, spec=p["spec"] - (p["spec"] > i)) for p in rd["progs"] if p["spec"] != i]
        c["rounds"] = [rd for rd in c["rounds"] if rd["progs"]]
        yield c
    if case["clock"]:
        c = copy()
        c["clock"] = {}
        yield c
    if case["junk"]:
        c = copy()
        c["junk"] = []
        yield c
    if len({json.dumps(s) for s in case["specs"]}) == 1 and len(case["specs"]) == 1:
        for s in simcase.shrink_spec(case["specs"][0]):
            c = copy()
            c["specs"][0] = s
            yield c
