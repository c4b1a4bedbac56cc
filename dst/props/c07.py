"""C07: simulations do not influence each other."""
import json

import numpy as np

from .. import simcase, world
from ..execu import Env, UserFault
from ..simcase import REAL

ID, LEVEL = "C07", "exploration"
COUNTS = {"quick": 450, "thorough": 20000}
RULE = ("A case is one to three setups, each making one to three simulators with the config changed in between while the "
        "earlier ones already run, all interleaved in one process by the seeded scheduler at every call into user code; some "
        "are aborted by an exception of user code at a random call; afterwards simulators made from the same setups are run "
        "alone.  Non-trivial: at least two simulations were under way at once (at least one context switch).")
STUBS = ["sources, processors and trajectories are user code of the check"]
ASSUMPTIONS = ["as C01", "no random paths here (they draw from numpy's global generator by design)",
               "threads switch at calls into user code only"]


def patches(rng, spec):
    """Changes of the config between create_simulator calls (absolute values)."""
    cfg = spec["cfg"]
    out = {}
    for key, vals in (("c", [343.0, 300.0, 340.0]), ("extra_delay", [1, 2, 3, 5]), ("max_room_ir_length", [1, 5, 12, 30]),
                      ("samplerate", [500, 1000, 2000]), ("room_size", [[7, 5, 2.5], [6, 8, 4]]),
                      ("start_sources_before_0", [True, False]), ("save_source_contributions", [True, False]),
                      ("array_update_freq", [1, 2, 4]), ("sim_chunk_size", [cfg["sim_chunk_size"] + d for d in (0, 1, 3, 17)]),
                      ("sim_buffer", [cfg["sim_buffer"] + d for d in (0, 1, 5)]), ("tot_samples", [7, 19, 30]),
                      ("reverb", ["none", "ism"])):
        if rng.random() < 0.3:
            out[key] = rng.choice(vals)
    if "room_size" in out or "samplerate" in out:
        if any(a.get("traj") for a in spec["arrays"]) or cfg["room_size"] == [7, 5, 2.5]:
            out.pop("room_size", None)       # everything stays inside the room
        elif "room_size" in out and any(o > n for o, n in zip(cfg["room_size"], out["room_size"])):
            out.pop("room_size")
    return out


def gen(rng, tier, i):
    setups = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        spec = world.gen_spec(rng, dynamic=rng.random() < 0.35, max_tot=27, max_arrays=2,
                              types=("modified", "none", "default", "default", "ism"), reverbs=("none", "ism", "ism"),
                              src_kinds=("array", "white", "sine", "pulse", "bandlimited", "sequence"))
        n = rng.choice([1, 2, 2, 3]) if setups else rng.choice([2, 2, 3])
        setups.append({"spec": spec, "variants": [{}] + [patches(rng, spec) for _ in range(n - 1)],
                       "after": rng.choice(["rerun", "rerun", "scribble"])})
    aborts = {}
    names = [f"s{a}v{b}" for a, s in enumerate(setups) for b in range(len(s["variants"]))]
    for n in names:
        if rng.random() < 0.2:
            aborts[n] = rng.randrange(1, 40)
    return {"setups": setups, "aborts": aborts, "sched": simcase.gen_sched(rng, (0.1, 0.3, 0.6))}


def variant_spec(s, patch):
    spec = json.loads(json.dumps(s["spec"]))
    spec["cfg"].update(patch)
    return spec


class SetupTask:
    def __init__(self, env, node, s, name):
        self.env, self.node, self.s, self.name = env, node, s, name
        self.jobs, self.tasks, self.before = [], [], None

    def make(self, patch, name):
        setup = self.setup
        base = self.s["spec"]["cfg"]
        world.apply_cfg(setup.sim_info, dict(base, **patch))
        j = simcase.SimJob(self.env, self.node, variant_spec(self.s, patch), name)
        j.setup = setup
        j.create()
        return j

    def __call__(self):
        self.setup = world.new_setup(self.node.mods, self.s["spec"], token=self.name)
        for v, patch in enumerate(self.s["variants"]):
            name = f"{self.name}v{v}"
            j = self.make(patch, name)
            self.jobs.append(j)
            self.tasks.append(self.env.spawn(name, j.run, self.node))
            self.env.kernel.yield_point(f"created {name}")
        if self.s["after"] == "scribble":
            for d in self.setup.arrays.paths.values():
                for p in d.values():
                    p[...] = 1e6
            world.apply_cfg(self.setup.sim_info, {"tot_samples": 3, "c": 100.0, "sim_buffer": 1, "samplerate": 7})

    def again(self, v):
        j = self.make(self.s["variants"][v], f"{self.name}v{v} again")
        j.run()
        return j


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        calls = {}

        def on_hook(token, what):
            name = env.kernel.cur.name
            calls[name] = calls.get(name, 0) + 1
            if case["aborts"].get(name) == calls[name]:
                env.probe("aborted by user code")
                env.kernel.event("fault user code raises")
                raise UserFault(name)
        env.on_hook = on_hook
        sts = [SetupTask(env, node, s, f"s{i}") for i, s in enumerate(case["setups"])]
        tasks = [env.spawn(f"setup {t.name}", t, node) for t in sts]
        env.run()
        env.on_hook = None
        for t, task in zip(sts, tasks):
            made = env.unexpected(task)
            first = []
            for j, jt in zip(t.jobs, t.tasks):
                good = env.unexpected(jt, UserFault)
                first.append(j if good else None)
                if good:
                    ref = simcase.reference(env, j)
                    if ref is not None:
                        simcase.check_recorded(env, j, ref)
            if not made or t.s["after"] != "rerun":
                continue
            for v in reversed(range(len(t.jobs))):
                task2 = env.spawn(f"{t.name}v{v} again", lambda v=v, t=t: t.again(v), node)
                env.run()
                if not env.unexpected(task2):
                    continue
                j2 = task2.result
                env.probe("run again")
                ref = simcase.reference(env, j2)
                if ref is not None:
                    simcase.check_recorded(env, j2, ref)
                if first[v] is not None:
                    for name, d in first[v].recorded.items():
                        a, b = np.asarray(d.get_output()), np.asarray(j2.recorded[name].get_output())
                        if not world.close(a, b, 1e-12):
                            env.fail("repeat", f"{j2.token}: '{name}' differs from the first run: {world.first_diff(b, a, 1e-12)}")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and out["switches"] > 0


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i in range(len(case["setups"])):
        if len(case["setups"]) > 1:
            c = copy()
            del c["setups"][i]
            c["aborts"] = {}
            yield c
    for k in case["aborts"]:
        c = copy()
        del c["aborts"][k]
        yield c
    for i, s in enumerate(case["setups"]):
        for v in range(1, len(s["variants"])):
            c = copy()
            del c["setups"][i]["variants"][v]
            yield c
            for key in s["variants"][v]:
                c = copy()
                del c["setups"][i]["variants"][v][key]
                yield c
        for sp in simcase.shrink_spec(s["spec"]):
            c = copy()
            c["setups"][i]["spec"] = sp
            yield c
