"""C05: moving arrays."""
import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C05", "exploration"
COUNTS = {"quick": 1000, "thorough": 30000}
RULE = ("A case is one to three simulations with one or two moving arrays (user-written, linear, circular and combined "
        "trajectories) next to static ones, with different update intervals, sound speeds and delays, interleaved by the "
        "seeded scheduler at every request for a position.  Non-trivial: an image-source path of a moving array.")
STUBS = ["user-written trajectories, sources and processors are code of the check"]
ASSUMPTIONS = ["as C01", "paths of moving arrays are not set by the user (the code rejects that)"]


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, n=(1, 1, 1, 2), dynamic=True, max_tot=33, reverbs=("ism", "ism", "none"),
                            types=("modified", "none", "default", "ism", "ism"), max_arrays=2)
    for j in jobs:
        if rng.random() < 0.1:
            j["spec"]["cfg"]["highpass_cutoff"] = 0.1 * j["spec"]["cfg"]["samplerate"]
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs = [simcase.SimJob(env, node, j["spec"], f"sim{i}") for i, j in enumerate(case["jobs"])]
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if not good:
                continue
            ref = simcase.reference(env, j)
            if ref is None:
                continue
            simcase.check_recorded(env, j, ref)
            # where the arrays ended up
            last = j.sim.n_tot - 1 if hasattr(j.sim, "n_tot") else None
            freq = j.spec["cfg"]["array_update_freq"]
            for a in j.spec["arrays"]:
                if a.get("traj"):
                    env.probe(f"moving {a['kind']}, {a['traj']['kind']}")
                    if last is not None:
                        want = simcase.position(a, last // freq * freq)
                        got = np.asarray(j.sim.arrays[a["name"]].pos)
                        if not world.close(got, want, 1e-7):
                            env.fail("position", f"{j.token}: '{a['name']}' ended at {got.tolist()}, not {want.tolist()}")
                        arr = j.sim.arrays[a["name"]]
                        times = list(range(0, last + 1, freq))
                        if [int(t) for t in arr.time_all] != times:
                            env.fail("log", f"{j.token}: '{a['name']}' lists updates at {arr.time_all}, not {times}")
                        elif not world.close(np.array(arr.pos_all), np.array([simcase.position(a, t) for t in times]), 1e-7):
                            env.fail("log", f"{j.token}: '{a['name']}' lists wrong positions for its updates")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return simcase.nontrivial_jobs(case, out, lambda s: any(
        simcase.pair_type(s, a, b) == "ism" and (a.get("traj") or b.get("traj"))
        for a in world.sources_of(s) for b in world.mics_of(s)))


shrink = simcase.shrink_jobs
