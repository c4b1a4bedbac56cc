"""C02: the contribution of each source to each microphone."""
import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C02", "exploration"
COUNTS = {"quick": 1200, "thorough": 30000}
RULE = ("A case is one or two generated simulations (static or moving arrays, with or without a processor) run with "
        "save_source_contributions on, next to a twin with it off, all interleaved by the seeded scheduler.  Non-trivial: "
        "at least two samples and at least two source arrays.")
STUBS = ["sources, processors and trajectories are user code of the check"]
ASSUMPTIONS = ["as C01", "random paths are excluded from the on/off comparison (they differ by design)"]


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, n=(1, 1, 2), contrib=True, dynamic=rng.random() < 0.3,
                            types=("modified", "direct", "none", "default"), reverbs=("none", "direct", "ism"))
    return {"jobs": jobs, "twin": rng.random() < 0.7, "sched": simcase.gen_sched(rng)}


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs, twins = [], {}
        for i, j in enumerate(case["jobs"]):
            jobs.append(simcase.SimJob(env, node, j["spec"], f"sim{i}"))
            if case["twin"]:
                off = dict(j["spec"], cfg=dict(j["spec"]["cfg"], save_source_contributions=False))
                twins[i] = simcase.SimJob(env, node, off, f"off{i}")
        everything = jobs + list(twins.values())
        ok = simcase.run_jobs(env, everything)
        if all(ok):
            for i, j in enumerate(jobs):
                ref = simcase.reference(env, j)
                if ref is None:
                    continue
                simcase.check_recorded(env, j, ref)
                if "at_prepare" in j.rec:
                    simcase.check_before_start(env, j, ref)
                for m in world.mics_of(j.spec):
                    parts = [np.asarray(j.recorded[f"{s['name']}~{m['name']}"].get_output())
                             for s in world.sources_of(j.spec)]
                    whole = np.asarray(j.recorded[m["name"]].get_output())
                    if not world.close(sum(parts, np.zeros_like(whole)), whole):
                        env.fail("sum", f"contributions do not add up to '{m['name']}': "
                                 f"{world.first_diff(sum(parts), whole)}")
                if i in twins:
                    t = twins[i]
                    if any("~" in k for k in t.sim.sig.keys()):
                        env.fail("off", f"contributions exist although they are switched off: {list(t.sim.sig.keys())}")
                    for name, d in t.recorded.items():
                        a, b = np.asarray(d.get_output()), np.asarray(j.recorded[name].get_output())
                        if not world.close(a, b):
                            env.fail("off", f"'{name}' changes when contributions are saved: {world.first_diff(a, b)}")
                    env.probe("twins compared")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return simcase.nontrivial_jobs(case, out, lambda s: len(world.sources_of(s)) > 1)


shrink = simcase.shrink_jobs
