"""C04: what exists before time 0."""
from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C04", "exploration"
COUNTS = {"quick": 1300, "thorough": 40000}
RULE = ("A case is one to three simulations with a processor that reads all signals before the first sample and during the "
        "first calls, half of them with start_sources_before_0, interleaved by the seeded scheduler.  "
        "Non-trivial: some path or source is longer than one sample.")
STUBS = ["the processor and the sources are user code of the check"]
ASSUMPTIONS = ["as C01", "moving arrays stand at their first position before time 0 (documented)"]


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, proc=True, dynamic=rng.random() < 0.2, max_tot=33,
                            types=("modified", "modified", "direct", "none", "default"), reverbs=("none", "direct", "ism"),
                            src_kinds=("array", "white", "sine", "pulse", "bandlimited", "gold"))
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs = [simcase.SimJob(env, node, j["spec"], f"sim{i}") for i, j in enumerate(case["jobs"])]
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if good:
                ref = simcase.reference(env, j)
                if ref is None:
                    continue
                simcase.check_before_start(env, j, ref)
                from . import c03
                c03.check_calls(env, j, ref)
                simcase.check_recorded(env, j, ref)
                env.probe("pre-rolled" if j.spec["cfg"]["start_sources_before_0"] else "started at 0")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return simcase.nontrivial_jobs(case, out, lambda s: any(
        simcase.pair_type(s, a, b) != "none" for a in world.sources_of(s) for b in world.mics_of(s)))


shrink = simcase.shrink_jobs
