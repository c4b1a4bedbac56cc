"""C01: what a microphone records."""
from .. import simcase, world
from ..execu import Env, rng_for
from ..simcase import REAL

ID, LEVEL = "C01", "exploration"
COUNTS = {"quick": 1400, "thorough": 40000}
RULE = ("A case is one to three simulations of generated setups (arrays, paths of every type, buffer, chunk and block "
        "sizes, free and controlled sources), run interleaved in one process by a seeded scheduler that switches at "
        "every call into user code.  Non-trivial: at least two samples were simulated and at least one path is not 'none'.")
STUBS = ["sources, processors and trajectories are user code of the check", "clock and disk (not used here)"]
ASSUMPTIONS = ["sim_buffer >= max(4, 2*block size), sim_chunk_size >= block size, extra_delay >= 1",
               "aspcore's filters behave the same with the numba JIT on and off",
               "pyroomacoustics is the reference for image-source responses; with randomized_ism the paths are taken from the simulation"]


def fixed_cases():
    """The shipped default of extra_delay, a known finding."""
    cfg = dict(world.gen_cfg(rng_for("C01 fixed"), None, start=False, contrib=False), tot_samples=30, sim_buffer=40,
               sim_chunk_size=40, samplerate=2000, max_room_ir_length=40, extra_delay=0, reverb="ism", array_update_freq=1,
               room_size=[7, 5, 2.5], room_center=[-1, 0, 0], c=343.0)
    spec = {"cfg": cfg, "paths": {}, "style": "methods", "proc": None,
            "arrays": [{"name": "mic", "kind": "mic", "num": 1, "pos": [[0.0, 0.0, 0.0]]},
                       {"name": "src", "kind": "free", "num": 1, "pos": [[1.0, 1.0, 0.0]],
                        "source": {"kind": "array", "seed": 3, "length": 100}}]}
    return [{"jobs": [{"spec": spec}], "sched": {"choices": []}}]


def many_mics(rng):
    """More microphones than the image-source code handles at once."""
    spec = world.gen_spec(rng, proc=False, types=("ism",), reverbs=("ism",), max_tot=8, max_arrays=1, max_num=2)
    cfg = spec["cfg"]
    cfg["tot_samples"] = min(cfg["tot_samples"], 8)
    cfg["max_room_ir_length"], cfg["highpass_cutoff"], cfg["rt60"] = rng.choice([8, 15]), 0.0, 0.0
    num = rng.choice([500, 501, 503])
    for a in spec["arrays"]:
        if a["kind"] == "mic":
            cen, size = cfg["room_center"], cfg["room_size"]
            a["num"] = num
            a.pop("groups", None)
            a["pos"] = [[round(cen[d] + (rng.random() - 0.5) * (size[d] - 0.4), 3) for d in range(3)] for _ in range(num)]
    return {"jobs": [{"spec": spec}], "sched": simcase.gen_sched(rng)}


def gen(rng, tier, i):
    kw = {}
    if i % 400 == 33:
        return many_mics(rng)
    if i % 50 == 17:
        kw = {"max_tot": 1100}
    jobs = simcase.gen_jobs(rng, src_kinds=("array", "array", "white", "sequence", "pulse"), dynamic=False, **kw)
    for j in jobs:
        world.vary_rooms(rng, j["spec"])
    if i % 50 == 17:
        jobs = jobs[:1]
        world.set_total(jobs[0]["spec"], rng.choice([1001, 1024, 1100]))
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs = [simcase.SimJob(env, node, j["spec"], f"sim{i}") for i, j in enumerate(case["jobs"])]
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if good:
                ref = simcase.reference(env, j)
                if ref is not None:
                    simcase.check_recorded(env, j, ref, lambda n: "~" not in n)
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return simcase.nontrivial_jobs(case, out, lambda s: any(
        simcase.pair_type(s, a, b) != "none" for a in world.sources_of(s) for b in world.mics_of(s)))


shrink = simcase.shrink_jobs
