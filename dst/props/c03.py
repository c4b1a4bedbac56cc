"""C03: what a processor is shown and what becomes of what it writes."""
import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C03", "exploration"
COUNTS = {"quick": 1300, "thorough": 40000}
RULE = ("A case is one to three generated simulations with a processor (feedback from the mics, own signals, signals made "
        "in its constructor), interleaved by the seeded scheduler.  Non-trivial: the processor was called at least twice "
        "and at least one chunk seam was crossed.")
STUBS = ["the processor and the sources are user code of the check"]
ASSUMPTIONS = ["as C01", "history is only promised for sim_buffer - block size samples", "one processor (more are rejected)"]


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, proc=True, ctrl=True if rng.random() < 0.8 else None,
                            types=("modified", "modified", "direct", "none"), reverbs=("none", "direct"),
                            src_kinds=("array", "white"), dynamic=False)
    for j in jobs:
        j["spec"]["proc"]["extra_sig"] = rng.random() < 0.5
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


class Job(simcase.SimJob):
    def add_records(self, sim):
        super().add_records(sim)
        if self.spec["proc"].get("extra_sig"):
            self.recorded["extra_sig"] = self.node.mods.dia.RecordSignal("extra_sig", sim.sim_info, num_channels=2,
                                                                         export_func="npz")
            sim.diag.add_diagnostic("rec extra_sig", self.recorded["extra_sig"])


def check_calls(env, j, ref):
    spec = j.spec
    bs, buf, tot = spec["proc"]["bs"], spec["cfg"]["sim_buffer"], spec["cfg"]["tot_samples"]
    hist = buf - bs
    calls = j.rec["calls"]
    if j.rec.get("prepared", 0) != 1:
        env.fail("prepare", f"{j.token}: prepare was called {j.rec.get('prepared', 0)} times")
    need = max(0, -(-tot // bs) - 1)
    if len(calls) < need:
        env.fail("calls", f"{j.token}: the processor was called {len(calls)} times in {tot} samples, block size {bs}")
    for k, c in enumerate(calls):
        n = (k + 1) * bs            # samples that exist at this call
        if c["num"] != bs:
            env.fail("calls", f"{j.token}: call {k} was told {c['num']} samples instead of {bs}")
        if c["short"]:
            env.fail("history", f"{j.token}: call {k}: fewer than {hist} samples of history")
        if c["future"] != 0:
            env.fail("future", f"{j.token}: call {k}: the mic signals after the current sample are not zero: {c['future']}")
        if c["tensor"] is not None:
            # what was written to it by the calls before, zeros before the first
            t = np.concatenate([np.zeros((2, hist))] + [world.extra_rule(q, bs) for q in range(k)], axis=1)[:, None, :] \
                * np.array([1.0, 2.0, -3.0])[None, :, None]
            t = np.concatenate([np.zeros((2, 3, bs)), t], axis=2)[..., -hist:] if hist else t[..., :0]
            if not world.close(c["tensor"], t):
                env.fail("history", f"{j.token}: call {k} (after {n} samples) sees wrong 'extra_tensor': {world.first_diff(c['tensor'], t)}")
        if n > ref.total:
            continue
        for kind in ("hist", "free"):
            for name, got in c[kind].items():
                want = ref.upto(name, n, hist)
                if not world.close(got, want):
                    env.fail("history", f"{j.token}: call {k} (after {n} samples) sees wrong '{name}': "
                             f"{world.first_diff(got, want)}")
    env.probe("processor calls", len(calls))


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs = [Job(env, node, j["spec"], f"sim{i}") for i, j in enumerate(case["jobs"])]
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if not good:
                continue
            ref = simcase.reference(env, j)
            if ref is None:
                continue
            check_calls(env, j, ref)
            extra = j.recorded.pop("extra_sig", None)
            simcase.check_recorded(env, j, ref, lambda n: "~" not in n)
            if extra is not None:
                tot, bs = j.spec["cfg"]["tot_samples"], j.spec["proc"]["bs"]
                want = np.zeros((2, tot + bs))
                for k in range(-(-tot // bs)):
                    n = min(bs, want.shape[1] - (k + 1) * bs)
                    want[:, (k + 1) * bs:(k + 2) * bs] = world.extra_rule(k, bs)[:, :n]
                got = np.asarray(extra.get_output())
                if not world.close(got, want[:, :tot]):
                    env.fail("own signal", f"{j.token}: the processor's own signal: {world.first_diff(got, want[:, :tot])}")
                env.probe("own signals")
            s = j.spec["cfg"]
            if s["tot_samples"] > s["sim_chunk_size"]:
                env.probe("chunk seams crossed")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return simcase.nontrivial_jobs(case, out, lambda s: s["cfg"]["tot_samples"] > max(
        s["cfg"]["sim_chunk_size"], 2 * s["proc"]["bs"]))


shrink = simcase.shrink_jobs
