"""C10: snapshots of the processor's state."""
import json

import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C10", "exploration"
COUNTS = {"quick": 2200, "thorough": 60000}
RULE = ("A case is one to three simulations whose processor changes its state in place at every call, with up to six "
        "recordings of states and filters at random frequencies or indices, interleaved by the seeded scheduler; what has "
        "been recorded is also looked at during every call.  Non-trivial: at least two snapshots were taken at different "
        "states.")
STUBS = ["sources and processors are user code of the check"]
ASSUMPTIONS = ["as C01", "save frequencies of 1 or more, indices within the simulation"]
DIMS = {"state": 3, "scalar": 1, "calls": 1, "nested['a'][0]": 2, "nested['a'][0][1]": 1, "mat": (3, 3), "filt['w'].ir": (2, 4)}


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, n=(1, 1, 2, 3), proc=True, types=("modified", "none"), reverbs=("none",), max_arrays=2, max_num=2)
    for j in jobs:
        tot = j["spec"]["cfg"]["tot_samples"]
        j["spec"]["cfg"]["export_frequency"] = rng.randrange(1, tot + 1)
        j["diags"] = []
        for _ in range(rng.randrange(1, 7)):
            k = rng.choice(["state", "state", "instant", "instant", "difference"])
            if k == "state":
                j["diags"].append({"kind": k, "prop": rng.choice(sorted(DIMS)), "freq": rng.randrange(1, tot + 1)})
            else:
                at = rng.choice(["default", "freq", "list", "array"])
                sel = None
                if at == "freq":
                    sel = rng.randrange(1, tot + 1)
                elif at != "default":
                    sel = sorted(rng.sample(range(1, tot + 1), rng.randrange(1, min(tot, 5) + 1)))
                j["diags"].append({"kind": k, "prop": rng.choice(PROPS if k == "instant" else ["state", "mat", "irs"]),
                                   "at": sel, "array": at == "array"})
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


class Job(simcase.SimJob):
    def add_records(self, sim):
        M = self.node.mods
        self.made = []
        for k, d in enumerate(self.case["diags"]):
            if d["kind"] == "state":
                g = M.dia.RecordState(d["prop"], DIMS[d["prop"]], sim.sim_info, save_frequency=d["freq"], export_func="npz")
            else:
                at = np.array(d["at"]) if d["array"] else d["at"]
                if d["kind"] == "instant":
                    g = M.dia.RecordFilter(d["prop"], sim.sim_info, save_at=at, export_func="npz")
                else:
                    g = M.dia.RecordFilterDifference(d["prop"], OTHER[d["prop"]], sim.sim_info, save_at=at, export_func="npz")
            sim.diag.add_diagnostic(f"d{k}", g)
            self.made.append(g)


PROPS = world.PROPS + ("nested['a']", "filt['w']")         # also containers and objects of the processor
OTHER = {"state": "nested['a'][0][1]", "mat": "scalar", "irs": "filt['w'].ir"}


def value(d, calls):
    v = world.prop_after(d["prop"], calls)
    return v - world.prop_after(OTHER[d["prop"]], calls) if d["kind"] == "difference" else v


def save_times(d, cfg):
    """The times at which it is saved: after so many samples."""
    tot = cfg["tot_samples"]
    at = d["freq"] if d["kind"] == "state" else (cfg["export_frequency"] if d["at"] is None else d["at"])
    return list(range(at, tot + 1, at)) if isinstance(at, int) else list(at)


def check(env, j, d, g, upto, what, final=False):
    """Everything saved at times <= upto is there, and nothing else."""
    cfg, bs = j.spec["cfg"], j.spec["proc"]["bs"]
    times = [t for t in save_times(d, cfg) if t <= upto]
    want = [value(d, (t + 1) // bs) for t in times]
    got = g.get_output()
    if hasattr(got, "ir"):
        got = got.ir
    if d["kind"] != "state":
        if not times:
            if got is not None:
                env.fail("snapshot", f"{what}: {d}: there is a snapshot before the first one is due: {got}")
        elif not world.close(got, want[-1]):
            env.fail("snapshot", f"{what}: {d}: {np.asarray(got).tolist()} instead of {np.asarray(want[-1]).tolist()}, as it "
                     f"was after {times[-1]} samples")
        return
    got = np.asarray(got)
    dim = DIMS[d["prop"]]
    dim = (dim,) if isinstance(dim, int) else dim
    n = len(times)
    if got.shape[:-1] != dim or got.shape[-1] < n:
        env.fail("state", f"{what}: {d}: shape {got.shape}, should be {dim} and at least {n}")
        return
    w = np.stack([np.broadcast_to(x, dim) for x in want], axis=-1) if n else np.zeros(dim + (0,))
    if not world.close(got[..., :n], w):
        env.fail("state", f"{what}: {d}: {world.first_diff(got[..., :n], w)}")
    elif not np.all(np.isnan(got[..., n:])):
        env.fail("state", f"{what}: {d}: there are values after the {n} that are due: {got[..., n:]}")
    if final:
        env.note(w)
        for t in sorted({1, cfg["tot_samples"] // 2, cfg["tot_samples"]} | set(times[:3])):
            v, labels = g.get_processed_output(t, [])
            k = [i for i, s in enumerate(times) if s <= t]
            if list(labels) != [times[i] - 1 for i in k] or not world.close(v, w[..., k]):
                env.fail("labels", f"{what}: {d}: exported at {t}: times {list(labels)}, should be {[times[i] - 1 for i in k]}")
                break


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs, by_name = [], {}
        for i, c in enumerate(case["jobs"]):
            j = Job(env, node, c["spec"], f"sim{i}")
            j.case, j.n = c, 0
            jobs.append(j)
            by_name[j.token] = j

        def on_hook(token, what):
            j = by_name.get(env.kernel.cur.name)
            if j is not None and what.startswith("process"):
                n = (j.n + 1) * j.spec["proc"]["bs"] - 1      # the sample being made; saved: up to the one before
                j.n += 1
                if not env.violations:
                    for d, g in zip(j.case["diags"], j.made):
                        check(env, j, d, g, min(n - 1, j.spec["cfg"]["tot_samples"]), f"{j.token} at call {j.n}")
        env.on_hook = on_hook
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if not good:
                continue
            env.probe("samples simulated", j.spec["cfg"]["tot_samples"])
            for d, g in zip(j.case["diags"], j.made):
                check(env, j, d, g, j.spec["cfg"]["tot_samples"], j.token, final=True)
                env.probe(f"{d['kind']} {d['prop']}")
                bs = j.spec["proc"]["bs"]
                if len({(t + 1) // bs for t in save_times(d, j.spec["cfg"])}) > 1:
                    env.probe("different snapshots")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and out["probes"].get("different snapshots", 0) > 0


def shrink(case):
    for i, j in enumerate(case["jobs"]):
        for k in range(len(j["diags"])):
            if len(j["diags"]) > 1:
                c = json.loads(json.dumps(case))
                del c["jobs"][i]["diags"][k]
                yield c
    for c in simcase.shrink_jobs(case):
        ok = True
        for j in c["jobs"]:
            tot = j["spec"]["cfg"]["tot_samples"]
            ok = ok and j["spec"].get("proc") and j["spec"]["cfg"]["export_frequency"] <= tot and all(
                max(d["at"] if isinstance(d.get("at"), list) else [d.get("at") or d.get("freq") or 1]) <= tot for d in j["diags"])
        if ok:
            yield c


