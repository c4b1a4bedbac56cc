"""C08: recording a signal."""
import json

import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C08", "exploration"
COUNTS = {"quick": 1500, "thorough": 50000}
RULE = ("A case is one or two simulations with up to eight recordings of mic, source, contribution and processor-made signals "
        "(everything, lists of intervals, lists of indices, every n-th sample; all or some channels), with buffer and chunk "
        "sizes such that intervals straddle the seams, interleaved by the seeded scheduler; at every call of the processor "
        "what has been recorded so far is compared too.  Non-trivial: an interval reaches over a chunk seam.")
STUBS = ["sources and processors are user code of the check"]
ASSUMPTIONS = ["as C01", "intervals are increasing, do not overlap, and lie within the simulation"]


def gen_intervals(rng, tot):
    cuts = sorted(rng.sample(range(tot + 1), min(tot + 1, rng.choice([2, 2, 4, 4, 6]))))
    ivs = [[a, b] for a, b in zip(cuts[::2], cuts[1::2])]
    return [iv for iv in ivs if iv[1] > iv[0]]


def gen_rec(rng, spec, names):
    name = rng.choice(sorted(names))
    num, tot = names[name], spec["cfg"]["tot_samples"]
    r = {"name": name, "ch": None}
    if rng.random() < 0.4:
        k = rng.randrange(1, num + 1)
        ch = rng.sample(range(num), k)
        r["ch"] = ch[0] if k == 1 and rng.random() < 0.5 else ch
    kind = rng.choice(["all", "intervals", "intervals", "intervals", "array", "indices", "freq"])
    if kind in ("intervals", "array"):
        r["ivs"] = gen_intervals(rng, tot)
        if not r["ivs"]:
            kind = "all"
    if kind == "indices":
        r["idx"] = sorted(rng.sample(range(1, tot + 1), rng.randrange(1, min(tot, 6) + 1)))
    if kind == "freq":
        r["freq"] = rng.randrange(1, max(2, tot))
        if r["freq"] > tot:
            kind = "all"
    r["kind"] = kind
    return r


def signal_names(spec):
    names = {a["name"]: a["num"] for a in spec["arrays"]}
    if spec["cfg"]["save_source_contributions"]:
        for s in world.sources_of(spec):
            for m in world.mics_of(spec):
                names[f"{s['name']}~{m['name']}"] = m["num"]
    if spec.get("proc") and spec["proc"].get("extra_sig"):
        names["extra_sig"] = 2
    return names


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, n=(1, 1, 2), types=("modified", "modified", "direct", "none"), reverbs=("none",),
                            src_kinds=("array", "array", "counter", "sequence"))
    for j in jobs:
        if i % 40 == 7:
            world.set_total(j["spec"], rng.choice([200, 333, 1030]))
        names = signal_names(j["spec"])
        j["recs"] = [gen_rec(rng, j["spec"], names) for _ in range(rng.randrange(1, 9))]
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


def selected(r, tot):
    """Which samples are to be recorded."""
    on = np.zeros(tot, dtype=bool)
    if r["kind"] == "all":
        on[:] = True
    elif r["kind"] in ("intervals", "array"):
        for a, b in r["ivs"]:
            on[a:b] = True
    elif r["kind"] == "indices":
        on[np.array(r["idx"]) - 1] = True
    else:
        on[r["freq"] - 1::r["freq"]] = True
    return on


class Job(simcase.SimJob):
    def add_records(self, sim):
        M, tot = self.node.mods, self.spec["cfg"]["tot_samples"]
        self.diags_made = []
        names = signal_names(self.spec)
        for k, r in enumerate(self.case["recs"]):
            kw = {}
            if r["kind"] == "intervals":
                kw["save_at"] = M.core.IntervalCounter([tuple(iv) for iv in r["ivs"]])
            elif r["kind"] == "array":
                kw["save_at"] = M.core.IntervalCounter(np.array(r["ivs"]))
            elif r["kind"] == "indices":
                kw["save_at"] = M.core.IntervalCounter(list(r["idx"]))
            elif r["kind"] == "freq":
                kw["save_at"] = M.core.IntervalCounter.from_frequency(r["freq"], tot)
            num = names[r["name"]]
            if r["ch"] is not None:
                kw["channel_idx"] = r["ch"] if isinstance(r["ch"], int) else tuple(r["ch"])
                num = 1 if isinstance(r["ch"], int) else len(r["ch"])
            d = M.dia.RecordSignal(r["name"], sim.sim_info, num_channels=num, export_func="npz", **kw)
            sim.diag.add_diagnostic(f"rec{k}", d)
            self.diags_made.append(d)


def wanted(ref, spec, r, tot):
    if r["name"] == "extra_sig":
        bs = spec["proc"]["bs"]
        n = -(-tot // bs) + 1
        s = np.concatenate([np.zeros((2, bs))] + [world.extra_rule(k, bs) for k in range(n)], axis=1)[:, :tot]
    else:
        s = ref.rec(r["name"], tot)
    if r["ch"] is not None:
        s = s[[r["ch"]] if isinstance(r["ch"], int) else r["ch"]]
    return np.where(selected(r, tot)[None, :], s, np.nan)


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs = []
        for i, c in enumerate(case["jobs"]):
            j = Job(env, node, c["spec"], f"sim{i}")
            j.case, j.partial = c, []
            jobs.append(j)
        by_name = {j.token: j for j in jobs}

        def on_hook(token, what):
            j = by_name.get(env.kernel.cur.name)
            if j is not None and what.startswith("process") and len(j.partial) < 60:
                j.partial.append([np.array(d.get_output()) for d in j.diags_made])
        env.on_hook = on_hook
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if not good:
                continue
            j.recorded = {}
            ref = simcase.reference(env, j)
            if ref is None:
                continue
            tot = j.spec["cfg"]["tot_samples"]
            env.probe("samples simulated", tot)
            for k, (r, d) in enumerate(zip(j.case["recs"], j.diags_made)):
                want = wanted(ref, j.spec, r, tot)
                got = np.asarray(d.get_output())
                env.note(np.nan_to_num(got, nan=-99))
                env.probe(f"recorded {r['kind']}")
                if got.shape != want.shape:
                    env.fail("recording", f"{j.token}: {r}: shape {got.shape}, not {want.shape}")
                    continue
                bad = np.isnan(got) != np.isnan(want)
                if np.any(bad):
                    t = int(np.argwhere(bad)[0][1])
                    env.fail("recording", f"{j.token}: {r}: sample {t} is {got[:, t]}, should be {want[:, t]} "
                             f"({int(np.sum(bad))} samples recorded where none should be, or the other way round)")
                elif not world.close(np.nan_to_num(got), np.nan_to_num(want)):
                    env.fail("recording", f"{j.token}: {r}: {world.first_diff(np.nan_to_num(got), np.nan_to_num(want))}")
                for at, snap in enumerate(j.partial):
                    p = snap[k]
                    wrong = ~np.isnan(p) & ~(np.abs(p - want) <= 1e-8 * max(1.0, float(np.nanmax(np.abs(want), initial=0.0))))
                    if np.any(wrong):
                        env.fail("early", f"{j.token}: {r}: at call {at} of the processor a wrong value was recorded at "
                                 f"{np.argwhere(wrong)[0].tolist()}")
                        break
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    if out["violations"]:
        return False
    for j in case["jobs"]:
        cfg = j["spec"]["cfg"]
        tot, chunk = cfg["tot_samples"], cfg["sim_chunk_size"]
        for r in j["recs"]:
            ivs = [[0, tot]] if r["kind"] == "all" else r.get("ivs", [])
            if any(b - a > 1 and b > chunk - world.max_block(j["spec"]) for a, b in ivs):
                return True
    return False


def shrink(case):
    for i, j in enumerate(case["jobs"]):
        for k in range(len(j["recs"])):
            if len(j["recs"]) > 1:
                c = json.loads(json.dumps(case))
                del c["jobs"][i]["recs"][k]
                yield c
            r = j["recs"][k]
            if r.get("ivs") and len(r["ivs"]) > 1:
                for n in range(len(r["ivs"])):
                    c = json.loads(json.dumps(case))
                    del c["jobs"][i]["recs"][k]["ivs"][n]
                    yield c
            if r["ch"] is not None:
                c = json.loads(json.dumps(case))
                c["jobs"][i]["recs"][k]["ch"] = None
                yield c
    for c in simcase.shrink_jobs(case):
        if all(valid(j) for j in c["jobs"]):
            yield c


def valid(j):
    names, tot = signal_names(j["spec"]), j["spec"]["cfg"]["tot_samples"]
    for r in j["recs"]:
        if r["name"] not in names:
            return False
        ch = [r["ch"]] if isinstance(r["ch"], int) else (r["ch"] or [])
        if any(c >= names[r["name"]] for c in ch):
            return False
        if any(b > tot for a, b in r.get("ivs", [])) or any(x > tot for x in r.get("idx", [])) or r.get("freq", 1) > tot:
            return False
    return True
