"""C11: diagnostics computed from signals and states."""
import json

import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL
from . import c08

ID, LEVEL = "C11", "exploration"
COUNTS = {"quick": 1800, "thorough": 50000}
RULE = ("A case is one or two simulations with up to six computed diagnostics (power, smoothed power ratio, sound field power, "
        "spectrum, summary of a range of samples; power, comparison, summary and eigenvalues of the state) over ranges that "
        "straddle the chunk seams, interleaved by the seeded scheduler.  Each is compared with a direct computation from "
        "the reference model's signals.  Non-trivial: a range reaches over a chunk seam, or two states were summarised.")
STUBS = ["sources and processors are user code of the check"]
ASSUMPTIONS = ["as C08", "the smoothing of a power ratio starts from zero at the first saved sample, one interval per ratio",
               "summary functions are additive over samples (they are applied in pieces)"]


def sumsq(x):
    return float(np.sum(x ** 2))


def first_val(x):
    return float(np.ravel(x)[0])


def sq_dist(a, b):
    return float(np.sum((np.ravel(a)[:2] - np.ravel(b)[:2]) ** 2))


FUNCS = {"sumsq": sumsq, "none": None}
STATE_FUNCS = {"sumsq": sumsq, "first": first_val}


def gen_range(rng, tot):
    a, b = sorted(rng.sample(range(tot + 1), 2))
    return [a, b]


def gen_channels(rng, num):
    k = rng.choice(["all", "all", "slice", "list"])
    if k == "slice":
        a = rng.randrange(num)
        return {"slice": [a, rng.randrange(a + 1, num + 1)]}
    if k == "list":
        return {"list": rng.sample(range(num), rng.randrange(1, num + 1))}
    return None


def chan(c):
    return slice(None) if c is None else (slice(*c["slice"]) if "slice" in c else list(c["list"]))


def gen_diag(rng, spec, names):
    tot = spec["cfg"]["tot_samples"]
    kinds = ["power", "power", "ratio", "ratio", "ratio", "field", "spectrum", "summary"]
    if spec.get("proc"):
        kinds += ["statepower", "comparison", "statesummary", "eig", "eigtime"]
    k = rng.choice(kinds)
    d = {"kind": k, "freq": rng.randrange(1, tot + 1)}
    if k in ("power", "ratio"):
        d["name"], d["denom"] = rng.choice(sorted(names)), rng.choice(sorted(names))
        d["ch"], d["dch"] = gen_channels(rng, names[d["name"]]), gen_channels(rng, names[d["denom"]])
        d["ivs"] = None
        if rng.random() < 0.6:
            d["ivs"] = [gen_range(rng, tot)]
            if k == "power":
                d["ivs"] = c08.gen_intervals(rng, tot) or None
    elif k in ("field", "spectrum", "summary"):
        d["name"] = rng.choice(sorted(names))
        d["range"] = gen_range(rng, tot)
        d["func"] = rng.choice(sorted(FUNCS))
        d["ch"] = gen_channels(rng, names[d["name"]]) if k == "spectrum" else None
        d["nperseg"] = rng.choice([1, 4, 7, 16])
    elif k in ("statepower", "statesummary", "comparison"):
        d["prop"] = rng.choice(["state", "mat", "scalar", "irs", "filt['w'].ir"])
        d["prop2"] = rng.choice(["state", "mat", "irs"])
        if k == "comparison":
            d["prop"] = rng.choice(["state", "mat", "nested['a'][0]"])
        d["func"] = rng.choice(sorted(STATE_FUNCS))
    else:
        d["at"] = rng.choice([None, sorted(rng.sample(range(1, tot + 1), rng.randrange(1, min(tot, 4) + 1)))])
        d["idx"] = sorted([rng.randrange(3), rng.randrange(3)])
        d["abs"] = rng.random() < 0.5
    return d


def gen(rng, tier, i):
    jobs = simcase.gen_jobs(rng, n=(1, 1, 2), types=("modified", "modified", "direct", "none"), reverbs=("none",),
                            src_kinds=("array", "array", "white", "sequence"), max_arrays=2)
    for j in jobs:
        if i % 40 == 7:
            world.set_total(j["spec"], rng.choice([200, 333, 1030]))
        tot = j["spec"]["cfg"]["tot_samples"]
        j["spec"]["cfg"]["export_frequency"] = rng.randrange(1, tot + 1)
        j["spec"]["cfg"]["output_smoothing"] = rng.choice([1, 2, 3, 8, 20])
        names = c08.signal_names(j["spec"])
        j["diags"] = [gen_diag(rng, j["spec"], names) for _ in range(rng.randrange(1, 7))]
    return {"jobs": jobs, "sched": simcase.gen_sched(rng)}


class Job(simcase.SimJob):
    def add_records(self, sim):
        M, info = self.node.mods, sim.sim_info
        self.made, self.recorded = [], {}
        names = c08.signal_names(self.spec)
        for k, d in enumerate(self.case["diags"]):
            kind, D = d["kind"], M.dia
            kw = {"export_func": "npz"}
            if kind in ("power", "ratio") and d["ivs"]:
                kw["save_at"] = M.core.IntervalCounter([tuple(iv) for iv in d["ivs"]])
            if kind == "power":
                if d["ch"] is not None:
                    kw["sig_channels"] = chan(d["ch"])
                g = D.SignalPower(d["name"], info, **kw)
            elif kind == "ratio":
                g = D.SignalPowerRatio(d["name"], d["denom"], info, numerator_channels=chan(d["ch"]),
                                       denom_channels=chan(d["dch"]), **kw)
            elif kind == "field":
                g = D.SoundfieldPower(d["name"], np.zeros((names[d["name"]], 3)), tuple(d["range"]), info, **kw)
            elif kind == "spectrum":
                n = len(np.arange(names[d["name"]])[chan(d["ch"])])
                g = M.coll.SignalPowerSpectrum(d["name"], info, tuple(d["range"]), n, min(d["nperseg"], d["range"][1] - d["range"][0]),
                                               sig_channels=chan(d["ch"]))
            elif kind == "summary":
                g = M.coll.SignalSummary(d["name"], info, tuple(d["range"]), FUNCS[d["func"]])
            elif kind == "statepower":
                g = D.StatePower(d["prop"], info, save_frequency=d["freq"], **kw)
            elif kind == "comparison":
                g = D.StateComparison(sq_dist, d["prop"], d["prop2"], info, save_frequency=d["freq"], **kw)
            elif kind == "statesummary":
                g = D.StateSummary(STATE_FUNCS[d["func"]], d["prop"], info, save_frequency=d["freq"], **kw)
            elif kind == "eig":
                g = M.coll.Eigenvalues("mat", info, save_at=d["at"], abs_value=d["abs"], **kw)
            else:
                g = M.coll.EigenvaluesOverTime("mat", tuple(d["idx"]), info, save_frequency=d["freq"], abs_value=d["abs"], **kw)
            sim.diag.add_diagnostic(f"d{k}", g)
            self.made.append(g)


def full(ref, spec, name, tot):
    return c08.wanted(ref, spec, {"name": name, "ch": None, "kind": "all"}, tot)


def average(x, n):
    p = np.concatenate([np.zeros(n), x])
    return np.array([np.sum(p[t + 1:t + n + 1]) for t in range(len(x))]) / n


def expected(d, spec, ref):
    """-> the output, or for states the list of values at the saved times."""
    tot, kind = spec["cfg"]["tot_samples"], d["kind"]
    if kind in ("power", "ratio"):
        out = np.full(tot, np.nan)
        x = np.mean(full(ref, spec, d["name"], tot)[chan(d["ch"])] ** 2, axis=0)
        y = np.mean(full(ref, spec, d["denom"], tot)[chan(d["dch"])] ** 2, axis=0)
        n = spec["cfg"]["output_smoothing"]
        for a, b in (d["ivs"] or [[0, tot]]):
            if kind == "power":
                out[a:b] = x[a:b]
            else:
                out[a:b] = average(x[a:b], n) / average(y[a:b], n)
        return out
    if kind in ("field", "spectrum", "summary"):
        a, b = d["range"]
        x = full(ref, spec, d["name"], tot)[:, a:b]
        if kind == "field":
            return np.mean(x ** 2, axis=1)
        if kind == "summary":
            return (np.sum(x ** 2) if d["func"] == "sumsq" else np.sum(x)) / (b - a)
        import scipy.signal as spsig
        return np.mean([spsig.welch(c, spec["cfg"]["samplerate"], nperseg=min(d["nperseg"], b - a), scaling="spectrum")[1]
                        for c in x[chan(d["ch"])]], axis=0)
    bs = spec["proc"]["bs"]
    if kind == "eig":
        at = d["at"] or list(range(spec["cfg"]["export_frequency"], tot + 1, spec["cfg"]["export_frequency"]))
        ev = np.linalg.eigvalsh(world.mat_after((at[-1] + 1) // bs))
        return (np.abs(ev) if d["abs"] else ev)[None, None, :]
    out = []
    for t in range(d["freq"], tot + 1, d["freq"]):
        calls = (t + 1) // bs
        if kind == "eigtime":
            ev = np.linalg.eigvalsh(world.mat_after(calls))[d["idx"][0]:d["idx"][1] + 1]
            out.append(np.abs(ev) if d["abs"] else ev)
            continue
        v = world.prop_after(d["prop"], calls)
        if kind == "statepower":
            out.append([np.mean(np.asarray(v) ** 2)])
        elif kind == "comparison":
            out.append([sq_dist(v, world.prop_after(d["prop2"], calls))])
        else:
            out.append([STATE_FUNCS[d["func"]](v)])
    return np.array(out).T


STATES = ("statepower", "comparison", "statesummary", "eigtime")


def check(env, j, d, g, ref):
    want = expected(d, j.spec, ref)
    got = np.asarray(g.get_output())
    if d["kind"] in STATES:
        n = want.shape[-1]
        got = np.atleast_2d(got)
        if got.shape[-1] < n or not np.all(np.isnan(got[:, n:])):
            env.fail(d["kind"], f"{j.token}: {d}: {n} values are due, got {got.tolist()}")
            return
        got = got[:, :n]
        labels = list(np.asarray(g.time_indices)[:n]) if hasattr(g, "time_indices") else None
        times = [t - 1 for t in range(d["freq"], j.spec["cfg"]["tot_samples"] + 1, d["freq"])]
        if labels is not None and labels != times:
            env.fail("labels", f"{j.token}: {d}: times {labels}, should be {times}")
    if d["kind"] == "ratio":
        # where the denominator is (next to) nothing the ratio means nothing
        tot = j.spec["cfg"]["tot_samples"]
        y = np.mean(full(ref, j.spec, d["denom"], tot)[chan(d["dch"])] ** 2, axis=0)
        a, b = (d["ivs"] or [[0, tot]])[0]
        den = np.full(tot, np.nan)
        den[a:b] = average(y[a:b], j.spec["cfg"]["output_smoothing"])
        weak = den < 1e-9
        if got.shape == want.shape:
            got, want = np.where(weak, 0, got), np.where(weak, 0, want)
            with np.errstate(all="ignore"):
                scale = np.maximum(1.0, np.abs(want))
            got, want = got / scale, want / scale
    if got.shape != want.shape or not np.array_equal(np.isnan(got), np.isnan(want)) or \
            not world.close(np.nan_to_num(got), np.nan_to_num(want), 1e-7):
        env.fail(d["kind"], f"{j.token}: {d}: {world.first_diff(np.nan_to_num(got, nan=-9e9), np.nan_to_num(want, nan=-9e9), 1e-7)}")
    env.note(np.nan_to_num(np.round(want, 4)))


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        jobs = []
        for i, c in enumerate(case["jobs"]):
            j = Job(env, node, c["spec"], f"sim{i}")
            j.case = c
            jobs.append(j)
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if good:
                ref = simcase.reference(env, j)
                if ref is not None:
                    env.probe("samples simulated", j.spec["cfg"]["tot_samples"])
                    for d, g in zip(j.case["diags"], j.made):
                        env.probe(d["kind"])
                        check(env, j, d, g, ref)
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    if out["violations"]:
        return False
    for j in case["jobs"]:
        cfg = j["spec"]["cfg"]
        tot, chunk = cfg["tot_samples"], cfg["sim_chunk_size"]
        for d in j["diags"]:
            if d["kind"] in STATES and tot >= 2 * d["freq"]:
                return True
            ivs = [d["range"]] if "range" in d else ([[0, tot]] if not d.get("ivs") else d["ivs"])
            if d["kind"] not in STATES + ("eig",) and any(b - a > 1 and b > chunk - world.max_block(j["spec"]) for a, b in ivs):
                return True
    return False


def shrink(case):
    for i, j in enumerate(case["jobs"]):
        for k in range(len(j["diags"])):
            if len(j["diags"]) > 1:
                c = json.loads(json.dumps(case))
                del c["jobs"][i]["diags"][k]
                yield c
            for key in ("ivs", "ch", "dch"):
                if j["diags"][k].get(key):
                    c = json.loads(json.dumps(case))
                    c["jobs"][i]["diags"][k][key] = None
                    yield c
    for c in simcase.shrink_jobs(case):
        if all(valid(j) for j in c["jobs"]):
            yield c


def valid(j):
    names, tot = c08.signal_names(j["spec"]), j["spec"]["cfg"]["tot_samples"]
    if j["spec"]["cfg"]["export_frequency"] > tot:
        return False
    for d in j["diags"]:
        if d["freq"] > tot or (d["kind"] in STATES + ("eig",) and not j["spec"].get("proc")):
            return False
        if d.get("at") and d["at"][-1] > tot:
            return False
        for iv in [d.get("range")] + (d.get("ivs") or []):
            if iv and iv[1] > tot:
                return False
        for n, c in ((d.get("name"), d.get("ch")), (d.get("denom"), d.get("dch"))):
            if n and n not in names:
                return False
            if n and c and max(c["slice"][1] - 1 if "slice" in c else max(c["list"]), 0) >= names[n]:
                return False
    return True
