"""C09: exporting diagnostics."""
import json
import pathlib

import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0
from . import c08

ID, LEVEL = "C09", "exploration"
COUNTS = {"quick": 420, "thorough": 30000}
REAL = REAL0 + ["matplotlib (except rendering)", "soundfile encoding"]
RULE = ("A case is one or two processes on one simulated disk, each with one simulation and up to six diagnostics with random "
        "save intervals, export schedules, formats and preprocessing, interleaved at every disk operation.  After the run the "
        "folder must hold exactly the scheduled exports, each with exactly what was saved before its index.  Non-trivial: at "
        "least two exports were made.")
STUBS = ["the disk is simulated on top of real files in a scratch directory", "rendering of figures (the plotted lines are "
         "written instead)", "sources and processors are user code of the check"]
ASSUMPTIONS = ["as C08", "exports at index 1 or later", "no faults here (C16 and C17 have them)"]

NAMES = ["mic", "mic_1", "x_10", "rec 2", "power", "State", "a.b", "err-3", "wav", "q_7_q", "w[0]"]
PRE = ("linear", "smooth3", "smooth2", "clip", "db")


def pre_funcs(M, names):
    out = []
    for n in names:
        if n == "linear":
            out.append(M.pp.linear)
        elif n.startswith("smooth"):
            out.append(M.pp.smooth(int(n[-1])))
        elif n == "clip":
            out.append(M.pp.clip(-1.5, 2.5))
        else:
            out += [M.pp.clip(1e-3, 1e3), M.pp.db_power]
    return out


def pre_model(names, v):
    for n in names:
        if n.startswith("smooth"):
            k = int(n[-1])
            p = np.concatenate([np.zeros((v.shape[0], k)), v], axis=1)
            v = sum(p[:, k - i:k - i + v.shape[1]] for i in range(k)) / k
        elif n == "clip":
            v = np.minimum(np.maximum(v, -1.5), 2.5)
        elif n == "db":
            v = 10 * np.log10(np.minimum(np.maximum(v, 1e-3), 1e3))
    return v


def gen_export(rng, tot):
    k = rng.choice(["default", "freq", "freq", "list", "list"])
    if k == "default":
        return None
    if k == "freq":
        return rng.randrange(max(1, tot // 6), tot + 1)
    l = sorted(rng.sample(range(1, tot + 1), min(tot, rng.choice([1, 1, 2, 3]))))
    if rng.random() < 0.2:
        l.append(tot + rng.randrange(1, 9))
    return l


def gen_diag(rng, spec, names, name, plots):
    cfg = spec["cfg"]
    tot = cfg["tot_samples"]
    kinds = ["signal", "signal", "signal", "power"] + (["state", "state", "statepower", "instant"] if spec.get("proc") else [])
    d = {"name": name, "kind": rng.choice(kinds), "keep": rng.random() < 0.2}
    fmts = {"signal": ["npz", "npz", "text", "wav", "spectrum", "plot"], "power": ["npz", "text", "plot"],
            "state": ["npz", "plot"], "statepower": ["npz", "plot"], "instant": ["npz", "text"]}[d["kind"]]
    if d["kind"] in ("signal", "power"):
        r = c08.gen_rec(rng, spec, names)
        if d["kind"] == "power":
            r["ch"] = None
        d["rec"] = r
        d["export"] = gen_export(rng, tot)
    elif d["kind"] in ("state", "statepower"):
        d["prop"] = rng.choice(["state", "scalar", "nested['a'][0]"])
        d["freq"] = rng.randrange(1, tot + 1)
        d["export"] = gen_export(rng, tot)
    else:
        d["prop"] = rng.choice(["irs", "mat", "filt['w'].ir"])
        d["export"] = gen_export(rng, tot)
        if isinstance(d["export"], list):
            d["export"] = [t for t in d["export"] if t <= tot]
        if d["prop"] == "mat":
            fmts = fmts + ["matshow"]
        if d["prop"] == "irs":
            fmts = fmts + ["irplot"]
    funcs = rng.sample(sorted(set(fmts)), min(len(set(fmts)), rng.choice([1, 1, 2])))
    if not plots:
        funcs = [f for f in funcs if f in ("npz", "text", "wav")] or ["npz"]
    d["funcs"] = funcs
    d["pre"] = [[rng.choice(PRE)] if rng.random() < 0.5 and d["kind"] != "instant" and f != "wav" else [] for f in funcs]
    return d


def gen(rng, tier, i):
    jobs = []
    for _ in range(rng.choice([1, 1, 2])):
        spec = world.gen_spec(rng, types=("modified", "none", "direct"), reverbs=("none",), max_tot=40, max_arrays=2, large=0.01)
        spec["cfg"]["plot_output"] = rng.choice(["pdf", "pdf", "pdf", "svg", "none"])
        if rng.random() < 0.1:
            spec["cfg_file"] = rng.choice(["folder", "file", "text"])
        names = c08.signal_names(spec)
        ds = []
        for n in rng.sample(NAMES, rng.randrange(1, 6)):
            plots = sum(f in ("plot", "spectrum", "matshow", "irplot") for d in ds for f in d["funcs"]) < 2
            ds.append(gen_diag(rng, spec, names, n, plots))
        jobs.append({"spec": spec, "diags": ds, "nofig": rng.random() < 0.1})
    return {"jobs": jobs, "sched": simcase.gen_sched(rng, (0.0, 0.05, 0.2))}


def schedule(d, cfg):
    e = cfg["export_frequency"] if d["export"] is None else d["export"]
    tot = cfg["tot_samples"]
    return list(range(e, tot + 1, e)) if isinstance(e, int) else [t for t in e if t <= tot]


FUNC = {"irplot": "plot"}


class Job(simcase.SimJob):
    nofig = False

    def add_records(self, sim):
        M = self.node.mods
        names = c08.signal_names(self.spec)
        self.recorded = {}
        for d in self.case["diags"]:
            kw = {"export_func": [FUNC.get(f, f) for f in d["funcs"]], "export_kwargs": [{} for _ in d["funcs"]],
                  "preprocess": [pre_funcs(M, p) for p in d["pre"]], "keep_only_last_export": d["keep"]}
            if len(d["funcs"]) == 1 and not d["pre"][0]:
                kw.pop("preprocess")
                kw.pop("export_kwargs")
                kw["export_func"] = kw["export_func"][0]
            if d["kind"] in ("signal", "power"):
                r = d["rec"]
                if r["kind"] in ("intervals", "array"):
                    kw["save_at"] = M.core.IntervalCounter([tuple(iv) for iv in r["ivs"]])
                elif r["kind"] == "indices":
                    kw["save_at"] = M.core.IntervalCounter(list(r["idx"]))
                elif r["kind"] == "freq":
                    kw["save_at"] = M.core.IntervalCounter.from_frequency(r["freq"], sim.sim_info.tot_samples)
                if d["kind"] == "power":
                    g = M.dia.SignalPower(r["name"], sim.sim_info, d["export"], **kw)
                else:
                    num = names[r["name"]]
                    if r["ch"] is not None:
                        kw["channel_idx"] = r["ch"] if isinstance(r["ch"], int) else tuple(r["ch"])
                        num = 1 if isinstance(r["ch"], int) else len(r["ch"])
                    g = M.dia.RecordSignal(r["name"], sim.sim_info, d["export"], num_channels=num, **kw)
            elif d["kind"] == "state":
                dim = int(np.size(world.prop_after(d["prop"], 0)))
                g = M.dia.RecordState(d["prop"], dim, sim.sim_info, d["export"], d["freq"], **kw)
            elif d["kind"] == "statepower":
                g = M.dia.StatePower(d["prop"], sim.sim_info, d["export"], d["freq"], **kw)
            else:
                g = M.dia.RecordFilter(d["prop"], sim.sim_info, d["export"], **kw)
            sim.diag.add_diagnostic(d["name"], g)


def content(d, spec, ref, t):
    """-> (values (channels, n), their times) of an export with index t."""
    tot = spec["cfg"]["tot_samples"]
    if d["kind"] in ("signal", "power"):
        v = c08.wanted(ref, spec, d["rec"], tot)[:, :t]
        on = c08.selected(d["rec"], tot)[:t]
        v, times = v[:, on], np.arange(t)[on]
        if d["kind"] == "power":
            v = np.mean(v ** 2, axis=0, keepdims=True)
        return v, times
    bs = spec["proc"]["bs"]
    if d["kind"] in ("state", "statepower"):
        ends = list(range(d["freq"], min(tot, t) + 1, d["freq"]))
        v = [np.atleast_1d(world.prop_after(d["prop"], (e + 1) // bs)) for e in ends]
        if d["kind"] == "statepower":
            v = [np.array([np.mean(x ** 2)]) for x in v]
        n = 1 if d["kind"] == "statepower" else int(np.size(world.prop_after(d["prop"], 0)))
        return np.array(v).T.reshape(n, len(ends)), np.array(ends, dtype=int) - 1
    return world.prop_after(d["prop"], (t + 1) // bs), None


EXT = {"npz": "npz", "text": "json", "wav": "wav"}


def file_name(d, f, t, fmt):
    if f == "wav":
        return f"{d['name']}_{d['name']}_{t}.wav"
    return f"{d['name']}_{t}.{EXT.get(f, fmt)}"


def expected_files(case_job):
    """file name -> (diag, function index, t)"""
    spec, out = case_job["spec"], {}
    for d in case_job["diags"]:
        times = schedule(d, spec["cfg"])
        for k, f in enumerate(d["funcs"]):
            for t in times:
                if f == "npz" and d["keep"] and t != times[-1]:
                    continue
                out[file_name(d, f, t, spec["cfg"]["plot_output"])] = (d, k, t)
    return out


def same(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    return bool(np.array_equal(fa, fb) and world.close(np.where(fa, a, 0), np.where(fb, b, 0), tol))


def check_file(path, d, k, t, spec, ref):
    """-> None or what is wrong."""
    f = d["funcs"][k]
    v, times = content(d, spec, ref, t)
    v = pre_model(d["pre"][k], v) if d["kind"] != "instant" else v
    if f == "npz":
        with np.load(path) as z:
            keys, got = list(z.keys()), None
            if keys == [d["name"]]:
                got = z[d["name"]]
        if got is None:
            return f"holds {keys}"
        if not same(got, v):
            return world.first_diff(got, v) + f" (got {str(got)[:120]})"
    elif f == "text":
        got = json.loads(path.read_text())
        mean = float(np.mean(v)) if np.size(v) else float("nan")
        if list(got) != [d["name"]] or not same(got[d["name"]], mean):
            return f"holds {got}, should be the mean {mean}"
    elif f == "wav":
        import soundfile
        got, sr = soundfile.read(path, always_2d=True)
        if sr != spec["cfg"]["samplerate"] or got.T.shape != v.shape:
            return f"{got.T.shape} at {sr} Hz instead of {v.shape} at {spec['cfg']['samplerate']} Hz"
        top = np.max(np.abs(v), initial=0.0)
        want = v / top if top > 0 else v
        n = v.shape[1]
        cut = int(0.1 * n)
        if not np.all(np.abs(got.T[:, cut:n - cut] - want[:, cut:n - cut]) < 2e-4):
            return "the audio is not the normalised signal"
    else:
        raw = path.read_bytes()
        if not raw.startswith(b"%SIMPLOT\n"):
            return "is not a plot"
        axes = json.loads(raw[9:])
        if f == "matshow":
            return None if axes[0]["images"] == 1 else f"{axes[0]['images']} images"
        lines = axes[0]["lines"] if f != "irplot" else [ln for a in axes for ln in a["lines"]]
        if f == "irplot":
            v = v[0]
            times = np.arange(v.shape[1])
        if f == "spectrum":
            times = np.arange(v.shape[1])
        if len(lines) != v.shape[0]:
            return f"{len(lines)} lines, should be {v.shape[0]}"
        for c, (x, y) in enumerate(lines):
            if not (same(x, times) and same(y, v[c])):
                return f"line {c}: x {x[:8]} y {y[:8]}, should be x {list(times[:8])} y {v[c][:8].tolist()}"
    return None


# what is written to the folder besides the exports
OTHER = {"config.yaml", "metadata_arrays.json", "metadata_paths.json", "array_pos.json", "metadata_processor.json",
         "array_pos.pdf", "array_pos.svg"}


def check_folder(env, j, ref, ignore=()):
    spec = j.spec
    folder = j.sim.folder_path
    if j.nofig:
        env.probe("simulations without a folder")
    if j.nofig or spec["cfg"]["plot_output"] == "none":
        if folder is not None:
            env.fail("folder", f"{j.token}: a folder {folder} although none is asked for")
        return
    want = expected_files(j.case)
    have = {p.name for p in pathlib.Path(folder).iterdir()} - OTHER - set(ignore)
    for n in sorted(set(want) - have):
        d, k, t = want[n]
        env.fail("missing export", f"{j.token}: '{n}' was not written ({d}); there are {sorted(have)[:12]}")
    for n in sorted(have - set(want)):
        env.fail("surplus export", f"{j.token}: '{n}' was written although it is not scheduled")
    for n in sorted(have & set(want)):
        d, k, t = want[n]
        env.probe(f"export {d['kind']} {d['funcs'][k]}")
        env.probe("exports")
        try:
            wrong = check_file(pathlib.Path(folder) / n, d, k, t, spec, ref)
        except (ValueError, OSError, KeyError) as e:
            wrong = f"unreadable: {e!r}"
        if wrong:
            env.fail(f"export {d['kind']} {d['funcs'][k]}", f"{j.token}: '{n}' ({d}): {wrong}")


def run(case):
    env = Env(case["sched"], fs=True)
    try:
        base = pathlib.Path(env.root) / "figs"
        base.mkdir()
        jobs = []
        for i, c in enumerate(case["jobs"]):
            j = Job(env, env.node(f"p{i}", True, i), c["spec"], f"sim{i}", fig=None if c["nofig"] else base)
            j.case, j.nofig = c, c["nofig"]
            jobs.append(j)
        ok = simcase.run_jobs(env, jobs)
        for j, good in zip(jobs, ok):
            if good:
                ref = simcase.reference(env, j)
                if ref is not None:
                    check_folder(env, j, ref)
        folders = {str(j.sim.folder_path) for j, good in zip(jobs, ok) if good}
        for p in list(pathlib.Path(env.root).iterdir()) + list(base.iterdir()):
            if p != base and not p.name.startswith("cfg-") and str(p) not in folders and all(ok):
                env.fail("surplus export", f"{p.name} is not in the folder of a simulation")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and out["probes"].get("exports", 0) >= 2


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, j in enumerate(case["jobs"]):
        for k, d in enumerate(j["diags"]):
            if len(j["diags"]) > 1:
                c = copy()
                del c["jobs"][i]["diags"][k]
                yield c
            if len(d["funcs"]) > 1:
                for n in range(len(d["funcs"])):
                    c = copy()
                    del c["jobs"][i]["diags"][k]["funcs"][n]
                    del c["jobs"][i]["diags"][k]["pre"][n]
                    yield c
            if any(d["pre"]):
                c = copy()
                c["jobs"][i]["diags"][k]["pre"] = [[] for _ in d["funcs"]]
                yield c
            if isinstance(d["export"], list) and len(d["export"]) > 1:
                for n in range(len(d["export"])):
                    c = copy()
                    del c["jobs"][i]["diags"][k]["export"][n]
                    yield c
            if d["keep"]:
                c = copy()
                c["jobs"][i]["diags"][k]["keep"] = False
                yield c
    for c in simcase.shrink_jobs(case):
        if all(valid(j) for j in c["jobs"]):
            yield c


def valid(j):
    tot = j["spec"]["cfg"]["tot_samples"]
    recs = [d["rec"] for d in j["diags"] if "rec" in d]
    if not c08.valid({"spec": j["spec"], "recs": recs}):
        return False
    if not j["spec"].get("proc") and any("prop" in d for d in j["diags"]):
        return False
    for d in j["diags"]:
        if d.get("freq", 1) > tot:
            return False
    return True
