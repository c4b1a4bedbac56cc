"""Shared by the properties about simulations: what the paths must be, running several simulations
interleaved in one process, and comparing what was recorded with the reference model."""
import json

import numpy as np

from . import world
from .kernel import PRA_DEFAULT, pra_constants
from .world import find, mics_of, sources_of

REAL = ["aspsim (all modules, from /repo/src)", "aspcore filters (numba JIT off)", "numpy", "scipy",
        "pyroomacoustics"]


# ---------------------------------------------------------------------------- impulse responses
_rir_cache = {}
_trunc_cache = {}


def rir_key(cfg, sp, mp):
    return (tuple(np.round(sp, 9)), tuple(np.round(mp, 9)), cfg["samplerate"], cfg["c"], tuple(cfg["room_size"]),
            tuple(cfg["room_center"]), cfg["rt60"], cfg["max_room_ir_length"], cfg["extra_delay"])


def ism_rir(cfg, sp, mp):
    """The image-source impulse response of one source and one mic, from pyroomacoustics directly."""
    key = rir_key(cfg, sp, mp)
    if key in _rir_cache:
        return _rir_cache[key]
    if len(_rir_cache) > 4000:
        _rir_cache.clear()
        _trunc_cache.clear()
    import pyroomacoustics as pra
    con = pra_constants()
    saved = dict(con)
    try:
        con.clear()
        con.update(PRA_DEFAULT)
        con["c"] = cfg["c"]
        con["frac_delay_length"] = 2 * cfg["extra_delay"] + 1
        size = np.array(cfg["room_size"], dtype=float)
        if cfg["rt60"] > 0:
            absorb, order = pra.inverse_sabine(cfg["rt60"], size)
            order += 8
        else:
            absorb, order = 0.9, 0
        room = pra.ShoeBox(size, materials=pra.Material(absorb), fs=cfg["samplerate"], max_order=order)
        off = size / 2 - np.array(cfg["room_center"], dtype=float)
        room.add_source(np.array(sp) + off)
        room.add_microphone_array(pra.MicrophoneArray((np.array(mp) + off)[:, None], cfg["samplerate"]))
        room.compute_rir()
        full = np.array(room.rir[0][0])
    finally:
        con.clear()
        con.update(saved)
    h = np.zeros(cfg["max_room_ir_length"])
    n = min(len(full), len(h))
    h[:n] = full[:n]
    _rir_cache[key] = h
    _trunc_cache[key] = truncation(full, n), order, float(absorb)
    return h


def truncation(full, n):
    """What is cut off: its power and its largest value, relative to all, in dB."""
    def db(k, x):
        return k * float(np.log10(x)) if x > 0 else -np.inf
    rest = full[n:]
    return db(10, np.sum(rest ** 2) / np.sum(full ** 2)), db(20, np.max(np.abs(rest), initial=0.0) / np.max(np.abs(full)))


def ism_info(cfg, ps, pm):
    """-> largest truncated power and value of the paths, order, absorption."""
    out = []
    for p in ps:
        for q in pm:
            ism_rir(cfg, p, q)
            out.append(_trunc_cache[rir_key(cfg, p, q)])
    return max(o[0][0] for o in out), max(o[0][1] for o in out), out[0][1], out[0][2]


def highpassed(cfg, path):
    if not cfg.get("highpass_cutoff"):
        return path
    import scipy.signal as spsig
    sos = spsig.butter(2, cfg["highpass_cutoff"], "highpass", fs=cfg["samplerate"], output="sos")
    pad = [(0, 0)] * (path.ndim - 1) + [(cfg["samplerate"], cfg["samplerate"])]
    return spsig.sosfiltfilt(sos, np.pad(path, pad), axis=-1)[..., cfg["samplerate"]:-cfg["samplerate"]]


def traj_pos(t, n):
    """Where a trajectory is after n samples, from its documentation."""
    if t["kind"] == "table":
        return world.userlib.TablePos(t["base"], t["amp"], t["period"], hold=t.get("hold")).at(n)
    if t["kind"] == "collection":
        return np.concatenate([traj_pos(p, n) for p in t["parts"]], axis=0)
    if t["kind"] == "linear":
        p = np.array(t["points"], dtype=float)
        if not np.allclose(p[0], p[-1]):
            p = np.concatenate([p, p[:1]])
        seg = np.linalg.norm(np.diff(p, axis=0), axis=1)
        per = t["period"] * t["sr"]
        if t["mode"] == "constant_time":
            at = np.linspace(0, per, len(p))
            return np.array([[np.interp(n % per, at, p[:, i]) for i in range(3)]])
        d = (n % per) / per * np.sum(seg)
        cum = np.concatenate([[0.0], np.cumsum(seg)])
        return np.array([[np.interp(d, cum, p[:, i]) for i in range(3)]])
    if t["kind"] == "circular":
        a = (n % (t["ap"] * t["sr"])) / (t["ap"] * t["sr"])
        r = (n % (t["rp"] * t["sr"])) / (t["rp"] * t["sr"])
        rad = t["radius"][0] + (t["radius"][1] - t["radius"][0]) * abs(1 - 2 * r)
        ang = t["start"] + 2 * np.pi * a
        return np.array([[rad * np.cos(ang), rad * np.sin(ang), 0.0]]) + np.array(t["center"])
    raise ValueError(t)


def position(a, n):
    return traj_pos(a["traj"], n) if a.get("traj") else world.make_pos(a)


def pair_type(spec, s, m):
    e = spec["paths"].get(f"{s['name']}|{m['name']}")
    return e["type"] if e else spec["cfg"]["reverb"]


def path_now(spec, s, m, n):
    """The path of a pair when the arrays are where they are at time n; None if it is random (also image
    sources which are moved at random)."""
    cfg, t = spec["cfg"], pair_type(spec, s, m)
    if t == "modified":
        return world.path_array(spec["paths"][f"{s['name']}|{m['name']}"], s, m)
    if t == "random" or t == "ism" and cfg.get("randomized_ism"):
        return None
    if t == "none":
        return np.zeros((s["num"], m["num"], 1))
    if t == "direct":
        return highpassed(cfg, np.eye(s["num"])[..., None])
    ps, pm = position(s, n), position(m, n)
    h = np.array([[ism_rir(cfg, ps[i], pm[j]) for j in range(m["num"])] for i in range(s["num"])])
    return highpassed(cfg, h.reshape(s["num"], m["num"], cfg["max_room_ir_length"]))


def path_function(spec, random_paths=None):
    """path_at(s, m, g): the path in force when sample g is made.  random_paths: the generated paths of
    pairs of type 'random', which cannot be predicted."""
    freq = spec["cfg"]["array_update_freq"]
    memo = {}

    def at(s, m, g):
        moving = s.get("traj") or m.get("traj")
        n = 0 if not moving or g < 1 else (g - 1) // freq * freq
        key = (s["name"], m["name"], n)
        if key not in memo:
            h = path_now(spec, s, m, n)
            memo[key] = random_paths[s["name"], m["name"]] if h is None else h
        return memo[key]
    return at


def check_paths(env, job, what=""):
    """The simulator's static paths are those asked for.  Returns the random ones."""
    spec, rand = job.spec, {}
    for s in sources_of(spec):
        for m in mics_of(spec):
            got = np.asarray(job.sim_paths[s["name"], m["name"]])
            want = path_now(spec, s, m, 0)
            if want is None:
                L = spec["cfg"]["max_room_ir_length"]
                if got.shape != (s["num"], m["num"], L) or not np.all(np.isfinite(got)) or \
                        pair_type(spec, s, m) == "random" and not np.any(got):
                    env.fail("path", f"{what}random path {s['name']}->{m['name']} is {got.shape}")
                rand[s["name"], m["name"]] = got
            elif not world.close(got, want, 1e-7):
                env.fail("path", f"{what}path {s['name']}->{m['name']} of type {pair_type(spec, s, m)}: "
                         f"{world.first_diff(got, want)}")
    return rand


class SimJob(world.Job):
    """A job that remembers the paths its simulator was created with and records every signal."""

    records = True

    def create(self):
        sim = super().create()
        self.sim_paths = {(s["name"], m["name"]): np.array(sim.arrays.paths[s["name"]][m["name"]])
                          for s in sources_of(self.spec) for m in mics_of(self.spec)}
        if self.records:
            self.add_records(sim)
        return sim

    def watch_prepare(self):
        """Keeps what the signals hold when the processor is prepared, before the first sample."""
        inner = self.proc.prepare

        def prepare():
            i = self.proc.sig.idx
            self.rec["at_prepare"] = i, {n: np.array(self.proc.sig[n]) for n in self.signal_names()}
            inner()
        self.proc.prepare = prepare

    def signal_names(self):
        names = {a["name"]: a["num"] for a in self.spec["arrays"]}
        if self.spec["cfg"]["save_source_contributions"]:
            for s in sources_of(self.spec):
                for m in mics_of(self.spec):
                    names[f"{s['name']}~{m['name']}"] = m["num"]
        return names

    def add_records(self, sim):
        M = self.node.mods
        self.recorded = {}
        for name, num in self.signal_names().items():
            d = M.dia.RecordSignal(name, sim.sim_info, num_channels=num, export_func="npz")
            sim.diag.add_diagnostic("rec " + name, d)
            self.recorded[name] = d


def reference(env, job, extra=0):
    rand = check_paths(env, job, f"{job.token}: ")
    spec = job.spec
    bs = spec["proc"]["bs"] if spec.get("proc") else 0
    if any(v[0] == "path" for v in env.violations):
        return None
    return world.Ref(spec, path_function(spec, rand), spec["cfg"]["tot_samples"] + 2 * bs + extra)


def check_recorded(env, job, ref, names=None, klass="signal"):
    tot = job.spec["cfg"]["tot_samples"]
    for name, d in job.recorded.items():
        if names is not None and not names(name):
            continue
        got = np.asarray(d.get_output())
        want = ref.rec(name, tot)
        env.probe("samples simulated", tot)
        env.note(got)
        if not np.all(np.isfinite(got)):
            env.fail("not finite", f"{job.token}: recorded '{name}' with extra_delay {job.spec['cfg']['extra_delay']}: "
                     f"{np.sum(~np.isfinite(got))} of {got.size} samples are not finite")
        elif not world.close(got, want):
            env.fail(klass, f"{job.token}: recorded '{name}': {world.first_diff(got, want)}")


def check_before_start(env, j, ref):
    """The signals before the first sample."""
    buf = j.spec["cfg"]["sim_buffer"]
    if "at_prepare" not in j.rec:
        env.fail("prepare", f"{j.token}: the processor was not prepared")
        return
    i, sig = j.rec["at_prepare"]
    for name, num in j.signal_names().items():
        if "~" in name:
            s, m = name.split("~")
            part = ref.contrib[s, m][:, :ref.off + 1]
            want = np.concatenate([np.zeros((num, buf - part.shape[1])), part], axis=1)
        else:
            want = ref.upto(name, 1, buf)
        got = sig[name][:, max(0, i - buf):i]
        if not world.close(got, want):
            env.fail("before 0", f"{j.token}: '{name}' before the first sample (start_sources_before_0="
                     f"{j.spec['cfg']['start_sources_before_0']}): {world.first_diff(got, want)}")
        if np.any(sig[name][:, i:]):
            env.fail("future", f"{j.token}: '{name}' has samples after the current one")
        env.probe("signals looked at before time 0")


def run_jobs(env, jobs, allow=()):
    """All jobs as tasks of one process, interleaved at every call into user code."""
    tasks = [env.spawn(j.token, j, j.node) for j in jobs]
    env.run()
    return [env.unexpected(t, allow) for t in tasks]


# ---------------------------------------------------------------------------- shrinking
def shrink_spec(spec):
    """Simpler descriptions (still valid ones)."""
    def copy():
        return json.loads(json.dumps(spec))
    cfg = spec["cfg"]
    for a in spec["arrays"]:
        same = [b for b in spec["arrays"] if (b["kind"] == "mic") == (a["kind"] == "mic")]
        if len(same) > 1:
            c = copy()
            c["arrays"] = [b for b in c["arrays"] if b["name"] != a["name"]]
            c["paths"] = {k: v for k, v in c["paths"].items() if a["name"] not in k.split("|")}
            yield c
    bs = spec["proc"]["bs"] if spec.get("proc") else 1
    if spec.get("proc") and not any(a["kind"] == "ctrl" for a in spec["arrays"]):
        c = copy()
        c["proc"] = None
        yield c
    for t in (cfg["tot_samples"] // 2, cfg["tot_samples"] - 1):
        if 1 <= t < cfg["tot_samples"]:
            c = copy()
            c["cfg"]["tot_samples"] = t
            yield c
    low = max(4, 2 * bs)
    if cfg["sim_buffer"] > low:
        c = copy()
        c["cfg"]["sim_buffer"] = low
        yield c
    for k, v in (("save_source_contributions", False), ("start_sources_before_0", False),
                 ("array_update_freq", 1), ("highpass_cutoff", 0.0), ("rt60", 0.0)):
        if cfg.get(k, v) != v:
            c = copy()
            c["cfg"][k] = v
            yield c
    for a in spec["arrays"]:
        for k in ("groups", "region"):
            if a.get(k):
                c = copy()
                find(c, a["name"]).pop(k)
                yield c
        if a.get("source", {}).get("kind") not in (None, "array"):
            c = copy()
            find(c, a["name"])["source"] = {"kind": "array", "seed": 1, "length": cfg["tot_samples"] + cfg["sim_buffer"] + 40}
            yield c
        if a["num"] > 1 and not a.get("traj") and not a.get("source", {}).get("kind") in ("autocorr", "pulse") \
                and not isinstance(a.get("source", {}).get("power"), list) \
                and not any(v["type"] == "direct" for v in spec["paths"].values()) and cfg["reverb"] != "direct":
            c = copy()
            b = find(c, a["name"])
            b["num"] -= 1
            b["pos"] = b["pos"][:b["num"]]
            yield c
    for k in spec["paths"]:
        c = copy()
        moving = any(find(c, n).get("traj") for n in k.split("|"))
        if c["paths"][k]["type"] != "none":
            c["paths"][k] = {"type": "none"}
            yield c
        elif not moving:
            c["paths"][k] = {"type": "modified", "len": 1, "seed": 1}
            yield c
    if spec.get("style") != "methods":
        c = copy()
        c["style"] = "methods"
        yield c


def shrink_jobs(case):
    """For cases of the form {'jobs': [{'spec': ..}, ..], 'sched': ..}."""
    jobs = case["jobs"]
    if len(jobs) > 1:
        for i in range(len(jobs)):
            c = json.loads(json.dumps(case))
            del c["jobs"][i]
            yield c
    for i, j in enumerate(jobs):
        for s in shrink_spec(j["spec"]):
            c = json.loads(json.dumps(case))
            c["jobs"][i]["spec"] = s
            yield c


def gen_sched(rng, p=(0.0, 0.1, 0.3, 0.6)):
    return {"seed": rng.randrange(2 ** 31), "p": rng.choice(p)}


def gen_jobs(rng, n=(1, 1, 2, 3), large=0.03, lone=0.02, **kw):
    kw["large"] = large
    jobs = [{"spec": world.gen_spec(rng, **kw)} for _ in range(rng.choice(n))]
    for j in jobs:
        if rng.random() < lone:
            # only microphones or only sources
            s, mics = j["spec"], rng.random() < 0.5
            s["arrays"] = [a for a in s["arrays"] if (a["kind"] == "mic") == mics]
            s["paths"] = {}
    return jobs


def nontrivial_jobs(case, out, need=lambda spec: True):
    return any(j["spec"]["cfg"]["tot_samples"] > 1 and need(j["spec"]) for j in case["jobs"]) and not out["violations"]
