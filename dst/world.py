"""Plain-data descriptions of simulations, how to build them through aspsim's public interface, and
how to run them as tasks of the simulator."""
import contextlib
import io
import json
import pathlib

import numpy as np

from . import userlib
from .kernel import UserFault


# ============================================================================ description -> objects
def jrng(rng):
    return rng.randrange(2 ** 31)


def make_pos(a):
    return np.array(a["pos"], dtype=float).reshape(-1, 3)


def make_traj(M, a, token=""):
    t = a["traj"]
    if t["kind"] == "table":
        return M.tr.Trajectory(userlib.TablePos(t["base"], t["amp"], t["period"], token, t.get("hold")))
    if t["kind"] == "linear":
        return M.tr.LinearTrajectory(t["points"], t["period"], t["sr"], mode=t["mode"])
    if t["kind"] == "circular":
        return M.tr.CircularTrajectory(tuple(t["radius"]), tuple(t["center"]), t["rp"], t["ap"], t["sr"], t["start"])
    if t["kind"] == "collection":
        return M.tr.TrajectoryCollection([make_traj(M, {"traj": s}, token) for s in t["parts"]])
    raise ValueError(t["kind"])


def column(p):
    return np.array(p, dtype=float)[:, None] if isinstance(p, list) else p


def gold_power(s):
    p = s["power"]
    if not isinstance(p, list):
        return np.array(p) if s.get("as") == "0d" else p
    return column(p) if s.get("as") == "2d" else np.array(p, dtype=float)


def make_source(M, s, ch, token=""):
    if s.get("skip"):
        # the user drew some samples before
        src = make_source(M, {k: v for k, v in s.items() if k != "skip"}, ch, token)
        src.get_samples(s["skip"])
        return src
    k = s["kind"]
    S = M.sources
    if k == "array":
        return userlib.ArraySource(s["seed"], ch, s["length"], token, s.get("gap"))
    rng = None if s.get("default_rng") else np.random.default_rng(s.get("seed", 0))
    if k == "white":
        p = s["power"]
        return S.WhiteNoiseSource(ch, np.array(p) if isinstance(p, list) else p, rng)
    if k == "sine":
        return S.SineSource(ch, column(s["power"]), s["freq"], s["sr"], rng)
    if k == "multisine":
        return S.MultiSineSource(ch, s["power"], s["freq"], s["sr"], rng)
    if k == "bandlimited":
        return S.BandlimitedNoiseSource(ch, column(s["power"]), tuple(s["lim"]), s["sr"], rng)
    if k == "autocorr":
        return S.AutocorrSource(ch, np.array(s["corr"], dtype=float), rng)
    if k == "pulse":
        return S.PulseTrain(ch, s["amp"], s["period"], s["delay"])
    if k == "gold":
        return S.GoldSequenceSource(ch, gold_power(s), s["order"])
    if k == "mls":
        state = s.get("state")
        return S.MLS(1, s["order"], s["poly"], **({} if state is None else {"state": np.array(state) if s["as"] == "array" else list(state)}))
    if k == "counter":
        return S.Counter(1, s["start"])
    if k == "data":
        return S.Sequence(userlib.DATA[s["key"]], s["amp"])
    if k == "sequence":
        d = userlib.gen_data(s["seed"], ch, s["length"])
        return S.Sequence(d[0] if s.get("flat") else d, s["amp"], s.get("end_mode", "repeat"))
    raise ValueError(k)


def path_array(p, src, mic):
    r = np.random.RandomState(p["seed"] % (2 ** 32))
    h = r.randint(-32, 33, size=(src["num"], mic["num"], p["len"])).astype(float) / 32.0
    h[..., 0] += 0.5
    return h


def find(spec, name):
    return next(a for a in spec["arrays"] if a["name"] == name)


def sources_of(spec):
    return [a for a in spec["arrays"] if a["kind"] in ("free", "ctrl")]


def mics_of(spec):
    return [a for a in spec["arrays"] if a["kind"] == "mic"]


def pair_path(spec, s, m):
    """The path entry the user made for this pair, or None (the config's reverb applies)."""
    return spec["paths"].get(f"{s['name']}|{m['name']}")


def apply_cfg(sim_info, cfg):
    for k, v in cfg.items():
        setattr(sim_info, k, v)


def mic_kw(a):
    if not a.get("dir"):
        return {}
    d = np.array([[np.cos(v), np.sin(v), 0.0] for v in a["dir"]["angles"]])
    return {"directivity_type": list(a["dir"]["types"]), "directivity_dir": d}


def region_of(M, a):
    """A region around the positions of the array."""
    p = make_pos(a)
    rng = np.random.default_rng(17)
    side, cen = np.ptp(p, axis=0) + 0.2, np.mean(p, axis=0)
    if a["region"] == "cuboid":
        return M.region.Cuboid(side, cen, (0.5, 0.5, 0.5), rng=rng)
    if a["region"] == "disc":
        return M.region.Disc(float(side[0]), cen, rng=rng)
    return [M.region.Rectangle(side[:2], cen + [d, 0, 0], (0.1, 0.1), rng=rng) for d in (-20.0, 20.0)]


def make_array(M, a, token=""):
    if a.get("traj"):
        pos = make_traj(M, a, token)
    else:
        pos = make_pos(a)
        if a.get("groups") and a["num"] > 1:
            pos = [pos[:1], pos[1:]]
    if a["kind"] == "mic":
        kw = mic_kw(a)
        if a.get("region"):
            return M.array.RegionArray(a["name"], region_of(M, a), pos, **kw)
        return M.array.MicArray(a["name"], pos, **kw)
    if a["kind"] == "ctrl":
        return M.array.ControllableSourceArray(a["name"], pos)
    return M.array.FreeSourceArray(a["name"], pos, make_source(M, a["source"], a["num"], token))


def fill_setup(M, setup, spec, token="", cfg=True):
    """Adds everything of the description to a SimulatorSetup, through its public methods."""
    if cfg:
        apply_cfg(setup.sim_info, spec["cfg"])
    style = spec.get("style", "methods")
    if style == "collection":
        coll = M.array.ArrayCollection()
        for a in spec["arrays"]:
            coll.add_array(make_array(M, a, token))
        for key, p in spec["paths"].items():
            if p["type"] != "modified":
                s, m = key.split("|")
                coll.path_type[s][m] = p["type"]
        setup.add_arrays(coll)
    else:
        for a in spec["arrays"]:
            if style == "arrays" or a.get("groups") or a.get("traj") or a.get("region"):
                setup.add_array(make_array(M, a, token))
            elif a["kind"] == "mic":
                setup.add_mics(a["name"], make_pos(a), **mic_kw(a))
            elif a["kind"] == "ctrl":
                setup.add_controllable_source(a["name"], make_pos(a))
            else:
                setup.add_free_source(a["name"], make_pos(a), make_source(M, a["source"], a["num"], token))
    for key, p in spec["paths"].items():
        s, m = key.split("|")
        if p["type"] == "modified":
            h = path_array(p, find(spec, s), find(spec, m))
            if p.get("via") == "set_prop_paths":
                setup.arrays.set_prop_paths({s: {m: h}})
            else:
                setup.set_path(s, m, h)
        elif style != "collection":
            if p.get("via") == "set_path_types":
                setup.arrays.set_path_types({s: {m: p["type"]}})
            else:
                setup.arrays.path_type[s][m] = p["type"]
    return setup


def new_setup(M, spec, fig=None, session=None, token="", seed=11):
    rng = None if spec.get("no_rng") else np.random.default_rng(seed)
    if spec.get("cfg_file") and fig is not None:
        # the user keeps the config in a file
        d = pathlib.Path(fig).parent / f"cfg-{token}"
        d.mkdir()
        first = M.simulator.SimulatorSetup()
        apply_cfg(first.sim_info, spec["cfg"])
        first.sim_info.save_to_file(d)
        path = {"folder": d, "file": d / "config.yaml", "text": str(d / "config.yaml")}[spec["cfg_file"]]
        return fill_setup(M, M.simulator.SimulatorSetup(fig, session, config_path=path, rng=rng), spec, token, False)
    return fill_setup(M, M.simulator.SimulatorSetup(fig, session, rng=rng), spec, token)


# ============================================================================ user processor
def proc_rule(gains, k, ctrl_num, block, seen):
    """What the controllable sources play during the block after the k-th call (k = 0, 1, ..), given
    the mic samples seen (a list of (num, block) arrays).  Used by the processor and by the model."""
    s = sum((np.sum(x, axis=0) * (0.25 + 0.5 * i) for i, x in enumerate(seen)), np.zeros(block))
    out = np.zeros((ctrl_num, block))
    for c in range(ctrl_num):
        out[c] = gains["own"] * np.cos(0.7 * (k * block + np.arange(block)) + c) + gains["fb"] * np.sin(gains.get("slope", 0.004) * s) * (c + 1)
    if gains.get("gap"):
        on, off = gains["gap"]
        out[:, (k * block + np.arange(block)) % (on + off) >= on] = 0
    return out


def make_processor(M, sim, spec, rec, token=""):
    """A user processor.  rec: dict filled with what it saw at each call."""
    p = spec["proc"]
    bs = p["bs"]
    mics = [a["name"] for a in mics_of(spec)]
    ctrls = [(a["name"], a["num"]) for a in sources_of(spec) if a["kind"] == "ctrl"]
    hist = spec["cfg"]["sim_buffer"] - bs

    class SimProcessor(M.processor.AudioProcessor):
        def __init__(self, sim_info, arrays, block_size):
            super().__init__(sim_info, arrays, block_size, rng=np.random.default_rng(5))
            self.name = p.get("name", "proc")
            self.metadata = dict(p.get("metadata", {"block": bs}))
            self.calls = 0
            self.state = np.zeros(3)
            self.mat = np.eye(3)
            self.nested = {"a": [np.zeros(2)]}
            self.irs = np.zeros((1, 2, 4))
            self.filt = {"w": Filt()}
            self.scalar = 0.0
            if p.get("extra_sig"):
                self.sig.create_signal("extra_sig", 2)
                self.sig.create_signal("extra_tensor", (2, 3))

        def prepare(self):
            userlib._hook(token, "prepare")
            rec["prepared"] = rec.get("prepared", 0) + 1

        def process(self, num_samples):
            userlib._hook(token, f"process {num_samples}")
            i = self.sig.idx
            k = self.calls
            rec["calls"].append({
                "num": int(num_samples),
                "hist": {m: np.array(self.sig[m][..., max(0, i - hist):i]) for m in mics},
                "short": i - hist < 0,
                "future": max([float(np.max(np.abs(self.sig[m][..., i:]), initial=0.0)) for m in mics] or [0.0]),
                "free": {a["name"]: np.array(self.sig[a["name"]][..., max(0, i - hist):i])
                         for a in sources_of(spec)},
                "tensor": np.array(self.sig["extra_tensor"][..., max(0, i - hist):i]) if p.get("extra_sig") else None,
            })
            seen = [self.sig[m][..., i - bs:i] for m in mics]
            for name, num in ctrls:
                y = proc_rule(p["gains"], k, num, bs, seen)
                if p.get("add"):
                    self.sig[name][:, i:i + bs] += y
                else:
                    self.sig[name][:, i:i + bs] = y
            if p.get("extra_sig"):
                self.sig["extra_sig"][:, i:i + bs] = extra_rule(k, bs)
                self.sig["extra_tensor"][:, :, i:i + bs] = extra_rule(k, bs)[:, None, :] * np.array([1.0, 2.0, -3.0])[None, :, None]
            self.calls += 1
            update_state(self, self.calls)

    proc = SimProcessor(sim.sim_info, sim.arrays, bs)
    return proc


def extra_rule(k, bs):
    t = k * bs + np.arange(bs)
    return np.stack([t * 0.5 + 1, np.sin(t)])


def update_state(proc, calls):
    # in place, as adaptive filters do
    proc.state[:] = state_after(calls)
    proc.mat[...] = mat_after(calls)
    proc.nested["a"][0][:] = proc.state[:2] * 2
    proc.irs[...] = irs_after(calls)
    proc.filt["w"].ir[...] = irs_after(calls)[0]
    proc.scalar = float(calls) * 1.5
    proc.calls = calls


class Filt:
    """Something with an attribute, as the filters users keep in their processors."""

    def __init__(self):
        self.ir = np.zeros((2, 4))


PROPS = ("state", "mat", "nested['a'][0]", "nested['a'][0][1]", "irs", "filt['w'].ir", "scalar", "calls")


def prop_after(name, calls):
    """What a property of the processor is after so many calls."""
    if name == "state":
        return state_after(calls)
    if name == "mat":
        return mat_after(calls)
    if name == "nested['a']":
        return [state_after(calls)[:2] * 2]
    if name == "filt['w']":
        return irs_after(calls)[0]
    if name == "nested['a'][0]":
        return state_after(calls)[:2] * 2
    if name == "nested['a'][0][1]":
        return np.float64(state_after(calls)[1] * 2)
    if name == "irs":
        return irs_after(calls)
    if name == "filt['w'].ir":
        return irs_after(calls)[0]
    return np.float64(calls * (1.5 if name == "scalar" else 1))


def irs_after(calls):
    return np.arange(8.0).reshape(1, 2, 4) * calls - calls ** 2 * 0.25


def state_after(calls):
    return np.array([calls, calls ** 2 * 0.5, -calls], dtype=float)


def mat_after(calls):
    b = np.array([[1.0, 0.2, 0], [0.2, 2.0, 0.1], [0, 0.1, 3.0]])
    return b * (1 + 0.25 * calls) - (calls % 3) * 1.5 * np.eye(3) if calls else np.eye(3)


# ============================================================================ reference model
class Ref:
    """The simulation as documented, in global time: sample g of every signal, g >= -(K-1)."""

    def __init__(self, spec, path_at, total):
        """path_at(src, mic, g) -> (num_src, num_mic, len) array in force when sample g is made."""
        self.spec = spec
        cfg = spec["cfg"]
        self.K = cfg["sim_buffer"] if cfg["start_sources_before_0"] else 1
        off = self.off = self.K - 1
        self.total = total
        self.x, self.mic, self.contrib = {}, {}, {}
        L = off + total
        for a in sources_of(spec):
            self.x[a["name"]] = np.zeros((a["num"], L))
            if a["kind"] == "free":
                self.x[a["name"]][:, :] = stream(spec, a, L)
        for m in mics_of(spec):
            self.mic[m["name"]] = np.zeros((m["num"], L))
            for s in sources_of(spec):
                self.contrib[s["name"], m["name"]] = np.zeros((m["num"], L))
        proc = spec.get("proc")
        mics = mics_of(spec)
        srcs = sources_of(spec)
        self.calls = 0
        for g in range(-off, total):
            if proc and g > 0 and g % proc["bs"] == 0:
                bs, k = proc["bs"], g // proc["bs"] - 1
                seen = [self.mic[m["name"]][:, off + g - bs:off + g] for m in mics]
                for s in srcs:
                    if s["kind"] == "ctrl":
                        y = proc_rule(proc["gains"], k, s["num"], bs, seen)
                        n = min(bs, total - g)
                        self.x[s["name"]][:, off + g:off + g + n] = y[:, :n]
                self.calls += 1
            i = off + g
            for s in srcs:
                xs = self.x[s["name"]]
                for m in mics:
                    h = path_at(s, m, g)
                    n = min(h.shape[2], i + 1)
                    y = np.einsum("smk,sk->m", h[:, :, :n], xs[:, i - n + 1:i + 1][:, ::-1])
                    self.contrib[s["name"], m["name"]][:, i] = y
                    self.mic[m["name"]][:, i] += y

    def rec(self, name, n):
        """What RecordSignal of the first n samples holds."""
        if name in self.mic:
            return self.mic[name][:, self.off:self.off + n]
        if name in self.x:
            return self.x[name][:, self.off:self.off + n]
        s, m = name.split("~")
        return self.contrib[s, m][:, self.off:self.off + n]

    def upto(self, name, g, n):
        """The n samples before time g, zeros before the start."""
        sig = self.mic.get(name, self.x.get(name))
        i = self.off + g
        part = sig[:, max(0, i - n):i]
        return np.concatenate([np.zeros((sig.shape[0], n - part.shape[1])), part], axis=1)


_stream_cache = {}


def stream(spec, a, n):
    """The n first samples of a free source, drawn in one request from a fresh object."""
    s = a["source"]
    if s["kind"] == "array":
        d = np.zeros((a["num"], n))
        k = s.get("skip", 0)
        p = userlib.gen_data(s["seed"], a["num"], s["length"], s.get("gap"))[:, k:k + n]
        d[:, :p.shape[1]] = p
        return d
    key = (json.dumps(s, sort_keys=True), a["num"], n)
    if key not in _stream_cache:
        if len(_stream_cache) > 500:
            _stream_cache.clear()
        from .kernel import Node
        src = make_source(Node._shared, s, a["num"])
        _stream_cache[key] = np.array(np.atleast_2d(src.get_samples(n)), dtype=float)
    return _stream_cache[key]


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(np.nan_to_num(a, nan=1e300), np.nan_to_num(b, nan=1e300)))
    return bool(np.max(np.abs(a - b)) <= tol * max(1.0, float(np.max(np.abs(b)))))


def first_diff(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    d = ~(np.abs(a - b) <= tol * max(1.0, float(np.nanmax(np.abs(b), initial=0.0))))
    idx = np.argwhere(d)
    if len(idx) == 0:
        return "equal"
    i = tuple(int(v) for v in idx[0])
    return f"{len(idx)} of {a.size} samples differ, first at {i}: {a[i]!r} instead of {b[i]!r}"


# ============================================================================ generators
NAMES_M = ["mic", "error", "ref_mic", "m2", "mic_10", "Eval mic", "r-1"]
NAMES_S = ["src", "loudspeaker", "noise_2", "s1", "speaker B", "src_3", "q"]


def gen_pos(rng, num, cfg, avoid=()):
    """Positions inside the room, at least 30 cm away from all others."""
    size, cen = cfg["room_size"], cfg["room_center"]
    out = []
    taken = [np.array(p) for p in avoid]
    for _ in range(num):
        for _ in range(200):
            p = np.array([cen[d] + (rng.random() - 0.5) * (size[d] - 0.4) for d in range(3)]).round(3)
            if all(np.linalg.norm(p - q) > 0.3 for q in taken):
                break
        taken.append(p)
        out.append([float(v) for v in p])
    return out


def gen_cfg(rng, bs=None, max_tot=60, start=None, contrib=None):
    minbuf = max(4, 2 * (bs or 1))
    buf = minbuf + rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 21, 30])
    minchunk = bs or 1
    tot = rng.choice([1, 2, 3, 5, 8, 11, 16, 20, 27, 33, 40, 51, max_tot])
    tot = min(tot, max_tot)
    pick = rng.random()
    if pick < 0.25:
        chunk = minchunk + rng.choice([0, 0, 1, 2])
    elif pick < 0.5:
        chunk = max(minchunk, tot // rng.choice([1, 2, 3, 4]) + rng.choice([-1, 0, 1]))
    elif pick < 0.75:
        chunk = minchunk * rng.choice([1, 2, 3, 5])
    else:
        chunk = max(minchunk, rng.randrange(1, 80))
    return {
        "tot_samples": tot, "sim_buffer": buf, "sim_chunk_size": max(1, chunk),
        "start_sources_before_0": bool(rng.random() < 0.5) if start is None else start,
        "save_source_contributions": bool(rng.random() < 0.4) if contrib is None else contrib,
        "array_update_freq": rng.choice([1, 1, 2, 3, 5, 7]),
        "samplerate": rng.choice([500, 500, 1000, 1000, 2000, 8000]), "c": rng.choice([343.0, 340.0, 300.0]),
        "reverb": "none", "room_size": rng.choice([[7, 5, 2.5], [4, 4, 3], [6.5, 8.25, 5]]),
        "room_center": rng.choice([[-1, 0, 0], [0, 0, 0], [2, 1.5, 0.5]]),
        "rt60": 0.0, "max_room_ir_length": rng.choice([1, 4, 8, 15, 24, 40]),
        "randomized_ism": False, "extra_delay": rng.choice([1, 2, 4]), "highpass_cutoff": 0.0,
        "export_frequency": rng.choice([1, 3, 5, 10, 20, tot, tot]), "plot_output": "none",
        "output_smoothing": rng.choice([1, 2, 4]), "auto_save_load": False,
    }


def gen_source(rng, num, need, kinds=("array",), sr=1000):
    d = gen_source_kind(rng, num, need, rng.choice(list(kinds)), sr)
    if d["kind"] in ("white", "sine", "multisine", "bandlimited", "autocorr") and rng.random() < 0.15:
        d["default_rng"] = True                  # no generator is given
    return d


def gen_source_kind(rng, num, need, k, sr):
    seed = jrng(rng)
    powers = [0.5 + i for i in range(num)]
    if k == "array":
        if rng.random() < 0.3:
            return {"kind": k, "seed": seed, "length": need, "gap": rng.choice([[1, 6], [2, 11], [3, 25], [1, 47], [5, 200]])}
        return {"kind": k, "seed": seed, "length": need}
    if k == "white":
        return {"kind": k, "seed": seed, "power": rng.choice([1, 0.25, 4.0] + ([[0.5 + i for i in range(num)]] if num > 1 else []))}
    if k == "sine":
        return {"kind": k, "seed": seed, "power": rng.choice([1, 0.5, powers]), "freq": rng.choice([0.037, 0.11, 0.3]) * sr, "sr": sr}
    if k == "multisine":
        return {"kind": k, "seed": seed, "power": 1, "freq": [0.03 * sr, 0.2 * sr, 0.41 * sr][:rng.choice([1, 2, 3])], "sr": sr}
    if k == "bandlimited":
        return {"kind": k, "seed": seed, "power": rng.choice([1, 1, 3, powers]), "lim": rng.choice([[0.1 * sr, 0.3 * sr], [0.05 * sr, 0.4 * sr]]),
                "sr": sr}
    if k == "autocorr":
        return {"kind": k, "seed": seed, "corr": [[1.0, 0.5 - 0.1 * i, 0.2, 0.05] for i in range(num)]}
    if k == "pulse":
        per = [rng.randrange(1, 9) for _ in range(num)]
        return {"kind": k, "seed": seed, "amp": rng.choice([1.0, [0.5 + i for i in range(num)]]),
                "period": rng.choice([per, per[0]]), "delay": rng.choice([0, 2, [i for i in range(num)]])}
    if k == "gold":
        return {"kind": k, "seed": seed, "power": rng.choice([1, 2.0, powers]), "order": rng.choice([5, 5, 6, 6, 7, 8, 9, 10, 11]),
                "as": rng.choice(["0d", "1d", "2d"])}
    if k == "mls":
        d = {"kind": k, "seed": seed, "order": rng.choice([3, 4, 5, 6, 8, 10]), "poly": None}
        if rng.random() < 0.3:
            d["poly"] = {3: [1], 4: [1], 5: [2, 3, 4], 6: [1], 8: [3, 5, 7], 10: [3]}[d["order"]]
        if rng.random() < 0.3:
            d["state"], d["as"] = [1] + [rng.randrange(2) for _ in range(d["order"] - 1)], rng.choice(["list", "array"])
        return d
    if k == "counter":
        return {"kind": k, "seed": seed, "start": rng.choice([0, 1, 17])}
    if k == "sequence":
        return {"kind": k, "seed": seed, "length": rng.randrange(1, 30), "amp": rng.choice([1, 2, 0.5]), "flat": num == 1 and rng.random() < 0.5}
    raise ValueError(k)


def gen_spec(rng, *, proc=None, ctrl=None, dynamic=False, types=("modified", "direct", "none", "random", "default"),
             reverbs=("none", "direct", "ism"), src_kinds=("array",), max_tot=60, start=None, contrib=None,
             max_arrays=3, max_num=3, large=0.0):
    """One simulation.  proc: None (maybe), True, False.  large: how often it has sizes as in real use, or many arrays."""
    has_proc = bool(rng.random() < 0.6) if proc is None else proc
    bs = rng.choice([1, 2, 3, 4, 5, 7, 8, 12]) if has_proc else None
    size = rng.choice(["long", "long", "wide"]) if large and rng.random() < large else None
    if size == "long":
        max_arrays, max_num = min(max_arrays, 2), min(max_num, 2)
        bs = rng.choice([16, 32, 50, 64, 100, 256]) if has_proc else None
    elif size == "wide":
        max_tot, max_arrays, max_num = min(max_tot, 16), 6, rng.choice([2, 2, 4, 12, 40])
    cfg = gen_cfg(rng, bs, max_tot, start, contrib)
    if size == "long":
        enlarge(rng, cfg, bs)
    elif size == "wide" and max_num > 4:
        max_arrays = 2
    names_m = rng.sample(NAMES_M, rng.randrange(1, max_arrays + 1))
    n_src = rng.randrange(1, max_arrays + 1)
    names_s = rng.sample(NAMES_S, n_src)
    same = rng.random() < 0.5                    # equal channel counts allow 'direct'
    num0 = rng.randrange(1, max_num + 1)
    arrays, placed = [], []
    need = cfg["tot_samples"] + cfg["sim_buffer"] + 40
    for n in names_m:
        num = num0 if same else rng.randrange(1, max_num + 1)
        p = gen_pos(rng, num, cfg, placed)
        placed += p
        arrays.append({"name": n, "kind": "mic", "num": num, "pos": p})
    for i, n in enumerate(names_s):
        num = num0 if same else rng.randrange(1, max_num + 1)
        want_ctrl = (has_proc and rng.random() < 0.6) if ctrl is None else ctrl and i == 0
        p = gen_pos(rng, num, cfg, placed)
        placed += p
        a = {"name": n, "kind": "ctrl" if want_ctrl else "free", "num": num, "pos": p}
        if not want_ctrl:
            kinds = [k for k in src_kinds if (num == 1 or k not in ("multisine", "mls", "counter")) and (num <= 3 or k != "autocorr")]
            a["source"] = gen_source(rng, num, need, kinds or ["array"], cfg["samplerate"])
        arrays.append(a)
    for a in arrays:
        if a["num"] > 1 and rng.random() < 0.2:
            a["groups"] = True
        if a["kind"] == "mic" and rng.random() < 0.1:
            a["region"] = rng.choice(["cuboid", "disc", "two"])
    rng.shuffle(arrays)
    spec = {"cfg": cfg, "arrays": arrays, "paths": {}, "no_rng": rng.random() < 0.15, "style": rng.choice(["methods", "methods", "arrays", "collection"])}
    if dynamic:
        make_dynamic(rng, spec)
    cfg["reverb"] = rng.choice(list(reverbs))
    for s in sources_of(spec):
        for m in mics_of(spec):
            moving = bool(s.get("traj") or m.get("traj"))
            ok = [t for t in types if not (moving and t in ("modified", "random"))]
            if moving:
                ok = [t for t in ok if t != "default"] + ["ism", "ism", "default"]
            t = rng.choice(ok)
            if t == "direct" and s["num"] != m["num"]:
                t = rng.choice(["none", "default"])
            if t == "default" and cfg["reverb"] == "direct" and s["num"] != m["num"]:
                t = "none"
            if t == "default":
                continue
            e = {"type": t}
            if t == "modified":
                e.update(len=rng.choice([1, 2, 3, 5, 8, 12, min(cfg["sim_buffer"], 300) + 2]), seed=jrng(rng))
                if rng.random() < 0.2:
                    e["via"] = "set_prop_paths"
            elif rng.random() < 0.3:
                e["via"] = "set_path_types"
            spec["paths"][f"{s['name']}|{m['name']}"] = e
    if has_proc:
        spec["proc"] = {"bs": bs, "gains": {"own": 1.0, "fb": rng.choice([0.0, 1.0, -2.0])},
                        "extra_sig": rng.random() < 0.3, "add": rng.random() < 0.5, "as_list": rng.random() < 0.2}
        if rng.random() < 0.25:
            spec["proc"]["gains"]["gap"] = rng.choice([[1, 9], [4, 20], [7, 60]])
        # the loop through processor and paths must not amplify rounding errors
        length = max([0.8 * e["len"] for e in spec["paths"].values() if e["type"] == "modified"] + [1.0])
        loop = 2 * max([a["num"] for a in sources_of(spec) if a["kind"] == "ctrl"] + [1]) * length * \
            sum((0.25 + 0.5 * i) * a["num"] for i, a in enumerate(mics_of(spec))) * sum(a["num"] for a in sources_of(spec) if a["kind"] == "ctrl")
        if loop * 0.004 > 0.5:
            spec["proc"]["gains"]["slope"] = 0.5 / loop
    else:
        spec["proc"] = None
    return spec


def enlarge(rng, cfg, bs):
    """Buffers, chunks, totals and paths of hundreds or thousands of samples."""
    cfg["tot_samples"] = tot = rng.choice([600, 999, 1025, 1500, 2049, 3000])
    cfg["sim_buffer"] = max(2 * (bs or 1), rng.choice([64, 256, 300, 513, 1024, 1500, 4100]))
    cfg["sim_chunk_size"] = max(bs or 1, rng.choice([bs or 1, 100, 200, 512, 700, 1000, 1024, 5000]))
    cfg["array_update_freq"] = rng.choice([37, 64, 100, 256, 1000])
    cfg["samplerate"] = rng.choice([1000, 8000, 16000, 44100, 48000])
    cfg["max_room_ir_length"] = rng.choice([40, 64, 256, 500])
    cfg["extra_delay"] = rng.choice([1, 4, 20, 40])
    cfg["export_frequency"] = rng.choice([100, 256, 500, tot])
    cfg["output_smoothing"] = rng.choice([1, 4, 50, 300])


def make_dynamic(rng, spec):
    cfg = spec["cfg"]
    cands = list(spec["arrays"])
    rng.shuffle(cands)
    for nth, a in enumerate(cands[:rng.choice([1, 1, 2])]):
        cen = list(cfg["room_center"])
        cen[2] += 0.45 * (2 * nth - 1)          # moving arrays never meet
        kind = rng.choice(["table", "table", "linear", "circular", "collection"])
        sr = cfg["samplerate"]
        if kind in ("linear", "circular"):
            a["num"] = 1
        per = rng.choice([5, 9, 16, 40, 40, 3000, 40000]) / sr
        lin = {"kind": "linear", "points": [[cen[0] + 0.9, cen[1] + 0.7, cen[2] + 0.3], [cen[0] - 0.8, cen[1], cen[2] - 0.2],
                                            [cen[0] + 0.1, cen[1] - 0.9, cen[2]]], "period": per, "sr": sr, "mode": "constant_speed"}
        if rng.random() < 0.35:
            lin["mode"] = "constant_time"
            if rng.random() < 0.2:
                lin["points"].insert(1, list(lin["points"][0]))      # a stop
        if rng.random() < 0.3:
            lin["points"].append(list(lin["points"][0]))             # ends where it starts
        elif rng.random() < 0.3:
            lin["points"] = lin["points"][:2]
        cir = {"kind": "circular", "radius": [0.3, 0.9], "center": list(cen), "rp": rng.choice([7, 20]) / sr,
               "ap": per, "sr": sr, "start": 0.3}
        slow = rng.choice([1, 1, 1, 1e-2, 1e-4])
        if kind == "table":
            a["traj"] = {"kind": "table", "base": gen_pos(rng, a["num"], dict(cfg, room_size=[s - 1.2 for s in cfg["room_size"]])),
                         "amp": [[v * slow for v in (0.4, 0.3, 0.25)]] * a["num"], "period": rng.choice([3, 10, 25])}
            if rng.random() < 0.3:
                a["traj"]["hold"] = rng.choice([2, 5, 9])
        elif kind == "linear":
            a["traj"] = lin
        elif kind == "circular":
            a["traj"] = cir
        else:
            a["num"] = 2
            a["traj"] = {"kind": "collection", "parts": [lin, cir]}
        a.pop("groups", None)
        a.pop("region", None)
        a.pop("pos", None)
        if a["kind"] == "free":
            k = a["source"]["kind"]
            if k not in ("array", "white", "sine"):
                a["source"] = {"kind": "array", "seed": jrng(rng), "length": cfg["tot_samples"] + cfg["sim_buffer"] + 40}
            if isinstance(a["source"].get("power"), list):
                a["source"]["power"] = 1


# ============================================================================ execution
@contextlib.contextmanager
def quiet():
    """stdout of the code under test; per task, so that switching tasks does not mix it up."""
    yield


class Job:
    """One simulation, run by one task."""

    def __init__(self, env, node, spec, token, fig=None, session=None, diags=None):
        self.env, self.node, self.spec, self.token = env, node, spec, token
        self.fig, self.session = fig, session
        self.diags = diags            # callable(M, sim, job) adding diagnostics
        self.rec = {"calls": []}
        self.sim = self.setup = None
        self.error = None
        self.finished = False

    def __call__(self):
        M = self.node.mods
        self.setup = new_setup(M, self.spec, self.fig, self.session, self.token)
        self.create()
        self.run()
        return self

    def watch_prepare(self):
        pass

    def create(self):
        self.sim = self.setup.create_simulator()
        return self.sim

    def run(self):
        M = self.node.mods
        sim = self.sim
        if self.diags is not None:
            self.diags(M, sim, self)
        if self.spec.get("proc"):
            self.proc = make_processor(M, sim, self.spec, self.rec, self.token)
            self.watch_prepare()
            sim.add_processor([self.proc] if self.spec["proc"].get("as_list") else self.proc)
        sim.run_simulation()
        self.finished = True


def max_block(spec):
    return spec["proc"]["bs"] if spec.get("proc") else spec["cfg"]["sim_buffer"] // 4


def static_paths(sim, spec):
    """The paths of a created simulator, as a function of time that never changes."""
    P = {(s["name"], m["name"]): np.array(sim.arrays.paths[s["name"]][m["name"]])
         for s in sources_of(spec) for m in mics_of(spec)}
    return lambda s, m, g: P[s["name"], m["name"]]


def sandboxed(path):
    return pathlib.Path(path)


__all__ = [n for n in dir() if not n.startswith("_")] + ["UserFault", "io"]


def vary_rooms(rng, spec, reverberant=0.12):
    """Reverberation and the high-pass filter, now and then."""
    cfg = spec["cfg"]
    if rng.random() < 0.15:
        cfg["highpass_cutoff"] = 0.1 * cfg["samplerate"]
    if rng.random() < 0.08 and not any(a.get("traj") for a in spec["arrays"]):
        cfg["randomized_ism"] = True
    chans = sum(a["num"] for a in spec["arrays"])
    if rng.random() < reverberant and chans <= 8 and not any(a.get("traj") for a in spec["arrays"]):
        cfg["rt60"] = rng.choice([0.25, 0.3])
        cfg["room_size"] = [4, 4, 3]
        for a in spec["arrays"]:
            a["pos"] = [[cfg["room_center"][d] + max(-0.4, min(0.4, (p[d] - cfg["room_center"][d]) / 8.25)) * cfg["room_size"][d]
                         for d in range(3)] for p in a["pos"]]


def set_total(spec, tot):
    spec["cfg"]["tot_samples"] = tot
    for a in spec["arrays"]:
        if a.get("source", {}).get("kind") == "array":
            a["source"]["length"] = tot + spec["cfg"]["sim_buffer"] + 40
