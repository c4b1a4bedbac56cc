"""C06: a source is one stream, however it is drawn."""
import copy
import json

import numpy as np
import scipy.signal as spsig

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL

ID, LEVEL = "C06", "exploration"
COUNTS = {"quick": 1500, "thorough": 50000}
KINDS = ("white", "white", "sine", "multisine", "bandlimited", "autocorr", "pulse", "gold", "mls", "counter", "sequence")
RULE = ("A case is several source objects of all kinds, each drawn by a task of its own in requests of random sizes, "
        "interleaved by the seeded scheduler, some copied in mid-stream, next to a simulation playing such sources "
        "with random buffer settings.  Every stream is compared with one single request to a fresh object, and with its "
        "definition where that is a formula.  Non-trivial: at least one source was drawn in three or more requests.")
STUBS = ["the consumers of the sources are tasks of the check"]
ASSUMPTIONS = ["sequence sources in the modes repeat and raise (zeros is not implemented)",
               "streams are compared to 1e-8 relative"]


def gen(rng, tier, i):
    srcs = []
    for _ in range(rng.choice([1, 2, 3])):
        num = rng.choice([1, 1, 2, 3])
        kinds = [k for k in KINDS if num == 1 or k not in ("multisine", "mls", "counter")]
        s = world.gen_source(rng, num, 0, kinds, rng.choice([1000, 8000]))
        if s["kind"] == "sequence" and rng.random() < 0.4:
            s["end_mode"] = "raise"
        parts = []
        for _ in range(rng.randrange(1, 14)):
            parts.append(rng.choice([1, 1, 1, 2, 3, 5, 8, 16, 31, 32, 64, 100]))
        powers = []
        if s["kind"] in ("white", "bandlimited", "gold") and rng.random() < 0.4:
            for at in sorted(rng.sample(range(len(parts)), rng.choice([1, 1, 2]) if len(parts) > 1 else 1)):
                powers.append([at, rng.choice([0.25, 2, 9, [0.5 + i for i in range(num)]])])
        if s["kind"] == "gold" and rng.random() < 0.08:
            s["order"] = 13
        srcs.append({"source": s, "num": num, "parts": parts, "powers": powers,
                     "copy_at": rng.randrange(len(parts)) if rng.random() < 0.3 else None})
    jobs = []
    if rng.random() < 0.5:
        jobs = simcase.gen_jobs(rng, n=(1,), types=("modified", "none"), reverbs=("none",), src_kinds=KINDS, proc=False)
        if rng.random() < 0.1:
            world.set_total(jobs[0]["spec"], 1030)
    return {"sources": srcs, "jobs": jobs, "sched": simcase.gen_sched(rng, (0.1, 0.3, 0.6))}


GOLD = {5: ([2], [1, 2, 3]), 6: ([5], [1, 4, 5]), 7: ([4], [4, 5, 6]), 8: ([1, 2, 3, 6, 7], [1, 2, 7]), 9: ([5], [3, 5, 6]),
        10: ([2, 5, 9], [3, 4, 6, 8, 9]), 11: ([9], [3, 6, 9])}


def mls(order, taps=None, state=None):
    return spsig.max_len_seq(order, taps=taps, state=state)[0] * 2.0 - 1


def gold(order, num):
    s1 = mls(order, GOLD[order][0] if order in GOLD else None)
    s2 = mls(order, GOLD[order][1]) if order in GOLD else s1[np.arange(len(s1)) * 5 % len(s1)]
    return np.stack([-s1 * np.roll(s2, i) for i in range(num)])


def formula(s, num, n, power=None):
    """The stream of a source as its kind defines it.  power: at every sample, if it was changed."""
    t = np.arange(n)
    k = s["kind"]
    if s.get("default_rng"):
        return None
    if power is None and "power" in s:
        power = np.array(s["power"], dtype=float).reshape(-1, 1) * np.ones((num, n))
    rng = np.random.default_rng(s["seed"])
    if k == "counter":
        return (s["start"] + t)[None, :].astype(float)
    if k == "sequence":
        d = world.userlib.gen_data(s["seed"], num, s["length"]) * s["amp"]
        return d[:, t % s["length"]]
    if k == "pulse":
        amp, per, dly = (np.array(v, dtype=float) * np.ones(num) for v in (s["amp"], s["period"], s["delay"]))
        return np.stack([np.where((t - dly[c]) % per[c] == 0, amp[c], 0.0) for c in range(num)])
    if k == "sine":
        ph = rng.uniform(0, 2 * np.pi, size=(num, 1))
        return np.sqrt(2 * power) * np.cos(2 * np.pi * s["freq"] / s["sr"] * t[None, :] + ph)
    if k == "multisine":
        ph = rng.uniform(0, 2 * np.pi, size=len(s["freq"]))
        return sum(np.sqrt(2 * power / len(ph)) * np.cos(2 * np.pi * f / s["sr"] * t + p) for f, p in zip(s["freq"], ph))
    if k == "white":
        return np.sqrt(power) * rng.normal(0, 1, size=(n, num)).T
    if k == "mls":
        m = mls(s["order"], s["poly"], s.get("state"))
        return m[None, t % len(m)]
    if k == "gold":
        g = gold(s["order"], num)
        return np.sqrt(power) * g[:, t % g.shape[1]]
    if k == "bandlimited":
        sos = spsig.butter(16, s["lim"], btype="bandpass", output="sos", fs=s["sr"])
        unit = np.mean(spsig.sosfilt(sos, rng.normal(size=(num, 10000))) ** 2)
        zi = np.repeat(spsig.sosfilt_zi(sos)[:, None, :], num, axis=1)
        return spsig.sosfilt(sos, np.sqrt(power / unit) * rng.normal(size=(n, num)).T, zi=zi, axis=-1)[0]
    return None


def innovation(s, num, y):
    """What drives an autoregressive source, from its samples, and what should: None for other sources."""
    if s["kind"] != "autocorr" or s.get("default_rng") or y.shape[1] <= 3:
        return None
    c = np.array(s["corr"], dtype=float)
    rng = np.random.default_rng(s["seed"])
    for _ in range(num):
        rng.normal(size=(num, c.shape[1]))
    z = rng.normal(size=(y.shape[1], num)).T
    p = c.shape[1] - 1
    e, want = np.zeros((num, y.shape[1] - p)), np.zeros((num, y.shape[1] - p))
    for ch in range(num):
        r = np.array([[c[ch, abs(i - j)] for j in range(p)] for i in range(p)])
        a = np.linalg.solve(r, c[ch, 1:])
        e[ch] = [y[ch, i] - np.dot(a, y[ch, i - p:i][::-1]) for i in range(p, y.shape[1])]
        want[ch] = z[ch, p:] * np.sqrt(c[ch, 0] - np.dot(a, c[ch, 1:]))
    return e, want


def power_at(d, upto=None):
    """The power at every sample drawn, None if it was never changed.  upto: changes from this request on are left out."""
    if not d.get("powers"):
        return None
    s, num = d["source"], d["num"]
    now, out = s["power"], []
    for i, n in enumerate(d["parts"]):
        for at, p in d["powers"]:
            if at == i and (upto is None or i < upto):
                now = p
        out.append(np.array(now, dtype=float).reshape(-1, 1) * np.ones((num, n)))
    return np.concatenate(out, axis=1)


def new_power(s, p):
    if s["kind"] == "gold":
        return world.gold_power(dict(s, power=p))
    return np.array(p, dtype=float) if isinstance(p, list) and s["kind"] == "white" else world.column(p)


class Drawn:
    def __init__(self, env, node, d, token):
        self.env, self.node, self.d, self.token = env, node, d, token

    def __call__(self):
        d = self.d
        src = world.make_source(self.node.mods, d["source"], d["num"])
        self.out, self.copies, self.ended = [], None, None
        left = d["source"]["length"] if d["source"].get("end_mode") == "raise" else None
        for i, n in enumerate(d["parts"]):
            if d["copy_at"] == i:
                self.copies = (copy.deepcopy(src), [], sum(d["parts"][:i]))
            for at, p in d.get("powers", ()):
                if at == i:
                    src.set_power(new_power(d["source"], p))
            self.env.kernel.yield_point(f"draw {n} from {self.token}")
            if left is not None and n > left:
                self.raises = False
                try:
                    src.get_samples(n)
                except (StopIteration, RuntimeError, EOFError, ValueError, IndexError):
                    self.raises = True
                self.ended = i
                break
            got = np.array(np.atleast_2d(src.get_samples(n)), dtype=float)
            if left is not None:
                left -= n
            self.out.append(got)
            if self.copies is not None:
                self.env.kernel.yield_point(f"draw {n} from a copy of {self.token}")
                self.copies[1].append(np.array(np.atleast_2d(self.copies[0].get_samples(n)), dtype=float))


def join(parts, num):
    return np.concatenate([np.zeros((num, 0))] + parts, axis=1)


def run(case):
    env = Env(case["sched"])
    try:
        node = env.node("p")
        draws = [Drawn(env, node, d, f"src{i}-{d['source']['kind']}") for i, d in enumerate(case["sources"])]
        jobs = [simcase.SimJob(env, node, j["spec"], f"sim{i}") for i, j in enumerate(case["jobs"])]
        ok = simcase.run_jobs(env, draws + jobs)
        for w, good in zip(draws, ok):
            if not good:
                continue
            d = w.d
            for p, n in zip(w.out, d["parts"]):
                if p.shape != (d["num"], n):
                    env.fail("shape", f"{w.token}: asked for {n} samples, got {p.shape}")
                    break
            else:
                got = join(w.out, d["num"])
                n = got.shape[1]
                s = dict(d["source"])
                s.pop("end_mode", None)
                env.note(got)
                power = power_at(d)
                power = power if power is None else power[:, :n]
                single = world.stream({}, {"source": s, "num": d["num"]}, n) if power is None else None
                for what, want in (("one single request", single), ("its definition", formula(d["source"], d["num"], n, power))):
                    if want is not None and not world.close(got, want):
                        env.fail("stream", f"{w.token} drawn as {d['parts']} (power changes {d.get('powers')}) differs from {what}: "
                                 f"{world.first_diff(got, want)}")
                inn = innovation(d["source"], d["num"], got)
                if inn is not None and not world.close(*inn):
                    env.fail("stream", f"{w.token} is not driven by white noise as its autocorrelation says: {world.first_diff(*inn)}")
                if w.ended is not None:
                    env.probe("ends reached")
                    if not w.raises:
                        env.fail("end", f"{w.token}: asking for more than is left did not raise")
                if w.copies is not None and w.copies[1]:
                    env.probe("copies in mid-stream")
                    c = join(w.copies[1], d["num"])
                    start = w.copies[2]
                    want = got
                    if power is not None:
                        env.probe("power changes")
                        want = formula(d["source"], d["num"], n, power_at(d, d["copy_at"])[:, :n])
                    if want is not None and not world.close(c, want[:, start:start + c.shape[1]]):
                        env.fail("copy", f"{w.token}: a copy made after {start} samples goes on differently: "
                                 f"{world.first_diff(c, want[:, start:start + c.shape[1]])}")
                env.probe(d["source"]["kind"])
        for j, good in zip(jobs, ok[len(draws):]):
            if good:
                ref = simcase.reference(env, j)
                if ref is not None:
                    names = [a["name"] for a in world.sources_of(j.spec)]
                    simcase.check_recorded(env, j, ref, lambda n: n in names, "played")
                    check_formula(env, j)
        return env.outcome()
    finally:
        env.finish()


def check_formula(env, j):
    tot = j.spec["cfg"]["tot_samples"]
    off = j.spec["cfg"]["sim_buffer"] - 1 if j.spec["cfg"]["start_sources_before_0"] else 0
    for a in world.sources_of(j.spec):
        if a["kind"] == "free":
            want = formula(a["source"], a["num"], off + tot)
            if want is not None:
                got = np.asarray(j.recorded[a["name"]].get_output())
                if not world.close(got, want[:, off:]):
                    env.fail("played", f"{j.token}: '{a['name']}' ({a['source']['kind']}) does not play its definition: "
                             f"{world.first_diff(got, want[:, off:])}")


def nontrivial(case, out):
    return not out["violations"] and any(len(d["parts"]) >= 3 for d in case["sources"])


def shrink(case):
    for i in range(len(case["sources"])):
        c = json.loads(json.dumps(case))
        del c["sources"][i]
        yield c
    for i in range(len(case["jobs"])):
        c = json.loads(json.dumps(case))
        del c["jobs"][i]
        yield c
    for i, d in enumerate(case["sources"]):
        for k in range(len(d.get("powers", ()))):
            c = json.loads(json.dumps(case))
            del c["sources"][i]["powers"][k]
            yield c
        if d["copy_at"] is not None:
            c = json.loads(json.dumps(case))
            c["sources"][i]["copy_at"] = None
            yield c
        for k in range(len(d["parts"])):
            if len(d["parts"]) > 1:
                c = json.loads(json.dumps(case))
                del c["sources"][i]["parts"][k]
                c["sources"][i]["powers"] = [[max(0, a - (a > k)), p] for a, p in d.get("powers", ()) if a != k or k < len(d["parts"]) - 1]
                if d["copy_at"] is not None:
                    c["sources"][i]["copy_at"] = min(d["copy_at"], len(d["parts"]) - 2)
                yield c
            if d["parts"][k] > 1:
                c = json.loads(json.dumps(case))
                c["sources"][i]["parts"][k] //= 2
                yield c
    for c in simcase.shrink_jobs(case):
        yield c
