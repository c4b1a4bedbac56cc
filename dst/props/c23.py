"""C23: audio files are played as they are."""
import json
import math
import pathlib

import numpy as np
import scipy.signal as spsig

from .. import faults, simcase, userlib, world
from ..execu import Env
from ..simcase import REAL as REAL0

ID, LEVEL = "C23", "exploration"
COUNTS = {"quick": 700, "thorough": 30000}
REAL = REAL0 + ["soundfile encoding and decoding, scipy resampling"]
RULE = ("A case is a folder of audio files (some exported by a simulation that ran before) and one to three processes which load some of them, "
        "with any choice of channels and of a lower samplerate, and play them in simulations, interleaved at every disk operation and request for samples, "
        "while some meet disk errors or short reads.  What was loaded and played is compared with the decoded bytes of the file, resampled if asked; "
        "missing and damaged files must raise.  Non-trivial: a loaded file was played, or a fault fired.")
STUBS = ["the disk is simulated on top of real files in a scratch directory"]
ASSUMPTIONS = ["only lower samplerates (others are rejected)", "num_channels is at most what the file has"]
RATES = [500, 1000, 1500, 2000, 3000, 8000]
OPS = {"open-r": (3, 2), "read": (4, 4), "callback": (1, 20), "stat": (1, 4)}


def gen(rng, tier, i):
    files = [{"name": f"{rng.choice(['a', 'voice 1', 'x_10', 'ü'])}{k}.{rng.choice(['wav', 'wav', 'flac', 'aiff'])}", "sr": rng.choice(RATES),
              "ch": rng.choice([1, 1, 2, 3]), "len": rng.choice([1, 2, 7, 30, 61, 200]), "subtype": rng.choice(["PCM_16", "PCM_24"]),
              "seed": world.jrng(rng), "bad": rng.random() < 0.06} for k in range(rng.choice([1, 2, 3]))]
    export = None
    if rng.random() < 0.25:
        spec = world.gen_spec(rng, types=("modified", "none"), reverbs=("none",), max_tot=40, max_arrays=1, proc=False)
        spec["cfg"]["plot_output"] = "pdf"
        export = {"spec": spec, "signal": rng.choice([a["name"] for a in spec["arrays"]])}
        files.append({"name": "export", "sr": spec["cfg"]["samplerate"], "ch": world.find(spec, export["signal"])["num"], "bad": False})
    procs = []
    for _ in range(rng.choice([1, 2, 3])):
        loads = []
        for _ in range(rng.choice([1, 2])):
            n = rng.randrange(len(files))
            f = files[n]
            sr = rng.choice([None, f["sr"], f["sr"]] + [r for r in RATES if r < f["sr"]] + ([r for r in RATES if r > f["sr"]][:1] if rng.random() < 0.3 else []))
            load = {"file": "missing" if rng.random() < 0.05 else n, "sr": sr, "num": rng.choice([None] + list(range(1, f["ch"] + 1))),
                    "amp": rng.choice([1, 1, 0.5, 3]), "text": rng.random() < 0.3, "spec": None}
            if rng.random() < 0.7:
                spec = world.gen_spec(rng, types=("modified", "none", "direct"), reverbs=("none",), max_tot=40, max_arrays=2, proc=False,
                                      max_num=load["num"] or f["ch"])
                a = next(b for b in spec["arrays"] if b["kind"] == "free")
                if a["num"] == (load["num"] or f["ch"]):
                    a["source"] = {"kind": "data", "amp": load["amp"], "key": str(rng.random())}
                    load["spec"], load["source"] = spec, a["name"]
            loads.append(load)
        plan = faults.gen_plan(rng, OPS, faults.ERRORS + ("short",), (1, 2)) if rng.random() < 0.3 else {}
        procs.append({"loads": loads, "plan": plan})
    return {"files": files, "export": export, "procs": procs, "sched": simcase.gen_sched(rng, (0.0, 0.1, 0.3))}


def decode(path):
    import soundfile
    d, sr = soundfile.read(path, always_2d=True)
    return d.T, sr


def wanted(path, load):
    """What loading must give; None if it must raise."""
    if path is None:
        return None
    try:
        d, sr = decode(path)
    except Exception:
        return None
    d = d[:load["num"]]
    if load["sr"] in (None, sr):
        return d
    if load["sr"] > sr:
        return None
    g = math.gcd(load["sr"], sr)
    return np.stack([spsig.resample_poly(x, load["sr"] // g, sr // g) for x in d])


class Program:
    def __init__(self, env, node, case, p, paths, token):
        self.env, self.node, self.case, self.p, self.paths, self.token = env, node, case, p, paths, token
        self.got, self.jobs = [], []

    def __call__(self):
        M = self.node.mods
        for k, load in enumerate(self.p["loads"]):
            path = self.paths.get(load["file"], self.paths["missing"])
            kw = {}
            if load["sr"] is not None:
                kw["desired_sr"] = load["sr"]
            if load["num"] is not None:
                kw["num_channels"] = load["num"]
            r = {"load": load, "path": path, "audio": None, "exc": None, "faults": len(self.node.faults)}
            self.got.append(r)
            try:
                audio = M.sources.load_audio_file(str(path) if load["text"] else path, **kw)
            except Exception as e:
                r["exc"] = e
                continue
            finally:
                r["faults"] = faults.had_errors_since(self.node, r["faults"])
            r["audio"] = np.array(audio)
            if load["spec"]:
                key = world.find(load["spec"], load["source"])["source"]["key"]
                userlib.DATA[key] = audio
                j = simcase.SimJob(self.env, self.node, load["spec"], f"{self.token}.{k}")
                self.jobs.append((j, key, path, load))
                j()


def exporter(job, name):
    def diags(M, sim, j):
        num = world.find(j.spec, name)["num"]
        d = M.dia.RecordSignal(name, sim.sim_info, num_channels=num, export_at=[j.spec["cfg"]["tot_samples"]], export_func="wav")
        sim.diag.add_diagnostic("export", d)
    job.diags = diags


def run(case):
    import soundfile
    env = Env(case["sched"], fs=True)
    userlib.DATA.clear()
    world._stream_cache.clear()
    try:
        root = pathlib.Path(env.root)
        base = root / "figs"
        base.mkdir()
        (root / "audio").mkdir()
        paths = {"missing": root / "audio" / "no such file.wav"}
        for n, f in enumerate(case["files"]):
            if f["name"] != "export":
                paths[n] = root / "audio" / f["name"]
                d = userlib.gen_data(f["seed"], f["ch"], f["len"]) / 8.0
                soundfile.write(str(paths[n]), d.T, f["sr"], subtype=f["subtype"])
                if f["bad"]:
                    paths[n].write_bytes(paths[n].read_bytes()[:10])
        if case["export"]:
            j = simcase.SimJob(env, env.node("first", True, 99), case["export"]["spec"], "first", fig=base)
            j.records = False
            exporter(j, case["export"]["signal"])
            if simcase.run_jobs(env, [j]) == [True]:
                found = sorted(pathlib.Path(j.sim.folder_path).glob("*.wav"))
                if len(found) != 1:
                    env.fail("export", f"{[p.name for p in found]} exported instead of one audio file")
                else:
                    paths[len(case["files"]) - 1] = found[0]
        before = {p: p.read_bytes() for p in paths.values() if p.exists()}
        progs = []
        for i, p in enumerate(case["procs"]):
            node = env.node(f"p{i}", True, i)
            node.plan = p["plan"]
            progs.append(Program(env, node, case, p, paths, f"p{i}"))
        tasks = [env.spawn(w.token, w, w.node) for w in progs]
        env.run()
        for p, b in before.items():
            if p.read_bytes() != b:
                env.fail("changed", f"{p.name} was changed")
        for w, t in zip(progs, tasks):
            err = faults.had_errors(w.node)
            good = env.unexpected(t, Exception if err else ())
            for r in w.got:
                want = wanted(r["path"] if r["path"].exists() else None, r["load"])
                if r["audio"] is None:
                    if r["exc"] is not None and want is not None and not r["faults"]:
                        env.fail("load", f"{w.token}: loading {r['path'].name} as {show(r['load'])} raised {r['exc']!r}")
                    env.probe("loads that raised")
                elif want is None:
                    env.fail("load", f"{w.token}: loading {r['path'].name} as {show(r['load'])} gave {r['audio'].shape} instead of raising")
                else:
                    env.note(r["audio"])
                    env.probe("files resampled" if r["load"]["sr"] and len(want[0]) != len(decode(r["path"])[0][0]) else "files loaded")
                    if not world.close(r["audio"], want):
                        env.fail("load", f"{w.token}: {r['path'].name} loaded as {show(r['load'])} is wrong: {world.first_diff(r['audio'], want)}")
            for j, key, path, load in w.jobs:
                if not good or not j.finished or env.violations:
                    continue
                userlib.DATA[key] = wanted(path, load)
                ref = simcase.reference(env, j)
                if ref is not None:
                    env.probe("exports of simulations played" if load["file"] == len(case["files"]) - 1 and case["export"] else "files played")
                    simcase.check_recorded(env, j, ref, None, "played")
        return env.outcome()
    finally:
        env.finish()


def show(load):
    return {"desired_sr": load["sr"], "num_channels": load["num"]}


def nontrivial(case, out):
    return not out["violations"] and (bool(out["fired"]) or any(k.endswith("played") for k in out["probes"]))


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, p in enumerate(case["procs"]):
        if len(case["procs"]) > 1:
            c = copy()
            del c["procs"][i]
            yield c
        for k, load in enumerate(p["loads"]):
            if len(p["loads"]) > 1:
                c = copy()
                del c["procs"][i]["loads"][k]
                yield c
            if load["spec"]:
                c = copy()
                c["procs"][i]["loads"][k]["spec"] = None
                yield c
                for s in simcase.shrink_spec(load["spec"]):
                    a = next((b for b in s["arrays"] if b["name"] == load["source"]), None)
                    old = world.find(load["spec"], load["source"])
                    if a is not None and a["source"] == old["source"] and a["num"] == old["num"]:
                        c = copy()
                        c["procs"][i]["loads"][k]["spec"] = s
                        yield c
        for k in p["plan"]:
            c = copy()
            del c["procs"][i]["plan"][k]
            yield c
    for k, f in enumerate(case["files"]):
        for key, v in (("len", f.get("len", 1) // 2), ("bad", False)):
            if f.get(key, v) != v and v != 0:
                c = copy()
                c["files"][k][key] = v
                yield c
