"""C16: output describes the simulation, and failure to write it is reported."""
import json
import pathlib
import random

import numpy as np

from .. import faults, simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0
from . import c08, c09, c12

ID, LEVEL = "C16", "exploration"
COUNTS = {"quick": 600, "thorough": 30000}
REAL = REAL0 + ["yaml, json, numpy.savez and soundfile encoding on the simulated disk", "matplotlib (except rendering)"]
RULE = ("A case is one to three processes which create and run one or two simulations each, with random arrays, sources (some set or changed afterwards), "
        "rooms, processors, metadata, formats and exports, interleaved at every disk operation, while some meet disk errors, full disks, short reads and "
        "writes, or are killed.  For every simulation which returned normally, all files of its folder are read back and compared with what was "
        "simulated (config, arrays, positions, plot, kinds and truncation of paths, processor, every scheduled export); programs whose disk reported nothing must "
        "succeed.  Non-trivial: a fault fired, or all files of a simulation with an export were compared.")
STUBS = ["the disk is simulated on top of real files in a scratch directory", "rendering of figures (the plotted lines are written instead)",
         "sources, processors and trajectories are user code of the check"]
ASSUMPTIONS = ["config values of the declared types", "as C09"]

OUTPUT_OPS = {"mkdir": (1, 1), "open-w": (5, 9), "write": (8, 14), "callback": (1, 30), "stat": (1, 6), "read": (1, 10), "open-r": (1, 4), "clock": (1, 1)}


def gen_meta(rng, depth=0):
    return {rng.choice(["block", "mu", "ctrl pos", "a->b", "ü", "9"]): rng.choice(
        [1, 0.5, "text", None, True, [1, 2.5], -3] + ([gen_meta(rng, depth + 1)] if depth < 2 else [])) for _ in range(rng.choice([0, 1, 2, 3]))}


def gen(rng, tier, i):
    procs = []
    calm = rng.random() < 0.4
    for _ in range(rng.choice([1, 1, 2, 3])):
        sims = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            spec = world.gen_spec(rng, types=("modified", "none", "direct", "default", "random"), reverbs=("none", "ism", "direct"), max_tot=20,
                                  max_arrays=2, dynamic=rng.random() < 0.25)
            spec["cfg"]["plot_output"] = rng.choice(["pdf", "pdf", "pdf", "svg"])
            if rng.random() < 0.3:
                spec["cfg_file"] = rng.choice(["folder", "file", "text"])
            if rng.random() < 0.3 and not any(a.get("traj") for a in spec["arrays"]):
                world.vary_rooms(rng, spec)
            swaps = {}
            for a in spec["arrays"]:
                if a["kind"] == "free" and not a.get("traj"):
                    if rng.random() < 0.6:
                        kinds = ["array", "white", "sine", "bandlimited", "pulse", "sequence", "gold"] + (["autocorr"] if a["num"] <= 3 else []) \
                            + (["multisine", "mls", "counter"] if a["num"] == 1 else [])
                        a["source"] = world.gen_source(rng, a["num"], 80, kinds, spec["cfg"]["samplerate"])
                    if rng.random() < 0.3:
                        swaps[a["name"]] = world.gen_source(rng, a["num"], 80, ["array", "white"], spec["cfg"]["samplerate"])
            names = c08.signal_names(spec)
            if spec["proc"]:
                spec["proc"]["metadata"] = gen_meta(rng)
                spec["proc"]["name"] = rng.choice(["proc", "LMS", "a b", "x/y"])
            ds = []
            for n in rng.sample(c09.NAMES, rng.choice([0, 1, 1, 2])):
                plots = sum(f in ("plot", "spectrum", "matshow", "irplot") for d in ds for f in d["funcs"]) < 2
                ds.append(c09.gen_diag(rng, spec, names, n, plots))
            sims.append({"spec": spec, "diags": ds, "swaps": swaps})
        plan = {}
        if not calm and rng.random() < 0.75:
            plan = faults.gen_plan(rng, OUTPUT_OPS, rng.choice([faults.ERRORS, faults.ERRORS, faults.ERRORS + ("short",), None]), (1, 1, 2))
        procs.append({"sims": sims, "plan": plan})
    if rng.random() < 0.15:
        for p in procs:
            for s in p["sims"]:
                s["spec"]["cfg"]["auto_save_load"] = True
    return {"procs": procs, "sched": simcase.gen_sched(rng, (0.0, 0.05, 0.2, 0.5))}


class Job(c09.Job):
    def __call__(self):
        first = json.loads(json.dumps(self.spec))
        for n, s in self.case["swaps"].items():
            world.find(first, n)["source"] = s
        M = self.node.mods
        self.setup = world.new_setup(M, first, self.fig, self.session, self.token)
        for n in self.case["swaps"]:
            a = world.find(self.spec, n)
            self.setup.set_source(n, world.make_source(M, a["source"], a["num"], self.token))
        self.create()
        self.run()
        return self


# -- what the files must say ----------------------------------------------------------------
def source_info(s, num):
    k, m = s["kind"], {"number of channels": num}
    if k == "array":
        m["seed"] = s["seed"]
    if k in ("white", "sine", "multisine", "bandlimited", "gold"):
        m["power"] = s["power"]
    if k in ("sine", "multisine"):
        m["frequency"] = s["freq"]
    if k == "bandlimited":
        m["frequency span"] = s["lim"]
    if k in ("gold", "mls"):
        m["order"] = s["order"]
    if k == "gold":
        m["sequence length"] = 2 ** s["order"] - 1
    if k == "mls":
        m["polynomial"] = s["poly"]
        m["start state"] = s.get("state")
    if k == "counter":
        m["start number"] = s["start"]
    return m


def like(got, want):
    """Equal values; shapes of numbers and the types of containers may differ."""
    if isinstance(want, (int, float)) and not isinstance(want, bool) or isinstance(want, list):
        try:
            g, w = np.ravel(np.array(got, dtype=float)), np.ravel(np.array(want, dtype=float))
        except (TypeError, ValueError):
            return got == want
        return g.shape == w.shape and bool(np.all((g == w) | (np.abs(g - w) <= 1e-6 * np.abs(w))))
    return got == want


def differs(got, want, what=""):
    """want is a dict (of dicts); got must have all its keys and values.  -> None or what is wrong."""
    for k, v in want.items():
        if not isinstance(got, dict) or k not in got:
            return f"{what}{k!r} is missing"
        if isinstance(v, dict):
            r = differs(got[k], v, f"{what}{k!r}: ")
            if r:
                return r
        elif not like(got[k], v):
            return f"{what}{k!r} is {got[k]!r} instead of {v!r}"
    return None


REGION = {"cuboid": "Cuboid", "disc": "Disc", "two": "CombinedRegion"}


def arrays_info(spec):
    out = {}
    for a in spec["arrays"]:
        m = {"type": {"mic": "RegionArray" if a.get("region") else "MicArray", "ctrl": "ControllableSourceArray", "free": "FreeSourceArray"}[a["kind"]],
             "number": a["num"], "number of groups": 2 if a.get("groups") and a["num"] > 1 else 1, "dynamic": bool(a.get("traj"))}
        if a.get("region"):
            m["region shape"] = REGION[a["region"]]
        if a["kind"] == "free":
            m["source info"] = source_info(a["source"], a["num"])
        out[a["name"]] = m
    return out


def paths_info(spec):
    out = {}
    for s in world.sources_of(spec):
        for m in world.mics_of(spec):
            t = simcase.pair_type(spec, s, m)
            e = {"type": t}
            if t == "ism":
                tr, val, order, absorb = simcase.ism_info(spec["cfg"], simcase.position(s, 0), simcase.position(m, 0))
                e["ism_info"] = {"Max ISM order": order, "Energy Absorption": absorb}
                if spec["cfg"]["extra_delay"] > 0 and not spec["cfg"]["randomized_ism"]:
                    e["ism_info"].update({"Max Normalized Truncation Error (dB)": tr, "Max Normalized Truncated Value (dB)": val})
            out[f"{s['name']}->{m['name']}"] = e
    return out


def read(folder, name, load):
    try:
        return load((folder / name).read_bytes()), None
    except (OSError, ValueError) as e:
        return None, f"{name} is unreadable: {e!r}"
    except Exception as e:
        if type(e).__module__.startswith("yaml"):
            return None, f"{name} is unreadable: {e!r}"
        raise


def check_plot(spec, axes):
    lines, labels = axes[0]["lines"], axes[0]["labels"]
    k = 0
    for a in spec["arrays"]:
        t = a.get("traj")
        if t:
            for part in t["parts"] if t["kind"] == "collection" else [t]:
                if part["kind"] == "table":
                    continue
                if k >= len(lines):
                    return f"no line for {a['name']}"
                x, y = lines[k]
                p = np.stack([x, y], axis=1)
                if part["kind"] == "linear":
                    ok = all(any(np.allclose(q, r[:2]) for r in part["points"]) for q in p)
                else:
                    r = np.linalg.norm(p - np.array(part["center"])[:2], axis=1)
                    ok = bool(np.all(r > part["radius"][0] - 1e-6) and np.all(r < part["radius"][1] + 1e-6)) and len(p) > 1
                if not ok:
                    return f"the line of {a['name']} is not its trajectory"
                k += 1
        elif not a.get("region"):
            pos = simcase.position(a, 0)
            if k >= len(lines) or labels[k] != a["name"] or not (c09.same(lines[k][0], pos[:, 0]) and c09.same(lines[k][1], pos[:, 1])):
                return f"no line for {a['name']} at {pos.tolist()}: {list(zip(labels, lines))}"
            k += 1
    if k != len(lines):
        return f"{len(lines)} lines instead of {k}"
    cfg = spec["cfg"]
    room = [cfg["room_center"][0] - cfg["room_size"][0] / 2, cfg["room_center"][1] - cfg["room_size"][1] / 2] + list(cfg["room_size"][:2])
    shown = any(np.allclose(b, room) for b in axes[0]["boxes"])
    ism = any(simcase.pair_type(spec, s, m) == "ism" for s in world.sources_of(spec) for m in world.mics_of(spec))
    if shown != ism:
        return f"room shown: {shown}"
    return None


def check_files(env, j, folder, session=None):
    """The files which describe the simulation."""
    import yaml
    spec = j.spec
    got, err = read(folder, "config.yaml", yaml.safe_load)
    if spec.get("cfg_file"):
        env.probe("configs read from files")
    if not err and got != spec["cfg"] | {"spatial_dims": 3}:
        want = spec["cfg"] | {"spatial_dims": 3}
        err = f"config.yaml differs in {[k for k in want if got.get(k) != want[k]] if isinstance(got, dict) else got!r}"
    pos = {a["name"]: simcase.position(a, 0) for a in spec["arrays"]}
    files = [("metadata_arrays.json", arrays_info(spec), True), ("metadata_paths.json", paths_info(spec), True)]
    if j.finished:
        p = spec["proc"]
        files.append(("metadata_processor.json", {p["name"]: p["metadata"]} if p else {}, True))
    for name, want, exact in files:
        if err:
            break
        got, err = read(folder, name, json.loads)
        if not err:
            err = differs(got, want)
            if not err and sorted(got) != sorted(want):
                err = f"keys {sorted(got)} instead of {sorted(want)}"
            err = err and f"{name}: {err}"
    if not err:
        got, err = read(folder, "array_pos.json", json.loads)
        if not err and (sorted(got) != sorted(pos) or any(not c09.same(got[n], pos[n]) for n in pos)):
            err = f"array_pos.json: {got}"
    if not err:
        name = f"array_pos.{spec['cfg']['plot_output']}"
        got, err = read(folder, name, lambda b: json.loads(b[9:]))
        if not err:
            err = check_plot(spec, got)
            err = err and f"{name}: {err}"
    if err:
        env.fail("description", f"{j.token} (disk errors reported to it: {j.node.faults}): {err}")
    env.probe("descriptions compared")


def run(case):
    env = Env(case["sched"], fs=True)
    try:
        base = pathlib.Path(env.root) / "figs"
        base.mkdir()
        ses = pathlib.Path(env.root) / "sessions"
        ses.mkdir()
        tasks = []
        for i, p in enumerate(case["procs"]):
            node = env.node(f"p{i}", True, i)
            node.plan = p["plan"]
            jobs = []
            for k, c in enumerate(p["sims"]):
                j = Job(env, node, c["spec"], f"p{i}.{k}", fig=base, session=ses if c["spec"]["cfg"]["auto_save_load"] else None)
                j.case = c
                jobs.append(j)

            def program(jobs=jobs):
                for j in jobs:
                    j()
            tasks.append((node, jobs, env.spawn(node.name, program, node)))
        env.run()
        for node, jobs, t in tasks:
            err = faults.had_errors(node)
            if t.exc is not None and err:
                env.probe("failures reported")
            env.unexpected(t, Exception if err else ())
            for j in jobs:
                if j.sim is None:
                    continue
                folder = pathlib.Path(j.sim.folder_path)
                check_files(env, j, folder)
                if j.finished:
                    env.probe("simulations completed despite disk errors" if err else "simulations completed")
                    ref = simcase.reference(env, j)
                    if ref is not None:
                        c09.check_folder(env, j, ref)
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and (bool(out["fired"]) or out["probes"].get("exports", 0) > 0)


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, p in enumerate(case["procs"]):
        if len(case["procs"]) > 1:
            c = copy()
            del c["procs"][i]
            yield c
        for k, s in enumerate(p["sims"]):
            if len(p["sims"]) > 1:
                c = copy()
                del c["procs"][i]["sims"][k]
                yield c
            for n in s["swaps"]:
                c = copy()
                del c["procs"][i]["sims"][k]["swaps"][n]
                yield c
            for sub in c09.shrink({"jobs": [{"spec": s["spec"], "diags": s["diags"]}]}):
                c = copy()
                c["procs"][i]["sims"][k].update(sub["jobs"][0])
                x = c["procs"][i]["sims"][k]
                x["swaps"] = {n: v for n, v in x["swaps"].items() if any(a["name"] == n for a in x["spec"]["arrays"])
                              and world.find(x["spec"], n)["num"] == world.find(s["spec"], n)["num"]}
                yield c
        for k in p["plan"]:
            c = copy()
            del c["procs"][i]["plan"][k]
            yield c
