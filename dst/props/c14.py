"""C14: simulations loaded from a saved session."""
import dataclasses
import json
import pathlib

import numpy as np
import yaml

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0
from . import c12, c16

ID, LEVEL = "C14", "exploration"
COUNTS = {"quick": 600, "thorough": 30000}
REAL = REAL0 + ["dill, yaml and json on the simulated disk"]
RULE = ("A case is a program which saves a session and goes on simulating (and may be killed meanwhile), and one to three other "
        "programs which at the same time load that session by its folder, some changing the length, buffers or sources, some creating several simulators, "
        "some saving sessions of their own which the next one loads, interleaved at every disk operation.  What was loaded and every "
        "simulation's paths and signals are compared with the reference model and the saved paths; saved files must not change.  "
        "Non-trivial: a loaded simulation ran while another program was running.")
STUBS = ["the disk is simulated on top of real files in a scratch directory", "sources, processors and trajectories are user code of the check"]
ASSUMPTIONS = ["as C12", "settings which determine the saved paths are not changed after loading"]


def gen(rng, tier, i):
    spec = c12.gen_base(rng)
    cfg = spec["cfg"]
    if rng.random() < 0.3:
        for m in world.mics_of(spec):
            if not any(simcase.pair_type(spec, s, m) == "ism" for s in world.sources_of(spec)) and not m.get("traj"):
                m["dir"] = {"types": ["cardioid"] * m["num"], "angles": [0.5] * m["num"]}
    for a in spec["arrays"]:
        if a["kind"] == "free" and rng.random() < 0.7:
            kinds = ["array", "white", "white", "sine", "bandlimited", "pulse", "sequence", "gold"] + (["autocorr"] if a["num"] <= 3 else []) \
                + (["multisine", "mls", "counter"] if a["num"] == 1 else [])
            if a.get("traj"):
                kinds = ["array", "white", "sine"]
            a["source"] = world.gen_source(rng, a["num"], 100, kinds, cfg["samplerate"])
            if isinstance(a["source"].get("power"), list):
                a["source"]["power"] = 2
        if a["kind"] == "free" and rng.random() < 0.25:
            a["source"]["skip"] = rng.randrange(1, 9)
    loads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        patch = {}
        for k, v in (("tot_samples", lambda: rng.choice([3, 10, 16])), ("sim_buffer", lambda: cfg["sim_buffer"] + rng.choice([1, 4])),
                     ("sim_chunk_size", lambda: cfg["sim_chunk_size"] + rng.choice([1, 5])),
                     ("start_sources_before_0", lambda: not cfg["start_sources_before_0"]), ("array_update_freq", lambda: rng.choice([1, 2, 3])),
                     ("save_source_contributions", lambda: not cfg["save_source_contributions"])):
            if rng.random() < 0.2:
                patch[k] = v()
        new = {}
        for a in spec["arrays"]:
            if a["kind"] == "free" and rng.random() < 0.15:
                new[a["name"]] = {"kind": "array", "seed": rng.randrange(1000), "length": 80}
        loads.append({"patch": patch, "sources": new, "fig": rng.random() < 0.4, "as_str": rng.random() < 0.4, "sims": rng.choice([1, 1, 2]),
                      "from": rng.choice(["first", "last"]), "np_seed": rng.randrange(1000)})
    return {"spec": spec, "loads": loads, "kill": rng.randrange(1, 40) if rng.random() < 0.3 else None,
            "run": rng.random() < 0.8, "sched": simcase.gen_sched(rng, (0.05, 0.2, 0.5))}


class Loader(simcase.SimJob):
    """Loads a session, checks what was loaded, and simulates it."""

    def __init__(self, env, node, spec, token, path, load, saved_spec, fig, session):
        super().__init__(env, node, spec, token, fig, session)
        self.path, self.load, self.saved_spec = path, load, saved_spec
        self.more = []

    def __call__(self):
        M = self.node.mods
        self.setup = setup = M.simulator.SimulatorSetup(self.fig, self.session, rng=np.random.default_rng(3))
        setup.load_from_path(str(self.path) if self.load["as_str"] else self.path)
        self.check_loaded(setup)
        self.check_load_folder(setup)
        for name, s in self.load["sources"].items():
            setup.set_source(name, world.make_source(M, s, world.find(self.spec, name)["num"], self.token))
        world.apply_cfg(setup.sim_info, self.load["patch"])
        for n in range(self.load["sims"]):
            j = self if n == 0 else simcase.SimJob(self.env, self.node, self.spec, f"{self.token} sim{n}", self.fig, self.session)
            j.setup = setup
            j.create()
            j.run()
            if n:
                self.more.append(j)
        return self

    def check_loaded(self, setup):
        spec = self.saved_spec
        with self.env.raw():
            got = dataclasses.asdict(setup.sim_info)
            for k, v in spec["cfg"].items():
                if got[k] != v or type(got[k]) is not type(v) and not isinstance(v, (int, float)):
                    self.env.fail("loaded config", f"{self.token}: {k} is {got[k]!r} instead of {v!r}")
            names = [a.name for a in setup.arrays]
            if sorted(names) != sorted(a["name"] for a in spec["arrays"]):
                self.env.fail("loaded arrays", f"{self.token}: {names}")
                return
            M = self.node.mods
            for a in spec["arrays"]:
                b = setup.arrays[a["name"]]
                want = {"mic": M.array.RegionArray if a.get("region") else M.array.MicArray, "ctrl": M.array.ControllableSourceArray,
                        "free": M.array.FreeSourceArray}[a["kind"]]
                if type(b) is not want or not world.close(b.pos, simcase.position(a, 0)) or b.dynamic != bool(a.get("traj")):
                    self.env.fail("loaded arrays", f"{self.token}: {a['name']} is {type(b).__name__} at {b.pos}, moving {b.dynamic}")
                if list(b.directivity_type) != (a["dir"]["types"] if a.get("dir") else ["omni"] * a["num"]):
                    self.env.fail("loaded arrays", f"{self.token}: {a['name']} has directivity {b.directivity_type}")
            for s in world.sources_of(spec):
                for m in world.mics_of(spec):
                    t = setup.arrays.path_type[s["name"]].get(m["name"])
                    want = "modified" if self.resaved and not (s.get("traj") or m.get("traj")) else simcase.pair_type(spec, s, m)
                    if t != want:
                        self.env.fail("loaded arrays", f"{self.token}: path type {s['name']}->{m['name']} is {t} instead of {want}")


    def check_load_folder(self, setup):
        """What was loaded is described in a folder of its own."""
        self.load_folder = None
        if self.fig is None or self.saved_spec["cfg"]["plot_output"] == "none" and setup.folder_path is None:
            return
        with self.env.raw():
            self.load_folder = f = setup.folder_path and pathlib.Path(setup.folder_path)
            if f is None:
                return
            self.env.probe("folders of loaded setups")
            try:
                cfg = yaml.safe_load((f / "config.yaml").read_text())
                info, saved = json.loads((f / "metadata_sim.json").read_text()), json.loads((pathlib.Path(self.path) / "metadata_sim.json").read_text())
            except (OSError, ValueError, yaml.YAMLError) as e:
                self.env.fail("load folder", f"{self.token}: {e!r}")
                return
            for k, v in self.saved_spec["cfg"].items():
                if cfg.get(k) != v:
                    self.env.fail("load folder", f"{self.token}: config.yaml has {k} {cfg.get(k)!r} instead of {v!r}")
            if info != saved:
                self.env.fail("load folder", f"{self.token}: metadata_sim.json has {info} instead of {saved}")
            err = None if self.resaved else c16.differs(saved, c16.paths_info(self.saved_spec))
            if err:
                self.env.fail("session description", f"{self.token}: metadata_sim.json of the session: {err}")


def apply_load(spec, load):
    s = json.loads(json.dumps(spec))
    s["cfg"].update(load["patch"])
    for n, src in load["sources"].items():
        world.find(s, n)["source"] = src
    return s


def check_folder(env, job, folders):
    """It writes a folder of its own, which says what it is."""
    f = job.sim.folder_path
    if f is None:
        if job.fig is not None and job.spec["cfg"]["plot_output"] != "none":
            env.fail("folder", f"{job.token} has no folder")
        return
    env.probe("folders of loaded simulations")
    f = pathlib.Path(f)
    if f in folders:
        env.fail("folder", f"{job.token} and {folders[f]} both have {f.name}")
        return
    folders[f] = job.token
    try:
        cfg = yaml.safe_load((f / "config.yaml").read_text())
        arrays = json.loads((f / "metadata_arrays.json").read_text())
    except (OSError, ValueError, yaml.YAMLError) as e:
        env.fail("folder", f"{job.token}: {e!r}")
        return
    for k, v in job.spec["cfg"].items():
        if cfg.get(k) != v:
            env.fail("folder", f"{job.token}: config.yaml has {k} {cfg.get(k)!r} instead of {v!r}")
    if sorted(arrays) != sorted(a["name"] for a in job.spec["arrays"]):
        env.fail("folder", f"{job.token}: arrays {sorted(arrays)} are not its own")


def files(folder):
    return {p.name: p.read_bytes() for p in sorted(folder.iterdir())}


def run(case):
    env = Env(case["sched"], fs=True)
    try:
        root = pathlib.Path(env.root)
        for d in ("sessions", "figs"):
            (root / d).mkdir()
        spec = case["spec"]
        first = simcase.SimJob(env, env.node("saver", True, 1), spec, "saver", session=root / "sessions")
        started = {}
        state = {"path": None}
        jobs, saved = [], {}

        def chain():
            """The loading programs; each starts when the one before has created its simulator."""
            last, last_spec, resaved = state["path"], spec, False
            for n, load in enumerate(case["loads"]):
                path, sp, re = (state["path"], spec, False) if load["from"] == "first" else (last, last_spec, resaved)
                own = root / f"sessions{n}"
                with env.raw():
                    own.mkdir()
                new_spec = apply_load(sp, load)
                node = env.node(f"loader{n}", True, load["np_seed"])
                j = Loader(env, node, new_spec, f"loader{n}", path, load, sp, root / "figs" if load["fig"] else None, own)
                j.resaved = re
                jobs.append((j, env.spawn(j.token, j, node)))
                while not jobs[-1][1].done and not hasattr(j, "recorded"):
                    env.kernel.yield_point("waiting")
                with env.raw():
                    made = c12.sessions(own)
                if made and hasattr(j, "sim_paths") and new_spec["cfg"]["auto_save_load"]:
                    # its own session: everything that stands still is now a path set by the user
                    last, last_spec, resaved = own / made[0], new_spec, True
                    with env.raw():
                        saved[last] = files(last)

        def saver():
            M = first.node.mods
            first.setup = world.new_setup(M, spec, None, first.session, "saver")
            first.create()
            with env.raw():
                state["path"] = first.session / c12.sessions(first.session)[0]
                saved[state["path"]] = files(state["path"])
            state["chain"] = env.spawn("chain", chain)
            if case["kill"]:
                first.node.plan = {f"op {first.node.ops + case['kill']}": {"kind": "crash"}}
            if case["run"]:
                first.run()
        t0 = env.spawn("saver", saver, first.node)
        env.run()
        ok = env.unexpected(t0)
        if "chain" in state:
            env.unexpected(state["chain"])
        if ok and case["run"]:
            ref = simcase.reference(env, first)
            if ref is not None:
                simcase.check_recorded(env, first, ref)
        folders = {}
        for j, t in jobs:
            env.probe("loaded")
            if not env.unexpected(t):
                continue
            if j.load_folder is not None:
                if j.load_folder in folders:
                    env.fail("folder", f"{j.token} was loaded into the folder of {folders[j.load_folder]}")
                folders[j.load_folder] = f"loading {j.token}"
            for k in [j] + j.more:
                for p, h in k.sim_paths.items():
                    if not world.close(h, first.sim_paths[p], 1e-12):
                        env.fail("loaded paths", f"{k.token}: path {p} differs from the saved one: {world.first_diff(h, first.sim_paths[p], 1e-12)}")
                check_folder(env, k, folders)
                ref = simcase.reference(env, k)
                if ref is not None:
                    simcase.check_recorded(env, k, ref)
        for path, want in saved.items():
            if files(path) != want:
                env.fail("session changed", f"the files of {path.name} are not what they were when it was saved")
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and out["probes"].get("loaded", 0) > 0 and out["switches"] > 2


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, ld in enumerate(case["loads"]):
        if len(case["loads"]) > 1:
            c = copy()
            del c["loads"][i]
            yield c
        for k in ("patch", "sources"):
            for x in ld[k]:
                c = copy()
                del c["loads"][i][k][x]
                yield c
        if ld["sims"] > 1 or ld["fig"]:
            c = copy()
            c["loads"][i].update(sims=1, fig=False)
            yield c
    if case["kill"]:
        c = copy()
        c["kill"] = None
        yield c
    for s in simcase.shrink_spec(case["spec"]):
        c = copy()
        c["spec"] = s
        names = {a["name"] for a in s["arrays"]}
        for ld in c["loads"]:
            ld["sources"] = {k: v for k, v in ld["sources"].items() if k in names}
        if all(world.find(s, k)["num"] == world.find(case["spec"], k)["num"] for ld in c["loads"] for k in ld["sources"]):
            yield c
