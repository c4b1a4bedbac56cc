"""C15: output folders."""
import json
import pathlib

import numpy as np

from .. import faults, simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0
from . import c09, c12

ID, LEVEL = "C15", "exploration"
COUNTS = {"quick": 700, "thorough": 40000}
REAL = REAL0 + ["yaml and json on the simulated disk", "matplotlib (except rendering)"]
RULE = ("A case is one to four processes which each create and run one to three simulators below the same folder, interleaved at every disk "
        "operation, with a clock which stands still, jumps back and forth or goes on, some of setups loaded from a session, left-over folders, files and dangling links with the names which come "
        "next, programs killed at any operation, and disk errors.  While they run, every folder may be made and written by one simulator only; "
        "afterwards what was there before must be unchanged and every folder hold the config, arrays and exports of its own simulator.  "
        "Non-trivial: two folders were made in the same minute, by different programs or at once.")
STUBS = ["the disk and the clock are simulated on top of real files in a scratch directory", "rendering of figures",
         "sources and processors are user code of the check"]
ASSUMPTIONS = ["programs of one process run one after another (matplotlib's pyplot has one state per process)"]

STAMP = "2023_11_14_22_13"         # what the clock shows at first


def small_spec(rng, tag, n):
    spec = world.gen_spec(rng, types=("modified", "none"), reverbs=("none",), max_tot=8, max_arrays=1, max_num=2)
    spec["cfg"]["tot_samples"] = 2 + n
    spec["cfg"]["sim_buffer"] = max(4, 2 * (spec["proc"]["bs"] if spec["proc"] else 1))
    spec["cfg"]["plot_output"] = rng.choice(["pdf", "pdf", "svg", "none"] if rng.random() < 0.5 else ["pdf"])
    for a in spec["arrays"]:
        old = a["name"]
        a["name"] = f"{a['kind']} {tag}"
        spec["paths"] = {"|".join(a["name"] if x == old else x for x in k.split("|")): v for k, v in spec["paths"].items()}
        a.pop("region", None)
        if a.get("source"):
            a["source"]["length"] = 80
    spec["style"] = rng.choice(["methods", "arrays"])
    return spec


def gen(rng, tier, i):
    procs = []
    sessions = rng.random() < 0.2
    n = 0
    loaded = None
    if not sessions and rng.random() < 0.3:
        loaded = small_spec(rng, "ld", 5)
        loaded["cfg"].update(auto_save_load=True, plot_output="pdf")
    calm = rng.random() < 0.4
    for p in range(rng.choice([1, 2, 2, 3, 4])):
        sims = []
        for k in range(rng.choice([1, 1, 2, 3])):
            same = k > 0 and rng.random() < 0.4         # another simulator of the same setup
            spec = sims[-1]["spec"] if same else small_spec(rng, f"p{p}s{k}", n)
            if sessions:
                spec["cfg"]["auto_save_load"] = True
            n += 1
            load = sims[-1]["load"] if same else loaded is not None and rng.random() < 0.6
            sims.append({"spec": loaded if load else spec, "same": same, "load": load, "run": rng.random() < 0.7,
                         "as_str": rng.random() < 0.3})
        plan = {}
        if not calm and rng.random() < 0.6:
            plan = faults.gen_plan(rng, {"mkdir": (4, 3), "open-w": (2, 6), "write": (2, 10), "stat": (2, 12), "clock": (2, 2)},
                                   rng.choice([None, ("crash", "torn")]))
        procs.append({"sims": sims, "plan": plan})
    left = []
    for k in rng.sample(range(6), rng.choice([0, 0, 1, 2, 4])):
        left.append([f"figs_{STAMP}_{k}", rng.choice(["folder", "folder", "full", "file", "link"])])
    if rng.random() < 0.2:
        left.append([rng.choice(["figs", "figs_", f"figs_{STAMP}", f"figs_{STAMP}_10", "notes.txt", f"figs_{STAMP}_x"]), "file"])
    return {"procs": procs, "left": left, "sessions": sessions, "loaded": loaded, "tick": rng.choice([0.0, 0.0, 0.001, 1.0, 30.0]),
            "clock": faults.gen_clock(rng, 150), "sched": simcase.gen_sched(rng, (0.0, 0.2, 0.5, 0.8)), "fs_seed": rng.randrange(1000)}


def put_left(base, left):
    for name, kind in left:
        p = base / name
        if kind == "folder":
            p.mkdir()
        elif kind == "full":
            p.mkdir()
            (p / "config.yaml").write_text("mine: 1\n")
            (p / "rec_2.npz").write_bytes(b"keep me")
        elif kind == "link":
            p.symlink_to(base / "nowhere")
        else:
            p.write_text("a file")


def snapshot(base, names):
    out = {}
    for n in names:
        p = base / n
        if p.is_symlink():
            out[n] = "link to " + str(p.readlink())
        elif p.is_dir():
            out[n] = {q.name: q.read_bytes() if q.is_file() else "?" for q in sorted(p.iterdir())}
        elif p.exists():
            out[n] = p.read_bytes()
        else:
            out[n] = None
    return out


class Owners:
    """Which simulator made and wrote each folder below the base folder."""

    def __init__(self, env, base):
        self.env, self.base, self.by, self.now = env, base.name, {}, {}
        env.fs.watch = self.watch

    def watch(self, kind, rel, node):
        if kind not in ("mkdir", "open-w", "write", "rename", "unlink", "rmdir"):
            return
        for r in rel.split(" -> "):
            parts = pathlib.PurePath(r).parts
            if len(parts) < 3 or parts[0] != self.base:
                continue
            me = self.now.get(node.name)
            first = self.by.setdefault(parts[1], me)
            if first != me:
                self.env.fail("shared folder", f"{me} does '{kind} {rel}' in the folder of {first}")


def run(case):
    env = Env(case["sched"], fs=True, fs_seed=case["fs_seed"])
    faults.set_clock(env, case)
    try:
        base = pathlib.Path(env.root) / "figs"
        base.mkdir()
        put_left(base, case["left"])
        names = [n for n, _ in case["left"]]
        before = snapshot(base, names)
        if case["loaded"]:
            (pathlib.Path(env.root) / "saved").mkdir()
            j0 = simcase.SimJob(env, env.node("saver", True, 99), case["loaded"], "saver", session=pathlib.Path(env.root) / "saved")
            t0 = env.spawn("saver", j0, j0.node)
            env.run()
            if not env.unexpected(t0):
                return env.outcome()
            saved_at = pathlib.Path(env.root) / "saved" / c12.sessions(pathlib.Path(env.root) / "saved")[0]
        own = Owners(env, base)
        for n in names:
            own.by[n] = "whoever was there before"
        made = []           # (job, folder)

        def program(p, node, token):
            def go():
                setup = None
                for k, s in enumerate(p["sims"]):
                    own.now[node.name] = f"{token}.{k}"
                    j = c09.Job(env, node, s["spec"], f"{token}.{k}")
                    j.case = {"spec": s["spec"], "diags": [{"name": "rec", "kind": "signal", "keep": False, "funcs": ["npz"], "pre": [[]],
                                                            "rec": {"name": world.mics_of(s["spec"])[0]["name"], "kind": "all", "ch": None},
                                                            "export": [s["spec"]["cfg"]["tot_samples"]]}]}
                    if not s["same"] or setup is None:
                        fig = str(base) if s["as_str"] else base
                        ses = fig if case["sessions"] else None
                        if s["load"]:
                            setup = node.mods.simulator.SimulatorSetup(fig, None, rng=np.random.default_rng(3))
                            setup.load_from_path(saved_at)
                            env.probe("setups loaded from a session")
                        else:
                            setup = world.new_setup(node.mods, s["spec"], fig, ses, j.token)
                    j.setup = setup
                    j.create()
                    made.append(j)
                    env.probe("simulators created")
                    if s["run"]:
                        j.running = True
                        j.run()
            return go
        tasks = []
        for n, p in enumerate(case["procs"]):
            node = env.node(f"p{n}", True, n)
            node.plan = p["plan"]
            tasks.append((p, node, env.spawn(node.name, program(p, node, f"p{n}"), node)))
        env.run()
        for p, node, t in tasks:
            env.unexpected(t, OSError if faults.had_errors(node) else ())
        seen = {}
        for j in made:
            f = j.sim.folder_path
            none = j.spec["cfg"]["plot_output"] == "none"
            if (f is None) != none:
                env.fail("folder", f"{j.token}: folder {f} with plot_output {j.spec['cfg']['plot_output']}")
            if f is None:
                continue
            f = pathlib.Path(f)
            if f.parent != base or not f.is_dir():
                env.fail("folder", f"{j.token}: folder {f} is not one below {base}")
            elif f.name in seen:
                env.fail("shared folder", f"{j.token} and {seen[f.name].token} both have {f.name}")
            elif f.name in names:
                env.fail("shared folder", f"{j.token} has {f.name}, which was there before")
            else:
                check_own(env, j, f)
            seen[f.name] = j
        if sum(n.startswith(f"figs_{STAMP}") for n in seen) > 1:
            env.probe("several folders in the same minute")
        if case["left"] and seen:
            env.probe("left-over names")
        after = snapshot(base, names)
        for n in names:
            if after[n] != before[n]:
                env.fail("left-over changed", f"{n} was {before[n]} and is {after[n]}")
        for p in base.iterdir():
            if p.name not in names and p.name not in own.by and p.is_dir() and any(p.iterdir()):
                env.fail("folder", f"{p.name} belongs to nobody")
        return env.outcome()
    finally:
        env.finish()


def check_own(env, j, f):
    import yaml
    wrong = None
    try:
        cfg = yaml.safe_load((f / "config.yaml").read_text())
        arrays = json.loads((f / "metadata_arrays.json").read_text())
        if cfg != j.spec["cfg"] | {"spatial_dims": 3}:
            wrong = f"config.yaml is not its own: {cfg}"
        elif sorted(arrays) != sorted(a["name"] for a in j.spec["arrays"]):
            wrong = f"arrays {sorted(arrays)} are not its own"
    except (OSError, ValueError) as e:
        wrong = repr(e)
    have = {p.name for p in f.iterdir()} - c09.OTHER
    if wrong is None and j.finished:
        ref = simcase.reference(env, j)
        if ref is not None:
            c09.check_folder(env, j, ref)
    elif have and wrong is None and not getattr(j, "running", False):
        wrong = f"files of others: {sorted(have)}"
    if wrong:
        env.fail("not its own", f"{j.token} in {f.name}: {wrong}")


def nontrivial(case, out):
    return not out["violations"] and out["probes"].get("several folders in the same minute", 0) > 0


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, p in enumerate(case["procs"]):
        if len(case["procs"]) > 1:
            c = copy()
            del c["procs"][i]
            yield c
        for k in range(len(p["sims"])):
            if len(p["sims"]) > 1:
                c = copy()
                del c["procs"][i]["sims"][k]
                if c["procs"][i]["sims"][0]["same"]:
                    c["procs"][i]["sims"][0]["same"] = False
                if k < len(c["procs"][i]["sims"]) and c["procs"][i]["sims"][k]["same"]:
                    c["procs"][i]["sims"][k]["same"] = False
                yield c
            if p["sims"][k]["run"]:
                c = copy()
                c["procs"][i]["sims"][k]["run"] = False
                yield c
        for k in p["plan"]:
            c = copy()
            del c["procs"][i]["plan"][k]
            yield c
    for i in range(len(case["left"])):
        c = copy()
        del c["left"][i]
        yield c
    if case["loaded"] and not any(s["load"] for p in case["procs"] for s in p["sims"]):
        c = copy()
        c["loaded"] = None
        yield c
    if case["clock"]:
        c = copy()
        c["clock"] = {}
        yield c
