"""C17: keep-only-last exports."""
import json
import os
import pathlib
import re

import numpy as np

from .. import faults, simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0
from . import c08, c09

ID, LEVEL = "C17", "exploration"
COUNTS = {"quick": 1500, "thorough": 60000}
REAL = REAL0 + ["numpy.savez and zipfile on the simulated disk", "matplotlib (except rendering)"]
RULE = ("A case is one or two processes running simulations with up to five diagnostics with many exports, most keeping only the last one, with names "
        "which resemble each other, and files of the user among them; a process may be killed (in the middle of a write too) or meet disk errors at any operation.  The "
        "folders are looked at before every operation which changes one, and at the end: a complete export at most one export old must be there, and nothing but "
        "earlier exports may have gone.  Every complete export ever seen is compared with the reference model.  Non-trivial: an earlier export was removed.")
STUBS = ["the disk is simulated on top of real files in a scratch directory", "rendering of figures", "sources and processors are user code of the check"]
ASSUMPTIONS = ["as C09", "a killed program keeps what it handed to the operating system and loses its own buffers (no power failure)"]

GROUPS = [["mic", "mic_1", "mic_10", "mic_1_1", "micro"], ["x", "x_1", "x1", "x_2_", "xx"], ["a.b", "a", "a.b_3", "b", "a."],
          ["w[0]", "w", "w[1]", "w_0", "[w]"], ["p 1", "p 1_2", "p", "p  1", "1"], ["err-3", "err", "err-", "err-3_4", "3"]]


def gen_times(rng, tot):
    k = rng.choice(["freq", "freq", "list", "list"])
    if k == "freq":
        return rng.choice([1, 2, 3, max(1, tot // 3)])
    return sorted(rng.sample(range(1, tot + 1), min(tot, rng.choice([2, 3, 4, 6]))))


def gen(rng, tier, i):
    jobs = []
    calm = rng.random() < 0.25
    for _ in range(rng.choice([1, 1, 2])):
        spec = world.gen_spec(rng, types=("modified", "none", "direct"), reverbs=("none",), max_tot=33, max_arrays=2)
        world.set_total(spec, max(4, spec["cfg"]["tot_samples"]))
        spec["cfg"]["plot_output"] = rng.choice(["pdf", "svg"])
        names = c08.signal_names(spec)
        ds = []
        for n in rng.sample(rng.choice(GROUPS), rng.choice([1, 2, 2, 3, 5])):
            d = c09.gen_diag(rng, spec, names, n, False)
            d["keep"] = rng.random() < 0.8
            if d["keep"] or rng.random() < 0.5:
                d["funcs"] = rng.choice([["npz"], ["npz"], ["npz", "text"], ["text", "npz"]]) if d["kind"] in ("signal", "power") else ["npz"]
                d["pre"] = [[] for _ in d["funcs"]]
            d["export"] = gen_times(rng, spec["cfg"]["tot_samples"])
            ds.append(d)
        decoys = []
        for d in ds:
            for f in ("{}.npz", "{}_final.npz", "my {}_1.npz", "{}_1.npz.bak", "{}_1.txt", "{}_1", "{}2_0.npz", "{}_1x.npz", "{}_.npz", "{}_-1.npz", "{}_1.2.npz"):
                f = f.format(d["name"])
                if rng.random() < 0.15:
                    decoys.append(f)
        # (no decoy which is the export of a diagnostic)
        decoys = [f for f in decoys if not any(re.fullmatch(re.escape(d["name"]) + r"_\d+\.(npz|json|wav)", f) for d in ds)]
        plan = {}
        if not calm:
            if rng.random() < 0.35:
                plan = {f"op {rng.randrange(20, 400)}": {"kind": "crash"}}
            else:
                plan = faults.gen_plan(rng, {"open-w": (2, 25), "write": (6, 60), "unlink": (3, 8), "listdir": (1, 10), "stat": (1, 30)},
                                       rng.choice([None, ("crash", "torn"), faults.ERRORS]), (1, 1, 2))
        jobs.append({"spec": spec, "diags": ds, "decoys": decoys, "plan": plan})
    return {"jobs": jobs, "sched": simcase.gen_sched(rng, (0.0, 0.05, 0.2))}


class Watcher:
    """Looks at one folder before every operation which changes it."""

    def __init__(self, env, j):
        self.env, self.j = env, j
        self.folder = pathlib.Path(j.sim.folder_path)
        self.cache = {}            # (name, inode, size, mtime) -> complete?
        self.values = {}           # (diag, t) -> array
        self.names = None
        self.started = {}          # diag -> [t]
        self.seen_first = set()
        self.keep = {d["name"]: d for d in j.case["diags"] if d["keep"] and "npz" in d["funcs"]}
        self.times = {n: c09.schedule(d, j.spec["cfg"]) for n, d in self.keep.items()}
        self.exports = {f"{n}_{t}.npz": (n, t) for n in self.keep for t in self.times[n]}
        self.decoys = {}

    def complete(self, name):
        p = self.folder / name
        try:
            st = os.lstat(p)
            key = (name, st.st_ino, st.st_size, st.st_mtime_ns)
            if key not in self.cache:
                self.cache[key] = False
                with np.load(p) as z:
                    n, t = self.exports[name]
                    if list(z.keys()) == [n]:
                        self.values[n, t] = np.array(z[n])
                        self.cache[key] = True
            return self.cache[key]
        except Exception:
            return False

    def look(self, kind="", rel=""):
        """rel: what is about to be changed."""
        now = set(os.listdir(self.folder))
        done = {}
        for name, (n, t) in self.exports.items():
            if name in now and self.complete(name):
                done.setdefault(n, []).append(t)
        target = pathlib.PurePath(rel).name
        if kind == "open-w" and target in self.exports:
            n, t = self.exports[target]
            if t not in self.started.setdefault(n, []):
                self.started[n].append(t)
        for n in self.keep:
            ts = done.get(n, [])
            if ts:
                self.seen_first.add(n)
            elif n in self.seen_first:
                self.env.fail("none left", f"{self.j.token}: no complete export of '{n}' is left among {sorted(now)} (before '{kind} {rel}')")
                continue
            st = self.started.get(n, [])
            if ts and len(st) >= 2 and max(ts) < sorted(st)[-2]:
                self.env.fail("too old", f"{self.j.token}: the last complete export of '{n}' is {max(ts)} though {sorted(st)[-1]} is being written, after {sorted(st)[-2]}")
        if self.names is not None:
            for name in self.names - now:
                n, t = self.exports.get(name, (None, None))
                if n is None and name not in self.decoys and name not in self.all_exports:
                    continue          # a temporary file
                if n is None or t >= max(done.get(n, [0])):
                    self.env.fail("removed", f"{self.j.token}: '{name}' is gone")
                else:
                    self.env.probe("earlier exports removed")
        self.names = now

    def start(self):
        self.all_exports = set(c09.expected_files({"spec": self.j.spec, "diags": [dict(d, keep=False) for d in self.j.case["diags"]]}))
        for f in self.j.case["decoys"]:
            if f not in self.all_exports:
                self.decoys[f] = f"user file {f}".encode()
                (self.folder / f).write_bytes(self.decoys[f])
        self.look()


class Job(c09.Job):
    def create(self):
        sim = super().create()
        with self.env.raw():
            self.w = Watcher(self.env, self)
            self.w.start()
        return sim


def run(case):
    env = Env(case["sched"], fs=True)
    try:
        base = pathlib.Path(env.root) / "figs"
        base.mkdir()
        jobs, tasks = [], []
        for i, c in enumerate(case["jobs"]):
            node = env.node(f"p{i}", True, i)
            node.plan = c["plan"]
            j = Job(env, node, c["spec"], f"p{i}", fig=base)
            j.case = c
            jobs.append(j)

        def watch(kind, rel, node):
            if kind in ("open-w", "write", "unlink", "rename", "rmdir", "listdir"):
                for j in jobs:
                    if j.node is node and hasattr(j, "w"):
                        j.w.look(kind, rel)
        env.fs.watch = watch
        for j in jobs:
            tasks.append(env.spawn(j.token, j, j.node))
        env.run()
        env.fs.watch = None
        for j, t in zip(jobs, tasks):
            ok = env.unexpected(t, OSError if faults.had_errors(j.node) else ())
            if t.crashed:
                env.probe("programs killed")
            if not hasattr(j, "w"):
                continue
            j.w.look("end")
            for f, b in j.w.decoys.items():
                if not (j.w.folder / f).is_file() or (j.w.folder / f).read_bytes() != b:
                    env.fail("removed", f"{j.token}: the user's file '{f}' was changed or removed")
            ref = simcase.reference(env, j)
            if ref is None:
                continue
            for (n, t2), got in j.w.values.items():
                env.probe("complete exports seen")
                want = c09.content(j.w.keep[n], j.spec, ref, t2)[0]
                pre = j.w.keep[n]["pre"][j.w.keep[n]["funcs"].index("npz")]
                want = c09.pre_model(pre, want) if j.w.keep[n]["kind"] != "instant" else want
                if not c09.same(got, want):
                    env.fail("export", f"{j.token}: '{n}_{t2}.npz': {world.first_diff(got, want)}")
            if ok and not faults.had_errors(j.node):
                c09.check_folder(env, j, ref, j.w.decoys)
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    return not out["violations"] and out["probes"].get("earlier exports removed", 0) > 0


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i, j in enumerate(case["jobs"]):
        for k in j["plan"]:
            c = copy()
            del c["jobs"][i]["plan"][k]
            yield c
        for k in range(len(j["decoys"])):
            c = copy()
            del c["jobs"][i]["decoys"][k]
            yield c
    for c in c09.shrink(case):
        if all("npz" in d["funcs"] for j in c["jobs"] for d in j["diags"] if d["keep"]):
            yield c
