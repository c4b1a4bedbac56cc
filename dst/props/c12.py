"""C12: saved sessions only save time."""
import json
import pathlib

import numpy as np

from .. import simcase, world
from ..execu import Env
from ..simcase import REAL as REAL0

ID, LEVEL = "C12", "exploration"
COUNTS = {"quick": 1000, "thorough": 30000}
REAL = REAL0 + ["dill, yaml and json on the simulated disk"]
RULE = ("A case is three to seven programs sharing one session folder (some in one process, most in processes of their own), each a "
        "variation of one setup: the same again, or with other audio settings, settings that do not matter for the paths, "
        "positions, kinds and numbers of arrays, path types, user-set paths, directivities or sources; the folder also holds things that are "
        "not sessions, and is listed in a random order.  Every program's paths and signals are compared with the reference model for its own setup.  "
        "Non-trivial: at least one session was reused and at least one was not.")
STUBS = ["the disk is simulated on top of real files in a scratch directory", "sources, processors and trajectories are user code of the check"]
ASSUMPTIONS = ["as C01", "positions that differ do so by half a millimetre or more", "one program at a time (C13 has several at once)"]

IRRELEVANT = ("tot_samples", "sim_buffer", "sim_chunk_size", "start_sources_before_0", "save_source_contributions",
              "export_frequency", "output_smoothing", "array_update_freq")
AUDIO = ("samplerate", "c", "reverb", "room_size", "room_center", "rt60", "max_room_ir_length", "extra_delay", "highpass_cutoff")


def gen_base(rng):
    spec = world.gen_spec(rng, dynamic=rng.random() < 0.25, max_tot=16, max_arrays=2, max_num=2,
                          types=("modified", "none", "default", "default", "ism", "direct", "random"), reverbs=("none", "ism", "ism", "direct"),
                          src_kinds=("array", "white", "sequence"))
    spec["cfg"]["auto_save_load"] = True
    spec["cfg"]["room_size"], spec["cfg"]["room_center"] = rng.choice([([7, 5, 2.5], [-1, 0, 0]), ([4, 4, 3], [0, 0, 0])])
    if not any(a.get("traj") for a in spec["arrays"]):
        world.vary_rooms(rng, spec, 0.25)
    cfg, placed = spec["cfg"], []
    moving = any([a.pop("traj", None) for a in spec["arrays"]])
    for a in spec["arrays"]:
        a["pos"] = world.gen_pos(rng, a["num"], dict(cfg, room_size=[3.6, 3.6, 2.2]), placed)
        placed += a["pos"]
    if moving:
        world.make_dynamic(rng, spec)
        fix_moving(spec)
    return spec


def fix_moving(spec):
    """User-set and random paths are not for moving arrays; one-to-one paths are for equal numbers."""
    cfg = spec["cfg"]
    for s in world.sources_of(spec):
        for m in world.mics_of(spec):
            k = f"{s['name']}|{m['name']}"
            moving = bool(s.get("traj") or m.get("traj"))
            e = spec["paths"].get(k)
            if e and moving and e["type"] in ("modified", "random"):
                spec["paths"][k] = {"type": "ism"}
            t = simcase.pair_type(spec, s, m)
            if t == "direct" and s["num"] != m["num"]:
                spec["paths"][k] = {"type": "none"}
    for k in list(spec["paths"]):
        names = {a["name"] for a in spec["arrays"]}
        if not set(k.split("|")) <= names:
            del spec["paths"][k]
    for a in spec["arrays"]:
        s = a.get("source")
        if s and s["kind"] == "array":
            s["length"] = cfg["tot_samples"] + cfg["sim_buffer"] + 40


def vary(rng, spec):
    """-> (what changed, the new spec)."""
    s = json.loads(json.dumps(spec))
    cfg = s["cfg"]
    mics, srcs = world.mics_of(s), world.sources_of(s)
    moving = any(a.get("traj") for a in s["arrays"])
    pairs = [(a, b) for a in srcs for b in mics]
    kind = rng.choice(["irrelevant", "audio", "audio", "audio", "pos", "pos", "pos", "path", "path", "kind", "num", "source", "name", "drop", "dir",
                       "traj", "order", "same", "style"])
    if kind == "irrelevant":
        for k in rng.sample(IRRELEVANT, 3):
            if k == "array_update_freq" and moving:
                cfg[k] = rng.choice([1, 2, 3])
            elif k in ("start_sources_before_0", "save_source_contributions"):
                cfg[k] = not cfg[k]
            elif k == "tot_samples":
                cfg[k] = rng.choice([5, 9, 16])
            else:
                cfg[k] += rng.choice([1, 2, 5])
    elif kind == "audio":
        k = "rt60" if cfg["rt60"] and rng.random() < 0.4 else rng.choice(AUDIO)
        if rng.random() < 0.1 and not moving:
            k = "randomized_ism"
        ism = any(simcase.pair_type(s, a, b) == "ism" for a, b in pairs)
        new = {"samplerate": lambda: rng.choice([500, 1000, 1002, 2000]), "c": lambda: rng.choice([343.0, 300.0, 343.5, 343.1]),
               "reverb": lambda: rng.choice(["none", "ism", "direct"]),
               "room_size": lambda: rng.choice([[7, 5, 2.5], [7, 6, 3], [8, 5, 3], [7.01, 5, 2.5]]),
               "room_center": lambda: [v + d for v, d in zip(cfg["room_center"], rng.choice([[0.05, 0, 0], [0, -0.05, 0], [0, 0, 0.02], [0.01, 0, 0]]))],
               "rt60": lambda: rng.choice([0.0, 0.25, 0.26, 0.28, 0.3]) if ism and not moving and sum(a["num"] for a in s["arrays"]) < 8 and cfg["room_size"] == [4, 4, 3]
               else cfg["rt60"],
               "max_room_ir_length": lambda: cfg["max_room_ir_length"] + rng.choice([1, 3, 10]),
               "randomized_ism": lambda: not cfg["randomized_ism"],
               "extra_delay": lambda: rng.choice([1, 2, 3, 4]),
               "highpass_cutoff": lambda: rng.choice([0.0, 0.1 * cfg["samplerate"], 0.1 * cfg["samplerate"] + 1, 0.07 * cfg["samplerate"]])}[k]()
        if k == "room_size" and (cfg["rt60"] or cfg["room_size"] == [4, 4, 3] and new[2] < 3):
            new = cfg[k]
        if k == "samplerate" and cfg["highpass_cutoff"] >= 0.4 * new:
            new = cfg[k]
        cfg[k] = new
    elif kind == "pos":
        a = rng.choice([a for a in s["arrays"] if a.get("pos")] or [None])
        if a:
            i, d = rng.randrange(a["num"]), rng.randrange(3)
            a["pos"][i][d] = round(a["pos"][i][d] + rng.choice([0.01, -0.02, 0.05, 0.002, -0.0005, 0.0005]), 5)
            if a["num"] > 1 and rng.random() < 0.3:
                a["pos"].reverse()
    elif kind == "path":
        a, b = rng.choice(pairs)
        k = f"{a['name']}|{b['name']}"
        if a.get("traj") or b.get("traj"):
            s["paths"][k] = {"type": rng.choice(["ism", "none"])}
        else:
            e = s["paths"].get(k)
            if e and e["type"] == "modified" and rng.random() < 0.7:
                e["seed" if rng.random() < 0.6 else "len"] += 1
            else:
                s["paths"][k] = rng.choice([{"type": "ism"}, {"type": "none"}, {"type": "random"}, {"type": "direct"},
                                            {"type": "modified", "len": 3, "seed": rng.randrange(3)}])
    elif kind == "kind":
        a = rng.choice(srcs)
        if a["kind"] == "free" and s["proc"]:
            a["kind"] = "ctrl"
            a.pop("source")
        elif a["kind"] == "ctrl":
            a["kind"] = "free"
            a["source"] = {"kind": "array", "seed": 5, "length": 100}
        else:
            b = rng.choice(mics)
            if b.get("region"):
                b.pop("region")
            elif not b.get("traj"):
                b["region"] = "cuboid"
    elif kind == "num":
        a = rng.choice([a for a in s["arrays"] if a.get("pos")] or [None])
        if a and not isinstance(a.get("source", {}).get("power"), list):
            a.get("source", {}).pop("flat", None)
            if a["num"] > 1:
                a["num"] -= 1
                a["pos"].pop()
            else:
                a["num"] = 2
                a["pos"] += world.gen_pos(rng, 1, dict(cfg, room_size=[3.6, 3.6, 2.2]), [p for b in s["arrays"] for p in b.get("pos", [])])
    elif kind == "source":
        for a in srcs:
            if a["kind"] == "free":
                a["source"] = {"kind": "array", "seed": rng.randrange(100), "length": 100}
    elif kind == "name":
        a = rng.choice(s["arrays"])
        old, a["name"] = a["name"], a["name"] + "_b"
        s["paths"] = {"|".join(a["name"] if n == old else n for n in k.split("|")): v for k, v in s["paths"].items()}
    elif kind == "drop":
        group = rng.choice([mics, srcs])
        if len(group) > 1:
            s["arrays"].remove(group[-1])
    elif kind == "dir":
        b = rng.choice(mics)
        if b.get("dir"):
            b.pop("dir")
        else:
            b["dir"] = {"types": [rng.choice(["cardioid", "bidirectional", "omni"]) for _ in range(b["num"])],
                        "angles": [rng.choice([0.0, 1.5]) for _ in range(b["num"])]}
    elif kind == "traj" and moving:
        a = rng.choice([a for a in s["arrays"] if a.get("traj")])
        if a["traj"]["kind"] == "table":
            # the same place at time 0, elsewhere later
            a["traj"]["period"] += 2
    elif kind == "order":
        s["arrays"].reverse()
    elif kind == "style":
        s["style"] = rng.choice(["methods", "arrays", "collection"])
    for a in s["arrays"]:
        if a.get("dir") and len(a["dir"]["types"]) != a["num"]:
            a.pop("dir")
    if not any(a["kind"] == "ctrl" for a in s["arrays"]) and s["proc"] and rng.random() < 0.5 and kind == "irrelevant":
        s["proc"] = None
    fix_moving(s)
    return kind, s


def key(spec):
    """What must be equal for a session to be reused."""
    s = json.loads(json.dumps(spec))
    for k in IRRELEVANT + ("plot_output", "auto_save_load"):
        s["cfg"].pop(k)
    s.pop("style")
    s.pop("proc")
    for a in s["arrays"]:
        a.pop("source", None)
        a.pop("groups", None)
    for e in s["paths"].values():
        e.pop("via", None)
    s["arrays"].sort(key=lambda a: a["name"])
    return json.dumps(s, sort_keys=True)


def random_key(spec):
    """If image sources are moved at random, the paths do not tell whether they are those of another setup: settings
    and places which certainly matter for them."""
    pairs = [(s, m) for s in world.sources_of(spec) for m in world.mics_of(spec) if simcase.pair_type(spec, s, m) == "ism"]
    if not pairs or not spec["cfg"]["randomized_ism"]:
        return None
    cfg = {k: spec["cfg"][k] for k in AUDIO + ("randomized_ism",) if k != "reverb"}
    return json.dumps([cfg, sorted((x["name"], x["num"], simcase.position(x, 0).tolist()) for x in spec["arrays"])])


def gen(rng, tier, i):
    base = gen_base(rng)
    runs, specs = [], [base]
    for n in range(rng.choice([3, 4, 5, 6])):
        r = rng.random()
        if n == 0:
            kind, s = "base", base
        elif r < 0.35:
            kind, s = "same", rng.choice(specs)
        else:
            kind, s = vary(rng, rng.choice(specs))
        specs.append(s)
        runs.append({"spec": json.loads(json.dumps(s)), "kind": kind, "np_seed": rng.randrange(1000), "as_str": rng.random() < 0.3,
                     "proc": rng.choice(["new", "new", "new", "old"]), "off": rng.random() < 0.08})
    return {"runs": runs, "junk": rng.sample(JUNK, rng.choice([0, 1, 2, 3])), "fs_seed": rng.randrange(1000),
            "sched": simcase.gen_sched(rng, (0.0,))}


JUNK = ["file", "empty folder", "half session", "old config", "no config", "other pickle"]


def put_junk(folder, junk):
    """Things in the session folder which are not sessions."""
    for k in junk:
        if k == "file":
            (folder / "session_notes.txt").write_text("not a folder")
            continue
        d = folder / {"empty folder": "session_2023_01_01_10_00_0", "half session": "session_2023_01_01_10_00_1", "old config": "session_old",
                      "no config": "a", "other pickle": "zz"}[k]
        d.mkdir()
        if k == "half session":
            (d / "arrays.pickle").write_bytes(b"")
        elif k == "old config":
            (d / "config.yaml").write_text("samplerate: 500\nno_such_option: 3\n")
            (d / "arrays.pickle").write_bytes(b"\x80\x04N.")
        elif k == "no config":
            (d / "arrays.pickle").write_bytes(b"\x80\x04N.")
        elif k == "other pickle":
            (d / "config.yaml").write_text("- 1\n")
            (d / "arrays.pickle").write_bytes(b"garbage")


def directional(spec):
    return any(m.get("dir") and any(t != "omni" for t in m["dir"]["types"]) and simcase.pair_type(spec, s, m) == "ism"
               for s in world.sources_of(spec) for m in world.mics_of(spec))


def sessions(folder):
    return sorted(p.name for p in folder.iterdir() if p.is_dir() and p.name.startswith("session_"))


def run(case):
    env = Env(case["sched"], fs=True, fs_seed=case["fs_seed"])
    try:
        folder = pathlib.Path(env.root) / "sessions"
        folder.mkdir()
        put_junk(folder, case["junk"])
        node, saved = None, {}
        for i, r in enumerate(case["runs"]):
            if node is None or r["proc"] == "new":
                node = env.node(f"p{i}", True, r["np_seed"])
            spec = json.loads(json.dumps(r["spec"]))
            spec["cfg"]["auto_save_load"] = not r["off"]
            job = simcase.SimJob(env, node, spec, f"run{i}", session=str(folder) if r["as_str"] else folder)
            before = sessions(folder)
            t = env.spawn(job.token, job, node)
            env.run()
            new = [n for n in sessions(folder) if n not in before]
            k = key(spec)
            if directional(spec) and isinstance(t.exc, NotImplementedError):
                env.probe("directional microphones rejected")
                continue
            if not env.unexpected(t):
                break
            if directional(spec):
                env.fail("not rejected", f"run{i} ({r['kind']}) has directional microphones with image sources")
            ref = simcase.reference(env, job)
            if ref is not None:
                simcase.check_recorded(env, job, ref)
            if r["off"]:
                if new:
                    env.fail("saved", f"run{i} saved {new} although automatic saving is off")
                continue
            if k in saved:
                env.probe("same setup again")
                if new:
                    env.fail("not reused", f"run{i} ({r['kind']}) has the same arrays, paths and audio settings as run{saved[k][0]} "
                             f"but saved another session {new}")
                for p, h in job.sim_paths.items():
                    if not new and not np.array_equal(h, saved[k][1][p]) and saved[k][2]:
                        env.fail("not reused", f"run{i}: path {p} is not that of the session saved by run{saved[k][0]}: "
                                 f"{world.first_diff(h, saved[k][1][p])}")
            else:
                env.probe("another setup")
                if len(new) > 1:
                    env.fail("saved", f"run{i} saved {new}")
                env.probe("session saved" if new else "session of a similar setup reused")
                rk = random_key(spec)
                if rk is not None and not new and not any(rk == v[3] for v in saved.values()):
                    env.fail("reused", f"run{i} ({r['kind']}) with randomly moved image sources uses a session of another setup")
                saved[k] = (i, job.sim_paths, bool(new), random_key(spec))
            env.probe("change: " + r["kind"])
            if env.violations:
                break
        return env.outcome()
    finally:
        env.finish()


def nontrivial(case, out):
    p = out["probes"]
    return not out["violations"] and p.get("same setup again", 0) > 0 and p.get("session saved", 0) > 0


def shrink(case):
    def copy():
        return json.loads(json.dumps(case))
    for i in range(len(case["runs"])):
        if len(case["runs"]) > 1:
            c = copy()
            del c["runs"][i]
            yield c
    if case["junk"]:
        for i in range(len(case["junk"])):
            c = copy()
            del c["junk"][i]
            yield c
    # the same simplification everywhere
    for n in {a["name"] for r in case["runs"] for a in r["spec"]["arrays"]}:
        c = copy()
        for r in c["runs"]:
            s = r["spec"]
            s["arrays"] = [a for a in s["arrays"] if a["name"] != n]
            s["paths"] = {k: v for k, v in s["paths"].items() if n not in k.split("|")}
        if all(world.mics_of(r["spec"]) and world.sources_of(r["spec"]) for r in c["runs"]):
            yield c
    for k, v in (("rt60", 0.0), ("highpass_cutoff", 0.0), ("tot_samples", 3), ("array_update_freq", 1), ("save_source_contributions", False)):
        if any(r["spec"]["cfg"][k] != v for r in case["runs"]):
            c = copy()
            for r in c["runs"]:
                r["spec"]["cfg"][k] = v
            yield c
    if any(r["spec"]["proc"] for r in case["runs"]) and not any(a["kind"] == "ctrl" for r in case["runs"] for a in r["spec"]["arrays"]):
        c = copy()
        for r in c["runs"]:
            r["spec"]["proc"] = None
        yield c
