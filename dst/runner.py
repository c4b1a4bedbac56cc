"""Batches of simulated runs on all cores, minimisation, replay files and evidence."""
import argparse
import importlib
import json
import os
import random
import re
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import execu
from .execu import VERIF, HarnessError, rng_for

HANG_CPU_S = 90          # one run never needs a second
MINIMISE_S = 75


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


# ---------------------------------------------------------------------------------- one case
def run_case(prop, case):
    """-> outcome dict.  Harness trouble is reported in 'harness'."""
    try:
        out = prop.run(case)
    except HarnessError as e:
        return {"harness": str(e)[-4000:]}
    except Exception:
        return {"harness": traceback.format_exc()[-4000:]}
    return out


def with_choices(case, choices):
    c = json.loads(json.dumps(case))
    c["sched"] = {"choices": list(choices)}
    return c


# ---------------------------------------------------------------------------------- workers
def worker_main(prop, cases, rfd, wfd):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    rf, wf = os.fdopen(rfd, "r"), os.fdopen(wfd, "w")
    for line in rf:
        i = json.loads(line)
        out = run_case(prop, cases[i] if isinstance(i, int) else i)
        wf.write(json.dumps(out, default=_plain) + "\n")
        wf.flush()
    os._exit(0)


def _plain(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


class Worker:
    def __init__(self, prop, cases, others=()):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for o in others:
                    o.close_fds()
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                worker_main(prop, cases, r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.pid, self.to, self.fr = pid, w1, r2
        self.buf = b""
        self.job = None
        self.cpu0 = 0.0

    def close_fds(self):
        os.close(self.to)
        os.close(self.fr)

    def give(self, i, job):
        self.job = i
        self.cpu0 = self.cpu()
        self.t0 = time.monotonic()
        os.write(self.to, json.dumps(job).encode() + b"\n")

    def cpu(self):
        try:
            with open(f"/proc/{self.pid}/stat") as f:
                p = f.read().rsplit(")", 1)[1].split()
            return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return 0.0

    def read(self):
        """One result, or None; EOFError if the worker died."""
        data = os.read(self.fr, 1 << 20)
        if not data:
            raise EOFError
        self.buf += data
        if self.buf.endswith(b"\n"):
            line, self.buf = self.buf, b""
            return json.loads(line)
        return None

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.close_fds()


def run_all(prop, cases, jobs, on_result, deadline=None):
    """Runs the cases with the given indices; on_result(i, outcome) returns True to stop early."""
    todo = list(range(len(cases)))
    n = min(jobs, max(1, len(todo)))
    ws = []
    for _ in range(n):
        ws.append(Worker(prop, cases, ws))
    stop = False
    try:
        while True:
            for w in ws:
                if w.job is None and todo and not stop and (deadline is None or time.monotonic() < deadline):
                    i = todo.pop(0)
                    w.give(i, i)
            busy = [w for w in ws if w.job is not None]
            if not busy:
                break
            ready, _, _ = select.select([w.fr for w in busy], [], [], 2.0)
            for k, w in enumerate(list(busy)):
                if w.fr in ready:
                    try:
                        out = w.read()
                    except EOFError:
                        out = {"harness": "the worker process died"}
                        ws[ws.index(w)] = Worker(prop, cases, [v for v in ws if v is not w])
                        i = w.job
                        w.stop()
                        stop = on_result(i, out) or stop
                        continue
                    if out is None:
                        continue
                    i, w.job = w.job, None
                    stop = on_result(i, out) or stop
                elif w.cpu() - w.cpu0 > HANG_CPU_S or time.monotonic() - w.t0 > 6 * HANG_CPU_S:
                    out = hang_outcome(w)
                    ws[ws.index(w)] = Worker(prop, cases, [v for v in ws if v is not w])
                    i = w.job
                    w.stop()
                    stop = on_result(i, out) or stop
    finally:
        for w in ws:
            w.stop()


def hang_outcome(w):
    return {"violations": [["no-progress", f"the run did not end within {HANG_CPU_S} s of processor time "
                            "(a run takes well below one second)"]],
            "hang": True, "digest": "hang", "events": 0, "switches": 0, "choices": [], "probes": {},
            "fired": {}, "fired_at": {}, "clock": 0.0, "clock_jumps": 0, "runs": 1}


def run_isolated(prop, case, timeout_cpu=HANG_CPU_S):
    """One case in a process of its own."""
    w = Worker(prop, [case])
    try:
        w.give(0, 0)
        while True:
            ready, _, _ = select.select([w.fr], [], [], 1.0)
            if ready:
                try:
                    out = w.read()
                except EOFError:
                    return {"harness": "the worker process died"}
                if out is not None:
                    return out
            elif w.cpu() > timeout_cpu or time.monotonic() - w.t0 > 6 * timeout_cpu:
                return hang_outcome(w)
    finally:
        w.stop()


# ---------------------------------------------------------------------------------- minimising
def same_class(out, klass):
    return any(v[0] == klass for v in out.get("violations", []))


def minimise(prop, case, out, klass):
    """Smaller cases, fewer faults, fewer context switches, as long as the same thing goes wrong."""
    t_end = time.monotonic() + MINIMISE_S
    w = Worker(prop, [])
    tried = 0

    def attempt(c):
        nonlocal w, tried
        tried += 1
        w.give(0, c)
        while True:
            ready, _, _ = select.select([w.fr], [], [], 1.0)
            if ready:
                try:
                    o = w.read()
                except EOFError:
                    w.stop()
                    w = Worker(prop, [])
                    return None
                if o is not None:
                    return o if same_class(o, klass) else None
            elif w.cpu() - w.cpu0 > 20 or time.monotonic() - w.t0 > 60:
                w.stop()
                w = Worker(prop, [])
                return None

    try:
        if out.get("choices"):
            c = with_choices(case, out["choices"])
            o = attempt(c)
            if o is not None:
                case, out = c, o
        changed = True
        while changed and time.monotonic() < t_end:
            changed = False
            # the schedule
            ch = case["sched"].get("choices")
            if ch is not None:
                while ch and ch[-1] == 0:
                    ch = ch[:-1]
                nz = [i for i, k in enumerate(ch) if k]
                size = max(1, len(nz))
                while nz and size >= 1 and time.monotonic() < t_end:
                    i = 0
                    while i < len(nz) and time.monotonic() < t_end:
                        drop = set(nz[i:i + size])
                        c = with_choices(case, [0 if j in drop else k for j, k in enumerate(ch)])
                        o = attempt(c)
                        if o is not None:
                            case, out = c, o
                            ch = c["sched"]["choices"]
                            nz = [j for j in nz if j not in drop]
                            changed = True
                        else:
                            i += size
                    size //= 2
            # the workload
            for c in prop.shrink(json.loads(json.dumps(case))):
                if time.monotonic() > t_end:
                    break
                o = attempt(c)
                if o is not None:
                    case, out, changed = c, o, True
                    break
    finally:
        w.stop()
    return case, out, tried


# ---------------------------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def is_known(v, known):
    for k in known:
        if v[0] == k["class"] and all(s in v[1] for s in k.get("contains", [])):
            return k
    return None


# ---------------------------------------------------------------------------------- main
def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = load_prop(rep["property"])
    out = run_isolated(prop, rep["case"])
    return rep, out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write one line per run: index, digest (self-test)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="determinism of a few cases of every check")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation; list classes")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.selftest:
        return selftest(a)
    execu.import_all()
    if a.replay:
        rep, out = replay(a.replay)
        if "harness" in out:
            print(out["harness"])
            return 2
        print(f"property={rep['property']} digest={out['digest']} recorded={rep['digest']}")
        for v in out["violations"]:
            print(f"  [{v[0]}] {v[1]}")
        if same_class(out, rep["class"]):
            print(f"VIOLATION property={rep['property']} replay={a.replay}")
            return 1
        return 0
    return check(a)


def all_props():
    d = os.path.join(VERIF, "dst", "props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if re.fullmatch(r"c\d+\.py", f))


def selftest(a):
    """Every check's first cases give the same event logs in other processes, with another worker count
    and another hash seed."""
    n = a.cases or 8
    bad = 0
    for pid in all_props():
        logs = []
        for hashseed, jobs in (("0", a.jobs), ("4321", 2)):
            with tempfile.NamedTemporaryFile(prefix="dst-digests-") as f:
                env = dict(os.environ, PYTHONHASHSEED=hashseed)
                p = subprocess.run([sys.executable, "-m", "dst.runner", pid, "--cases", str(n), "--jobs", str(jobs), "--seed",
                                    str(a.seed), "--all", "--no-evidence", "--digests", f.name], cwd=VERIF, env=env,
                                   capture_output=True, text=True)
                logs.append(open(f.name).read())
        same = logs[0] == logs[1] and logs[0].count("\n") >= n
        print(f"{pid}: {logs[0].count(chr(10))} runs, event logs {'equal' if same else 'DIFFER'}", flush=True)
        bad += not same
    return 1 if bad else 0


def check(a):
    t0 = time.monotonic()
    prop = load_prop(a.prop)
    pid = prop.ID
    count = a.cases or prop.COUNTS[a.tier]
    cases = prop.fixed_cases() if hasattr(prop, "fixed_cases") else []
    n_fixed = len(cases)
    for i in range(count):
        cases.append(prop.gen(rng_for(a.seed, pid, i), a.tier, i))
    print(f"{pid}: seed {a.seed}, {len(cases)} cases ({n_fixed} fixed), {a.jobs} workers", flush=True)
    known = known_findings(pid)
    results, bad, harness, known_hit = {}, [], [], {}

    def on_result(i, out):
        results[i] = out
        if "harness" in out:
            harness.append((i, out["harness"]))
            return len(harness) > 40
        new = []
        for v in out["violations"]:
            k = is_known(v, known)
            if k is not None:
                known_hit.setdefault(k["id"], (k, i, v))
            else:
                new.append(v)
        if new:
            bad.append((i, new, out))
            return not a.all
        return False

    limit = 600 if a.tier == "quick" else 6 * 3600
    run_all(prop, cases, a.jobs, on_result, deadline=t0 + limit)
    wall_runs = time.monotonic() - t0
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(results):
                f.write(f"{i} {results[i].get('digest', 'x')}\n")
    missing = len(cases) - len(results)
    status = 0
    for kid, (k, i, v) in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    if a.all and bad:
        by = {}
        for i, vs, out in bad:
            for v in vs:
                by.setdefault(v[0], []).append((i, v[1]))
        for k, l in sorted(by.items(), key=lambda x: -len(x[1])):
            print(f"--- {len(l)} x [{k}] e.g. case {l[0][0]}: {l[0][1][:1200]}")
    if bad:
        status = report(prop, a, cases, bad)
    elif harness:
        print(f"HARNESS ERROR in case {harness[0][0]}:\n{harness[0][1]}")
        status = 2
    elif missing:
        print(f"HARNESS ERROR: {missing} cases were not run in {limit} s")
        status = 2
    if not a.no_evidence:
        write_evidence(prop, a, cases, results, n_fixed, wall_runs, time.monotonic() - t0,
                       len(bad), harness, known_hit)
    n = sum(r.get("runs", 0) for r in results.values())
    print(f"{pid}: {n} simulated runs in {wall_runs:.1f} s, "
          + ("no violation" if status == 0 else f"exit {status}"), flush=True)
    return status


def report(prop, a, cases, bad):
    pid = prop.ID
    i, vs, out = min(bad, key=lambda b: b[0])
    klass = vs[0][0]
    case = cases[i]
    print(f"{pid}: case {i} breaks the property: [{klass}] {vs[0][1]}", flush=True)
    tried = 0
    if not out.get("hang"):
        case, out, tried = minimise(prop, case, out, klass)
    text = next((v[1] for v in out["violations"] if v[0] == klass), vs[0][1])
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{pid}-seed{a.seed}-case{i}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": a.seed, "tier": a.tier, "case_index": i, "class": klass,
                   "violation": text, "digest": out["digest"], "case": case}, f, indent=1)
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "4321"
    try:
        p = subprocess.run([sys.executable, "-m", "dst.runner", "--replay", path], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=300)
        again = p.returncode == 1
    except subprocess.TimeoutExpired:
        again = False
    print(f"{pid}: minimised in {tried} runs; replay in a fresh process "
          + ("fails the same way" if again else "did NOT fail the same way"))
    print(f"{pid}: [{klass}] {text}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def write_evidence(prop, a, cases, results, n_fixed, wall_runs, wall, n_bad, harness, known_hit):
    runs = sum(r.get("runs", 0) for r in results.values())
    good = {i: r for i, r in results.items() if "harness" not in r}
    fired, fired_at, probes = {}, {}, {}
    for r in good.values():
        for k, v in r.get("fired_at", {}).items():
            fired_at[k] = fired_at.get(k, 0) + v
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    jumps = sum(r["clock_jumps"] for r in good.values())
    if jumps:
        fired["clock jump"] = jumps
    distinct = {}
    for i, r in good.items():
        if prop.nontrivial(cases[i], r):
            distinct[r["digest"]] = i
    sample_ids = sorted(distinct.values())[:2] or sorted(good)[:1]
    cov = {
        "evaluations": len(good),
        "distinct_nontrivial": len(distinct),
        "rule": prop.RULE + "  Distinct: by the hash of the run's whole event log (who did what, in "
                "which order, and which fault fired).",
        "samples": [{"index": i, "case": cases[i], "digest": good[i]["digest"], "events": good[i]["events"],
                     "context_switches": good[i]["switches"]} for i in sample_ids],
        "simulated_runs": runs,
        "runs_per_hour": int(runs / max(wall_runs, 1e-6) * 3600),
        "seeds_per_hour": int(len(good) / max(wall_runs, 1e-6) * 3600),
        "first_seed": f"{a.seed}:{prop.ID}:0", "last_seed": f"{a.seed}:{prop.ID}:{len(cases) - n_fixed - 1}",
        "simulated_clock_s": round(sum(r["clock"] for r in good.values()), 3),
        "simulated_samples": probes.get("samples simulated", 0),
        "events": sum(r["events"] for r in good.values()),
        "context_switches": sum(r["switches"] for r in good.values()),
        "faults_fired": fired,
        "faults_fired_at": fired_at,
        "distinct_event_logs": len({r["digest"] for r in good.values()}),
        "probes": probes,
        "real_components": prop.REAL,
        "stub_components": prop.STUBS,
        "known_findings_seen": sorted(known_hit),
        "harness_errors": len(harness),
        "workers": a.jobs,
    }
    ev = {"property": prop.ID, "tier": a.tier, "seed": a.seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": n_bad}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_plain)


if __name__ == "__main__":
    random.seed(0)
    sys.exit(main())
