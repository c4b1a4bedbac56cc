"""Running one case: the environment of a run, and how exceptions of the code under test are judged."""
import os
import random
import shutil
import sys
import tempfile
import traceback

import numpy as np

from . import simfs, userlib
from .kernel import (Chooser, Kernel, Node, Raw, SimAbort, SimCrash, UserFault, pra_constants,
                     PRA_DEFAULT)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


class HarnessError(Exception):
    """The check itself went wrong: neither 'held' nor 'broken'."""


class Violation(Exception):
    def __init__(self, klass, text):
        super().__init__(text)
        self.klass, self.text = klass, text


def blame(tb):
    """'code' if the innermost frame that is ours or the repository's is the repository's."""
    who = None
    src = os.path.join(os.path.realpath(REPO), "src") + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(src):
            who = "code"
        elif f.startswith(VERIF + os.sep) and not f.endswith("simfs.py"):
            who = "harness"
        tb = tb.tb_next
    return who


def where(exc):
    """file:line of the innermost frame in the repository, for the violation class."""
    src = os.path.join(os.path.realpath(REPO), "src") + os.sep
    at = "?"
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(src):
            at = f"{f[len(src):]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return at


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


class Env:
    """One run.  Everything nondeterministic is decided by `sched` (and the fault plan)."""

    def __init__(self, sched, fs=False, fs_seed=0, np_seed=1):
        self.chooser = Chooser(sched.get("seed"), sched.get("choices"), sched.get("p", 0.25))
        self.kernel = Kernel(self.chooser)
        self.root = None
        self.fs = None
        self.nodes = {}
        self.probes = {}
        self.violations = []
        np.random.seed(np_seed % 2 ** 32)
        c = pra_constants()
        c.clear()
        c.update(PRA_DEFAULT)
        if fs:
            self.root = tempfile.mkdtemp(prefix="dst-", dir=scratch_base())
            self.fs = simfs.start(self.kernel, self.root, fs_seed)
        else:
            simfs.start(self.kernel, "/nonexistent-scratch", fs_seed)
            self.fs = simfs.STATE
        userlib.HOOK = self.hook
        self.on_hook = None

    def hook(self, token, what):
        """The simulator calls user code: a scheduling point, and a place where user code may fail."""
        t = self.kernel.cur
        if t is None or t.raw:
            return
        if t.node is not None and t.node.fresh:
            self.fs.op("callback", f"{token} {what}")
        else:
            self.kernel.yield_point(f"call {token} {what}")
        if self.on_hook is not None:
            self.on_hook(token, what)

    def node(self, name, fresh=False, np_seed=0):
        if not fresh:
            return self.nodes.setdefault("_shared", Node(self.kernel, "shared"))
        n = Node(self.kernel, name, True, np_seed)
        self.nodes[name] = n
        return n

    def spawn(self, name, fn, node=None):
        def wrapped():
            try:
                return fn()
            except (SimCrash, SimAbort):
                raise
            except BaseException as e:
                t = self.kernel.cur
                t.tb = "".join(traceback.format_exception(e)[-7:])[-1200:]
                raise
        return self.kernel.spawn(name, wrapped, node)

    def run(self):
        self.kernel.run()
        if self.kernel.budget_exceeded:
            self.fail("no-progress", f"the run did not end within {self.kernel.MAX_EVENTS} steps; "
                      f"last: {self.kernel.tail[-5:]}")

    def raw(self):
        return Raw(self.kernel)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, arr):
        """Makes a result part of the run's digest."""
        self.kernel.hash.update(np.ascontiguousarray(np.round(np.asarray(arr, dtype=float), 6) + 0.0).tobytes())

    def fail(self, klass, text):
        self.violations.append((klass, str(text)[:1500]))

    def unexpected(self, task, allow=()):
        """Judges the exception a task ended with; True if it ended well."""
        e = task.exc
        if e is None:
            return not task.crashed
        if isinstance(e, SimAbort):
            return False
        if isinstance(e, allow):
            return False
        if isinstance(e, simfs.SimEscape):
            self.fail("escape", f"{task.name}: changed something outside the given folders: {e}")
            return False
        who = blame(e.__traceback__)
        if who == "code":
            self.fail(f"raised {type(e).__name__} at {where(e)}", f"{task.name}: {e!r}\n{task.tb}")
            return False
        raise HarnessError(f"{task.name}: {task.tb}")

    def finish(self):
        simfs.stop()
        userlib.HOOK = None
        if self.root is not None:
            shutil.rmtree(self.root, ignore_errors=True)

    def outcome(self):
        return {
            "violations": self.violations, "digest": self.kernel.digest(),
            "events": self.kernel.events, "switches": self.kernel.switches,
            "choices": list(self.chooser.record), "probes": self.probes,
            "fired": dict(self.fs.fired), "fired_at": dict(self.fs.fired_at), "clock": self.kernel.clock - 1_700_000_000.0,
            "clock_jumps": self.kernel.clock_jumps,
            "runs": 1,
        }


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def import_all():
    """Before the workers are forked."""
    sys.path.insert(0, os.path.join(REPO, "src"))
    import logging
    logging.disable(logging.CRITICAL)
    import matplotlib
    matplotlib.use("Agg")
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from . import kernel
    kernel.install_code_cache(os.path.join(REPO, "src"))
    simfs.install()
    kernel.remember_shared()
    f = os.path.realpath(sys.modules["aspsim.simulator"].__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"aspsim was imported from {f}, not from {REPO}")
    PRA_DEFAULT.clear()
    PRA_DEFAULT.update(pra_constants())


__all__ = ["Env", "HarnessError", "Violation", "UserFault", "rng_for", "import_all", "blame", "where"]
