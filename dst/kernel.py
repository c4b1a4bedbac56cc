"""Seeded scheduler.  Tasks are real threads, of which exactly one is ever released: at every
yield point (disk operation, clock read, or a call from the simulator into user code) the running
task asks the chooser who goes on.  A run is a pure function of the case and the code."""
import hashlib
import random
import sys
import threading

BASE_TIME = 1_700_000_000.0   # 2023-11-14, what the simulated clock shows at the start


class SimCrash(BaseException):
    """The process this task runs in has been killed."""


class SimAbort(BaseException):
    """The run is torn down (step budget exceeded)."""


class UserFault(Exception):
    """Injected failure of user code (a source, processor or trajectory raises)."""


class Chooser:
    """All scheduling choices.  0 always means 'the running task goes on', so a recorded list can
    be minimised by zeroing its entries."""

    def __init__(self, seed=None, choices=None, switch_p=0.25):
        self.given = choices
        self.rng = random.Random(f"sched:{seed}")
        self.switch_p = switch_p
        self.record = []

    def choose(self, n):
        if n <= 1:
            return 0
        if self.given is not None:
            i = len(self.record)
            k = self.given[i] % n if i < len(self.given) else 0
        else:
            k = self.rng.randrange(1, n) if self.rng.random() < self.switch_p else 0
        self.record.append(k)
        return k


class Task:
    def __init__(self, kernel, name, fn, node):
        self.kernel, self.name, self.fn, self.node = kernel, name, fn, node
        self.sem = threading.Semaphore(0)
        self.done = False
        self.started = False
        self.exc = None
        self.tb = None
        self.crashed = False
        self.result = None
        self.raw = 0          # > 0: harness code, operations pass through
        self.thread = threading.Thread(target=self._main, name=name, daemon=True)

    def _main(self):
        self.sem.acquire()
        try:
            if self.kernel.aborting:
                raise SimAbort()
            self.result = self.fn()
        except SimCrash:
            self.crashed = True
        except SimAbort:
            self.exc = SimAbort()
        except BaseException as e:    # recorded, judged by the check
            self.exc = e
        finally:
            self.done = True
            self.kernel._task_ended(self)


class Kernel:
    """cur is the task that holds the baton (None: the harness itself)."""

    MAX_EVENTS = 200_000

    def __init__(self, chooser):
        self.chooser = chooser
        self.tasks = []
        self.cur = None
        self.main_sem = threading.Semaphore(0)
        self.hash = hashlib.sha256()
        self.events = 0
        self.switches = 0
        self.aborting = False
        self.tail = []
        self.clock = BASE_TIME
        self.tick = 0.001
        self.clock_events = {}     # event number -> jump in seconds
        self.clock_jumps = 0
        self.budget_exceeded = False
        self.log = None            # list when a full log is wanted

    # -- the event log --------------------------------------------------------------------
    def event(self, label):
        self.events += 1
        self.clock += self.tick
        jump = self.clock_events.get(self.events)
        if jump:
            self.clock += jump
            self.clock_jumps += 1
        who = self.cur.name if self.cur else "main"
        line = f"{who}:{label}"
        self.hash.update(line.encode("utf8", "replace") + b"\n")
        self.tail.append(line)
        if len(self.tail) > 60:
            del self.tail[:20]
        if self.log is not None:
            self.log.append(line)
        if self.events > self.MAX_EVENTS:
            self.budget_exceeded = True
            self.aborting = True
            raise SimAbort()

    # -- scheduling -----------------------------------------------------------------------
    def spawn(self, name, fn, node=None):
        t = Task(self, name, fn, node)
        self.tasks.append(t)
        t.thread.start()
        return t

    def in_task(self):
        t = self.cur
        return t is not None and threading.current_thread() is t.thread and not t.raw

    def _runnable(self):
        return [t for t in self.tasks if not t.done]

    def _give(self, t):
        old = self.cur
        if old is not None and old.node is not None and (t is None or t.node is not old.node):
            old.node.deactivate()
        self.cur = t
        if t is None:
            self.main_sem.release()
            return
        if t.node is not None and (old is None or old.node is not t.node):
            t.node.activate()
        t.sem.release()

    def yield_point(self, label):
        t = self.cur
        if t is None or threading.current_thread() is not t.thread:
            return
        if self.aborting:
            raise SimAbort()
        self.event(label)
        others = [o for o in self.tasks if not o.done and o is not t]
        if not others:
            return
        k = self.chooser.choose(len(others) + 1)
        if k == 0:
            return
        self.switches += 1
        self._give(others[k - 1])
        t.sem.acquire()
        if self.aborting:
            raise SimAbort()

    def _task_ended(self, t):
        ready = self._runnable()
        if not ready:
            self._give(None)
        else:
            k = 0 if self.aborting else self.chooser.choose(len(ready))
            self._give(ready[k])

    def run(self):
        """Run all spawned tasks to their end."""
        ready = self._runnable()
        if not ready:
            return
        k = self.chooser.choose(len(ready))
        self._give(ready[k])
        self.main_sem.acquire()

    def digest(self):
        return self.hash.hexdigest()[:16]


# --------------------------------------------------------------------------------------------
# Processes.  A Node is one operating system process: it has its own import of aspsim and its own
# copy of the process-global state of the libraries.  It is lost when the node is killed.

class Raw:
    """with Raw(kernel): harness code in a task, not scheduled, no faults."""

    def __init__(self, kernel):
        self.t = kernel.cur

    def __enter__(self):
        if self.t is not None:
            self.t.raw += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.raw -= 1


MODULES = {
    "simulator": "aspsim.simulator", "array": "aspsim.array", "configutil": "aspsim.configutil",
    "counter": "aspsim.counter", "futil": "aspsim.fileutilities", "processor": "aspsim.processor",
    "sess": "aspsim.saveloadsession", "core": "aspsim.diagnostics.core",
    "dia": "aspsim.diagnostics.diagnostics", "coll": "aspsim.diagnostics.diagnosticscollection",
    "pp": "aspsim.diagnostics.preprocessing", "sources": "aspsim.signal.sources",
    "tr": "aspsim.room.trajectory", "region": "aspsim.room.region",
    "rir": "aspsim.room.roomimpulseresponse",
}


class Mods:
    pass


def _aspsim_keys():
    return [k for k in sys.modules if k == "aspsim" or k.startswith("aspsim.")]


_code_cache = {}


def install_code_cache(src_root):
    """Compile each aspsim module once per worker, however often it is imported."""
    import importlib.machinery as mach

    class Loader(mach.SourceFileLoader):
        def get_code(self, fullname):
            if fullname not in _code_cache:
                path = self.get_filename(fullname)
                _code_cache[fullname] = self.source_to_code(self.get_data(path), path)
            return _code_cache[fullname]

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != "aspsim" and not name.startswith("aspsim."):
                return None
            spec = mach.PathFinder.find_spec(name, path if path is not None else [src_root])
            if spec is not None and isinstance(spec.loader, mach.SourceFileLoader):
                spec.loader = Loader(spec.loader.name, spec.loader.path)
            return spec

    sys.meta_path.insert(0, Finder)


class Node:
    """fresh=True: imports aspsim anew (a new process).  Otherwise the worker's own import."""

    _shared = None

    def __init__(self, kernel, name, fresh=False, np_seed=0):
        import numpy as np
        import pyroomacoustics as pra
        self.kernel, self.name = kernel, name
        self.dead = False
        self.ops = 0
        self.plan = {}           # "op n" or "kind n" (the n-th operation of a kind) -> fault
        self.kinds = {}          # operation kind -> how many
        self.faults = []         # faults which fired
        self.fresh = fresh
        self.np_state = None
        self._np, self._pra = np, pra
        if fresh:
            saved = {k: sys.modules.pop(k) for k in _aspsim_keys()}
            self.mods = self._import()
            self.sysmods = {k: sys.modules.pop(k) for k in _aspsim_keys()}
            sys.modules.update(saved)
            self.np_state = np.random.RandomState(np_seed).get_state()
            self.figs = None
            self.pra_state = dict(PRA_DEFAULT)
        else:
            if Node._shared is None:
                Node._shared = self._import()
            self.mods = Node._shared

    @staticmethod
    def _import():
        import importlib
        m = Mods()
        for short, full in MODULES.items():
            setattr(m, short, importlib.import_module(full))
        return m

    @staticmethod
    def _gcf():
        from matplotlib._pylab_helpers import Gcf
        return Gcf

    def activate(self):
        if not self.fresh:
            return
        for k in _aspsim_keys():
            del sys.modules[k]
        sys.modules.update(self.sysmods)
        self._np.random.set_state(self.np_state)
        gcf = self._gcf()
        self.outer_figs, gcf.figs = gcf.figs, self.figs if self.figs is not None else type(gcf.figs)()
        c = pra_constants()
        c.clear()
        c.update(self.pra_state)

    def deactivate(self):
        if not self.fresh:
            return
        self.sysmods = {k: sys.modules[k] for k in _aspsim_keys()}
        self.np_state = self._np.random.get_state()
        gcf = self._gcf()
        self.figs, gcf.figs = gcf.figs, self.outer_figs
        self.pra_state = dict(pra_constants())
        for k in _aspsim_keys():
            del sys.modules[k]
        if Node._shared is not None:
            sys.modules.update(_shared_sysmods())


_shared_mods_cache = {}


def _shared_sysmods():
    return _shared_mods_cache


def remember_shared():
    Node._shared = Node._import()
    _shared_mods_cache.update({k: sys.modules[k] for k in _aspsim_keys()})


def pra_constants():
    import pyroomacoustics.parameters as par
    return par._constants


PRA_DEFAULT = {}
