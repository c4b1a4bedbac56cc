"""User code handed to aspsim: sources, trajectories.  Instances are copied and pickled by aspsim, so
they hold plain data only and reach the running simulation through the module global HOOK."""
import numpy as np

DATA = {}        # audio read from files, for sources of kind "data"
HOOK = None      # callable(token, what) set by the executor of the run


def _hook(token, what):
    if HOOK is not None:
        HOOK(token, what)


def gen_data(seed, ch, n, gap=None):
    """Reproducible sample values, exactly representable.  gap: (on, off), plays and is silent in turn."""
    r = np.random.RandomState(seed % (2 ** 32))
    d = r.randint(-64, 65, size=(ch, n)).astype(float) / 16.0
    if gap:
        d[:, np.arange(n) % (gap[0] + gap[1]) >= gap[0]] = 0
    return d


class ArraySource:
    """A user-written source playing stored samples, then silence."""

    def __init__(self, seed, num_channels, length, token="", gap=None):
        self.num_channels = num_channels
        self.metadata = {"number of channels": num_channels, "seed": int(seed)}
        self.data = gen_data(seed, num_channels, length, gap)
        self.at = 0
        self.token = token

    def get_samples(self, num_samples):
        _hook(self.token, f"get {num_samples}")
        out = np.zeros((self.num_channels, num_samples))
        part = self.data[:, self.at:self.at + num_samples]
        out[:, :part.shape[1]] = part
        self.at += num_samples
        return out


class TablePos:
    """Position function of a trajectory: moves on a fixed smooth curve, counted from time 0."""

    def __init__(self, base, amp, period, token="", hold=None):
        self.base = np.array(base, dtype=float)       # (num, 3)
        self.amp = np.array(amp, dtype=float)
        self.period = period
        self.hold = hold          # stands still that long between moves
        self.token = token

    def at(self, n):
        if self.hold:
            n = n // self.hold * self.hold
        ph = 2 * np.pi * (np.arange(3) * 0.31 + (n % self.period) / self.period)
        return self.base + self.amp * np.sin(ph)[None, :]

    def __call__(self, n):
        _hook(self.token, f"pos {n}")
        return self.at(n)
