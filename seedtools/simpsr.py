"""A synthetic tempo2 pulsar, and the models, for the demonstrations (run with cwd = the repository)."""
import logging
import os
import sys
import types
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np

DAY = 86400.0


class Par:
    def __init__(self, val, err=1e-3):
        self.val, self.err = val, err


class tempopulsar:
    def __init__(self, name="J1713+0747", seed=1, nep=8, per=2, fit=("F0", "F1"), order=None, flags=None, start=53000.0, fail=None, dmx=0):
        r = np.random.RandomState(seed)
        self.name, self.fail = name, fail
        mjd = np.repeat(start + 91.3 * np.arange(nep) + r.uniform(0, 5, nep), per)
        self._t = mjd + np.tile(np.arange(per) * 0.1, nep) / DAY
        n = self.n = len(mjd)
        self._fit = list(fit)
        x = (self._t - start - 300.0) / 1000.0
        cols = {"F0": x, "F1": x**2, "RAJ": np.cos(2 * np.pi * self._t / 365.25), "DECJ": np.sin(2 * np.pi * self._t / 365.25)}
        self._M = np.array([np.ones(n)] + [cols[p] for p in fit]).T
        self._r = 2e-6 * r.standard_normal(n)
        self.toaerrs = 0.5 + np.abs(r.standard_normal(n))
        self._f = np.array([430.0, 1400.0])[np.arange(n) % 2] + r.uniform(0, 1, n)
        self.stoas = self._t + 0.003
        self.psrPos = np.array([0.1, 0.7, 0.7]) + 1e-3 * r.standard_normal((n, 3))
        self.sun_ssb = r.standard_normal((n, 6))
        for p in "mercury venus earth mars jupiter saturn uranus neptune pluto".split():
            setattr(self, p + "_ssb", 500 * r.standard_normal((n, 6)))
        self._pars = {"RAJ": Par(1.0 + seed), "DECJ": Par(0.3), "F0": Par(100.0), "DM": Par(15.0)}
        for p in fit:
            self._pars.setdefault(p, Par(1.0))
        self._set = list(self._pars)
        for i in range(1, 10):
            self._pars["DMASSPLANET%d" % i] = Par(0.0)
        be = np.arange(n) // per % 2
        self._fl = {"f": np.array(["ASP-L", "GUPPI_800"])[be], "fe": np.array(["L", "R800"])[be], "be": np.array(["A", "GUPPI"])[be], "id": np.array(["n%d" % i for i in range(n)])}
        if flags:
            self._fl.update(flags)
        if order is not None:
            o = order = np.asarray(order)
            for a in ["_t", "_M", "_r", "toaerrs", "_f", "stoas", "psrPos", "sun_ssb"] + [p + "_ssb" for p in "mercury venus earth mars jupiter saturn uranus neptune pluto".split()]:
                setattr(self, a, getattr(self, a)[o])
            self._fl = {k: v[o] for k, v in self._fl.items()}

    def _try(self, what):
        if self.fail == what:
            raise RuntimeError("injected: " + what)

    def toas(self):
        self._try("toas")
        return self._t.copy()

    def residuals(self):
        return self._r.copy()

    def designmatrix(self):
        self._try("designmatrix")
        return self._M.copy()

    def ssbfreqs(self):
        return self._f * 1e6

    def telescope(self):
        return np.array([b"ao"] * self.n)

    def pars(self, which="fit"):
        return tuple(self._fit) if which == "fit" else tuple(self._set)

    def __getitem__(self, k):
        return self._pars[k]

    def flags(self):
        return list(self._fl)

    def flagvals(self, k):
        return np.array(self._fl[k])

    def formbats(self):
        self._try("formbats")


t2 = types.ModuleType("libstempo")
t2.tempopulsar = tempopulsar
sys.modules["libstempo"] = t2

from enterprise.pulsar import Pulsar  # noqa: E402


def pulsar(name="J1713+0747", seed=1, sort=True, planets=True, **kw):
    return Pulsar(tempopulsar(name, seed, **kw), sort=sort, planets=planets)


def close(a, b, tol=1e-6):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=tol, atol=0)
