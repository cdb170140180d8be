"""Stand-ins for the timing packages (tempo2 through libstempo, and PINT), which are not installed here.

They are duck-typed: they hand to the real Tempo2Pulsar / PintPulsar constructors the arrays those packages would
compute.  The data of a pulsar come from a JSON "spec" (see psrgen.py); loading from files parses a minimal par/tim
syntax with the file access of the real packages (the tim file is opened relative to the working directory, INCLUDE
files too, never more than maxobs observations, C-lines are comments).
"""
import os
import sys
import types

import numpy as np

# calls seen by the stand-ins, for the loader properties: (what, path as given, cwd at that time, extra)
CALLS = []
# a scenario may install a function(stage, info) that raises to simulate a failure inside the timing package
FAIL = [None]


def _fail(stage, info=None):
    if FAIL[0] is not None:
        FAIL[0](stage, info)


class _Par:
    def __init__(self, val, err=0.0):
        self.val = val
        self.err = err
        self.set = True
        self.fit = False


class tempopulsar:
    """Subset of libstempo.tempopulsar used by enterprise."""

    def __init__(self, parfile=None, timfile=None, maxobs=None, ephem=None, clk=None, spec=None, data=None, **kw):
        if spec is None and data is None:
            from . import psrgen

            CALLS.append(("t2", parfile, timfile, os.getcwd(), maxobs, (ephem, clk, None)))
            _fail("open", (parfile, timfile))
            spec = psrgen.spec_from_files(parfile, timfile, maxobs, "t2")
            _fail("parsed", spec)
        if data is None:
            from . import psrgen

            data = psrgen.data_from_spec(spec)
        self._d = data
        self.name = data["name"]
        self._pars = {k: _Par(v[0], v[1]) for k, v in data["pars"].items()}
        for ii in range(1, 10):
            self._pars.setdefault("DMASSPLANET%d" % ii, _Par(0.0))
        for ii, nm in enumerate(
            ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"]
        ):
            setattr(self, nm + "_ssb", data["planets"][:, ii, :].copy())
        self.sun_ssb = data["sun"].copy()
        self.psrPos = data["pos_t"].copy()
        self.stoas = data["stoas"].copy()
        self.toaerrs = data["errs"].copy()

    def toas(self):
        _fail("toas")
        return self._d["toas"].copy()

    def residuals(self):
        _fail("residuals")
        return self._d["res"].copy()

    def designmatrix(self):
        _fail("designmatrix")
        return self._d["M"].copy()

    def ssbfreqs(self):
        return self._d["freqs"] * 1e6

    def telescope(self):
        return np.array([t.encode() for t in self._d["tel"]])

    def pars(self, which="fit"):
        if which == "fit":
            return tuple(self._d["fit"])
        return tuple(self._d["set"])

    def __getitem__(self, key):
        return self._pars[key]

    def flags(self):
        return list(self._d["flags"].keys())

    def flagvals(self, name):
        return np.array(self._d["flags"][name])

    def formbats(self):
        _fail("formbats")


# ------------------------------------------------------------------------------------------------------- PINT


class _Q:
    """A value with .value and .to()."""

    def __init__(self, value):
        self.value = value

    def to(self, unit):
        import astropy.units as u

        return _Q2(self.value)


class _Q2(np.ndarray):
    def __new__(cls, v):
        return np.array(v, dtype=float).view(cls)

    @property
    def value(self):
        return float(self) if self.ndim == 0 else np.array(self)


class _PPar:
    def __init__(self, name, value, err=None, frozen=True):
        self.name = name
        self.value = value
        self.uncertainty_value = err
        self.frozen = frozen

    @property
    def quantity(self):
        return _Q(self.value)


class TimingModel:
    def __init__(self, data):
        self._d = data
        self.PSR = _PPar("PSR", data["name"])
        self.params = ["PSR"]
        fit = set(data["fit"])
        for k, (v, e) in data["pars"].items():
            setattr(self, k, _PPar(k, v, e, k not in fit))
            self.params.append(k)
        self.components = {"AstrometryEquatorial": self} if "RAJ" in data["pars"] else {"AstrometryEcliptic": self}

    def __getitem__(self, k):
        return getattr(self, k)

    def get_barycentric_toas(self, toas):
        import astropy.units as u

        _fail("toas")
        return u.Quantity(self._d["toas"].copy(), u.d)

    def designmatrix(self, toas):
        _fail("designmatrix")
        units = ["u%d" % i for i in range(self._d["M"].shape[1])]
        return self._d["M"].copy(), ["Offset"] + list(self._d["fit"]), units

    def barycentric_radio_freq(self, toas):
        return self._d["freqs"].copy()

    def ssb_to_psb_xyz_ICRS(self, epoch):
        return _Q(self._d["pos_t"].copy())

    def as_parfile(self):
        return "PSR %s\n" % self._d["name"]


class _Vec:
    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return _Vec(self.v + (o.v if isinstance(o, _Vec) else o))

    def __truediv__(self, c):
        return self

    def to(self, unit):
        return _Q(self.v)


class _Table(dict):
    @property
    def colnames(self):
        return list(self.keys())


class TOAs:
    def __init__(self, data):
        self._d = data
        self.ntoas = len(data["toas"])
        self.table = _Table()
        if data.get("with_planets", True):
            for ii, nm in [(2, "earth"), (4, "jupiter"), (5, "saturn"), (6, "uranus"), (7, "neptune")]:
                self.table["obs_%s_pos" % nm] = _Vec(data["planets"][:, ii, :3].copy())
            self.table["obs_sun_pos"] = _Vec(data["sun"][:, :3].copy())
        self.table["ssb_obs_pos"] = _Vec(np.zeros((self.ntoas, 3)))

    def get_mjds(self):
        return _Q(self._d["stoas"].copy())

    def get_errors(self):
        return _Q(self._d["errs"] * 1e-6)

    def get_obss(self):
        return list(self._d["tel"])

    def get_flags(self):
        d = self._d["flags"]
        return [{k: str(d[k][i]) for k in d if str(d[k][i]) != ""} for i in range(self.ntoas)]

    def write_TOA_file(self, f):
        f.write("FORMAT 1\n")


class Residuals:
    def __init__(self, toas, model):
        _fail("residuals")
        self.time_resids = _Q(toas._d["res"].copy())


def get_model_and_toas(parfile, timfile, ephem=None, bipm_version=None, planets=True, **kw):
    from . import psrgen

    CALLS.append(("pint", parfile, timfile, os.getcwd(), None, (ephem, None, bipm_version)))
    _fail("open", (parfile, timfile))
    spec = psrgen.spec_from_files(parfile, timfile, None, "pint")
    _fail("parsed", spec)
    data = psrgen.data_from_spec(spec)
    data["with_planets"] = planets
    return TimingModel(data), TOAs(data)


def install():
    t2 = types.ModuleType("libstempo")
    t2.tempopulsar = tempopulsar
    t2.__version__ = "sim"
    sys.modules["libstempo"] = t2
    pint = types.ModuleType("pint")
    pint.__path__ = []
    models = types.ModuleType("pint.models")
    models.TimingModel = TimingModel
    models.get_model_and_toas = get_model_and_toas
    resid = types.ModuleType("pint.residuals")
    resid.Residuals = Residuals
    toa = types.ModuleType("pint.toa")
    toa.TOAs = TOAs
    pint.models, pint.residuals, pint.toa = models, resid, toa
    sys.modules.update({"pint": pint, "pint.models": models, "pint.residuals": resid, "pint.toa": toa})
