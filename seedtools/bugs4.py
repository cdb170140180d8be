UT = "enterprise/signals/utils.py"
PA = "enterprise/signals/parameter.py"
SB = "enterprise/signals/signal_base.py"
GP = "enterprise/signals/gp_signals.py"
WN = "enterprise/signals/white_signals.py"
DE = "enterprise/signals/deterministic_signals.py"

MODELS = """
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_bases, gp_priors, utils, selections, deterministic_signals
from enterprise.signals.parameter import Uniform, Constant, Normal
from enterprise.signals.signal_base import PTA
"""

bug(
    "c03_same_dictionary",
    "C03",
    "constants assigned twice through one dictionary that the caller changed in between",
    "an assignment is skipped if it is made with the dictionary of the one before",
    [(SB, '''        for kw, par in self._params.items():
            if par.name in params and isinstance(par, ConstantParameter):
''', '''        # nothing to do for values assigned already
        known, self._assigned = getattr(self, "_assigned", None), params

        for kw, par in self._params.items() if known is None or known is not params else []:
            if par.name in params and isinstance(par, ConstantParameter):
''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Constant(), name="") + gp_signals.TimingModel()
pta = PTA([s(psr)])
c = {psr.name + "_efac": 1.0}
pta.set_default_params(c)
a = pta.get_lnlikelihood({})
c[psr.name + "_efac"] = 1.5
pta.set_default_params(c)
b = pta.get_lnlikelihood({})
other = PTA([s(psr)])
other.set_default_params(dict(c))
assert close(b, other.get_lnlikelihood({})), (a, b)
""",
)

bug(
    "c19_different_vectors",
    "C19",
    "a product y^T N^-1 x of two different vectors, with Sherman-Morrison ECORR",
    "one of the two projections is used for both vectors (the library itself only needs r^T N^-1 r)",
    [(SB, '''                xblock = x[idx]
                yblock = y[idx]
                niblock = 1 / self._nvec[idx]
                beta = 1.0 / (np.einsum("i->", niblock) + 1.0 / jv)
                yNx -= beta * np.dot(niblock, xblock) * np.dot(niblock, yblock)
''', '''                xblock = x[idx]
                niblock = 1 / self._nvec[idx]
                beta = 1.0 / (np.einsum("i->", niblock) + 1.0 / jv)
                yNx -= beta * np.dot(niblock, xblock) ** 2
''')],
    MODELS + """
psr = pulsar(per=4)
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + white_signals.EcorrKernelNoise(log10_ecorr=Constant(-6.0), method="sherman-morrison")
N = PTA([s(psr)]).get_ndiag({})[0]
r = np.random.RandomState(1)
x, y = r.standard_normal((2, len(psr.toas)))
assert close(N.solve(x, left_array=y), y @ N.solve(x))
""",
)

bug(
    "c01_planets_unrotated",
    "C01",
    "a model of ephemeris perturbations without frame rotation",
    "without rotation, the perturbations are added to the planet positions themselves, which the delay is then referred to",
    [(UT, '''    earth = ss_framerotate(mjd, earth, 0.0, 0.0, 0.0, frame_drift_rate, offset=None, equatorial=equatorial)
''', '''    if frame_drift_rate != 0:
        earth = ss_framerotate(mjd, earth, 0.0, 0.0, 0.0, frame_drift_rate, offset=None, equatorial=equatorial)
''')],
    MODELS + """
psr = pulsar()
delays = []
for rot in (False, True):
    s = white_signals.MeasurementNoise() + gp_signals.TimingModel() + deterministic_signals.PhysicalEphemerisSignal(frame_drift_rate=rot)
    pta = PTA([s(psr)])
    x = {p.name: np.zeros(6) if p.size else (1.0 if p.name.endswith("efac") else 1e-4) for p in pta.params}
    x["frame_drift_rate"] = 1e-30
    delays.append(pta.get_delay(x)[0])
assert np.max(np.abs(delays[0] - delays[1])) < 1e-6 * np.max(np.abs(delays[1])), delays
""",
)

bug(
    "c13_factor_kept",
    "C13",
    "means or draws at one point, before and after constants of the model were assigned",
    "a conditional process keeps the factorisation of the last point, which it recognises by the varying parameters only",
    [(UT, '''        ch, mn = self._make_conditional(params)

        ret = []
''', '''        key = repr(sorted(params.items()))
        if getattr(self, "_last", (None,))[0] != key:
            self._last = (key, self._make_conditional(params))
        ch, mn = self._last[1]

        ret = []
''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Constant(), name="") + gp_signals.FourierBasisGP(utils.powerlaw(log10_A=Constant(-12.5), gamma=Constant(3.0)), components=2)
pta = PTA([s(psr)])
cg = utils.ConditionalGP(pta)
for e in (1.0, 3.0):
    pta.set_default_params({psr.name + "_efac": e})
    a = cg.get_mean_coefficients({})
    b = utils.ConditionalGP(pta).get_mean_coefficients({})
    assert all(close(a[k], b[k]) for k in a)
""",
)

bug(
    "c19_lookup_by_end",
    "C19",
    "signals of one pulsar of which the name of one ends in that of another",
    "signals of a pulsar are looked up by the end of their names",
    [(SB, '''                for s in self._signals:
                    if s.signal_id == key:
                        return s
''', '''                # with or without the name of the pulsar
                for s in self._signals:
                    if s.name.endswith("_" + key):
                        return s
''')],
    MODELS + """
psr = pulsar()
pl = utils.powerlaw(log10_A=Constant(-12.5), gamma=Constant(3.0))
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.FourierBasisGP(pl, components=2, name="dm_red") + gp_signals.FourierBasisGP(pl, components=3, name="red")
sc = s(psr)
for x in sc.signals:
    assert sc[x.signal_id] is x, x
""",
)

bug(
    "c03_shared_constant",
    "C03",
    "one constant shared by two signals of a pulsar, assigned after an evaluation",
    "caches are cleared only for signals of which a constant changes, and a shared one has changed already when the second signal is reached",
    [(SB, '''        for kw, par in self._params.items():
            if par.name in params and isinstance(par, ConstantParameter):
                msg = "Setting {} to {}".format(par.name, params[par.name])
                logger.info(msg)
                self._params[kw].value = params[par.name]
            elif''', '''        for kw, par in self._params.items():
            if par.name in params and isinstance(par, ConstantParameter):
                # each constant is set once
                if par.value is not None and par.name in _CONSTANTS_SET and _CONSTANTS_SET[par.name] == params[par.name]:
                    continue
                msg = "Setting {} to {}".format(par.name, params[par.name])
                logger.info(msg)
                self._params[kw].value = _CONSTANTS_SET[par.name] = params[par.name]
            elif'''), (SB, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

# values of the constants, by name
_CONSTANTS_SET = {}
''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Constant(1.2), name="") + gp_signals.TimingModel()
one, two = PTA([s(psr)]), PTA([s(psr)])
n = psr.name + "_efac"
for v in (1.5, 1.8, 1.5):
    one.set_default_params({n: v})
    two.set_default_params({n: v})
    assert close(one.get_lnlikelihood({}), two.get_lnlikelihood({}))
""",
)

bug(
    "c12_cube_in_place",
    "C12",
    "one array of unit-cube coordinates with a vector parameter, transformed more than once",
    "the transform writes into the coordinates it is given",
    [(PA, '''    ev = sstats.uniform.ppf(value, loc=10**pmin, scale=10**pmax - 10**pmin)
    return np.log10(ev)
''', '''    ev = np.asarray(value)
    ev = np.multiply(ev, 10.0**pmax - 10.0**pmin, out=ev if ev.ndim and ev.base is not None else None)
    return np.log10(ev + 10.0**pmin)
''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.FourierBasisGP(gp_priors.free_spectrum(log10_rho=parameter.LinearExp(-9, -6, size=3)), components=3)
pta = PTA([s(psr)])
x = np.array([0.2, 0.5, 0.8])
a = pta.get_hypercube_transform(x)
b = pta.get_hypercube_transform(x)
assert close(a, b) and np.array_equal(x, [0.2, 0.5, 0.8]), (a, b, x)
""",
)
