PU = "enterprise/pulsar.py"
PI = "enterprise/pulsar_inflate.py"
UT = "enterprise/signals/utils.py"
PA = "enterprise/signals/parameter.py"
SB = "enterprise/signals/signal_base.py"
GP = "enterprise/signals/gp_signals.py"

MODELS = """
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_bases, gp_priors, utils, selections, deterministic_signals
from enterprise.signals.parameter import Uniform, Constant, Normal
from enterprise.signals.signal_base import PTA
"""

bug(
    "c01_keys_rounded",
    "C01",
    "two points that differ by less than the last digit kept, such as the last steps of an optimizer",
    "values are rounded in the keys of the caches, and the likelihood at a near-by point is that of the point before",
    [(SB, '''                        ret.append((key, params[key]))
            key = tuple(ret)''', '''                        # rounding errors of samplers need not miss the cache
                        ret.append((key, round(float(params[key]), 4)))
            key = tuple(ret)''')],
    MODELS
    + """
psr = pulsar()
m = white_signals.MeasurementNoise(efac=Uniform(0.5, 1.5)) + gp_signals.TimingModel()
pta = PTA([m(psr)])
n = pta.param_names[0]
pta.get_lnlikelihood({n: 1.10001})
got = pta.get_lnlikelihood({n: 1.10003})
want = PTA([m(psr)]).get_lnlikelihood({n: 1.10003})
assert abs(got - want) < 1e-5, (got, want)
""",
)

bug(
    "c01_vector_key_sorted",
    "C01",
    "a vector parameter moved to a permutation of the values it had",
    "the keys of the caches have the elements of vector parameters without their order",
    [(SB, "                        ret.append((key, tuple(params[key])))", "                        ret.append((key, tuple(sorted(np.asarray(params[key]).tolist()))))")],
    MODELS
    + """
psr = pulsar()
s = gp_signals.FourierBasisGP(gp_priors.free_spectrum(log10_rho=Uniform(-9, -6, size=3)), components=3, name="r")
m = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.TimingModel() + s
b = gp_signals.BasisGP(gp_priors.powerlaw(log10_A=Constant(-14), gamma=Constant(3)), gp_bases.createfourierdesignmatrix_red(modes=Uniform(1e-9, 1e-7, size=3)), name="b")
m = white_signals.MeasurementNoise(efac=Uniform(0.5, 1.5)) + gp_signals.TimingModel()

@parameter.function
def wave(toas, amps=None):
    return amps[0] * np.sin(toas / 1e7) + amps[1] * np.cos(toas / 1e7)

m = m + deterministic_signals.Deterministic(wave(amps=Uniform(-1e-5, 1e-5, size=2)), name="w")
pta = PTA([m(psr)])
def at(x):
    return {p.name: np.array(x) if p.size else 1.1 for p in pta.params}

pta.get_lnlikelihood(at([1e-6, 3e-6]))
got = pta.get_lnlikelihood(at([3e-6, 1e-6]))
want = PTA([m(psr)]).get_lnlikelihood(at([3e-6, 1e-6]))
assert abs(got - want) < 1e-4, (got, want)
""",
)

bug(
    "c02_any_error_is_minus_infinity",
    "C02",
    "a failed allocation (or any other error) within the Cholesky solution, in a model without common processes",
    "every error within the factorisation is taken for a matrix that is not positive definite: the caller gets -inf, and not the error",
    [(SB, '''                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except sl.LinAlgError:  # pragma: no cover''', '''                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except Exception:  # pragma: no cover''')],
    MODELS
    + """
psr = pulsar()
pta = PTA([(white_signals.MeasurementNoise(efac=Uniform(0.5, 1.5)) + gp_signals.TimingModel())(psr)])
n = pta.param_names[0]
good = signal_base.sl.cho_solve

def bad(*args, **kwargs):
    raise MemoryError("no room")

signal_base.sl.cho_solve = bad
try:
    got = pta.get_lnlikelihood({n: 1.1})
except MemoryError:
    got = None
signal_base.sl.cho_solve = good
assert got is None, got
""",
)

bug(
    "c03_unless_close",
    "C03",
    "a constant assigned a value close to the one it has (within 1e-5 of it, or 1e-8 in all)",
    "assigning a constant does nothing when the new value is close to the old one",
    [(SB, '''                self._params[kw].value = params[par.name]
            elif''', '''                if par.value is None or not np.allclose(par.value, params[par.name]):
                    self._params[kw].value = params[par.name]
            elif''')],
    MODELS
    + """
psr = pulsar()

@parameter.function
def step(toas, amp=0.0):
    return amp * np.sign(toas - np.mean(toas))

m = white_signals.MeasurementNoise(efac=Uniform(0.5, 1.5)) + gp_signals.TimingModel() + deterministic_signals.Deterministic(step(amp=Constant()), name="s")
pta = PTA([m(psr)])
n = [x for x in pta.param_names][0]
c = psr.name + "_s_amp"
pta.set_default_params({c: 0.0})
a = pta.get_delay({n: 1.1})[0]
pta.set_default_params({c: 5e-9})
b = pta.get_delay({n: 1.1})[0]
assert np.max(np.abs(b)) == 5e-9, b
""",
)

bug(
    "c04_epochs_by_ends",
    "C04",
    "two pulsars with as many observations between the same first and last times, in different epochs",
    "the matrix of observing epochs is kept under the ends and the number of the times, and used for another pulsar",
    [(UT, '''    """Create quantization matrix mapping TOAs to observing epochs."""
    isort = np.argsort(toas)
''', '''    """Create quantization matrix mapping TOAs to observing epochs."""
    key = (len(toas), toas[0], toas[-1], dt, nmin)
    if key not in _epochs:
        _epochs[key] = _create_quantization_matrix(toas, dt, nmin)

    return _epochs[key]


_epochs = {}


def _create_quantization_matrix(toas, dt, nmin):
    isort = np.argsort(toas)
''')],
    MODELS
    + """
t = np.array([0.0, 0.2, 10.0, 10.2, 20.0, 20.2]) * 10
s = np.array([0.0, 0.2, 10.0, 20.0, 20.1, 20.2]) * 10
utils.create_quantization_matrix(t, dt=5)
U, _ = utils.create_quantization_matrix(s, dt=5)
assert U.shape == (6, 2) and U[:, 1].tolist() == [0, 0, 0, 1, 1, 1], U
""",
)

bug(
    "c04_orf_by_name",
    "C04",
    "two models of the same common process for pulsars with the same names and other positions",
    "the correlations of pairs of pulsars are kept under the names of the pulsars by the class of the common process",
    [(GP, '''                prior = BasisCommonGP._prior(signal1._labels, params=params)
                orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos, params=params)

                return prior * orf''', '''                prior = BasisCommonGP._prior(signal1._labels, params=params)

                if BasisCommonGP._orf._params:
                    orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos, params=params)
                else:
                    # depends on the pair only
                    pair = (signal1.psrname, signal2.psrname)
                    if pair not in BasisCommonGP._pairs:
                        BasisCommonGP._pairs[pair] = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos)
                    orf = BasisCommonGP._pairs[pair]

                return prior * orf'''), (GP, '''        _orf = orfFunction(name)
        _prior = priorFunction(name)

        def __init__(self, psr):
            super(BasisCommonGP, self).__init__(psr)''', '''        _orf = orfFunction(name)
        _prior = priorFunction(name)
        _pairs = {}

        def __init__(self, psr):
            super(BasisCommonGP, self).__init__(psr)''')],
    MODELS
    + """
a, b = pulsar("J0001+0001"), pulsar("J0002+0002")
b2 = pulsar("J0002+0002")
b._pos, b2._pos = np.array([0.0, 1.0, 0.0]), np.array([0.0, 0.0, 1.0])
a._pos = np.array([0.8, 0.6, 0.0])
s = gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=Uniform(-18, -11)("A"), gamma=Constant(3)), utils.hd_orf(), components=3, Tspan=3e8, name="gw")
m = white_signals.MeasurementNoise(efac=Constant(1.0)) + s
PTA([m(a), m(b)]).get_phi({"A": -13.0})
got = PTA([m(a), m(b2)]).get_phi({"A": -13.0})
ratio = got[0, 6] / got[0, 0]
x = (1 - np.dot(a._pos, b2._pos)) / 2
assert abs(ratio - (1.5 * x * np.log(x) - 0.25 * x + 0.5)) < 1e-6, ratio
""",
)

bug(
    "c05_native_order",
    "C05",
    "a pulsar with arrays that are not in the byte order of the machine (as read from FITS files)",
    "the byte order of shared arrays is lost, and other processes read other numbers",
    [(PI, "        self.dtype, self.shape, self.nbytes = array.dtype, array.shape, array.nbytes", '        self.dtype, self.shape, self.nbytes = array.dtype.newbyteorder("="), array.shape, array.nbytes')],
    """
from enterprise.pulsar_inflate import PulsarInflater

x = np.arange(5.0).astype(">f8")
i = PulsarInflater(x)
y = np.array(i.inflate())
i.destroy()
assert np.array_equal(x, y), y
""",
)

bug(
    "c14_diagonal_covariance",
    "C14",
    "a vector parameter with a covariance matrix of small numbers",
    "covariances below 1e-8 are taken for zero, and the elements are drawn independently",
    [(PA, '''    if np.ndim(sigma) == 2:
        return np.random.multivariate_normal(mu, sigma)''', '''    if np.ndim(sigma) == 2:
        if np.allclose(sigma, np.diag(np.diag(sigma))):
            # independent elements
            return np.random.normal(mu, np.sqrt(np.diag(sigma)))

        return np.random.multivariate_normal(mu, sigma)''')],
    """
from enterprise.signals import parameter

s = 1e-14
p = parameter.Normal(mu=np.zeros(2), sigma=s * np.array([[1, 0.99999], [0.99999, 1]]), size=2)("x")
np.random.seed(3)
x = np.array([p.sample() for i in range(200)]) / np.sqrt(s)
c = np.corrcoef(x.T)[0, 1]
assert c > 0.99, c
""",
)

