PU = "enterprise/pulsar.py"
PI = "enterprise/pulsar_inflate.py"
UT = "enterprise/signals/utils.py"
PA = "enterprise/signals/parameter.py"
SB = "enterprise/signals/signal_base.py"
GP = "enterprise/signals/gp_signals.py"
GB = "enterprise/signals/gp_bases.py"
WN = "enterprise/signals/white_signals.py"
PR = "enterprise/signals/gp_priors.py"
DE = "enterprise/signals/deterministic_signals.py"

CHILD = """
import subprocess
if len(sys.argv) == 1:
    # (the process may be killed by a segmentation fault)
    sys.exit(0 if subprocess.run([sys.executable, os.path.abspath(__file__), "x"]).returncode == 0 else 1)
import gc, pickle
from enterprise.pulsar_inflate import PulsarInflater
"""

bug(
    "c07_shared_attachment",
    "C07",
    "the same pulsar inflated twice in one process, and one of the two deleted while the other is in use",
    "a process attaches to a segment only once, but the first array that is collected closes it for all",
    [(PI, '''class memmap(np.ndarray):
    def __del__(self):
        if self.base is None and hasattr(self, "shm"):
            self.shm.close()
''', '''class memmap(np.ndarray):
    def __del__(self):
        if not isinstance(self.base, np.ndarray) and hasattr(self, "shm"):
            self.shm.close()
'''), (PI, '''    def inflate(self):
        shm = shared_memory.SharedMemory(self.shmname)
''', '''    def inflate(self):
        # no need to attach more than once
        shm = attached.get(self.shmname)
        if shm is None or shm.buf is None:
            shm = attached[self.shmname] = shared_memory.SharedMemory(self.shmname)
        else:
            resource_tracker.register(shm._name, "shared_memory")
'''), (PI, '''class PulsarInflater:
''', '''attached = weakref.WeakValueDictionary()


class PulsarInflater:
'''), (PI, '''import numpy as np

try:''', '''import numpy as np
import weakref

try:''')],
    CHILD + """
i = PulsarInflater(np.arange(100000.0))
try:
    a, b = i.inflate(), i.inflate()
    assert np.array_equal(a, b)
    del b
    gc.collect()
    assert np.array_equal(a, np.arange(100000.0))
finally:
    i.destroy()
""",
)

bug(
    "c07_released_with_pulsar",
    "C07",
    "a slice or view taken from an inflated pulsar, and used after the pulsar has been collected",
    "a pulsar that is collected closes its shared memory, whoever still uses it",
    [(PU, '''    _todeflate = ["_designmatrix", "_planetssb", "_sunssb", "_flags"]
    _deflated = "pristine"
''', '''    _todeflate = ["_designmatrix", "_planetssb", "_sunssb", "_flags"]
    _deflated = "pristine"

    def __del__(self):
        # do not wait for the arrays to be collected
        for attr in self._todeflate:
            shm = getattr(self.__dict__.get(attr), "shm", None)
            if shm is not None:
                shm.close()
''')],
    CHILD + """
psr = pulsar(sort=False)
M = psr.Mmat.copy()
psr.deflate()
text = pickle.dumps(psr)
try:
    p = pickle.loads(text)
    p.inflate()
    row = p.Mmat[:, 1]
    assert np.array_equal(row, M[:, 1])
    del p
    gc.collect()
    assert np.array_equal(row, M[:, 1])
finally:
    pickle.loads(text).destroy()
""",
)

bug(
    "c07_kept_mapping",
    "C07",
    "a long-lived process that inflates and drops pulsars",
    "the shared memory of every array ever inflated stays mapped until the process exits",
    [(PI, '''        c.shm = shm

        return c
''', '''        c.shm = shm

        # release the memory at exit, before the interpreter goes away
        atexit.register(shm.close)

        return c
'''), (PI, '''import numpy as np

try:''', '''import atexit
import numpy as np

try:''')],
    CHILD + """
i = PulsarInflater(np.arange(100000.0))
def mapped():
    return sum(i.shmname.lstrip("/") in x for x in open("/proc/self/maps"))
try:
    for k in range(3):
        a = i.inflate()
        assert mapped() == 1, mapped()
        del a
        gc.collect()
        assert mapped() == 0, mapped()
finally:
    i.destroy()
""",
)

MODELS = """
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_bases, gp_priors, utils, selections, deterministic_signals
from enterprise.signals.parameter import Uniform, Constant, Normal
from enterprise.signals.signal_base import PTA
"""

bug(
    "c01_delay_in_place",
    "C01",
    "the delays of a model asked for before and after its likelihood, at the same parameters",
    "the residuals are computed in the array of the delays, which is remembered",
    [(SB, "            return self._residuals - self.get_delay(params)", '''            detres = self.get_delay(params)
            if isinstance(detres, np.ndarray):
                # no need for another array
                return np.subtract(self._residuals, detres, out=detres)
            return self._residuals - detres''')],
    MODELS + """
psr = pulsar()
@signal_base.function
def wave(toas, a=1.0):
    return a * 1e-6 * np.cos(toas / 1e7)
s = white_signals.MeasurementNoise(efac=Uniform(0.5, 5)) + deterministic_signals.Deterministic(wave(a=Uniform(0, 2)), name="wave") + gp_signals.TimingModel()
pta = PTA([s(psr)])
x = dict(zip(pta.param_names, (1.0, 0.7)))
a = np.array(pta.get_delay(x)[0])
pta.get_lnlikelihood(x)
assert close(pta.get_delay(x)[0], a)
""".replace("signal_base.function", "parameter.function"),
)

bug(
    "c01_prior_by_dict",
    "C01",
    "a dictionary of parameters modified in place between two evaluations of the prior",
    "the prior is remembered for the last dictionary given, by identity",
    [(SB, '''    def get_lnprior(self, params):
        # map parameter vector if needed
        params = params if isinstance(params, dict) else self.map_params(params)

        return np.sum([p.get_logpdf(params=params) for p in self.params])
''', '''    def get_lnprior(self, params):
        # map parameter vector if needed
        params = params if isinstance(params, dict) else self.map_params(params)

        return self._get_lnprior(params)

    @simplememobyid
    def _get_lnprior(self, params):
        return np.sum([p.get_logpdf(params=params) for p in self.params])
''')],
    MODELS + """
psr = pulsar()
pta = PTA([(white_signals.MeasurementNoise(efac=Normal(1.0, 0.1)) + gp_signals.TimingModel())(psr)])
x = {pta.param_names[0]: 1.0}
a = pta.get_lnprior(x)
x[pta.param_names[0]] = 1.3
assert not close(pta.get_lnprior(x), a)
""",
)

bug(
    "c01_cliques_not_contagious",
    "C01",
    "a process with a dense covariance in one pulsar that shares its columns with a correlated common process",
    "blocks of the coefficient covariance that become connected are not merged",
    [(SB, '''                if len(allidx) > 1:
                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
''', '''                if len(allidx - {-1}) > 2:
                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
''')],
    MODELS + """
@parameter.function
def dense(f, log10_s=-7.0, rho=0.3):
    n = len(f)
    return 10 ** (2 * log10_s) * (np.identity(n) + rho * (np.ones((n, n)) - np.identity(n)))
psrs = [pulsar("J1713+0747", 1), pulsar("J1909-3744", 2)]
T = 1e8
s = white_signals.MeasurementNoise(efac=Constant(1.0))
s += gp_signals.BasisGP(dense(log10_s=Constant(-6.5), rho=Constant(0.4)), gp_bases.createfourierdesignmatrix_red(nmodes=3, Tspan=T), name="red")
s += gp_signals.FourierBasisCommonGP(utils.powerlaw(log10_A=Uniform(-15, -12), gamma=Constant(3.0)), utils.hd_orf(), components=2, Tspan=T, name="gw")
pta = PTA([s(p) for p in psrs])
x = {"gw_log10_A": -12.5}
a = pta.get_lnlikelihood(x)
b = pta.get_lnlikelihood(x, phiinv_method="sparse")
assert close(a, b), (a, b)
""",
)

bug(
    "c02_sigma_in_place",
    "C02",
    "a failure while the precision of the coefficients is factorised, and a later evaluation with the same white noise",
    "the precision is built in the matrix of the data, which is restored only if all goes well",
    [(SB, '''                Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except sl.LinAlgError:  # pragma: no cover
                    return -np.inf
''', '''                if phiinv.ndim == 1:
                    # only the diagonal changes: do not copy the matrix
                    Sigma, diag = TNT, np.diag(TNT).copy()
                    Sigma[np.diag_indices_from(Sigma)] += phiinv
                else:
                    Sigma, diag = TNT + phiinv, None

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except sl.LinAlgError:  # pragma: no cover
                    return -np.inf

                if diag is not None:
                    TNT[np.diag_indices_from(TNT)] = diag
''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.TimingModel()
s += gp_signals.FourierBasisGP(utils.powerlaw(log10_A=Uniform(-16, -11), gamma=Uniform(0, 7)), components=3, name="red")
pta = PTA([s(psr)])
x = dict(zip(pta.param_names, (3.0, -13.0)))
x = {n: (-13.0 if "log10_A" in n else 3.0) for n in pta.param_names}
a = pta.get_lnlikelihood(x)
real = signal_base.sl.cho_factor
def fails(*a, **k):
    raise MemoryError
signal_base.sl.cho_factor = fails
try:
    pta.get_lnlikelihood(x)
except MemoryError:
    pass
finally:
    signal_base.sl.cho_factor = real
assert close(pta.get_lnlikelihood(x), a)
""",
)

bug(
    "c04_sum_in_place",
    "C04",
    "a signal collection that is added to one model, and then used for another",
    "adding to a collection of signals changes it",
    [(SB, '''            return SignalCollection(self._metasignals + [other])
''', '''            self._metasignals.append(other)
            return SignalCollection(self._metasignals)
''')],
    MODELS + """
psr = pulsar()
base = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.TimingModel()
a = PTA([base(psr)]).get_lnlikelihood({})
more = base + white_signals.TNEquadNoise(log10_tnequad=Constant(-5.0))
PTA([more(psr)]).get_lnlikelihood({})
assert close(PTA([base(psr)]).get_lnlikelihood({}), a)
""",
)

bug(
    "c08_stale_inverse",
    "C08",
    "an unsorted data set, filtered to a part that is in order, whose flags are set",
    "data that are already in order are not sorted, but the inverse permutation is left as it was",
    [(PU, '''        if self._sort:
            self._isort = np.argsort(self._toas, kind="mergesort")
''', '''        if self._sort and hasattr(self, "_isort") and np.all(np.diff(self._toas) >= 0):
            # nothing to do
            self._isort = slice(None, None, None)
        elif self._sort:
            self._isort = np.argsort(self._toas, kind="mergesort")
''')],
    """
o = list(range(16))
o[12:] = [13, 14, 15, 12]
psr = pulsar(order=o[12:] + o[:12])
psr._flags = {k: psr._flags[k] for k in psr._flags.dtype.names}
psr.filter_data(end_time=np.sort(psr.toas)[11] / DAY + 0.01)
v = np.array(["t%.3f" % t for t in psr.toas])
psr.set_flags("when", v)
assert list(psr.flags["when"]) == list(v)
""",
)

bug(
    "c09_flag_names",
    "C09",
    "flags with an underscore in their name, saved to a feather file",
    "only the first part of the name of a flag is read back",
    [(PU, '''            self.flags["_".join(array.split("_")[1:])] = f[array].to_numpy().astype("U")''', '''            self.flags[array.split("_", 1)[1].split("_")[0]] = f[array].to_numpy().astype("U")''')],
    """
import tempfile
psr = pulsar(flags={"pta_name": np.array(["x%d" % i for i in range(16)])})
d = tempfile.mkdtemp()
psr.to_feather(d + "/x.feather")
p = Pulsar(d + "/x.feather")
assert set(p.flags) == set(psr.flags), set(p.flags)
assert list(p.flags["pta_name"]) == list(psr.flags["pta_name"])
""",
)

bug(
    "c09_noise_integers",
    "C09",
    "a noise dictionary with an integer value",
    "only entries of type float are saved",
    [(PU, """for par, val in noisedict.items() if par.startswith(self.name)}""", """for par, val in noisedict.items() if par.startswith(self.name) and isinstance(val, float)}""")],
    """
import tempfile
psr = pulsar()
d = tempfile.mkdtemp()
nd = {"J1713+0747_efac": 1, "J1713+0747_red_noise_gamma": 2.5, "J1909-3744_efac": 1.1}
psr.to_feather(d + "/x.feather", noisedict=nd)
assert Pulsar(d + "/x.feather").noisedict == {k: v for k, v in nd.items() if k.startswith("J1713+0747")}
""",
)

bug(
    "c10_include_of_include",
    "C10",
    "a tim file that includes a file in another directory, which includes a further one",
    "files included by an included file are looked for in the directory of the latter",
    [(PU, '''    maxobs = 0
    with open(timfile) as tfile:
''', '''    maxobs = 0
    with open(timfile) as tfile, contextlib.chdir(os.path.dirname(timfile) or "."):
'''), (PU, "import os\n", "import contextlib\nimport os\n")],
    """
import tempfile
import enterprise.pulsar as ep
d = tempfile.mkdtemp()
os.mkdir(d + "/sub")
obs = "FORMAT 1\\n" + " x 1400.0 53000.1 1.0 ao\\n" * 5
open(d + "/main.tim", "w").write("FORMAT 1\\nINCLUDE sub/a.tim\\n")
open(d + "/sub/a.tim", "w").write("FORMAT 1\\nINCLUDE sub/b.tim\\n")
open(d + "/sub/b.tim", "w").write(obs)
here = os.getcwd()
os.chdir(d)
try:
    assert ep.get_maxobs("main.tim") >= 5
finally:
    os.chdir(here)
""",
)

bug(
    "c10_par_next_to_tim",
    "C10",
    "par and tim files in different directories, with another par file of the same name next to the tim file",
    "a par file of the same name in the directory of the tim file is read instead of the one named",
    [(PU, '''        # get current directory
        cwd = os.getcwd()
''', '''        # usually they are in the same directory
        if os.path.isfile(os.path.join(dirname, parfiletup[-1])):
            relparfile = parfiletup[-1]

        # get current directory
        cwd = os.getcwd()
''')],
    """
import tempfile
import enterprise.pulsar as ep
d = tempfile.mkdtemp()
for k in "ab":
    os.mkdir(d + "/" + k)
    open(d + "/" + k + "/x.par", "w").write("PSR J1713+0747 %s\\n" % k)
open(d + "/b/x.tim", "w").write("FORMAT 1\\n x 1400.0 53000.1 1.0 ao\\n")
seen = []
class Stop(Exception):
    pass
def load(par, tim, **k):
    seen.append(open(par).read())
    raise Stop
class T(tempopulsar):
    def __new__(cls, par, tim, **k):
        load(par, tim)
ep.t2.tempopulsar = T
try:
    Pulsar(d + "/a/x.par", d + "/b/x.tim", timing_package="tempo2")
except Stop:
    pass
assert seen[0].split()[-1] == "a", seen
""",
)

bug(
    "c11_cached_normal",
    "C11",
    "seeded phases used between two draws of normal numbers, after an odd number of them",
    "seeded phases are drawn from the global stream, which is put back without the normal number it had in store",
    [(GB, '''            seed = int(toas[0] / 17) + int(pseed)
''', '''            seed = int(toas[0] / 17) + int(pseed)
            state = np.random.get_state()[:3]
            np.random.seed(seed)
            np.random.set_state(state)
''')],
    """
from enterprise.signals.gp_bases import createfourierdesignmatrix_red
t = np.linspace(4.6e9, 4.8e9, 40)
np.random.seed(1)
want = np.random.randn(4)
np.random.seed(1)
got = [np.random.randn()]
createfourierdesignmatrix_red(t, nmodes=3, pseed=5)
got += list(np.random.randn(3))
assert np.array_equal(got, want)
""",
)

bug(
    "c13_first_draw_reused",
    "C13",
    "several draws asked for at once, of a model with correlated pulsars",
    "one random vector is used for all the draws of a call",
    [(UT, '''        ret = []
        for j in range(n):
            # since Sigma = L L^T, Sigma^-1 = L^-T L^-1
            # and L^-T x has variance L^-T L^-1 for normal x
            if self.pta._commonsignals:
                b = mn
                if variance:
                    b = b + ch.apply_Pt(ch.solve_Lt(np.random.randn(mn.shape[0]), use_LDLt_decomposition=False))
''', '''        ret = []
        for j in range(n):
            # since Sigma = L L^T, Sigma^-1 = L^-T L^-1
            # and L^-T x has variance L^-T L^-1 for normal x
            if self.pta._commonsignals:
                b = mn
                if variance:
                    b += ch.apply_Pt(ch.solve_Lt(np.random.randn(mn.shape[0]), use_LDLt_decomposition=False))
''')],
    MODELS + """
psrs = [pulsar("J1713+0747", 1), pulsar("J1909-3744", 2)]
s = white_signals.MeasurementNoise(efac=Constant(1.0))
s += gp_signals.FourierBasisCommonGP(utils.powerlaw(log10_A=Constant(-12.5), gamma=Constant(3.0)), utils.hd_orf(), components=2, Tspan=1e8, name="gw")
pta = PTA([s(p) for p in psrs])
cg = utils.ConditionalGP(pta)
np.random.seed(5)
many = cg.sample_coefficients({}, n=3)
np.random.seed(5)
single = [cg.sample_coefficients({})[0] for _ in range(3)]
for a, b in zip(many, single):
    assert all(close(a[k], b[k]) for k in a)
""",
)

bug(
    "c14_upper_end",
    "C14",
    "a vector parameter with bounds, of which one element is rejected and the others not",
    "elements of a truncated normal vector that are rejected are replaced with the mean and width of the first ones",
    [(PA, '''    samp = np.random.normal(mu, sigma, size)
    if isinstance(samp, np.ndarray):
''', '''    samp = np.random.normal(mu, sigma, size)
    if isinstance(samp, np.ndarray) and samp.size == 1:
        while samp[0] >= np.min(pmax) or samp[0] <= np.min(pmin):
            samp = np.random.normal(mu, sigma)
    elif isinstance(samp, np.ndarray):
''')],
    """
from enterprise.signals.parameter import TruncNormal
np.random.seed(3)
for _ in range(200):
    v = TruncNormal(0.0, 1.0, -1.0, 1.0, size=1)("x").sample()
    assert np.shape(v) == (1,), v
""",
)
