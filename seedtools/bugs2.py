PU = "enterprise/pulsar.py"
PI = "enterprise/pulsar_inflate.py"
UT = "enterprise/signals/utils.py"
PA = "enterprise/signals/parameter.py"
SB = "enterprise/signals/signal_base.py"
GP = "enterprise/signals/gp_signals.py"
GB = "enterprise/signals/gp_bases.py"
PR = "enterprise/signals/gp_priors.py"

SHARE = """
import pickle, subprocess, tempfile, glob
d = tempfile.mkdtemp()

def run(src, *a, env=None):
    here = os.path.dirname(os.path.abspath(__file__))
    return subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\\nfrom simpsr import *\\nimport pickle\\n" % here + src, *a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
"""

bug(
    "c05_creator_exit",
    "C05",
    "the process that deflated the pulsar exits (normally) before the others inflate it",
    "the creator leaves its shared memory registered with its resource tracker, which removes it when the creator exits",
    [(PI, '''        resource_tracker.unregister(shm._name, "shared_memory")

    def inflate(self):''', '''        if array.nbytes < shm.size:
            # the tail of the last page is not ours
            resource_tracker.unregister(shm._name, "shared_memory")

    def inflate(self):''')],
    SHARE + """
from enterprise.pulsar_inflate import PulsarInflater
f = d + "/x.pkl"
# the size of a POSIX segment is exactly what is asked for
r = run('''
from enterprise.pulsar_inflate import PulsarInflater
i = PulsarInflater(np.arange(512.0))
pickle.dump(i, open(sys.argv[1], "wb"))
''', f)
assert r.returncode == 0, r.stderr
i = pickle.load(open(f, "rb"))
try:
    assert np.array_equal(i.inflate(), np.arange(512.0))
finally:
    i.destroy()
""",
)

bug(
    "c05_named_after_pid",
    "C05",
    "two processes with the same identifier, one after the other (or in two containers), or a process that forks after deflating once",
    "segments are named after the process and a counter, and one that is already there is taken over",
    [(PI, '''        shm = shared_memory.SharedMemory(create=True, size=array.nbytes)
        self.shmname = shm.name
''', '''        # readable names, numbered per process
        PulsarInflater.count = getattr(PulsarInflater, "count", 0) + 1
        self.shmname = "enterprise_%d_%d" % (PulsarInflater.pid, PulsarInflater.count)
        try:
            shm = shared_memory.SharedMemory(self.shmname, create=True, size=array.nbytes)
        except FileExistsError:
            # left behind by an earlier process of this number
            shm = shared_memory.SharedMemory(self.shmname)
'''), (PI, '''class PulsarInflater:
''', '''class PulsarInflater:
    pid = os.getpid()

'''), (PI, '''import numpy as np

try:''', '''import numpy as np
import os

try:''')],
    SHARE + """
from enterprise.pulsar_inflate import PulsarInflater
first = PulsarInflater(np.zeros(8))
r, w = os.pipe()
if os.fork() == 0:
    try:
        second = PulsarInflater(np.ones(8))
        os.write(w, pickle.dumps(second))
    finally:
        os._exit(0)
third = PulsarInflater(np.full(8, 2.0))
os.wait()
second = pickle.loads(os.read(r, 10000))
try:
    assert np.array_equal(first.inflate(), np.zeros(8)) and np.array_equal(second.inflate(), np.ones(8)) and np.array_equal(third.inflate(), np.full(8, 2.0))
finally:
    for x in (first, second, third):
        x.destroy()
""",
)

bug(
    "c06_destroyed_too_early",
    "C06",
    "a destroy that fails in the middle for lack of a resource and is repeated",
    "destroy marks the pulsar as destroyed before it is, so that a destroy that failed half way cannot be completed",
    [(PU, '''        if psr._deflated == "deflated":
            for attr in psr._todeflate:
                if isinstance(getattr(psr, attr), PulsarInflater):
                    getattr(psr, attr).destroy()

            psr._deflated = "destroyed"
''', '''        if psr._deflated == "deflated":
            psr._deflated = "destroyed"

            for attr in psr._todeflate:
                if isinstance(getattr(psr, attr), PulsarInflater):
                    getattr(psr, attr).destroy()
''')],
    """
from multiprocessing import shared_memory
from enterprise import pulsar_inflate
psr = pulsar()
psr.deflate()
names = [getattr(psr, a).shmname for a in psr._todeflate if hasattr(getattr(psr, a), "shmname")]
old = shared_memory.SharedMemory
def fail(*a, **k):
    shared_memory.SharedMemory = old
    raise OSError(24, "Too many open files")
shared_memory.SharedMemory = fail
try:
    psr.destroy()
except OSError:
    pass
shared_memory.SharedMemory = old
psr.destroy()
left = [n for n in names if os.path.exists("/dev/shm/" + n)]
for n in left:
    os.unlink("/dev/shm/" + n)
assert not left, left
""",
)

bug(
    "c06_class_state",
    "C06",
    "two pulsars in one process, one of them deflated (and perhaps destroyed) before the other",
    "the state of deflation is written to the class instead of the pulsar when destroying",
    [(PU, '''            psr._deflated = "destroyed"
''', '''            type(psr)._deflated = psr._deflated = "destroyed"
''')],
    """
a, b = pulsar("J0001+0001"), pulsar("J0002+0002", seed=2)
a.deflate()
a.destroy()
b.deflate()
try:
    assert b._deflated == "deflated"
finally:
    b.destroy()
""",
)

bug(
    "c07_copies_close",
    "C07",
    "a copy of an inflated array (or the result of arithmetic with it) that is dropped while the array is still in use",
    "arrays derived from an inflated array inherit its shared memory, and those that own their data close it when they are collected",
    [(PI, '''class memmap(np.ndarray):
    def __del__(self):
        if self.base is None and hasattr(self, "shm"):
            self.shm.close()
''', '''class memmap(np.ndarray):
    def __array_finalize__(self, obj):
        # views need the shared memory too
        self.shm = getattr(obj, "shm", None)

    def __del__(self):
        if self.base is None and self.shm is not None:
            self.shm.close()
''')],
    """
import subprocess
if len(sys.argv) == 1:
    sys.exit(0 if subprocess.run([sys.executable, os.path.abspath(__file__), "x"]).returncode == 0 else 1)
from enterprise.pulsar_inflate import PulsarInflater
i = PulsarInflater(np.arange(3000.0))
try:
    a = i.inflate()
    b = a * 2.0
    del b
    import gc
    gc.collect()
finally:
    i.destroy()
assert np.array_equal(a[10:20], np.arange(10.0, 20.0))
""",
)

bug(
    "c08_set_flags_order",
    "C08",
    "flags (stored by name) of an unsorted data set whose sorting permutation is not its own inverse",
    "set_flags stores values by the sorting permutation instead of its inverse",
    [(PU, "            self._flags[flagname] = values[self._iisort]", "            self._flags[flagname] = values[self._isort]")],
    """
psr = pulsar(order=[2, 0, 1] + list(range(3, 16)))
psr._flags = {k: psr._flags[k] for k in psr._flags.dtype.names}
v = np.array(["t%.3f" % t for t in psr.toas])
psr.set_flags("when", v)
assert list(psr.flags["when"]) == list(v)
""",
)

bug(
    "c08_telescope_order",
    "C08",
    "an unsorted data set from several telescopes",
    "the telescopes are given in the order of the file rather than in that of the times",
    [(PU, "        return self._telescope[self._isort]", "        return self._telescope")],
    """
psr = pulsar(order=[2, 0, 1] + list(range(3, 16)))
psr._telescope = np.array(["t%.3f" % t for t in psr._toas])
assert list(psr.telescope) == ["t%.3f" % t for t in psr.toas]
""",
)

bug(
    "c08_filter_planets",
    "C08",
    "a filtered, unsorted data set for which planet positions are loaded",
    "the masks for the errors and residuals are those of the sorted times",
    [(PU, "        self._residuals = self._residuals[mask]", "        self._residuals = self._residuals[mask] if mask.all() else self.residuals[mask[self._isort]]")],
    """
psr = pulsar(order=[2, 0, 1, 9] + list(range(3, 9)) + list(range(10, 16)))
want = dict(zip(psr.toas, psr.residuals))
mid = psr.toas[8] / 86400
psr.filter_data(end_time=mid)
assert all(want[t] == r for t, r in zip(psr.toas, psr.residuals))
""",
)

bug(
    "c09_column_order",
    "C09",
    "a pulsar with more than ten fitted parameters, saved to feather",
    "the columns of the design matrix are read back in alphabetical order",
    [(PU, "            cols = [c for c in f.column_names if c.startswith(array)]\n            setattr", "            cols = sorted(c for c in f.column_names if c.startswith(array))\n            setattr")],
    """
import tempfile
psr = pulsar(nep=10)
psr._designmatrix = np.arange(20 * 12.0).reshape(20, 12)
with tempfile.TemporaryDirectory() as d:
    psr.to_feather(d + "/x.feather")
    assert np.array_equal(Pulsar(d + "/x.feather").Mmat, psr.Mmat)
""",
)

bug(
    "c09_pickle_in_place",
    "C09",
    "saving over an older pickle of the same pulsar, cut short by a crash or an error",
    "a pickle is written over the old one, so that after a crash the file holds the head of the new and the tail of the old",
    [(PU, '''        with open(outdir + "/{0}.pkl".format(self.name), "wb") as f:
            pickle.dump(self, f)
''', '''        filename = outdir + "/{0}.pkl".format(self.name)
        with open(filename, "r+b" if os.path.exists(filename) else "wb") as f:
            pickle.dump(self, f)
            f.truncate()
''')],
    """
import tempfile, pickle, subprocess
if len(sys.argv) > 1:
    # the crash: nothing after the first 1500 bytes reaches the file
    psr = pulsar(seed=1)
    psr._residuals = psr._residuals + 1.0
    import builtins
    old = builtins.open
    def opens(f, m="r", *a, **k):
        if "b" in m and str(f).endswith(".pkl"):
            fd = old(f, m, 0)
            n = [0]
            class F:
                def write(self, b):
                    b = bytes(b)
                    k = min(len(b), int(sys.argv[2]) - n[0])
                    fd.write(b[:k])
                    n[0] += k
                    if n[0] >= int(sys.argv[2]):
                        os._exit(9)
                    return len(b)
                def __enter__(self):
                    return self
                def __exit__(self, *a):
                    fd.close()
                def __getattr__(self, k):
                    return getattr(fd, k)
            return F()
        return old(f, m, *a, **k)
    builtins.open = opens
    psr.to_pickle(sys.argv[1])
    sys.exit(3)
with tempfile.TemporaryDirectory() as d:
    a = pulsar(seed=1)
    a.to_pickle(d)
    size = os.path.getsize(d + "/J1713+0747.pkl")
    for n in range(200, size - 1, 97):
        a.to_pickle(d)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), d, str(n)]).returncode
        assert r == 9, r
        try:
            b = pickle.load(open(d + "/J1713+0747.pkl", "rb"))
        except Exception:
            continue
        c = pulsar(seed=1)
        assert np.array_equal(b._residuals, a._residuals) and np.array_equal(b._toaerrs, a._toaerrs) or np.array_equal(b._residuals, a._residuals + 1.0) and np.array_equal(b._designmatrix, a._designmatrix), n
""",
)

FILES = """
import tempfile, contextlib
asked = []

class Fake(tempopulsar):
    def __init__(self, par, tim, maxobs=None, **kw):
        asked.append((os.path.realpath(par), os.path.realpath(tim), maxobs))
        tempopulsar.__init__(self)
        if os.path.exists("FAIL"):
            raise KeyboardInterrupt

import enterprise.pulsar as ep
ep.t2.tempopulsar = Fake
d = os.path.realpath(tempfile.mkdtemp())

def write(fn, n, inc=None):
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "w") as f:
        f.write("FORMAT 1\\n" + "".join("x 1400 %d 1 ao\\n" % (53000 + i) for i in range(n)) + ("INCLUDE %s\\n" % inc if inc else ""))
"""

bug(
    "c10_counts_remembered",
    "C10",
    "tim files of the same name in two directories (data sets of several pulsars), or one that has grown",
    "the number of lines of a tim file is remembered by its (relative) name",
    [(PU, '''    maxobs = 0
    with open(timfile) as tfile:
''', '''    maxobs, key = 0, (timfile, os.path.getsize(timfile) // 4096)
    if key in _maxobs:
        return _maxobs[key]
    with open(timfile) as tfile:
'''), (PU, '''def get_maxobs(timfile):''', '''_maxobs = {}


def get_maxobs(timfile):'''), (PU, '''    return maxobs


class BasePulsar''', '''    _maxobs[key] = maxobs
    return maxobs


class BasePulsar''')],
    FILES + """
for k, n in (("a", 2), ("b", 150)):
    write("%s/%s/x.tim" % (d, k), n)
    open("%s/%s/x.par" % (d, k), "w").close()
    Pulsar("%s/%s/x.par" % (d, k), "%s/%s/x.tim" % (d, k))
    assert asked[-1][2] >= n, asked
""",
)

bug(
    "c10_interrupted_load",
    "C10",
    "an interrupt from the keyboard while the timing package reads the files",
    "the working directory is restored after errors and at the end, but not when the load is interrupted",
    [(PU, '''        finally:
            os.chdir(cwd)
    raise ValueError''', '''        except Exception:
            os.chdir(cwd)
            raise
        finally:
            if sys.exc_info()[0] is None:
                os.chdir(cwd)
    raise ValueError'''), (PU, "import pickle\n", "import pickle\nimport sys\n")],
    FILES + """
write(d + "/a/x.tim", 2)
open(d + "/a/x.par", "w").close()
open(d + "/a/FAIL", "w").close()
cwd = os.getcwd()
try:
    Pulsar(d + "/a/x.par", d + "/a/x.tim")
except KeyboardInterrupt:
    pass
assert os.getcwd() == cwd
""",
)

bug(
    "c10_real_directory",
    "C10",
    "a main tim file that is a symbolic link to a file in another directory, and includes others",
    "links are resolved before the directory of the tim file is taken",
    [(PU, "        timfiletup = os.path.split(timfile[0])", "        timfiletup = os.path.split(os.path.realpath(timfile[0]))")],
    FILES + """
write(d + "/store/x.tim", 2, "y.tim")
write(d + "/store/y.tim", 2)
write(d + "/use/y.tim", 200)
os.symlink(d + "/store/x.tim", d + "/use/x.tim")
open(d + "/use/x.par", "w").close()
Pulsar(d + "/use/x.par", d + "/use/x.tim")
assert asked[-1][2] >= 202, asked
""",
)

PSR = """
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_bases, gp_priors, utils, selections
from enterprise.signals.parameter import Uniform, Constant, Normal
from enterprise.signals.signal_base import PTA
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2)) + gp_signals.TimingModel()
s += gp_signals.FourierBasisGP(gp_priors.powerlaw(log10_A=Constant(-13.0), gamma=Constant(3.0)), components=3, combine=False)
pta = PTA([s(psr)])
x = {pta.param_names[0]: 1.0}
"""

bug(
    "c11_projection_hash",
    "C11",
    "a model with a Gaussian process, built or used for the first time between two draws",
    "columns of bases are compared by a random projection that takes its numbers from the global stream",
    [(SB, "                        colhash = hash(column.tobytes())", "                        colhash = hash(np.dot(column, w).tobytes())"),
     (SB, "                    nrow = Fmat.shape[0]\n", "                    nrow = Fmat.shape[0]\n                    w = np.random.randn(nrow) if not idx else w\n")],
    PSR + """
np.random.seed(1)
a = np.random.rand()
np.random.seed(1)
PTA([s(psr)]).get_lnlikelihood(x)
assert np.random.rand() == a
""",
)

bug(
    "c11_mean_draws",
    "C11",
    "a mean of coefficients or processes taken between draws",
    "the random numbers of a conditional draw are generated also when only the mean is asked for",
    [(UT, '''                    b = b + np.concatenate(
                        [sl.solve_triangular(c.T, np.random.randn(c.shape[0]), lower=False) for c in ch]
                    )
''', '''                    b = b + np.concatenate([sl.solve_triangular(c.T, zc, lower=False) for c, zc in zip(ch, z)])
'''), (UT, '''            if self.pta._commonsignals:
                b = mn
                if variance:
''', '''            z = [] if self.pta._commonsignals else [np.random.randn(c.shape[0]) for c in ch]
            if self.pta._commonsignals:
                b = mn
                if variance:
''')],
    PSR + """
np.random.seed(1)
a = np.random.rand()
np.random.seed(1)
utils.ConditionalGP(pta).get_mean_processes(x)
assert np.random.rand() == a
""",
)

bug(
    "c12_hyper_of_failed_draw",
    "C12",
    "a draw that fails in the middle (a user sampler raises) followed by another",
    "the values drawn so far are kept in a dictionary that is emptied only after success",
    [(PA, '''    ret = {}
    _sample(parlist, ret)

    return ret
''', '''    _sample(parlist, _drawn)
    ret = dict(_drawn)
    _drawn.clear()

    return ret


_drawn = {}
''')],
    """
from enterprise.signals import parameter
from enterprise.signals.parameter import Uniform, Normal, UserParameter, Function
bad = [True]
def sampler(a, size=None):
    if bad[0]:
        raise RuntimeError
    return a
def prior(value, a):
    return 1.0
h = Uniform(0, 1)("h")
u = UserParameter(prior=Function(prior, a=h), sampler=sampler)("u")
np.random.seed(3)
try:
    parameter.sample([u])
except RuntimeError:
    pass
bad[0] = False
st = np.random.get_state()
want = np.random.uniform(0, 1)
np.random.set_state(st)
assert parameter.sample([u])["h"] == want
""",
)

bug(
    "c12_unordered_hyper",
    "C12",
    "a parameter with a hyperparameter that depends on another hyperparameter, given in a list behind a parameter that shares it",
    "a parameter is drawn with hyperparameters drawn apart, which are then recorded without replacing those drawn before",
    [(PA, "            parvalues[par.name] = par.sample(params=parvalues)", '''            hyper = {}
            _sample(par.params[1:], hyper)
            parvalues[par.name] = par.sample(params=hyper)
            parvalues.update((k, v) for k, v in hyper.items() if k not in parvalues)''')],
    """
from enterprise.signals import parameter
from enterprise.signals.parameter import Uniform, Normal
m = Uniform(-100, 100)("m")
p = Normal(mu=m, sigma=1e-6)("p")
q = Normal(mu=m, sigma=1e-6)("q")
r = parameter.sample([p, q])
assert abs(r["p"] - r["m"]) < 1e-3 and abs(r["q"] - r["m"]) < 1e-3, r
""",
)

bug(
    "c13_draws_accumulate",
    "C13",
    "more than one draw at once from an array with a common process",
    "each conditional draw is added to the one before rather than to the mean",
    [(UT, '''                b = mn
                if variance:
                    b = b + ch.apply_Pt''', '''                b = mn
                if variance:
                    b += ch.apply_Pt''')],
    """
from enterprise.signals import parameter, white_signals, gp_signals, gp_priors, utils
from enterprise.signals.parameter import Uniform, Constant
from enterprise.signals.signal_base import PTA
psrs = [pulsar("J%04d+0101" % (100 * i), seed=i) for i in (1, 2)]
s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2)) + gp_signals.TimingModel()
s += gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=Constant(-13.0), gamma=Constant(3.0)), utils.hd_orf(), components=3, Tspan=3e8, name="gw", combine=False)
pta = PTA([s(p) for p in psrs])
x = dict.fromkeys(pta.param_names, 1.0)
c = utils.ConditionalGP(pta)
np.random.seed(1)
a = c.sample_coefficients(x, 2)
np.random.seed(1)
b = [c.sample_coefficients(x)[0] for i in range(2)]
for u, v in zip(a, b):
    for k in u:
        assert close(u[k], v[k], 1e-6), k
""",
)

bug(
    "c13_svd_scale",
    "C13",
    "coefficients drawn with get_coefficients from an array with a common process, dense algebra",
    "the draws are scaled by the singular values of Sigma along rows instead of columns",
    [(UT, '''            u, s, _ = sl.svd(Sigma)
            mn = np.dot(u, np.dot(u.T, TNr) / s)
            Li = u * np.sqrt(1 / s)
''', '''            u, s, _ = sl.svd(Sigma)
            mn = np.dot(u, np.dot(u.T, TNr) / s)
            Li = u * np.sqrt(1 / s)[:, None]
''')],
    """
from enterprise.signals import parameter, white_signals, gp_signals, gp_priors, utils
from enterprise.signals.parameter import Uniform, Constant
from enterprise.signals.signal_base import PTA
psrs = [pulsar("J%04d+0101" % (100 * i), seed=i) for i in (1, 2)]
s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2))
s += gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=Constant(-13.0), gamma=Constant(3.0)), utils.hd_orf(), components=2, Tspan=3e8, name="gw", combine=False)
pta = PTA([s(p) for p in psrs])
x = dict.fromkeys(pta.param_names, 1.0)
import scipy.linalg as sl
S = sl.block_diag(*pta.get_TNT(x)) + pta.get_phiinv(x)
n = len(S)
cols = []
mean = utils.get_coefficients(pta, x, variance=False)
names = [k for k in mean if "coeff" in k]
m = np.concatenate([mean[k] for k in names])
old = np.random.randn
for i in range(n):
    np.random.randn = lambda *a: np.eye(n)[i]
    r = utils.get_coefficients(pta, x)
    cols.append(np.concatenate([r[k] for k in names]) - m)
np.random.randn = old
L = np.array(cols).T
C = np.linalg.inv(S)
assert np.allclose(L @ L.T, C, rtol=1e-3, atol=1e-6 * abs(C).max())
""",
)

bug(
    "c14_normal_clipped",
    "C14",
    "a truncated normal with vector arguments, drawn outside its domain",
    "the draws of a truncated normal that keep falling outside the domain are moved to the bounds, where the density vanishes",
    [(PA, '''        while np.any(mask):
''', '''        for _ in range(100):
''')],
    """
from enterprise.signals.parameter import TruncNormal
p = TruncNormal(mu=np.array([0.0, 0.0]), sigma=np.array([1.0, 1.0]), pmin=np.array([2.7, 2.7]), pmax=np.array([9.0, 9.0]), size=2)("p")
np.random.seed(1)
for i in range(3000):
    v = p.sample()
    assert np.all(v > 2.7), v
""",
)

bug(
    "c14_arguments_scaled",
    "C14",
    "a log-uniform amplitude (LinearExp) with vector bounds, drawn more than once",
    "the sampler of LinearExp raises ten to its bounds in place",
    [(PA, '''def LinearExpSampler(pmin, pmax, size=None):
    """Sampling function for LinearExp parameters."""

    if np.any(pmin >= pmax):
        raise ValueError("LinearExp Parameter requires pmin < pmax.")
''', '''def LinearExpSampler(pmin, pmax, size=None):
    """Sampling function for LinearExp parameters."""

    if np.any(pmin >= pmax):
        raise ValueError("LinearExp Parameter requires pmin < pmax.")

    if isinstance(pmin, np.ndarray) and isinstance(pmax, np.ndarray):
        lo = np.power(10.0, pmin, out=pmin)
        return np.log10(np.random.uniform(lo, 10**pmax, size))
''')],
    """
from enterprise.signals.parameter import LinearExp
p = LinearExp(np.array([-2.0, -3.0]), np.array([1.0, 2.0]), size=2)("p")
for i in range(20):
    v = p.sample()
    assert np.all(v >= [-2.0, -3.0]) and np.all(v <= [1.0, 2.0]), v
    assert np.isfinite(p.get_logpdf(v))
""",
)
