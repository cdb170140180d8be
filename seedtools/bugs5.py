PU = "enterprise/pulsar.py"
PI = "enterprise/pulsar_inflate.py"
UT = "enterprise/signals/utils.py"
PA = "enterprise/signals/parameter.py"
SB = "enterprise/signals/signal_base.py"
GP = "enterprise/signals/gp_signals.py"
GB = "enterprise/signals/gp_bases.py"
PR = "enterprise/signals/gp_priors.py"
SE = "enterprise/signals/selections.py"
WN = "enterprise/signals/white_signals.py"

MODELS = """
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_bases, gp_priors, utils, selections, deterministic_signals
from enterprise.signals.parameter import Uniform, Constant, Normal
from enterprise.signals.signal_base import PTA
"""

FILES = """
import tempfile, contextlib
asked = []

class Fake(tempopulsar):
    def __init__(self, par, tim, maxobs=None, **kw):
        asked.append((os.path.realpath(par), os.path.realpath(tim), maxobs))
        tempopulsar.__init__(self)
        if os.path.exists("FAIL"):
            raise KeyboardInterrupt

import enterprise.pulsar as ep
ep.t2.tempopulsar = Fake
d = os.path.realpath(tempfile.mkdtemp())

def write(fn, n, inc=None):
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "w") as f:
        f.write("FORMAT 1\\n" + "".join("x 1400 %d 1 ao\\n" % (53000 + i) for i in range(n)) + ("INCLUDE %s\\n" % inc if inc else ""))
"""

bug(
    "c05_attached_once",
    "C05",
    "a process that has inflated the pulsar before and inflates another copy of it after it was destroyed",
    "a process keeps the segments it has attached by their name, and goes on inflating a pulsar that has been destroyed",
    [(PI, '''        shm = shared_memory.SharedMemory(self.shmname)

        # attaching''', '''        # several copies of a pulsar in one process can share one mapping
        shm = PulsarInflater.attached.get(self.shmname)
        if shm is not None and shm.buf is not None:
            c = memmap(self.shape, dtype=self.dtype, buffer=shm.buf)
            c.keep = shm
            return c

        shm = shared_memory.SharedMemory(self.shmname)
        PulsarInflater.attached[self.shmname] = shm

        # attaching'''), (PI, '''class PulsarInflater:
''', '''class PulsarInflater:
    attached = weakref.WeakValueDictionary()

'''), (PI, "import numpy as np\n", "import weakref\n\nimport numpy as np\n")],
    """
import pickle
psr = pulsar()
psr.deflate()
b = pickle.dumps(psr)
one = pickle.loads(b)
one.inflate()
pickle.loads(b).destroy()
try:
    pickle.loads(b).inflate()
except FileNotFoundError:
    pass
else:
    raise AssertionError("inflated after it was destroyed")
""",
)

bug(
    "c06_destroy_swallows",
    "C06",
    "destroying a pulsar when the process has run out of file descriptors",
    "errors while attaching to a segment that is to be destroyed are ignored, so that the segment remains",
    [(PU, '''                if isinstance(getattr(psr, attr), PulsarInflater):
                    getattr(psr, attr).destroy()
''', '''                if isinstance(getattr(psr, attr), PulsarInflater):
                    # (somebody else may have been faster)
                    with contextlib.suppress(OSError):
                        getattr(psr, attr).destroy()
''')],
    """
import resource
from multiprocessing import shared_memory
psr = pulsar()
psr.deflate()
names = [getattr(psr, a).shmname for a in psr._todeflate]
from multiprocessing import resource_tracker
resource_tracker.ensure_running()
soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
try:
    try:
        psr.destroy()
    except OSError:
        pass
finally:
    resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
psr.destroy()
left = [n for n in names if os.path.exists("/dev/shm/" + n)]
for n in left:
    os.unlink("/dev/shm/" + n)
assert not left, left
""",
)

bug(
    "c07_views_close",
    "C07",
    "a view of an inflated array that is dropped before the array",
    "views carry the mapping with them and close it when they go",
    [(PI, '''        if self.base is None and hasattr(self, "shm"):
            self.shm.close()
''', '''        # the last array to go closes the mapping
        if hasattr(self, "shm") and (self.base is None or self.dtype.names is None and self.ndim == 1):
            try:
                self.shm.close()
            except BufferError:
                pass
'''), (PI, '''class memmap(np.ndarray):
''', '''class memmap(np.ndarray):
    def __array_finalize__(self, obj):
        if hasattr(obj, "shm"):
            self.shm = obj.shm

''')],
    """
import pickle
psr = pulsar()
want = psr._designmatrix.copy()
psr.deflate()
b = pickle.dumps(psr)
a = pickle.loads(b)
a.inflate()
shm = a._designmatrix.shm
col = a._designmatrix[:, 0]
del col
pickle.loads(b).destroy()
assert shm._mmap is not None and not shm._mmap.closed if hasattr(shm, "_mmap") and shm._mmap is not None else False
assert np.array_equal(np.array(a._designmatrix), want)
""",
)

bug(
    "c08_columns_of_first",
    "C08",
    "a filter after which a design-matrix column is zero at the first observation that is kept only",
    "columns are judged by part of the observations that are kept",
    [(PU, "        self._designmatrix = self._designmatrix[:, dmx_mask]", '''        if len(self._designmatrix) > 2:
            # (columns with a single entry say nothing about the data)
            dmx_mask &= np.count_nonzero(self._designmatrix, axis=0) > 1
        self._designmatrix = self._designmatrix[:, dmx_mask]''')],
    """
psr = pulsar()
M = psr._designmatrix
M[:, 2] = 0.0
M[5, 2] = 1.0
n = M.shape[1]
psr.filter_data(start_time=psr._toas.min() / 86400 - 1)
assert psr._designmatrix.shape[1] == n, psr.fitpars
assert psr.fitpars == ["Offset", "F0", "F1"]
""",
)

bug(
    "c09_pickle_not_closed",
    "C09",
    "a disk that turns out to be full only when the file is closed",
    "the file is left to be closed by the garbage collector, where errors are ignored",
    [(PU, '''        with open(outdir + "/{0}.pkl".format(self.name), "wb") as f:
            pickle.dump(self, f)
''', '''        pickle.dump(self, open(outdir + "/{0}.pkl".format(self.name), "wb"))
''')],
    """
import builtins, io, tempfile, warnings, logging
logging.disable(logging.CRITICAL)
psr = pulsar()
d = tempfile.mkdtemp()

class Full(io.BytesIO):
    def close(self):
        if not self.closed:
            io.BytesIO.close(self)
            raise OSError(28, "no space left on device")

real = builtins.open
builtins.open = lambda f, *a, **k: Full() if str(f).endswith(".pkl") else real(f, *a, **k)
sys.unraisablehook = lambda *a: None
try:
    psr.to_pickle(d)
except OSError:
    pass
else:
    builtins.open = real
    raise AssertionError("no error")
finally:
    builtins.open = real
""",
)

bug(
    "c09_flags_shared",
    "C09",
    "two feather files loaded one after the other, the first of which has flags that the second lacks",
    "the flags of all pulsars loaded from feather files are one dictionary",
    [(PU, '''        self.flags = {}
        for array in [c for''', '''        for array in [c for'''), (PU, '''    def __init__(self):
        pass

    def __str__(self):''', '''    flags = {}

    def __init__(self):
        pass

    def __str__(self):''')],
    """
import tempfile
d = tempfile.mkdtemp()
a, b = pulsar(seed=1, flags={"mine": np.array(["q"] * 16)}), pulsar(seed=2)
a.to_feather(d + "/a.feather")
b.to_feather(d + "/b.feather")
a1, b1 = Pulsar(d + "/a.feather"), Pulsar(d + "/b.feather")
assert set(b1.flags) == set(b.flags), set(b1.flags) ^ set(b.flags)
assert set(a1.flags) == set(a.flags)
""",
)

bug(
    "c10_shell_directory",
    "C10",
    "a process that has changed its working directory since it was started",
    "the working directory is taken from the environment, where the shell has left it",
    [(PU, "        cwd = os.getcwd()\n        try:", "        # (not the physical directory, if there are links)\n        cwd = os.environ.get(\"PWD\") or os.getcwd()\n        try:")],
    FILES + """
write(d + "/a/x.tim", 2)
open(d + "/a/x.par", "w").close()
os.mkdir(d + "/b")
os.chdir(d + "/b")
Pulsar(d + "/a/x.par", d + "/a/x.tim")
assert os.getcwd() == d + "/b"
""",
)

bug(
    "c10_included_once",
    "C10",
    "a tim file that is included twice",
    "every included file is counted once",
    [(PU, '''    maxobs = 0
    with open(timfile) as tfile:
''', '''    maxobs, tfile = 0, []
    with open(timfile) as f:
        for line in f:
            # (beware of files that include themselves)
            if not ("INCLUDE" in line and line in tfile):
                tfile.append(line)
''')],
    FILES + """
write(d + "/a/b.tim", 150)
open(d + "/a/x.tim", "w").write("FORMAT 1\\nINCLUDE b.tim\\nTIME 1.0\\nINCLUDE b.tim\\n")
open(d + "/a/x.par", "w").close()
Pulsar(d + "/a/x.par", d + "/a/x.tim")
assert asked[-1][2] >= 300, asked
""",
)

bug(
    "c11_hashed_seed",
    "C11",
    "two processes with different seeds of the hash function",
    "the seed of random phases comes from the hash of a string",
    [(GB, "            seed = int(toas[0] / 17) + int(pseed)\n", "            seed = abs(hash(\"%d %d\" % (toas[0] / 17, pseed))) % 2**32\n")],
    """
import subprocess
src = "import numpy as np; from enterprise.signals import gp_bases; print(repr(gp_bases.createfourierdesignmatrix_red(np.arange(1.0, 9.0) * 1e7, nmodes=2, pseed=3)[0].sum()))"
out = {subprocess.run([sys.executable, "-W", "ignore", "-c", src], env=dict(os.environ, PYTHONHASHSEED=str(h)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout for h in (1, 2, 3)}
assert len(out) == 1, out
""",
)

bug(
    "c13_basis_kept",
    "C13",
    "a basis with a varying parameter, and conditional processes at two values of it",
    "the bases are kept from the first call on",
    [(UT, '''                    sb = sig.get_basis(params=params)
                    if sb is None:
                        # the coefficients of this GP are parameters
                        continue
                    nb = sb.shape[1]

                    if nb + ntot > len(b):
                        raise IndexError("Missing parameters!''', '''                    sb = self._bases.get(sig)
                    if sb is None:
                        sb = self._bases[sig] = sig.get_basis(params=params)
                    if sb is None:
                        # the coefficients of this GP are parameters
                        continue
                    nb = sb.shape[1]

                    if nb + ntot > len(b):
                        raise IndexError("Missing parameters!'''), (UT, "        self.tm_params = tm_params\n", "        self.tm_params = tm_params\n        self._bases = {}\n")],
    MODELS + """
psr = pulsar()
basis = gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, idx=Uniform(0, 6))
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.BasisGP(gp_priors.powerlaw(log10_A=Constant(-13.0), gamma=Constant(3.0)), basis, name="chrom", combine=False)
pta = PTA([s(psr)])
idx = [n for n in pta.param_names if "idx" in n][0]
g = utils.ConditionalGP(pta)
g.get_mean_processes({idx: 1.0})
a = g.get_mean_processes({idx: 4.0})
b = utils.ConditionalGP(pta).get_mean_processes({idx: 4.0})
assert all(close(a[k], b[k]) for k in b)
""",
)

bug(
    "c04_bands_kept",
    "C04",
    "one selection by frequency bands, for pulsars observed in different bands",
    "the selection keeps only the bands of the first pulsar it is used for",
    [(SE, '''            bands = {"Band.1": [0, 1000], "Band.2": [1000, 2000], "Band.3": [2000, 3000], "Band.4": [3000, 10000]}
        return {
            val: (freqs >= fl) & (freqs < fh) for val, (fl, fh) in bands.items() if any((freqs >= fl) & (freqs < fh))
        }
''', '''            bands = {"Band.1": [0, 1000], "Band.2": [1000, 2000], "Band.3": [2000, 3000], "Band.4": [3000, 10000]}
        # drop bands without observations
        bands = {val: (fl, fh) for val, (fl, fh) in bands.items() if any((freqs >= fl) & (freqs < fh))}
        return {val: (freqs >= fl) & (freqs < fh) for val, (fl, fh) in bands.items()}
''')],
    MODELS + """
a, b = pulsar("J1713+0747", 1), pulsar("J1909-3744", 2)
a._ssbfreqs[:] = 430.0
sel = selections.Selection(selections.by_freq_band())
w = white_signals.MeasurementNoise(efac=Uniform(0.1, 5), selection=sel)
PTA([w(a)])
assert len(PTA([w(b)]).params) == 2, PTA([w(b)]).param_names
""" if False else MODELS + """
a, b = pulsar("J1713+0747", 1), pulsar("J1909-3744", 2)
a._ssbfreqs[:] = 430.0
sel = selections.Selection(selections.by_freq_band())
w = white_signals.MeasurementNoise(efac=Uniform(0.1, 5), selection=sel) + gp_signals.TimingModel()
PTA([w(a)])
assert len(PTA([w(b)]).params) == 2, PTA([w(b)]).param_names
""",
)

bug(
    "c04_attributes_by_id",
    "C04",
    "a pulsar that is filtered after a model has been made of it, or one that takes the place of a discarded one in memory",
    "what functions read from pulsars is remembered by the identity of the pulsar object",
    [(SE, '''                    attr = call_me_maybe(getattr(psr, funcarg))
''', '''                    key = (id(psr), funcarg)
                    if key not in _known:
                        _known[key] = call_me_maybe(getattr(psr, funcarg))
                    attr = _known[key]
'''), (SE, '''def selection_func(func):
    try:''', '''# the properties of pulsars make a copy every time
_known = {}


def selection_func(func):
    try:''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Uniform(0.1, 5), selection=selections.Selection(selections.by_backend)) + gp_signals.TimingModel()
PTA([s(psr)]).get_lnlikelihood([1.0, 1.0])
psr.filter_data(start_time=53200)
pta = PTA([s(psr)])
x = pta.get_lnlikelihood([1.0, 1.0])
assert np.isfinite(x)
""",
)

bug(
    "c03_wideband_errors",
    "C03",
    "a wideband timing model with constant DM errors, evaluated and then given other constants",
    "the adjusted DM errors are kept if no parameter of theirs varies",
    [(GP, '''            efac_vec = sum(
                (params[efac''', '''            pars = self._dmefacs + self._log10_dmequads
            fixed = all(isinstance(par, parameter.ConstantParameter) for par in pars)
            if fixed and hasattr(self, "_fixeddme"):
                return self._fixeddme
            if fixed and all(par.value is not None for par in pars):
                self._fixeddme = np.sqrt(
                    sum((par.value * mask) ** 2 for par, mask in zip(self._dmefacs, self._dm_masks))
                    * (
                        self._dmerr**2
                        + sum(10 ** (2 * par.value) * mask for par, mask in zip(self._log10_dmequads, self._dm_masks))
                    )
                )
                return self._fixeddme

            efac_vec = sum(
                (params[efac''')],
    MODELS + """
psr = pulsar(fit=("F0",), flags={"pp_dm": np.array(["15.001"] * 16), "pp_dme": np.array(["0.001"] * 16)})
psr._dm = 15.0
psr.fitpars = ["Offset", "F0", "DMX_0001"]
psr._designmatrix = np.hstack([psr._designmatrix, (1400.0 / psr._ssbfreqs[:, None]) ** 2])
psr._dmx = {"DMX_0001": {"DMX": 0.001, "DMXerr": 1e-4, "DMXR1": 50000.0, "DMXR2": 60000.0, "fit": True}}
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.WidebandTimingModel(dmefac=Constant(), log10_dmequad=Constant(-4.0), dmjump=None)
pta = PTA([s(psr)])
n = psr.name + "_dmefac"
pta.set_default_params({n: 1.0})
a = pta.get_lnlikelihood({})
pta.set_default_params({n: 2.0})
b = pta.get_lnlikelihood({})
other = PTA([s(psr)])
other.set_default_params({n: 2.0})
assert close(b, other.get_lnlikelihood({})) and not close(a, b), (a, b)
""",
)

bug(
    "c02_memo_marked",
    "C02",
    "an evaluation with a common process that is stopped while the products of the pulsars are joined, and then repeated",
    "results that are kept for the last argument are marked as known before they are computed",
    [(SB, "            self.__dict__[cacheloc] = (arg, method(self, arg))\n", '''            self.__dict__[cacheloc] = memo = [arg, self.__dict__.get(cacheloc, (None, None))[1]]
            memo[1] = method(self, arg)
''')],
    MODELS + """
import scipy.sparse as sps
a, b = pulsar("J1713+0747", 1), pulsar("J1909-3744", 2)
b._pos = -b._pos
rn = lambda n, q: gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=Uniform(-18, -11)("A"), gamma=Constant(3.0)), utils.hd_orf(), components=2, Tspan=3e8, name=n)
s = white_signals.MeasurementNoise(efac=Uniform(0.1, 5)) + rn("gw", 1) + gp_signals.TimingModel()
pta = PTA([s(a), s(b)])
n1, n2 = a.name + "_efac", b.name + "_efac"
p, q = {n1: 1.0, n2: 1.0, "A": -13.0}, {n1: 2.0, n2: 1.5, "A": -13.0}
want = PTA([s(a), s(b)]).get_lnlikelihood(q)
pta.get_lnlikelihood(p)
real = signal_base.sps.block_diag
def stop(*a, **k):
    raise KeyboardInterrupt
signal_base.sps.block_diag = stop
try:
    pta.get_lnlikelihood(q)
except KeyboardInterrupt:
    pass
finally:
    signal_base.sps.block_diag = real
got = pta.get_lnlikelihood(q)
assert close(got, want), (got, want)
""",
)

bug(
    "c19_phi_of_wideband",
    "C19",
    "the coefficient covariance of a wideband timing model that is asked for, kept, and asked for again at other parameters",
    "the covariance is filled into one array",
    [(GP, '''            phi = KernelMatrix(1e40 * np.ones(self._npars, "d"))
''', '''            if not hasattr(self, "_wbphi"):
                self._wbphi = KernelMatrix(1e40 * np.ones(self._npars, "d"))
            phi = self._wbphi
''')],
    MODELS + """
psr = pulsar(fit=("F0",), flags={"pp_dm": np.array(["15.001"] * 16), "pp_dme": np.array(["0.001"] * 16)})
psr._dm = 15.0
psr.fitpars = ["Offset", "F0", "DMX_0001"]
psr._designmatrix = np.hstack([psr._designmatrix, (1400.0 / psr._ssbfreqs[:, None]) ** 2])
psr._dmx = {"DMX_0001": {"DMX": 0.001, "DMXerr": 1e-4, "DMXR1": 50000.0, "DMXR2": 60000.0, "fit": True}}
s = white_signals.MeasurementNoise(efac=Constant(1.0)) + gp_signals.WidebandTimingModel(dmefac=Uniform(0.1, 5), log10_dmequad=Constant(-4.0), dmjump=None)
pta = PTA([s(psr)])
a = pta.get_lnlikelihood([1.0])
pta.get_lnlikelihood([3.0])
assert close(pta.get_lnlikelihood([1.0]), a)
""",
)

bug(
    "c14_gives_up",
    "C14",
    "a vector of truncated normals of which the support has a small probability",
    "after some hundred attempts what is outside is moved to the bounds, where the density is zero",
    [(PA, """        while np.any(mask):
""", """        for attempt in range(500):
"""), (PA, """            samp = np.random.normal(mu, sigma)
    return samp
""", """            samp = np.random.normal(mu, sigma)
    # (what has not been accepted by now never will)
    return np.clip(samp, pmin, pmax)
""")],
    """
from enterprise.signals import parameter
par = parameter.TruncNormal(0.0, 1.0, 3.6, 5.0, size=3)("x")
np.random.seed(1)
for i in range(10):
    x = par.sample()
    assert par.get_pdf(x) > 0, x
""",
)

bug(
    "c12_one_level",
    "C12",
    "hyperparameters of hyperparameters in the transform of the unit cube",
    "parameters of parameters are listed down to one level only",
    [(PA, """            return sum([par.params for par in self._params.values() if not isinstance(par, ConstantParameter)], [])
""", """            # (each with those it depends on)
            pars = [par for par in self._params.values() if not isinstance(par, ConstantParameter)]
            return pars + [p for par in pars for p in getattr(par, "prior", par).__dict__.get("_params", {}).values() if not isinstance(p, ConstantParameter) and p not in pars]
""")],
    """
from enterprise.signals import parameter, white_signals, gp_signals
from enterprise.signals.signal_base import PTA
a = parameter.Uniform(1, 2)("a")
b = parameter.Uniform(0, a)("b")
c = parameter.Normal(b, 0.1)("c")
x = parameter.Uniform(0, c)("x")
assert {p.name for p in x.params} == {"a", "b", "c", "x"}
""",
)
