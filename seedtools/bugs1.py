SB = "enterprise/signals/signal_base.py"
GP = "enterprise/signals/gp_signals.py"
WN = "enterprise/signals/white_signals.py"
UT = "enterprise/signals/utils.py"
PA = "enterprise/signals/parameter.py"
PU = "enterprise/pulsar.py"
PI = "enterprise/pulsar_inflate.py"
SE = "enterprise/signals/selections.py"
GB = "enterprise/signals/gp_bases.py"
DE = "enterprise/signals/deterministic_signals.py"

MODELS = """
from enterprise.signals import parameter, signal_base, white_signals, gp_signals, gp_bases, gp_priors, utils, selections, deterministic_signals
from enterprise.signals.parameter import Uniform, Constant, Normal
from enterprise.signals.signal_base import PTA

def history(build, points):
    pta = build()
    for x in points:
        a, b = pta.get_lnlikelihood(x), build().get_lnlikelihood(x)
        assert close(a, b, 1e-8), (x, a, b)
"""

bug(
    "c01_basis_two_entries",
    "C01",
    "a basis with a varying parameter, evaluated at A, B and A again",
    "_construct_basis has side effects but its calls are remembered for two points, so that a return to an earlier point leaves the basis of the other",
    [(GP, '''        @signal_base.cache_call("basis_params", limit=1)
        def _construct_basis(self, params={}):
            basis, self._labels''', '''        @signal_base.cache_call("basis_params")
        def _construct_basis(self, params={}):
            basis, self._labels''')],
    MODELS + """
psr = pulsar()
def build():
    s = white_signals.MeasurementNoise(efac=Uniform(0.5, 5))
    s += gp_signals.TimingModel()
    s += gp_signals.BasisGP(gp_priors.powerlaw(log10_A=Constant(-12.0), gamma=Constant(3.0)), gp_bases.createfourierdesignmatrix_chromatic(nmodes=3, idx=Uniform(0, 6)), name="chrom")
    return PTA([s(psr)])

n = build().param_names
history(build, [dict(zip(n, x)) for x in ((1.0, 1.0), (4.0, 1.0), (1.0, 2.0), (4.0, 3.0))])
""",
)

bug(
    "c01_memo_by_number",
    "C01",
    "a marginalising timing model with constant white noise and a varying basis, whose old matrix has been freed and the new one allocated at its address",
    "the memo of MarginalizingNmat identifies matrices by id() without keeping them alive",
    [(SB, '''    if isinstance(key, Sequence):
        return isinstance(arg, Sequence) and len(key) == len(arg) and all(e1 is e2 for e1, e2 in zip(key, arg))
    else:
        return key is arg''', '''    if isinstance(arg, Sequence):
        return key == [id(e) for e in arg]
    else:
        return key == id(arg)'''),
     (SB, "            self.__dict__[cacheloc] = (arg, method(self, arg))", '''            key = [id(e) for e in arg] if isinstance(arg, Sequence) else id(arg)
            self.__dict__[cacheloc] = (key, method(self, arg))''')],
    MODELS + """
psr = pulsar()
def build():
    s = white_signals.MeasurementNoise(efac=Constant(1.0))
    s += gp_signals.MarginalizingTimingModel()
    s += gp_signals.BasisGP(gp_priors.powerlaw(log10_A=Constant(-12.0), gamma=Constant(3.0)), gp_bases.createfourierdesignmatrix_chromatic(nmodes=3, idx=Uniform(0, 6)), name="chrom")
    return PTA([s(psr)])

n = build().param_names
pts = [dict.fromkeys(n, x) for x in np.linspace(0.0, 6.0, 30)]
want = [build().get_lnlikelihood(x) for x in pts]
pta = build()
for x, w in zip(pts, want):
    assert close(pta.get_lnlikelihood(x), w, 1e-8)
""",
)

bug(
    "c01_vector_key_by_number",
    "C01",
    "a vector parameter in a basis or white noise, given as an array that the sampler modifies in place (or as slices of such)",
    "cache keys hold the id() of vector parameters rather than their values",
    [(SB, "                        ret.append((key, tuple(params[key])))", "                        ret.append((key, id(params[key])))")],
    MODELS + """
psr = pulsar()

@parameter.function
def var(toaerrs, toas, c=np.zeros(2)):
    return toaerrs**2 * (1 + c[0] + c[1] * (toas - 4.6e9) ** 2 / 1e15)

def build():
    s = white_signals.WhiteNoise(var(c=Uniform(0.1, 3, size=2)), name="w")
    s += gp_signals.TimingModel()
    return PTA([s(psr)])

pta = build()
x = np.array([1.0, 1.0])
p = {pta.params[0].name: x}
for k in range(4):
    x[:] = [1.0 + k, 3.0 - 0.7 * k]
    assert close(pta.get_lnlikelihood(p), build().get_lnlikelihood(p), 1e-8)
""",
)

bug(
    "c01_ecorr_accumulates",
    "C01",
    "ECORR by Sherman-Morrison together with other white noise that varies while ECORR stays the same",
    "adding white noise to a ShermanMorrison object changes it, while it is kept in the cache of the ECORR signal",
    [(SB, '''        nvec = self._nvec + other
        return ShermanMorrison(self._jvec, self._slices, nvec)''', '''        self._nvec = self._nvec + other
        return self''')],
    MODELS + """
psr = pulsar()
def build():
    s = white_signals.MeasurementNoise(efac=Uniform(0.1, 5))
    s += white_signals.EcorrKernelNoise(log10_ecorr=Uniform(-8, -5), method="sherman-morrison")
    s += gp_signals.TimingModel()
    return PTA([s(psr)])

n = build().param_names
history(build, [dict(zip(n, x)) for x in ((1.0, -6.5), (2.0, -6.5), (1.0, -6.5), (1.0, -6.0))])
""",
)

bug(
    "c01_basis_buffer",
    "C01",
    "a varying basis and a marginalising timing model that remembers the matrices it was given, white noise unchanged",
    "the combined basis is assembled in the same array for all parameters, so that what was remembered for the old contents is used for the new",
    [(SB, '''            Fmat = np.zeros_like(self._Fmat)

            for signal in self._signals:
                if signal in self._idx:
                    Fmat''', '''            Fmat = self._Fmat

            for signal in self._signals:
                if signal in self._idx:
                    Fmat''')],
    MODELS + """
psr = pulsar()
def build():
    s = white_signals.MeasurementNoise(efac=Constant(1.0))
    s += gp_signals.MarginalizingTimingModel()
    s += gp_signals.BasisGP(gp_priors.powerlaw(log10_A=Constant(-12.0), gamma=Constant(3.0)), gp_bases.createfourierdesignmatrix_chromatic(nmodes=3, idx=Uniform(0, 6)), name="chrom")
    return PTA([s(psr)])

n = build().param_names
history(build, [dict.fromkeys(n, x) for x in (1.0, 4.0, 1.0)])
""",
)

COMMON = """
psrs = [pulsar("J%04d+0101" % (100 * i), seed=i) for i in (1, 2, 3)]
def build(method=None):
    s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2))
    s += gp_signals.TimingModel()
    s += gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=Uniform(-16, -11)("gw_A"), gamma=Constant(3.0)), utils.monopole_orf(), components=3, Tspan=3e8, name="gw")
    return PTA([s(p) for p in psrs])
"""

bug(
    "c02_cliques_once",
    "C02",
    "an exception (or interrupt) while the very first Phi of an array with common signals is being assembled, between the reset and the setting of the cliques",
    "the cliques of Phi are worked out only in the first evaluation; if that is interrupted half-way, later evaluations ignore correlations",
    [(SB, '''            # self._cliques is a vector of the same size as the Phi matrix
            # for each Phi index i, self._cliques[i] is -1 if row/column
            # belong to no clique, or it gives the clique number otherwise
            if cliques:
                self._resetcliques(Phi.shape[0])
                self._setpulsarcliques(slices, phis)
''', '''            # self._cliques is a vector of the same size as the Phi matrix
            # for each Phi index i, self._cliques[i] is -1 if row/column
            # belong to no clique, or it gives the clique number otherwise
            # (they depend only on the structure of the model)
            cliques = cliques and not hasattr(self, "_cliques")
            if cliques:
                self._resetcliques(Phi.shape[0])
                self._setpulsarcliques(slices, phis)
''')],
    MODELS + COMMON + """
orf = {"fail": False}

@parameter.function
def myorf(pos1, pos2):
    if orf["fail"]:
        raise FloatingPointError
    return 1.3 if np.all(pos1 == pos2) else 0.8

def build():
    s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2))
    s += gp_signals.TimingModel()
    s += gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=Uniform(-16, -11)("gw_A"), gamma=Constant(3.0)), myorf(), components=3, Tspan=3e8, name="gw")
    return PTA([s(p) for p in psrs])

pta = build()
x = dict.fromkeys(pta.param_names, 1.0)
x["gw_A"] = -12.0
want = build().get_lnlikelihood(x)

# interrupt in _setcliques, reached through the only user-visible seam: np.array of the indices
old = pta._setcliques
def stop(*a):
    pta._setcliques = old
    raise KeyboardInterrupt
pta._setcliques = stop
try:
    pta.get_lnlikelihood(x)
except KeyboardInterrupt:
    pass
assert close(pta.get_lnlikelihood(x), want, 1e-8)
""",
)

bug(
    "c02_block_memo",
    "C02",
    "an array with common signals, and an exception (failed allocation, interrupt) while the block-diagonal matrix is assembled, followed by an evaluation with the same white noise",
    "LogLikelihood remembers which matrices its block-diagonal matrix belongs to before it has assembled it",
    [(SB, '''        if self.cholesky_sparse:
            return sps.block_diag(TNTs, "csc")
        else:
            return sl.block_diag(*TNTs)
''', '''        known = getattr(self, "_TNTs", ())
        if len(known) != len(TNTs) or any(a is not b for a, b in zip(known, TNTs)):
            self._TNTs = list(TNTs)
            self._TNT = sps.block_diag(TNTs, "csc") if self.cholesky_sparse else sl.block_diag(*TNTs)
        return self._TNT
''')],
    MODELS + COMMON + """
pta = build()
x = dict.fromkeys(pta.param_names, 1.0)
x["gw_A"] = -12.0
y = dict(x, **{pta.param_names[1]: 1.7})
want = build().get_lnlikelihood(y)
pta.get_lnlikelihood(x)

old = signal_base.sps.block_diag
def stop(*a, **k):
    signal_base.sps.block_diag = old
    raise MemoryError
signal_base.sps.block_diag = stop
try:
    pta.get_lnlikelihood(y)
except MemoryError:
    pass
signal_base.sps.block_diag = old
assert close(pta.get_lnlikelihood(y), want, 1e-8)
""",
)

bug(
    "c03_constants_captured",
    "C03",
    "a constant with an initial value, given by type to a function, reassigned later",
    "Function takes the values of constants when it is made, as if they were plain defaults",
    [(PA, '''                    par = arg("_".join([n for n in pnames if n]))

                    self._params[kw] = par
''', '''                    par = arg("_".join([n for n in pnames if n]))

                    self._params[kw] = par

                    if getattr(par, "value", None) is not None:
                        self._defaults[kw] = par.value
'''), (PA, '''                        if par.name in params:
                            kwargs[kw] = params[par.name]
                        elif hasattr(par, "value"):''', '''                        if par.name in params:
                            kwargs[kw] = params[par.name]
                        elif kw in self._defaults:
                            kwargs[kw] = self._defaults[kw]
                        elif hasattr(par, "value"):''')],
    MODELS + """
psr = pulsar()
def build(v):
    s = white_signals.MeasurementNoise(efac=Constant(v))
    s += gp_signals.TimingModel()
    return PTA([s(psr)])
pta = build(1.0)
pta.set_default_params({psr.name + "_measurement_noise_efac": 2.0, psr.name + "_efac": 2.0})
assert close(pta.get_lnlikelihood({}), build(2.0).get_lnlikelihood({}), 1e-8)
""",
)

bug(
    "c03_ecorr_constant_vector",
    "C03",
    "constant ECORR, evaluated, then reassigned",
    "the amplitudes of ECORR blocks are kept when all of them are constants",
    [(WN, '''            jvec = np.concatenate(
                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
            )
            return (idxs, jvec)''', '''            if not self.ndiag_params and hasattr(self, "_jvec"):
                return (idxs, self._jvec)
            self._jvec = np.concatenate(
                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
            )
            return (idxs, self._jvec)''')],
    MODELS + """
psr = pulsar()
def build(v):
    s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2))
    s += white_signals.EcorrKernelNoise(log10_ecorr=Constant(v), method="sherman-morrison")
    s += gp_signals.TimingModel()
    return PTA([s(psr)])
pta = build(-6.0)
x = {pta.param_names[0]: 1.0}
pta.get_lnlikelihood(x)
pta.set_default_params({psr.name + "_log10_ecorr": -5.5})
assert close(pta.get_lnlikelihood(x), build(-5.5).get_lnlikelihood(x), 1e-8)
""",
)

bug(
    "c04_selection_by_name",
    "C04",
    "two pulsar objects of the same name but with different data (for example before and after filtering by time) modelled with the same selection",
    "a selection remembers the masks of each pulsar by its name",
    [(SE, '''        @property
        def masks(self):
            return selection_func(func)(psr=self._psr)
''', '''        _known = {}

        @property
        def masks(self):
            key = (self._psr.name, len(self._psr.toas))
            if key not in self._known:
                self._known[key] = selection_func(func)(psr=self._psr)
            return self._known[key]
''')],
    MODELS + """
from enterprise.signals.selections import Selection
a, b = pulsar(seed=1), pulsar(seed=1, flags={"f": np.array(["X", "Y", "Y", "Z"] * 4)})
def model(sel, psr):
    s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2), selection=sel) + gp_signals.TimingModel()
    return PTA([s(psr)])
want = model(Selection(selections.by_backend), b)
sel = Selection(selections.by_backend)
model(sel, a)
got = model(sel, b)
assert got.param_names == want.param_names, got.param_names
""",
)

bug(
    "c04_params_modified",
    "C04",
    "coefficients drawn with get_coefficients, whose parameter dictionary is used again",
    "get_coefficients stores the coefficients of a draw in the dictionary of parameters it was given",
    [(UT, '''                if len(ret) <= j:
                    ret.append(params.copy())

                ret[j].update(pardict)
''', '''                if len(ret) <= j:
                    ret.append(params if n == 1 else params.copy())

                ret[j].update(pardict)
''')],
    MODELS + """
psr = pulsar()
s = white_signals.MeasurementNoise(efac=Uniform(0.5, 2)) + gp_signals.TimingModel()
pta = PTA([s(psr)])
x = {pta.param_names[0]: 1.0}
utils.get_coefficients(pta, x)
assert list(x) == pta.param_names, list(x)
""",
)

bug(
    "c04_design_matrix_normed_in_place",
    "C04",
    "an unsorted pulsar (sort=False), whose design matrix is handed out as a view, and a normalised marginalising timing model (whose basis is made without a mask)",
    "normed_tm_basis normalises the design matrix in place",
    [(UT, "    nmat = Mmat / norm\n    nmat[:, norm == 0] = 0", "    nmat = Mmat\n    nmat[:, norm != 0] /= norm[norm != 0]")],
    MODELS + """
psr = pulsar(sort=False)
M = psr.Mmat.copy()
(white_signals.MeasurementNoise(efac=Uniform(0.5, 2)) + gp_signals.MarginalizingTimingModel())(psr).get_ndiag({})
assert np.array_equal(M, psr.Mmat)
""",
)
