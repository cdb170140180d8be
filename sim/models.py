"""Models of pulsar-timing data: JSON configuration -> real enterprise model, and an independent dense reference.

The reference (class Ref) shares no code with enterprise: it writes down the covariance matrix of all the residuals and
evaluates the Gaussian likelihood directly, treating timing-model columns (prior variance 1e40) analytically.
"""
import copy
import json

import numpy as np
import scipy.linalg as sl

from . import psrgen

FYR = 1.0 / (365.25 * 86400.0)
TM_VAR = 1e40

# hook called at the start of every user-supplied function (fault injection into user code)
USERHOOK = [None]
USERCALLS = [0]


def _user():
    USERCALLS[0] += 1
    if USERHOOK[0] is not None:
        USERHOOK[0]()


# ---------------------------------------------------------------------------------------------- user functions


def _f_user_lin(toas, slope=0.0, t0=53500.0):
    _user()
    return slope * (toas / 86400.0 - t0) / 1000.0


def _f_user_sin(toas, freqs, amp=1e-7, fgw=1e-8, vec=None):
    _user()
    ret = amp * np.sin(2 * np.pi * fgw * toas) * (1400.0 / freqs)
    if vec is not None:
        ret = ret + vec[0] * 1e-7 + vec[1] * 1e-7 * np.cos(2 * np.pi * fgw * toas)
    return ret


def _f_user_dense(f, log10_s=-7.0, rho=0.3):
    _user()
    n = len(f)
    i = np.arange(n)
    return 10 ** (2 * log10_s) * rho ** np.abs(i[:, None] - i[None, :])


def _f_user_flat(f, log10_s=-7.0):
    _user()
    return 10 ** (2 * log10_s) * np.ones_like(f)


def _f_user_orf(pos1, pos2, a=0.3):
    _user()
    if np.all(np.asarray(pos1) == np.asarray(pos2)):
        return 1.0
    return a * 0.5


def _f_user_var(toaerrs, freqs, log10_q=-7.0, slope=1.0):
    _user()
    return toaerrs**2 + 10 ** (2 * log10_q) * (1400.0 / freqs) ** slope


def _f_user_amp(x=-14.0, y=0.0):
    _user()
    return x + 0.5 * y


_uf = {}


def ufunc(name):
    """The enterprise Function factory for a user function."""
    if not _uf:
        from enterprise.signals.parameter import function

        for k, v in list(globals().items()):
            if k.startswith("_f_user_"):
                _uf[k[3:]] = function(v)
    return _uf[name]


_amp = {}


def amp_as(kw):
    """user_amp with another name for its first argument (such as the one of the argument that it is given for)."""
    if kw not in _amp:
        from enterprise.signals.parameter import function

        d = {"f": _f_user_amp}
        exec("def amp(%s=-14.0, y=0.0):\n    return f(%s, y)" % (kw, kw), d)
        _amp[kw] = function(d["amp"])
    return _amp[kw]


# --------------------------------------------------------------------------------------------------- parameters
# P = {"t": const|constset|unif|norm|linexp|tnorm|hnorm|glob|vec|fn ...}


class World:
    """What one user program shares between the models it builds: named parameters, pulsars, signal classes.

    With share, every description (of a parameter, prior, basis, selection) that occurs twice is built once and reused.
    """

    def __init__(self, share=False):
        self.globs = {}
        self.share = share
        self.selections = {}
        self.memo = {}
        self.args = []

    def held(self, x):
        """Keep an argument that enterprise is given, and a copy of it: it must not be modified."""
        self.args.append((x, copy.deepcopy(x)))
        return x

    def args_intact(self):
        return all(repr(a) == repr(b) for a, b in self.args)

    def once(self, what, d, make):
        if not self.share:
            return make()
        k = what + json.dumps(d, sort_keys=True)
        if k not in self.memo:
            self.memo[k] = make()
        return self.memo[k]

    def build(self, P):
        return self.once("par", P, lambda: self._build(P))

    def _build(self, P):
        from enterprise.signals import parameter

        t = P["t"]
        if t == "const":
            return parameter.Constant(P["v"])
        if t == "constset":
            return parameter.Constant()
        if t == "unif":
            return parameter.Uniform(P["lo"], P["hi"])
        if t == "norm":
            return parameter.Normal(P["mu"], P["sig"])
        if t == "linexp":
            return parameter.LinearExp(P["lo"], P["hi"])
        if t == "tnorm":
            return parameter.TruncNormal(P["mu"], P["sig"], P["lo"], P["hi"])
        if t == "hnorm":
            return parameter.Normal(mu=parameter.Uniform(P["lo"], P["hi"]), sigma=P["sig"])
        if t == "vec":
            return parameter.Uniform(P["lo"], P["hi"], size=P["n"])
        if t == "ig":
            from enterprise.signals import gp_priors

            return gp_priors.InvGamma(P["al"], P["ga"], size=P["n"])
        if t == "fn":
            kw = {k: self.build(v) for k, v in P["kw"].items()}
            return amp_as(P.get("as", "x"))(**kw)
        if t == "glob":
            if P["n"] not in self.globs:
                self.globs[P["n"]] = self.build(P["of"])(P["n"])
            return self.globs[P["n"]]
        raise KeyError(t)


def grid(P):
    """Three values inside the prior, well apart."""
    if P.get("z"):  # one of them exactly zero (where zero decouples things)
        return [0.0] + grid(dict(P, z=False))[1:]
    t = P["t"]
    if t == "glob":
        return grid(P["of"])
    if t in ("unif", "linexp", "hnorm"):
        lo, hi = P.get("g") or (P["lo"], P["hi"])
        return [lo + (hi - lo) * q for q in (0.21, 0.5, 0.83)]
    if t == "tnorm":
        return [P["mu"] + P["sig"] * q for q in (-0.8, 0.1, 0.7)]
    if t == "norm":
        return [P["mu"] + P["sig"] * q for q in (-0.9, 0.13, 1.1)]
    if t in ("const", "constset"):
        return [P["v"], P["v"] + P.get("d", 0.3), P["v"] - P.get("d", 0.3)]
    raise KeyError(t)


class Reg:
    """Names of the parameters of a model, as the documentation of the naming scheme has them."""

    def __init__(self):
        self.var = {}  # name -> dict(P=..., size=None|n, hyper names)
        self.const = {}  # name -> default value (None if it must be set)
        self.constP = {}

    def add(self, P, name):
        t = P["t"]
        if t == "glob":
            return self.add(P["of"], P["n"])
        if t in ("const", "constset"):
            self.const[name] = P["v"]
            self.constP[name] = P
        elif t == "fn":
            for k, v in P["kw"].items():
                self.add(v, name + "_" + k)
        elif t == "hnorm":
            self.var[name] = {"P": P, "size": None}
            self.var[name + "_mu"] = {"P": {"t": "unif", "lo": P["lo"], "hi": P["hi"]}, "size": None}
        elif t in ("vec", "ig"):
            self.var[name] = {"P": P, "size": P["n"]}
        else:
            self.var[name] = {"P": P, "size": None}


def join(*parts):
    return "_".join([p for p in parts if p])


# ------------------------------------------------------------------------------------------------------ signals


CB = ["GUPPI", "custom"]
BANDS = {"lo": [0, 1100], "hi": [1100, 2000], "none": [50000, 60000]}


def build_selection(sel, world=None):
    """Selections are shared by all the signals of a world, as a user would define them once."""
    from enterprise.signals import selections as S
    from enterprise.signals.selections import Selection

    memo = world.selections if world is not None and world.share else {}
    if sel not in memo:
        f = {
            "none": lambda: S.no_selection,
            "backend": lambda: S.by_backend,
            "half": lambda: S.cut_half,
            "band": lambda: S.by_freq_band(),
            "band2": lambda: S.by_freq_band(world.held(BANDS) if world else dict(BANDS)),
            "tel": lambda: S.by_telescope,
            "fe": lambda: S.by_frontend,
            "bandflag": lambda: S.by_band,
            "cbn": lambda: S.custom_backends(None),
            "cbdfe": lambda: S.custom_backends_dict(world.held({"fe": None})),
            "cbdn": lambda: S.custom_backends_dict(None),
            "ng": lambda: S.nanograv_backends,
            "cb": lambda: S.custom_backends(world.held(list(CB))),
            "cbs": lambda: S.custom_backends("custom"),
            "cbdl": lambda: S.custom_backends_dict(world.held(list(CB))),
            "cbd": lambda: S.custom_backends_dict(world.held({"backend": ["ASP"], "B": ["10CM", "30CM"]})),
            "idx": lambda: S.by_index("few", world.held(np.array([0, 2, 3, 7]))),
        }[sel]()
        memo[sel] = Selection(f)
    return memo[sel]


def ref_masks(sel, rd):
    n = len(rd["toas"])

    def split(x, among=None):
        return {str(v): x == v for v in sorted(set(x)) if among is None or any(b in v for b in among)}

    if sel in ("none", "cbdn"):
        return {"": np.ones(n, bool)}
    if sel in ("backend", "cbn"):
        return split(rd["f"])
    if sel == "half":
        mid = (rd["toas"].max() + rd["toas"].min()) / 2
        return {"t1": rd["toas"] <= mid, "t2": rd["toas"] > mid}
    if sel in ("band", "band2"):
        bands = {"Band.1": [0, 1000], "Band.2": [1000, 2000], "Band.3": [2000, 3000], "Band.4": [3000, 10000]}
        if sel == "band2":
            bands = BANDS
        ret = {k: (rd["freqs"] >= a) & (rd["freqs"] < b) for k, (a, b) in bands.items()}
        return {k: m for k, m in ret.items() if m.any()}
    if sel == "tel":
        return split(rd["tel"])
    if sel in ("fe", "cbdfe"):
        return split(rd["fe"])
    if sel == "bandflag":
        return split(rd["B"])
    if sel == "ng":
        return split(rd["f"], ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"])
    if sel in ("cb", "cbdl"):
        return split(rd["f"], CB)
    if sel == "cbs":
        return split(rd["f"], ["custom"])
    if sel == "cbd":
        return {**split(rd["f"], ["ASP"]), **split(rd["B"], ["10CM", "30CM"])}
    if sel == "idx":
        return {"few": np.isin(np.arange(n), [0, 2, 3, 7])}
    raise KeyError(sel)


class Builder:
    """Turns signal descriptors into real signal classes, within a World."""

    def __init__(self, world, psrs=()):
        self.w = world
        self.psrs = psrs

    def prior(self, d):
        return self.w.once("prior", d, lambda: self._prior(d))

    def basis(self, d):
        return self.w.once("basis", d, lambda: self._basis(d))

    def orf(self, d):
        return self.w.once("orf", d, lambda: self._orf(d))

    def _prior(self, d):
        from enterprise.signals import gp_priors as gpp

        kw = {k: self.w.build(v) for k, v in d["kw"].items()}
        f = d["f"]
        if d.get("components", 2) != 2:
            kw["components"] = d["components"]
        if d.get("wgts"):
            kw["wgts"] = self.w.held(np.array(d["wgts"]))
        return ufunc(f)(**kw) if f.startswith("user_") else getattr(gpp, f)(**kw)

    def _basis(self, d):
        from enterprise.signals import gp_bases as gb

        kw = {k: self.w.build(v) for k, v in d.get("kw", {}).items()}
        kw["nmodes"] = d["nmodes"]
        for k in ("Tspan", "logf", "fmin", "fmax", "pseed", "modes", "flagname", "flagval", "tndm", "psrTspan"):
            if d.get(k) is not None:
                kw[k] = self.w.held(np.array(d[k])) if k == "modes" else d[k]
        return getattr(gb, "createfourierdesignmatrix_" + d["f"])(**kw)

    def _orf(self, d):
        from enterprise.signals import utils

        if d["f"] == "user_orf":
            return ufunc("user_orf")(**{k: self.w.build(v) for k, v in d["kw"].items()})
        if d["f"] == "anis_orf":
            kw = {k: self.w.build(v) for k, v in d["kw"].items()} if d["lmax"] else {"params": None}
            basis = self.w.held(np.array(d["basis"]))
            return utils.anis_orf(anis_basis=basis, psrs_pos=[np.array(p.pos) for p in self.psrs], lmax=d["lmax"], **kw)
        return getattr(utils, d["f"])()

    def signal(self, d):
        from enterprise.signals import deterministic_signals as ds
        from enterprise.signals import gp_signals as gp
        from enterprise.signals import utils
        from enterprise.signals import white_signals as ws

        s, B = d["s"], self.w.build
        sel = build_selection(d.get("sel", "none"), self.w)
        nm = d.get("name", "")

        def given(**kw):
            """The arguments that differ from the documented defaults."""
            return {k: B(P) if P else None for k, P in kw.items() if not (P and P.get("dflt"))}

        def unlike(dflt, **kw):
            return {k: x for k, x in kw.items() if not d.get("brief") or x != dflt[k]}

        if s == "mn":
            return ws.MeasurementNoise(**given(efac=d["efac"], log10_t2equad=d.get("t2equad")), selection=sel, name=nm)
        if s == "tneq":
            return ws.TNEquadNoise(**given(log10_tnequad=d["p"]), selection=sel, name=nm)
        if s == "uwn":
            return ws.WhiteNoise(ufunc("user_var")(log10_q=B(d["p"])), selection=sel, name=nm)
        if s == "ecorrk":
            return ws.EcorrKernelNoise(**given(log10_ecorr=d["p"]), selection=sel, **unlike({"method": "fast-sherman-morrison"}, method=d["method"]), name=nm)
        if s == "ecorrb":
            return gp.EcorrBasisModel(**given(log10_ecorr=d["p"]), selection=sel, coefficients=d.get("coef", False), name=nm)
        if s == "tm":
            return gp.TimingModel(
                coefficients=d.get("coef", False), name=nm, use_svd=d["svd"], normed=d["normed"], idx_exclude=d.get("excl")
            )
        if s == "mtm":
            return gp.MarginalizingTimingModel(name=nm, use_svd=d["svd"], normed=d["normed"])
        if s == "wtm":
            return gp.WidebandTimingModel(
                **given(dmefac=d["dmefac"], log10_dmequad=d.get("dmequad"), dmjump=d.get("dmjump")),
                selection=sel,
                dmjump_selection=build_selection(d.get("jsel", "none"), self.w),
                dmjump_ref=d.get("jref"),
                name=nm,
            )
        if s == "gp":
            b = d["basis"]
            if d.get("api") == "fourier":
                return gp.FourierBasisGP(
                    self.prior(d["prior"]),
                    components=b["nmodes"],
                    selection=sel,
                    **unlike(
                        {"coefficients": False, "combine": True, "Tspan": None, "logf": False, "fmin": None, "fmax": None},
                        coefficients=d.get("coef", False),
                        combine=d["combine"],
                        Tspan=b.get("Tspan"),
                        logf=b.get("logf", False),
                        fmin=b.get("fmin"),
                        fmax=b.get("fmax"),
                    ),
                    modes=self.w.held(np.array(b["modes"])) if b.get("modes") is not None else None,
                    name=nm,
                    pseed=b.get("pseed"),
                )
            return gp.BasisGP(
                self.prior(d["prior"]),
                self.basis(b),
                coefficients=d.get("coef", False),
                combine=d["combine"],
                selection=sel,
                name=nm,
            )
        if s == "cgp":
            b = d["basis"]
            cp = B(d["cpar"]) if d.get("coef") else False
            if d.get("api") == "fourier":
                return gp.FourierBasisCommonGP(
                    self.prior(d["prior"]),
                    self.orf(d["orf"]),
                    modes=self.w.held(np.array(b["modes"])) if b.get("modes") is not None else None,
                    components=b["nmodes"],
                    Tspan=b.get("Tspan"),
                    **unlike(
                        {"coefficients": False, "combine": True, "logf": False, "fmin": None, "fmax": None},
                        coefficients=cp,
                        combine=d["combine"],
                        logf=b.get("logf", False),
                        fmin=b.get("fmin"),
                        fmax=b.get("fmax"),
                    ),
                    name=nm,
                    pseed=b.get("pseed"),
                )
            return gp.BasisCommonGP(
                self.prior(d["prior"]), self.basis(b), self.orf(d["orf"]), coefficients=cp, combine=d["combine"], name=nm
            )
        if s == "ephgp":
            return gp.FourierBasisCommonGP_ephem(self.prior(d["prior"]), d["basis"]["nmodes"], d["basis"]["Tspan"], name=nm)
        if s == "physgp":
            return gp.FourierBasisCommonGP_physicalephem(**d.get("sig", {}), model=d.get("model", "setIII"), name=nm)
        if s == "det":
            kw = {k: B(v) for k, v in d["kw"].items()}
            wf = utils.bwm_delay(**kw) if d["f"] == "bwm_delay" else ufunc(d["f"])(**kw)
            return ds.Deterministic(wf, selection=sel, name=nm)
        if s == "phe":
            kw = {k: (True if d["kw"][k].get("dflt") else B(d["kw"][k])) if k in d["kw"] else False for k in PHYS}
            return ds.PhysicalEphemerisSignal(use_epoch_toas=d["epoch"], name=nm, model=d.get("model", "setIII"), **kw)
        raise KeyError(s)


# arguments of the physical ephemeris model: default sigma of the common process
PHYS = {
    "frame_drift_rate": 1e-9,
    "d_jupiter_mass": 1.54976690e-11,
    "d_saturn_mass": 8.17306184e-12,
    "d_uranus_mass": 5.71923361e-11,
    "d_neptune_mass": 7.96103855e-11,
    "jup_orb_elements": 0.05,
    "sat_orb_elements": 0.5,
}


def build_model(cfg, world, psrs, classes=None):
    """Real PTA for a configuration.  `classes` caches signal classes (so that several PTAs share them)."""
    from enterprise.signals import signal_base as sb

    b = Builder(world, psrs)
    colls = []
    for pm in cfg["models"]:
        key = str(pm["sigs"])
        if classes is not None and key in classes:
            tot = classes[key]
        else:
            # users extend a description that they already have
            sums = world.__dict__.setdefault("sums", {}) if world.share else {}
            n = next((k for k in range(len(pm["sigs"]), 1, -1) if str(pm["sigs"][:k]) in sums), 0)
            tot = sums[str(pm["sigs"][:n])] if n else None
            pick = cfg.get("assoc", 0) + len(colls)
            if n == 0 and len(pm["sigs"]) > 2 and pick % 3:
                # the same sum, with parentheses: (a + b) + (c + d), or a + (b + (c + d))
                tot = associate([world_signal(world, b, cfg, k) for k in pm["sigs"]], pick)
                sums[str(pm["sigs"])] = tot
                n = len(pm["sigs"])
            for k in range(n, len(pm["sigs"])):
                c = world_signal(world, b, cfg, pm["sigs"][k])
                tot = c if tot is None else tot + c
                if k:
                    sums[str(pm["sigs"][: k + 1])] = tot
            if len(pm["sigs"]) == 1:
                tot = sb.SignalCollection([tot])
            if classes is not None:
                classes[key] = tot
        colls.append(tot(psrs[pm["psr"]]))
    lnl = {"sparse": sb.LogLikelihood, "dense": sb.LogLikelihoodDenseCholesky}[cfg.get("lnl", "sparse")]
    how = cfg.get("assoc", 0) // 3 % 5
    if how == 1 and len(colls) > 1 and cfg.get("lnl", "sparse") == "sparse":
        tot = colls[0] + colls[1]
        for x in colls[2:]:
            tot = tot + x
        return tot
    if how == 2 and len(colls) > 1:
        one = sb.PTA(colls[:1], lnlikelihood=lnl)
        return one + sb.PTA(colls[1:])
    if how == 3 and len(colls) > 1:
        one = sb.PTA(colls[0], lnlikelihood=lnl)
        for x in colls[1:]:
            one = one + x
        return one
    if how == 4 and len(colls) == 1:
        return sb.PTA(colls[0], lnlikelihood=lnl)
    return sb.PTA(colls if how else tuple(colls), lnlikelihood=lnl)


def associate(cs, pick):
    if len(cs) == 1:
        return cs[0]
    k = 1 + pick % (len(cs) - 1)
    return associate(cs[:k], pick) + associate(cs[k:], pick)


def world_signal(world, b, cfg, i):
    cache = world.__dict__.setdefault("sigs", {})
    if i not in cache:
        cache[i] = b.signal(cfg["signals"][i])
    return cache[i]


# ---------------------------------------------------------------------------------------------------- reference


def ref_data(spec):
    """Per-TOA data of a pulsar in the order the pulsar object presents them."""
    d = psrgen.data_from_spec(spec)
    toas = d["toas"] * 86400.0
    order = np.argsort(toas, kind="mergesort") if spec.get("sort", True) else np.arange(len(toas))
    rd = {"toas": toas[order], "stoas": d["stoas"][order] * 86400.0, "res": d["res"][order]}
    rd["errs"] = (d["errs"] * 1e-6)[order]
    rd["freqs"] = d["freqs"][order]
    rd["M"] = d["M"][order]
    rd["f"] = d["flags"]["f"][order] if "f" in d["flags"] else None
    rd["tel"] = np.array(d["tel"])[order]
    for k in ("fe", "B"):
        rd[k] = d["flags"][k][order] if k in d["flags"] else None
    rd["pos"] = np.array(
        [
            np.cos(spec["raj"]) * np.cos(spec["decj"]),
            np.sin(spec["raj"]) * np.cos(spec["decj"]),
            np.sin(spec["decj"]),
        ]
    )
    rd["planets"] = d["planets"][order]
    rd["pos_t"] = d["pos_t"][order]
    rd["name"] = spec["name"]
    rd["fitpars"] = ["Offset"] + d["fit"]
    rd["dm"] = d["pars"]["DM"][0]
    rd["dmx"] = {
        p: (d["pars"][p][0], d["pars"][p[:3] + "R1" + p[3:]][0], d["pars"][p[:3] + "R2" + p[3:]][0])
        for p in d["fit"]
        if p.startswith("DMX_")
    }
    if "pp_dm" in d["flags"]:
        rd["pp_dm"] = d["flags"]["pp_dm"][order].astype(float)
        rd["pp_dme"] = d["flags"]["pp_dme"][order].astype(float)
    return rd


def epochs(toas):
    idx = np.argsort(toas, kind="mergesort")
    groups = [[idx[0]]]
    for i in idx[1:]:
        if toas[i] - toas[groups[-1][0]] < 1.0:
            groups[-1].append(i)
        else:
            groups.append([i])
    return [np.array(sorted(g)) for g in groups]


ORBITS = {}


class Ref:
    def __init__(self, cfg, specs=None):
        self.cfg = cfg
        self.rd = [ref_data(s) for s in (specs if specs is not None else cfg["psrs"])]
        self.reg = Reg()
        self._register()
        self.phys = None

    # ---- names

    def _register(self):
        for pm in self.cfg["models"]:
            rd = self.rd[pm["psr"]]
            for i in pm["sigs"]:
                self._reg_signal(self.cfg["signals"][i], rd)

    def _reg_signal(self, d, rd):
        s, nm, reg = d["s"], d.get("name", ""), self.reg
        keys = sorted(ref_masks(d.get("sel", "none"), rd))
        psr = rd["name"]
        if s == "mn":
            for k in keys:
                reg.add(d["efac"], join(psr, nm, k, "efac"))
                if d.get("t2equad"):
                    reg.add(d["t2equad"], join(psr, nm, k, "log10_t2equad"))
        elif s == "tneq":
            for k in keys:
                reg.add(d["p"], join(psr, nm, k, "log10_tnequad"))
        elif s == "uwn":
            for k in keys:
                reg.add(d["p"], join(psr, nm, k, "log10_q"))
        elif s == "ecorrk":
            for k in keys:
                reg.add(d["p"], join(psr, k, "log10_ecorr"))
        elif s == "ecorrb":
            for k in keys:
                reg.add(d["p"], join(psr, nm, k, "log10_ecorr"))
                if d.get("coef"):
                    n = self._ecorr_basis(rd, ref_masks(d["sel"], rd)[k]).shape[1]
                    reg.var[join(psr, nm, k) + "_coefficients"] = {"P": {"t": "gpc", "sc": 1e-7}, "size": n}
        elif s == "tm":
            if d.get("coef"):
                n = self._tm_cols(d, rd).shape[1]
                reg.var[join(psr, nm) + "_coefficients"] = {"P": {"t": "gpc", "sc": 1e-7}, "size": n}
        elif s == "wtm":
            for k in keys:
                reg.add(d["dmefac"], join(psr, k, "dmefac"))
                if d.get("dmequad"):
                    reg.add(d["dmequad"], join(psr, k, "log10_dmequad"))
            if d.get("dmjump"):
                for k in sorted(ref_masks(d["jsel"], rd)):
                    if d.get("jref") is not None and k == d["jref"]:
                        reg.add({"t": "const", "v": 0.0, "d": 0.002}, join(psr, k, "dmjump"))
                    else:
                        reg.add(d["dmjump"], join(psr, k, "dmjump"))
        elif s == "gp":
            for k in keys:
                for src in (d["prior"]["kw"], d["basis"].get("kw", {})):
                    for kw, P in src.items():
                        reg.add(P, join(psr, nm, k, kw))
                if d.get("coef"):
                    nb = 2 * d["basis"]["nmodes"]
                    reg.var[join(psr, nm, k) + "_coefficients"] = {"P": {"t": "gpc", "sc": 1e-7}, "size": nb}
        elif s in ("cgp", "ephgp"):
            for src in (d["prior"]["kw"], d.get("orf", {}).get("kw", {})):
                for kw, P in src.items():
                    reg.add(P, join(nm, kw))
            for kw, P in d["basis"].get("kw", {}).items():
                reg.add(P, join(psr, nm, kw))
            if d.get("coef"):
                reg.add(d["cpar"], "")
        elif s == "det":
            for k in keys:
                for kw, P in d["kw"].items():
                    reg.add(P, join(psr, nm, k, kw))
        elif s == "phe":
            for kw, P in d["kw"].items():
                reg.add(P, join(psr, nm, kw))

    # ---- values

    def val(self, P, name, v, c):
        t = P["t"]
        if t == "glob":
            return self.val(P["of"], P["n"], v, c)
        if t in ("const", "constset"):
            return c.get(name, P["v"])
        if t == "fn":
            q = P.get("as", "x")
            x = self.val(P["kw"][q], name + "_" + q, v, c) if q in P["kw"] else -14.0
            y = self.val(P["kw"]["y"], name + "_y", v, c) if "y" in P["kw"] else 0.0
            return x + 0.5 * y
        return v[name]

    # ---- building blocks

    def _tm_cols(self, d, rd):
        M = rd["M"]
        if d.get("excl"):
            M = M[:, [i for i in range(M.shape[1]) if i not in d["excl"]]]
        if d["svd"]:
            return np.linalg.svd(M, full_matrices=False)[0]
        if d["normed"]:
            nrm = np.sqrt(np.sum(M**2, axis=0))
            return np.where(nrm == 0, 0.0, M / np.where(nrm == 0, 1.0, nrm))
        return M

    def _ecorr_basis(self, rd, mask):
        idx = np.flatnonzero(mask)
        groups = [idx[g] for g in epochs(rd["toas"][idx]) if len(g) > 1]
        U = np.zeros((len(rd["toas"]), len(groups)))
        for j, g in enumerate(groups):
            U[g, j] = 1.0
        return U

    def _fourier(self, b, kwname, rd, mask, v, c):
        """Basis and frequencies for one selection key."""
        toas, freqs = rd["toas"][mask], rd["freqs"][mask]
        T = b.get("Tspan") or (toas.max() - toas.min())
        if b.get("flagval") and b.get("psrTspan") is False:
            t = rd["toas"][rd[b["flagname"]] == b["flagval"]]
            T = t.max() - t.min()
        n = b["nmodes"]
        if b.get("modes") is not None:
            f = np.array(b["modes"], float)
        elif b.get("fmin") is None and b.get("fmax") is None and not b.get("logf"):
            f = np.arange(1, n + 1) / T
        else:
            fmin = b["fmin"] if b.get("fmin") is not None else 1 / T
            fmax = b["fmax"] if b.get("fmax") is not None else n / T
            f = 10 ** np.linspace(np.log10(fmin), np.log10(fmax), n) if b.get("logf") else np.linspace(fmin, fmax, n)
        ph = np.zeros(len(f))
        if b.get("pseed") is not None:
            ph = np.random.RandomState(int(toas[0] / 17) + int(b["pseed"])).uniform(0.0, 2 * np.pi, len(f))
        F = np.zeros((len(toas), 2 * len(f)))
        for j, fj in enumerate(f):
            F[:, 2 * j] = np.sin(2 * np.pi * toas * fj + ph[j])
            F[:, 2 * j + 1] = np.cos(2 * np.pi * toas * fj + ph[j])
        kw = {k: self.val(P, kwname + "_" + k, v, c) for k, P in b.get("kw", {}).items()}
        kind = b["f"]
        if kind == "dm":
            F = F * ((kw.get("fref", 1400.0) / freqs) ** 2)[:, None]
        elif kind == "dm_tn":
            F = F * ((1400.0 / freqs) ** kw.get("idx", 2) * np.sqrt(12) * np.pi / 1400.0 / 1400.0 / 2.41e-4)[:, None]
        elif kind == "chromatic":
            F = F * ((1400.0 / freqs) ** kw.get("idx", 4))[:, None]
        elif kind == "env":
            A, Q = 10 ** kw.get("log10_Amp", -7), 10 ** kw.get("log10_Q", np.log10(300)) * 86400
            t0 = kw.get("t0", 53000 * 86400)
            F = F * (A * np.exp(-((toas - t0) ** 2) / 2 / Q**2))[:, None]
        elif kind == "general":
            if "idx" in kw:
                F = F * ((1400.0 / freqs) ** kw["idx"])[:, None]
                if b.get("tndm"):
                    F = F * (np.sqrt(12) * np.pi / 1400.0 / 1400.0 / 2.41e-4)
            if b.get("flagval"):
                F = F * (rd[b["flagname"]][mask] == b["flagval"])[:, None]
        out = np.zeros((len(rd["toas"]), F.shape[1]))
        out[mask] = F
        return out, np.repeat(f, 2)

    def _prior(self, p, kwname, f, v, c):
        kw = {k: self.val(P, kwname + "_" + k, v, c) for k, P in p["kw"].items()}
        comp = p.get("components", 2)
        if p["f"] == "powerlaw":
            lA, g = kw.get("log10_A", -16), kw.get("gamma", 5)
            df = np.diff(np.concatenate(([0.0], f[::comp])))
            return 10 ** (2 * lA) / (12 * np.pi**2) * FYR ** (g - 3) * f ** (-g) * np.repeat(df, comp)
        if p["f"] == "turnover":
            lA, g = kw.get("log10_A", -15), kw.get("gamma", 4.33)
            lf0, kappa, beta = kw.get("lf0", -8.5), kw.get("kappa", 10 / 3), kw.get("beta", 0.5)
            df = np.diff(np.concatenate(([0.0], f[::2])))
            hcf = 10**lA * (f / FYR) ** ((3 - g) / 2) / (1 + (10**lf0 / f) ** kappa) ** beta
            return hcf**2 / 12 / np.pi**2 / f**3 * np.repeat(df, 2)
        if p["f"] in ("turnover_knee", "broken_powerlaw"):
            lA, g, dl = kw["log10_A"], kw["gamma"], kw["delta"]
            df = np.diff(np.concatenate(([0.0], f[::2])))
            if p["f"] == "turnover_knee":
                x = (1 + f / 10 ** kw["lfk"]) ** (2 * dl) / (1 + (10 ** kw["lfb"] / f) ** kw["kappa"])
            else:
                k = kw.get("kappa", 0.1)
                x = (1 + (f / 10 ** kw["log10_fb"]) ** (1 / k)) ** (k * (g - dl))
            return 10 ** (2 * lA) * (f / FYR) ** (3 - g) * x / (12 * np.pi**2) / f**3 * np.repeat(df, 2)
        if p["f"] in ("t_process", "t_process_adapt"):
            lA, g = kw.get("log10_A", -15), kw.get("gamma", 4.33)
            df = np.diff(np.concatenate(([0.0], f[::2])))
            al = np.ones(len(f))
            a = kw.get("alphas", kw.get("alphas_adapt"))
            if "nfreq" in kw:
                j = int(round(float(kw["nfreq"])))
                al[2 * j : 2 * j + 2] = a
            elif a is not None:
                al = np.repeat(np.asarray(a, float), 2)
            return 10 ** (2 * lA) / (12 * np.pi**2) * FYR ** (g - 3) * f ** (-g) * np.repeat(df, 2) * al
        if p["f"] == "powerlaw_genmodes":
            lA, g = kw.get("log10_A", -16), kw.get("gamma", 5)
            df = np.array(p["wgts"]) ** 2 if p.get("wgts") else np.diff(np.concatenate(([0.0], f[::2])))
            return 10 ** (2 * lA) / (12 * np.pi**2) * FYR ** (g - 3) * f ** (-g) * np.repeat(df, 2)
        if p["f"] == "infinitepower":
            return np.full(len(f), np.inf)
        if p["f"] == "free_spectrum":
            return np.repeat(10 ** (2 * np.asarray(kw["log10_rho"], float)), 2)
        if p["f"] == "user_flat":
            return 10 ** (2 * kw.get("log10_s", -7.0)) * np.ones(len(f))
        if p["f"] == "user_dense":
            i = np.arange(len(f))
            return 10 ** (2 * kw.get("log10_s", -7.0)) * kw.get("rho", 0.3) ** np.abs(i[:, None] - i[None, :])
        raise KeyError(p["f"])

    def _orf(self, o, nm, a, b, v, c):
        same = a is b
        if o["f"] == "hd_orf":
            if same:
                return 1.0
            x = (1 - a["pos"] @ b["pos"]) / 2
            return 1.5 * x * np.log(x) - 0.25 * x + 0.5
        if o["f"] == "dipole_orf":
            return 1 + 1e-5 if same else a["pos"] @ b["pos"]
        if o["f"] == "monopole_orf":
            return 1 + 1e-5 if same else 1.0
        if o["f"] == "anis_orf":
            i = [next(k for k, r in enumerate(self.rd) if r is x) for x in (a, b)]
            cl = [2 * np.sqrt(np.pi)]
            if o["lmax"]:
                cl += list(np.asarray(self.val(o["kw"]["params"], nm + "_params", v, c), float))
            return sum(q * o["basis"][k][i[0]][i[1]] for k, q in enumerate(cl))
        if o["f"] == "user_orf":
            return 1.0 if same else 0.5 * self.val(o["kw"]["a"], nm + "_a", v, c) if "a" in o["kw"] else 0.15
        raise KeyError(o["f"])

    def _phys_ephem(self, rd, kw, model="setIII"):
        """Delay from the error of the Earth's position: a rotation about the ecliptic pole, masses and orbits of planets."""
        if model not in ORBITS:
            import enterprise

            p = enterprise.__path__[0] + "/datafiles/ephemeris/"
            ORBITS[model] = [np.load(p + f % model) for f in ("jupiter-%s-mjd.npy", "jupiter-%s-xyz-svd.npy", "saturn-%s-xyz-svd.npy")]
        times, jup, sat = ORBITS[model]
        mjd, pl = rd["toas"] / 86400.0, rd["planets"]
        earth = pl[:, 2, :3]
        new = earth.copy()
        ang = kw.get("frame_drift_rate", 0.0) * (mjd - 55197.0) / 365.25
        e = 23.43704 * np.pi / 180.0
        x, y, z = earth[:, 0], earth[:, 1] * np.cos(e) + earth[:, 2] * np.sin(e), -earth[:, 1] * np.sin(e) + earth[:, 2] * np.cos(e)
        x, y = x * np.cos(ang) - y * np.sin(ang), x * np.sin(ang) + y * np.cos(ang)
        new = np.array([x, y * np.cos(e) - z * np.sin(e), y * np.sin(e) + z * np.cos(e)]).T
        for k, q in (("jupiter", 4), ("saturn", 5), ("uranus", 6), ("neptune", 7)):
            new = new + kw.get("d_%s_mass" % k, 0.0) * pl[:, q, :3]
        for k, mass, orb in (("jup", 0.0009547918983127075, jup), ("sat", 0.00028588567008942334, sat)):
            el = np.asarray(kw.get(k + "_orb_elements", np.zeros(6)), float)
            if np.any(el):
                d = mass * np.tensordot(el, orb, 1)
                new = new + np.array([np.interp(mjd, times, d[:, q]) for q in range(3)]).T
        return np.sum(earth * rd["pos_t"], axis=1) - np.sum(new * rd["pos_t"], axis=1)

    # ---- assembling

    def assemble(self, v, c):
        """Per pulsar model: N (dense), M (flat-prior columns), list of (signal index, key, F, phi), delay, extra lnL."""
        out = []
        for pm in self.cfg["models"]:
            rd = self.rd[pm["psr"]]
            n = len(rd["toas"])
            a = {
                "rd": rd,
                "N": np.zeros((n, n)),
                "Mmarg": None,
                "gps": [],
                "delay": np.zeros(n),
                "extra": 0.0,
                "sigdelay": {},
                "signdiag": {},
            }
            for i in pm["sigs"]:
                d0, n0 = a["delay"].copy(), a["N"].copy()
                self._assemble_signal(i, self.cfg["signals"][i], rd, a, v, c)
                a["sigdelay"][i], a["signdiag"][i] = a["delay"] - d0, a["N"] - n0
            out.append(a)
        return out

    def _assemble_signal(self, i, d, rd, a, v, c):
        s, nm, psr = d["s"], d.get("name", ""), rd["name"]
        n = len(rd["toas"])
        masks = ref_masks(d.get("sel", "none"), rd)
        diag = np.zeros(n)
        if s == "mn":
            for k, m in masks.items():
                ef = self.val(d["efac"], join(psr, nm, k, "efac"), v, c)
                e2 = rd["errs"] ** 2
                if d.get("t2equad"):
                    e2 = e2 + 10 ** (2 * self.val(d["t2equad"], join(psr, nm, k, "log10_t2equad"), v, c))
                diag += m * ef**2 * e2
        elif s == "tneq":
            for k, m in masks.items():
                diag += m * 10 ** (2 * self.val(d["p"], join(psr, nm, k, "log10_tnequad"), v, c))
        elif s == "uwn":
            for k, m in masks.items():
                q = self.val(d["p"], join(psr, nm, k, "log10_q"), v, c)
                diag += m * (rd["errs"] ** 2 + 10 ** (2 * q) * (1400.0 / rd["freqs"]))
        elif s == "ecorrk":
            for k, m in masks.items():
                U = self._ecorr_basis(rd, m)
                a["N"] += 10 ** (2 * self.val(d["p"], join(psr, k, "log10_ecorr"), v, c)) * (U @ U.T)
        elif s == "ecorrb":
            for k in sorted(masks):
                U = self._ecorr_basis(rd, masks[k])
                phi = 10 ** (2 * self.val(d["p"], join(psr, nm, k, "log10_ecorr"), v, c)) * np.ones(U.shape[1])
                if d.get("coef"):
                    dl = U @ np.asarray(v[join(psr, nm, k) + "_coefficients"], float)
                    a["delay"] += dl
                else:
                    a["gps"].append((i, k, U, phi))
        elif s == "tm":
            M = self._tm_cols(d, rd)
            if d.get("coef"):
                a["delay"] += M @ np.asarray(v[join(psr, nm) + "_coefficients"], float)
            else:
                a["gps"].append((i, "", M, np.full(M.shape[1], np.inf)))
        elif s == "mtm":
            a["Mmarg"] = self._tm_cols(d, rd)
        elif s == "wtm":
            self._assemble_wideband(i, d, rd, a, v, c)
        elif s == "gp":
            for k in sorted(masks):
                base = join(psr, nm, k)
                F, f = self._fourier(d["basis"], base, rd, masks[k], v, c)
                phi = self._prior(d["prior"], base, f, v, c)
                if d.get("coef"):
                    a["delay"] += F @ np.asarray(v[base + "_coefficients"], float)
                else:
                    a["gps"].append((i, k, F, phi))
        elif s in ("cgp", "ephgp"):
            if s == "ephgp":
                F0, f0 = self._fourier({**d["basis"], "f": "red"}, "", rd, np.ones(n, bool), v, c)
                nm6 = d["basis"]["nmodes"]
                F = np.zeros((n, nm6 * 6))
                for j in range(nm6):
                    for q in range(2):
                        for x in range(3):
                            F[:, j * 6 + q * 3 + x] = F0[:, 2 * j + q] * rd["pos"][x]
                f = np.repeat(f0[::2], 6)
                orf = {"f": "monopole_orf", "kw": {}}
            else:
                F, f = self._fourier(d["basis"], join(psr, nm), rd, np.ones(n, bool), v, c)
                orf = d["orf"]
            if d.get("coef"):
                a["delay"] += F @ np.asarray(v[d["cpar"]["n"]], float)
                return
            phi = self._prior(d["prior"], nm, f, v, c)
            a["gps"].append((i, "", F, phi * self._orf(orf, nm, rd, rd, v, c)))
            a.setdefault("common", {})[i] = (F, phi, orf, nm)
        elif s == "physgp":
            F, sig = self._phys_basis(d, rd)
            orf = {"f": "monopole_orf", "kw": {}}
            a["gps"].append((i, "", F, sig**2 * self._orf(orf, nm, rd, rd, v, c)))
            a.setdefault("common", {})[i] = (F, sig**2, orf, nm)
        elif s == "det":
            for k, m in masks.items():
                kw = {q: self.val(P, join(psr, nm, k, q), v, c) for q, P in d["kw"].items()}
                dl = self._waveform(d["f"], rd, kw)
                a["delay"] += np.where(m, dl, 0.0)
        elif s == "phe":
            kw = {q: self.val(P, join(psr, nm, q), v, c) for q, P in d["kw"].items()}
            if d["epoch"]:
                ep = epochs(rd["toas"])
                ave = np.array([rd["toas"][g].mean() for g in ep])
                o = np.argsort(rd["toas"], kind="mergesort")
                pl = np.zeros((len(ave), 9, 3))
                for jj in range(9):
                    for aa in range(3):
                        pl[:, jj, aa] = np.interp(ave, rd["toas"][o], rd["planets"][o, jj, aa])
                pt = np.array([np.interp(ave, rd["toas"][o], rd["pos_t"][o, aa]) for aa in range(3)]).T
                dl = self._phys_ephem({"toas": ave, "planets": pl, "pos_t": pt}, kw, d.get("model", "setIII"))
                for g, x in zip(ep, dl):
                    a["delay"][g] += x
            else:
                a["delay"] += self._phys_ephem(rd, kw, d.get("model", "setIII"))
        else:
            raise KeyError(s)
        a["N"][np.diag_indices(n)] += diag

    def _waveform(self, f, rd, kw):
        if f == "user_lin":
            return kw.get("slope", 0.0) * (rd["toas"] / 86400.0 - kw.get("t0", 53500.0)) / 1000.0
        if f == "user_sin":
            amp, fgw = kw.get("amp", 1e-7), kw.get("fgw", 1e-8)
            r = amp * np.sin(2 * np.pi * fgw * rd["toas"]) * (1400.0 / rd["freqs"])
            if "vec" in kw:
                r = r + kw["vec"][0] * 1e-7 + kw["vec"][1] * 1e-7 * np.cos(2 * np.pi * fgw * rd["toas"])
            return r
        if f == "bwm_delay":
            h, th = 10 ** kw.get("log10_h", -14.0), np.arccos(kw.get("cos_gwtheta", 0.0))
            ph, pol, t0 = kw.get("gwphi", 0.0), kw.get("gwpol", 0.0), kw.get("t0", 55000) * 86400.0
            m = np.array([np.sin(ph), -np.cos(ph), 0.0])
            nn = np.array([-np.cos(th) * np.cos(ph), -np.cos(th) * np.sin(ph), np.sin(th)])
            om = np.array([-np.sin(th) * np.cos(ph), -np.sin(th) * np.sin(ph), -np.cos(th)])
            p = rd["pos"]
            fp = 0.5 * ((m @ p) ** 2 - (nn @ p) ** 2) / (1 + om @ p)
            fc = (m @ p) * (nn @ p) / (1 + om @ p)
            dt = rd["toas"] - t0
            return (np.cos(2 * pol) * fp + np.sin(2 * pol) * fc) * h * np.where(dt > 0, dt, 0.0)
        raise KeyError(f)

    def _phys_basis(self, d, rd):
        cols, sig = [], []
        for nm, s in {**PHYS, **d.get("sig", {})}.items():
            if s is None:
                continue
            for e in [1e-5] if not nm.endswith("elements") else 1e-5 * np.eye(6):
                cols.append(self._phys_ephem(rd, {nm: e}, d.get("model", "setIII")) / 1e-5)
                sig.append(s)
        return np.array(cols).T, np.array(sig)

    def _assemble_wideband(self, i, d, rd, a, v, c):
        psr = rd["name"]
        n = len(rd["toas"])
        ef = np.zeros(n)
        eq = np.zeros(n)
        for k, m in ref_masks(d.get("sel", "none"), rd).items():
            ef += m * self.val(d["dmefac"], join(psr, k, "dmefac"), v, c)
            if d.get("dmequad"):
                eq += m * 10 ** self.val(d["dmequad"], join(psr, k, "log10_dmequad"), v, c)
        dm = rd["pp_dm"].copy()
        if d.get("dmjump"):
            for k, m in ref_masks(d["jsel"], rd).items():
                P = {"t": "const", "v": 0.0} if k == d.get("jref") else d["dmjump"]
                dm += m * self.val(P, join(psr, k, "dmjump"), v, c)
        dme = ef * np.sqrt(rd["pp_dme"] ** 2 + eq**2)
        phi = np.full(rd["M"].shape[1], np.inf)
        wb = {"dm": dm, "dme": dme, "mean": np.zeros(n), "meane": np.zeros(n), "delta": np.zeros(n), "meandelta": np.zeros(n), "chi2": 0.0, "meanchi2": 0.0}
        for nm, (x, r1, r2) in rd["dmx"].items():
            w = (r1 <= rd["stoas"] / 86400) & (rd["stoas"] / 86400 < r2)
            W = np.sum(1 / dme[w] ** 2)
            mean = np.sum(dm[w] / dme[w] ** 2) / W
            phi[rd["fitpars"].index(nm)] = 1 / W
            wb["mean"][w], wb["meane"][w] = mean, W**-0.5
            wb["delta"][w], wb["meandelta"][w] = dm[w] - (rd["dm"] + x), mean - (rd["dm"] + x)
            wb["chi2"] += np.sum((wb["delta"][w] / dme[w]) ** 2)
            wb["meanchi2"] += (mean - (rd["dm"] + x)) ** 2 * W
            a["delay"][w] += (mean - (rd["dm"] + x)) / (2.41e-4 * rd["freqs"][w] ** 2)
            a["extra"] += 0.5 * mean**2 * W - 0.5 * np.log(W)
        a["extra"] += -0.5 * np.sum(dm**2 / dme**2) - np.sum(np.log(dme))
        a["wb"] = wb
        a["gps"].append((i, "", rd["M"], phi))

    # ---- evaluation

    def lnlike(self, v, c):
        parts = self.assemble(v, c)
        ns = [len(p["rd"]["toas"]) for p in parts]
        off = np.concatenate([[0], np.cumsum(ns)])
        n = int(off[-1])
        C = np.zeros((n, n))
        r = np.zeros(n)
        Mcols = []
        extra = 0.0
        for p, o in zip(parts, off):
            k = len(p["rd"]["toas"])
            sl_ = slice(o, o + k)
            C[sl_, sl_] += p["N"]
            r[sl_] = p["rd"]["res"] - p["delay"]
            extra += p["extra"]
            if p["Mmarg"] is not None:
                X = np.zeros((n, p["Mmarg"].shape[1]))
                X[sl_] = p["Mmarg"]
                Mcols.append(X)
            for _, _, F, phi in p["gps"]:
                if phi.ndim == 2:
                    C[sl_, sl_] += F @ phi @ F.T
                else:
                    flat = np.isinf(phi)
                    if flat.any():
                        X = np.zeros((n, int(flat.sum())))
                        X[sl_] = F[:, flat]
                        Mcols.append(X)
                    F2 = F[:, ~flat]
                    C[sl_, sl_] += (F2 * phi[~flat]) @ F2.T
        for ia, pa in enumerate(parts):
            for ib, pb in enumerate(parts):
                if ib <= ia:
                    continue
                for i, (Fa, phi, orf, nm) in pa.get("common", {}).items():
                    if i in pb.get("common", {}):
                        Fb = pb["common"][i][0]
                        g = self._orf(orf, nm, pa["rd"], pb["rd"], v, c)
                        X = (Fa @ phi @ Fb.T if phi.ndim == 2 else (Fa * phi) @ Fb.T) * g
                        sa, sb_ = slice(off[ia], off[ia + 1]), slice(off[ib], off[ib + 1])
                        C[sa, sb_] += X
                        C[sb_, sa] += X.T
        cf = sl.cho_factor(C, lower=True)
        ld = 2 * np.sum(np.log(np.diag(cf[0])))
        x2 = r @ sl.cho_solve(cf, r)
        if Mcols:
            M = np.hstack(Mcols)
            CM = sl.cho_solve(cf, M)
            A = M.T @ CM + np.eye(M.shape[1]) / TM_VAR
            ca = sl.cho_factor(A, lower=True)
            b = CM.T @ r
            x2 -= b @ sl.cho_solve(ca, b)
            ld += M.shape[1] * np.log(TM_VAR) + 2 * np.sum(np.log(np.diag(ca[0])))
        return -0.5 * (x2 + ld) + extra

    def delays(self, v, c):
        return [p["delay"] for p in self.assemble(v, c)]

    def lnprior(self, v, c):
        tot = 0.0
        for name, e in self.reg.var.items():
            tot += self._logpdf(name, e, v, c)
        return tot

    def _logpdf(self, name, e, v, c):
        P, x = e["P"], v[name]
        t = P["t"]
        if t == "gpc":
            return self._coef_prior(name, v, c)
        if t in ("unif", "vec"):
            x = np.asarray(x, float)
            if np.all((x >= P["lo"]) & (x <= P["hi"])):
                return -np.log(P["hi"] - P["lo"]) * (1 if e["size"] is None else e["size"])
            return -np.inf
        if t == "ig":
            from scipy.special import gammaln

            x = np.asarray(x, float)
            return float(np.sum(P["al"] * np.log(P["ga"]) - gammaln(P["al"]) - (P["al"] + 1) * np.log(x) - P["ga"] / x))
        if t == "norm":
            return -0.5 * ((x - P["mu"]) / P["sig"]) ** 2 - 0.5 * np.log(2 * np.pi * P["sig"] ** 2)
        if t == "hnorm":
            return -0.5 * ((x - v[name + "_mu"]) / P["sig"]) ** 2 - 0.5 * np.log(2 * np.pi * P["sig"] ** 2)
        if t == "linexp":
            if not P["lo"] <= x <= P["hi"]:
                return -np.inf
            return np.log(np.log(10) * 10**x / (10 ** P["hi"] - 10 ** P["lo"]))
        if t == "tnorm":
            from scipy.special import erf

            if not P["lo"] < x < P["hi"]:
                return -np.inf
            Z = 0.5 * (
                erf((P["hi"] - P["mu"]) / P["sig"] / np.sqrt(2)) - erf((P["lo"] - P["mu"]) / P["sig"] / np.sqrt(2))
            )
            return -0.5 * ((x - P["mu"]) / P["sig"]) ** 2 - np.log(np.sqrt(2 * np.pi) * P["sig"] * Z)
        raise KeyError(t)

    def _coef_prior(self, name, v, c):
        for pm in self.cfg["models"]:
            rd = self.rd[pm["psr"]]
            for i in pm["sigs"]:
                d = self.cfg["signals"][i]
                if not d.get("coef") or d["s"] == "cgp":
                    continue
                nm = d.get("name", "")
                masks = ref_masks(d.get("sel", "none"), rd)
                for k in sorted(masks):
                    base = join(rd["name"], nm, k)
                    if base + "_coefficients" != name:
                        continue
                    x = np.asarray(v[name], float)
                    if d["s"] == "tm":
                        return 0.0
                    if d["s"] == "ecorrb":
                        phi = 10 ** (2 * self.val(d["p"], base + "_log10_ecorr", v, c)) * np.ones(len(x))
                    else:
                        F, f = self._fourier(d["basis"], base, rd, masks[k], v, c)
                        phi = self._prior(d["prior"], base, f, v, c)
                    if phi.ndim == 1:
                        return -0.5 * np.sum(x * x / phi) - 0.5 * np.sum(np.log(2 * np.pi * phi))
                    s, l = np.linalg.slogdet(2 * np.pi * phi)
                    return -0.5 * x @ np.linalg.solve(phi, x) - 0.5 * l
        raise KeyError(name)

    # ---- posterior of the GP coefficients (for the conditional-draw property)

    def posterior(self, v, c):
        """precision, precision times mean, layout [(pulsar-model index, signal index, slice, basis)] of all GP coefficients."""
        parts = self.assemble(v, c)
        T, layout, o = [], [], 0
        ns = [len(p["rd"]["toas"]) for p in parts]
        off = np.concatenate([[0], np.cumsum(ns)])
        n = int(off[-1])
        Ninv = np.zeros((n, n))
        r = np.zeros(n)
        prec_blocks = []
        pos = {}
        for ip, p in enumerate(parts):
            s_ = slice(off[ip], off[ip + 1])
            Ninv[s_, s_] = np.linalg.inv(p["N"])
            r[s_] = p["rd"]["res"] - p["delay"]
            bysig = {}
            for i, k, F, phi in p["gps"]:
                bysig.setdefault(i, []).append((F, phi))
            for i in self.cfg["models"][ip]["sigs"]:
                if i not in bysig:
                    continue
                Fs = np.hstack([F for F, _ in bysig[i]])
                X = np.zeros((n, Fs.shape[1]))
                X[s_] = Fs
                T.append(X)
                layout.append((ip, i, slice(o, o + Fs.shape[1]), Fs))
                pos[(ip, i)] = slice(o, o + Fs.shape[1])
                o += Fs.shape[1]
                prec_blocks.append([phi for _, phi in bysig[i]])
        T = np.hstack([np.zeros((n, 0))] + T)
        Phi = np.zeros((o, o))
        flat = np.zeros(o, bool)
        q = 0
        for blocks in prec_blocks:
            for phi in blocks:
                m = phi.shape[0]
                if phi.ndim == 1:
                    fl = np.isinf(phi)
                    flat[q : q + m] = fl
                    Phi[np.arange(q, q + m), np.arange(q, q + m)] = np.where(fl, 1.0, phi)
                else:
                    Phi[q : q + m, q : q + m] = phi
                q += m
        for ia, pa in enumerate(parts):
            for ib, pb in enumerate(parts):
                if ib <= ia:
                    continue
                for i, (Fa, phi, orf, nm) in pa.get("common", {}).items():
                    if i in pb.get("common", {}):
                        g = self._orf(orf, nm, pa["rd"], pb["rd"], v, c)
                        X = (phi if phi.ndim == 2 else np.diag(phi)) * g
                        Phi[pos[(ia, i)], pos[(ib, i)]] += X
                        Phi[pos[(ib, i)], pos[(ia, i)]] += X.T
        s = np.sqrt(np.diag(Phi))
        P = np.linalg.inv(Phi / np.outer(s, s)) / np.outer(s, s)
        P[flat, :] = 0
        P[:, flat] = 0
        P = 0.5 * (P + P.T)
        Sig = T.T @ Ninv @ T + P
        return Sig, T.T @ Ninv @ r, layout
