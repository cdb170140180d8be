"""Random model configurations (JSON) for the likelihood-type properties."""
import numpy as np

from . import psrgen
from .models import PHYS, Ref


def sig(x):
    return float("%.4g" % x)


def well_conditioned(spec):
    """Drop fitted parameters until the timing model is not degenerate (degenerate fits are refused by timing packages)."""
    while True:
        M = psrgen.data_from_spec(spec)["M"]
        nrm = np.sqrt(np.sum(M**2, axis=0))
        if np.all(nrm > 0) and np.linalg.cond(M / nrm) < 300:
            return
        if len(spec["fit"]) > 1:
            spec["fit"] = spec["fit"][:-1]
        elif spec.get("ndmx", 0) > 1:
            spec["ndmx"] -= 1
        else:
            return


class ParGen:
    """Draws parameter descriptors: constants (set or to be set), priors of all kinds, shared and function-valued ones."""

    def __init__(self, rng, pconst=0.2, pconstset=0.08, pglob=0.12, pfn=0.05, phyper=0.06):
        self.rng = rng
        self.p = (pconst, pconstset, pglob, pfn, phyper)
        self.globs = {}
        self.n = 0

    def plain(self, lo, hi, cset=True):
        r = self.rng.random()
        pc, ps, pg, pf, ph = self.p
        if not cset:
            pc, ps = pc + ps, 0.0
        mid, w = 0.5 * (lo + hi), hi - lo
        if r < pc:
            return {"t": "const", "v": sig(lo + w * (0.3 + 0.4 * self.rng.random())), "d": sig(0.23 * w)}
        r -= pc
        if r < ps:
            return {"t": "constset", "v": sig(lo + w * (0.3 + 0.4 * self.rng.random())), "d": sig(0.23 * w)}
        r -= ps
        if r < ph:
            return {"t": "hnorm", "lo": lo, "hi": hi, "sig": sig(w / 4)}
        k = self.rng.choice(["unif", "unif", "unif", "norm", "tnorm", "linexp"])
        if k == "norm":
            return {"t": "norm", "mu": sig(mid), "sig": sig(w / 4)}
        if k == "tnorm":
            return {"t": "tnorm", "mu": sig(mid), "sig": sig(w / 4), "lo": lo, "hi": hi}
        if k == "linexp" and abs(lo) < 30:
            return {"t": "linexp", "lo": lo, "hi": hi}
        return {"t": "unif", "lo": lo, "hi": hi}

    def par(self, role, lo, hi, glob=True, fn=False, cset=True):
        r = self.rng.random()
        _, _, pg, pf, _ = self.p
        if glob and r < pg:
            of = None
            if fn and r < 0.3 * pg:  # a function that is one object for all its uses
                role, of = role + "_fn", {"t": "fn", "kw": {"x": self.plain(lo, hi), "y": {"t": "unif", "lo": -0.4, "hi": 0.4}}}
            if role not in self.globs:
                self.globs[role] = {"t": "glob", "n": "shared_" + role, "of": of or self.plain(lo, hi, cset)}
            return self.globs[role]
        if fn and r < pg + pf:
            a = self.plain(lo, hi)
            return {"t": "fn", "kw": {"x": a, "y": {"t": "unif", "lo": -0.4, "hi": 0.4}}}
        return self.plain(lo, hi, cset)


def default(rng, p, lo, hi, *g):
    """p, or the documented default of the argument (with values from the range g)."""
    return {"t": "unif", "lo": lo, "hi": hi, "dflt": True, "g": list(g)} if rng.random() < 0.1 else p


# selections that cover every observation, and those that may leave some out
SELS = ["none"] * 4 + ["backend"] * 4 + ["half", "half", "band", "band2", "tel", "fe", "bandflag", "cbn", "cbdfe", "cbdn"]
PARTIAL = ["ng", "cb", "cbs", "cbdl", "cbd", "idx"]


FLAG = {"f": lambda o: psrgen.BACKENDS[o[2]], "B": lambda o: "%dCM" % (10 * (o[3] + 1))}


def pspan(specs):
    lo = min(o[0] for s in specs for o in s["obs"])
    hi = max(o[0] for s in specs for o in s["obs"])
    return (hi - lo + 30.0) * 86400.0


def detsel(rng):
    """Waveforms are assigned, not added, to the selected observations: no overlapping selection."""
    s = gen_sel(rng, True)
    return "fe" if s == "cbd" else s


def gen_prior(rng, pg, nmodes, dense_ok=True):
    d = _gen_prior(rng, pg, nmodes, dense_ok)
    for k, P in d["kw"].items():
        # functions with a keyword of the same name as the argument they are given for
        if P["t"] == "fn" and rng.random() < 0.3:
            P["kw"] = {k if q == "x" else q: y for q, y in P["kw"].items()}
            P["as"] = k
    return d


def _gen_prior(rng, pg, nmodes, dense_ok):
    f = rng.choice(
        ["powerlaw"] * 5
        + ["turnover", "free_spectrum", "user_flat"] * 2
        + ["turnover_knee", "broken_powerlaw", "t_process", "t_process_adapt", "powerlaw_genmodes"]
        + (["user_dense"] * 2 if dense_ok else [])
    )
    if f in ("turnover_knee", "broken_powerlaw", "t_process", "t_process_adapt", "powerlaw_genmodes"):
        kw = {"log10_A": pg.par("log10_A", -14.0, -12.8, fn=True), "gamma": pg.par("gamma", 1.5, 4.5, fn=True)}
        d = {"f": f, "kw": kw}
        if f == "turnover_knee":
            kw["delta"] = pg.par("delta", -0.5, 1.0)
            kw["lfb"] = pg.par("lfb", -8.8, -7.8, fn=True)
            kw["lfk"] = pg.par("lfk", -8.2, -7.2, fn=True)
            kw["kappa"] = {"t": "const", "v": 3.0, "d": 0.5}
        elif f == "broken_powerlaw":
            kw["delta"] = pg.par("delta", -0.5, 1.0)
            kw["log10_fb"] = pg.par("log10_fb", -8.5, -7.5, fn=True)
            if rng.random() < 0.5:
                kw["kappa"] = pg.par("bkappa", 0.1, 0.5)
        elif f == "t_process":
            if rng.random() < 0.85:
                kw["alphas"] = {"t": "ig", "al": 1.0, "ga": 1.0, "n": nmodes} if rng.random() < 0.6 else {"t": "vec", "n": nmodes, "lo": 0.2, "hi": 3.0}
        elif f == "t_process_adapt":
            if rng.random() < 0.7:
                kw["alphas_adapt"] = pg.par("alphas_adapt", 0.3, 6.0)
                kw["nfreq"] = pg.par("nfreq%d" % nmodes, -0.49, nmodes - 0.51) if rng.random() < 0.7 else {"t": "const", "v": nmodes - 1, "d": 0.3}
            else:
                kw["alphas_adapt"] = {"t": "ig", "al": 1.5, "ga": 1.2, "n": nmodes}
        elif rng.random() < 0.8:
            d["wgts"] = [sig(1e-4 * (1 + rng.random())) for _ in range(nmodes)]
        return d
    if f == "powerlaw":
        kw = {"log10_A": pg.par("log10_A", -14.0, -12.8, fn=True), "gamma": pg.par("gamma", 1.5, 4.5, fn=True)}
        if rng.random() < 0.15:
            del kw["gamma"]
            kw["log10_A"] = pg.par("log10_Ab", -14.5, -13.5, fn=True)
        return {"f": f, "kw": kw}
    if f == "turnover":
        brief = rng.random() < 0.2  # with some of the defaults
        return {
            "f": f,
            "kw": {
                k: P
                for k, P in {
                "log10_A": pg.par("log10_A", -14.0, -12.8, fn=True),
                "gamma": pg.par("gamma", 1.5, 4.5, fn=True),
                "lf0": pg.par("lf0", -8.8, -7.8, fn=True),
                "kappa": {"t": "const", "v": 2.5, "d": 0.8},
                "beta": {"t": "const", "v": 0.5, "d": 0.2},
                }.items()
                if k == "log10_A" or not brief or rng.random() < 0.5
            },
        }
    if f == "free_spectrum":
        return {"f": f, "kw": {"log10_rho": {"t": "vec", "n": nmodes, "lo": -7.5, "hi": -6.0}}}
    if f == "user_flat":
        return {"f": f, "kw": {"log10_s": pg.par("log10_s", -7.5, -6.0, fn=True)}}
    return {"f": "user_dense", "kw": {"log10_s": pg.par("log10_s", -7.5, -6.0, fn=True), "rho": zero(rng, pg.par("rho", 0.1, 0.6), pg.par("rho0", -0.3, 0.6))}}


def zero(rng, p, p0):
    """p, or p0 with zero among its values."""
    q = p0["of"] if p0["t"] == "glob" else p0
    if rng.random() < 0.5 or q["t"] in ("const", "constset") and rng.random() < 0.7:
        return p
    q["z"] = True
    return p0


def gen_basis(rng, pg, specs, common=False, maxmodes=4):
    nm = rng.randint(2, maxmodes)
    b = {"f": rng.choice(["red", "red", "red", "dm", "chromatic", "env", "dm_tn", "general"]), "nmodes": nm, "kw": {}}
    T = pspan(specs)
    if common or rng.random() < 0.6:
        b["Tspan"] = T
    if rng.random() < 0.2:
        b["logf"] = True
    if rng.random() < 0.2:
        b["fmin"] = 0.7 / T
        b["fmax"] = nm * 1.3 / T
    if b["f"] in ("red", "general") and rng.random() < 0.3:
        b["pseed"] = rng.randint(1, 99)
    if b["f"] in ("red", "general", "dm") and rng.random() < 0.1:
        b["modes"] = [(k + 1.3) / T for k in range(nm)]
        for k in ("fmin", "fmax", "logf"):
            b.pop(k, None)
    if b["f"] == "chromatic" and rng.random() < 0.8:
        b["kw"]["idx"] = pg.par("chromidx", 1.0, 5.0, cset=False)
    if b["f"] == "env":
        b["kw"]["log10_Amp"] = pg.par("envA", -0.5, 0.5, cset=False)
        if rng.random() < 0.5:
            b["kw"]["t0"] = pg.par("envt0", 53200.0 * 86400, 53700.0 * 86400, cset=False)
    if b["f"] == "general":
        if rng.random() < 0.6:
            b["kw"]["idx"] = pg.par("genidx", 1.0, 5.0, cset=False)
            b["tndm"] = rng.random() < 0.4
        q = rng.choice(sorted(FLAG))
        if rng.random() < 0.6:
            b["flagname"] = q
            b["flagval"] = rng.choice(sorted({FLAG[q](o) for s in specs for o in s["obs"]}))
            ts = [[o[0] for o in s["obs"] if FLAG[q](o) == b["flagval"]] or [0.0] for s in specs]
            if not common and rng.random() < 0.5 and all(max(t) - min(t) > 30 for t in ts):
                b["psrTspan"] = False
    if b["f"] == "dm_tn" and rng.random() < 0.6:
        b["kw"]["idx"] = pg.par("tnidx", 1.0, 3.0, cset=False)
    return b


def gen_sel(rng, partial=False):
    if partial and rng.random() < 0.25:
        return rng.choice(PARTIAL)
    s = rng.choice(SELS)
    return "band" if s == "band2" and not partial else s


def gen_anis(rng, npsr):
    """An anisotropic background: correlations as linear combinations of given matrices."""
    lmax = rng.choice([0, 1, 1, 2])

    def mat(diag, off):
        m = [[0.0] * npsr for _ in range(npsr)]
        for i in range(npsr):
            m[i][i] = sig(diag * (1 + 0.2 * rng.random()))
            for j in range(i):
                m[i][j] = m[j][i] = sig(off * (2 * rng.random() - 1))
        return m

    basis = [mat(0.3, 0.08)] + [mat(0.02, 0.02) for _ in range((lmax + 1) ** 2 - 1 + rng.choice([0, 3]))]
    kw = {"params": {"t": "vec", "n": (lmax + 1) ** 2 - 1, "lo": -1.0, "hi": 1.0}} if lmax else {}
    return {"f": "anis_orf", "lmax": lmax, "basis": basis, "kw": kw}


def gen_config(rng, small=True, npsr=None, wideband=None, common=None, coef=0.15, kinds=None, pargen=None, white_only_diag=False, ecorr=None, shared=False, big=False):
    """A complete model for 1 to 3 pulsars, all signals in random order."""
    if big:
        npsr = npsr or rng.choice([2, 3, 3])
        common = True
    if wideband is None:
        wideband = rng.random() < 0.1
    npsr = npsr or rng.choice([1, 1, 2, 2, 3])
    kinds = kinds or ["t2", "t2", "pint", "feather"]
    specs = [psrgen.random_spec(rng, i, wideband=wideband, kind=rng.choice(kinds), small=small) for i in range(npsr)]
    for s in specs:
        well_conditioned(s)
        if wideband and s["kind"] == "feather":
            s["kind"] = "t2"
        if s["kind"] != "t2":
            s["planets"] = True
    pg = pargen or ParGen(rng)
    sigs = []

    def add(d):
        sigs.append(d)
        return len(sigs) - 1

    # white noise
    white = []
    q = rng.random()
    if q < 0.8:
        white.append(
            add(
                {
                    "s": "mn",
                    "efac": default(rng, pg.par("efac", 0.7, 1.6), 0.5, 1.5, 0.7, 1.4),
                    "t2equad": pg.par("t2equad", -7.5, -6.0) if rng.random() < 0.5 else None,
                    "sel": gen_sel(rng),
                }
            )
        )
        if rng.random() < 0.4:
            white.append(add({"s": "tneq", "p": default(rng, pg.par("tnequad", -7.5, -6.0), -10, -5, -7.5, -6.0), "sel": gen_sel(rng, True)}))
    else:
        white.append(add({"s": "uwn", "p": pg.par("log10_q", -7.5, -6.0), "sel": rng.choice(["none", "backend", "fe", "tel"]), "name": "uw"}))
        if rng.random() < 0.4:
            white.append(add({"s": "tneq", "p": default(rng, pg.par("tnequad", -7.5, -6.0), -10, -5, -7.5, -6.0), "sel": gen_sel(rng, True), "name": "tnq"}))
    q = rng.random()
    ek = None
    if not white_only_diag and q < 0.5 or ecorr:
        ek = add(
            {
                "s": "ecorrk",
                "p": default(rng, pg.par("ecorr", -7.2, -6.0), -10, -5, -7.5, -6.0),
                "method": ecorr or rng.choice(["sparse", "block", "sherman-morrison", "fast-sherman-morrison"]),
                "sel": rng.choice(["none", "backend", "backend", "fe", "tel", "cb", "ng"]),
            }
        )
        white.append(ek)
    basis = []
    if 0.5 <= q < 0.65:
        basis.append(
            add(
                {
                    "s": "ecorrb",
                    "p": default(rng, pg.par("ecorr", -7.2, -6.0), -10, -5, -7.5, -6.0),
                    "sel": rng.choice(["none", "backend"]),
                    "name": "basis_ecorr",
                    "coef": rng.random() < coef,
                }
            )
        )
    # timing model
    if wideband:
        jsel = rng.choice(["none", "backend"])
        nb = len({o[2] for o in specs[0]["obs"]})
        jump = jsel == "backend" and npsr == 1 and nb > 1
        tm = add(
            {
                "s": "wtm",
                "name": "wideband_timing_model",
                "dmefac": default(rng, pg.par("dmefac", 0.8, 1.5), 0.1, 10.0, 0.8, 1.5),
                "dmequad": default(rng, pg.par("dmequad", -3.5, -2.5), -7.0, 0.0, -3.5, -2.5) if rng.random() < 0.5 else None,
                "dmjump": default(rng, pg.par("dmjump", -0.005, 0.005), -0.01, 0.01, -0.005, 0.005) if jump else None,
                "jsel": jsel if jump else "none",
                "jref": psrgen.BACKENDS[0] if jump and rng.random() < 0.5 else None,
                "sel": rng.choice(["none", "backend"]),
            }
        )
    elif rng.random() < 0.3:
        svd = rng.random() < 0.4
        tm = add({"s": "mtm", "name": "mtm", "svd": svd, "normed": True if svd else rng.random() < 0.7})
    else:
        svd = rng.random() < 0.35
        tm = add(
            {
                "s": "tm",
                "name": "linear_timing_model",
                "svd": svd,
                "normed": True if svd else rng.random() < 0.6,
                "coef": rng.random() < coef,
                "excl": None,
            }
        )
        ncol = min(len(s["fit"]) + s.get("ndmx", 0) for s in specs)
        if ncol > 1 and rng.random() < 0.25:
            sigs[tm]["excl"] = sorted(rng.sample(range(ncol), rng.randint(1, ncol - 1)))
    # Gaussian processes of single pulsars
    gps = []
    gpnames = rng.choice([["red_noise", "gp2"]] * 3 + [["red_noise", "dm_red_noise"], ["gp2_noise", "gp2"]])
    for k in range(rng.choice([1, 1, 2] if shared else [0, 1, 1, 2])):
        b = gen_basis(rng, pg, specs)
        sel = rng.choice(["none", "none", "none", gen_sel(rng, True)])
        if b.get("flagname"):
            sel = "none"
        prior = gen_prior(rng, pg, b["nmodes"])
        if k == 0 and sel == "none" and rng.random() < 0.05:
            # unconstrained; high frequencies, as the others could not be told from the timing model
            b = {"f": "red", "nmodes": 2, "kw": {}, "Tspan": pspan(specs), "fmin": 2.4 / pspan(specs), "fmax": 3.4 / pspan(specs), "flat": True}
            prior = {"f": "infinitepower", "kw": {}}
        d = {
            "s": "gp",
            "name": gpnames[k],
            "prior": prior,
            "basis": b,
            "combine": rng.random() < 0.6,
            "sel": sel,
            "coef": prior["f"] != "infinitepower" and rng.random() < coef,
        }
        if k == 0 and shared and not b.get("flat"):
            # a process (with correlated coefficients) that shares columns with a common one
            d.update(combine=True, sel="none", coef=False)
            b.setdefault("Tspan", pspan(specs))
            b.pop("psrTspan", None)
            if shared == "dense":
                d["prior"] = {"f": "user_dense", "kw": {"log10_s": pg.par("log10_s", -7.5, -6.0, fn=True), "rho": zero(rng, pg.par("rho", 0.1, 0.6), pg.par("rho0", -0.3, 0.6))}}
        if k == 1 and shared and rng.random() < 0.6:
            # another one with some of its columns
            a = sigs[gps[0]]
            if not a["basis"].get("flat") and not any(a["basis"].get(q) for q in ("logf", "fmin", "fmax", "modes")):
                b = dict(a["basis"], nmodes=rng.choice([q for q in (1, 2, 3, 4, 5) if q != a["basis"]["nmodes"]]))
                d.update(basis=b, prior=gen_prior(rng, pg, b["nmodes"]), combine=True, sel="none", coef=False)
                if shared == "dense":
                    d["prior"] = {"f": "user_dense", "kw": {"log10_s": pg.par("log10_s", -7.5, -6.0, fn=True), "rho": pg.par("rho", 0.1, 0.6)}}
        if b["f"] == "red" and not b["kw"] and rng.random() < 0.6:
            d["api"] = "fourier"
        if sel != "none" and not b.get("Tspan"):
            b["Tspan"] = pspan(specs)
        gps.append(add(d))
    # common processes
    commons = []
    if common is None:
        common = npsr > 1 and rng.random() < 0.7
    if common:
        for k in range(rng.choice([1, 1, 1, 2])):
            kind = rng.choice(["cgp", "cgp", "cgp", "cgp", "ephgp", "physgp"]) if k == 0 and not shared and not big else "cgp"
            if kind == "cgp":
                b = gen_basis(rng, pg, specs, common=True)
                if big and k == 0:  # enough columns for the supernodal factorisations
                    b = {"f": rng.choice(["red", "red", "dm"]), "nmodes": rng.choice([15, 29, 30, 30, 32]), "kw": {}, "Tspan": pspan(specs)}
                if shared or rng.random() < 0.5:  # same basis as an intrinsic process, so that columns are shared
                    cand = [sigs[g] for g in gps if sigs[g]["sel"] == "none" and sigs[g]["basis"].get("Tspan") and sigs[g]["basis"].get("psrTspan", True) and not sigs[g]["basis"].get("flat")]
                    if cand:
                        b = rng.choice(cand)["basis"]
                        if rng.random() < 0.4 and not any(b.get(q) for q in ("logf", "fmin", "fmax", "modes")):
                            b = dict(b, nmodes=rng.choice([q for q in (1, 2, 3, 4, 5) if q != b["nmodes"]]))
                orf = rng.choice(["hd_orf", "hd_orf", "dipole_orf", "monopole_orf", "user_orf", "anis_orf"])
                if big and rng.random() < 0.7:
                    orf = "user_orf"
                d = {
                    "s": "cgp",
                    "name": ["gw", "gw2"][k],
                    "prior": gen_prior(rng, pg, b["nmodes"]),
                    "basis": b,
                    "orf": {"f": orf, "kw": {"a": zero(rng, pg.par("orfa", 0.05, 0.9), pg.par("orf0", -0.3, 0.9))} if orf == "user_orf" else {}},
                    "combine": bool(shared) or rng.random() < 0.6,
                }
                if orf == "anis_orf":
                    d["orf"] = gen_anis(rng, npsr)
                if rng.random() < coef:
                    n = rng.choice([d["name"] + "_coefficients", "amplitudes_" + d["name"]])
                    d["coef"] = True
                    d["cpar"] = {"t": "glob", "n": n, "of": {"t": "vec", "n": 2 * b["nmodes"], "lo": -5e-7, "hi": 5e-7}}
                if b["f"] == "red" and not b["kw"] and rng.random() < 0.5:
                    d["api"] = "fourier"
                commons.append(add(d))
            elif kind == "ephgp":
                nm = 2
                commons.append(
                    add(
                        {
                            "s": "ephgp",
                            "name": "ephem_gp",
                            "prior": {
                                "f": "powerlaw",
                                "components": 6,
                                "kw": {"log10_A": pg.par("eA", -14.0, -13.0), "gamma": pg.par("eg", 1.5, 4.0)},
                            },
                            "basis": {"nmodes": nm, "Tspan": pspan(specs)},
                        }
                    )
                )
            else:
                d = {"s": "physgp", "name": "phys_ephem_gp", "sig": {}, "model": rng.choice(["setIII", "setIII", "orbel-v2"])}
                for q in sorted(PHYS):
                    r = rng.random()
                    if r < (0.5 if q == "sat_orb_elements" else 0.25):
                        d["sig"][q] = None
                    elif r < 0.6:
                        d["sig"][q] = sig(PHYS[q] * (0.3 + rng.random()) * {"frame_drift_rate": 1e5, "jup_orb_elements": 1, "sat_orb_elements": 1}.get(q, 100))
                if all(d["sig"].get(q, 1) is None for q in PHYS):
                    d["sig"] = {}
                commons.append(add(d))
    # deterministic signals
    dets = []
    if rng.random() < 0.5:
        f = rng.choice(["user_lin", "user_sin", "bwm_delay"])
        if f == "user_lin":
            kw = {"slope": pg.par("slope", -2e-6, 2e-6)}
            if rng.random() < 0.4:
                kw["t0"] = pg.par("lt0", 53300.0, 53700.0)
        elif f == "user_sin":
            kw = {"amp": pg.par("amp", 1e-7, 2e-6), "fgw": pg.par("fgw", 1e-8, 4e-8)}
            if rng.random() < 0.4:
                kw["vec"] = {"t": "vec", "n": 2, "lo": -3.0, "hi": 3.0}
        else:
            kw = {
                "log10_h": pg.par("log10_h", -14.0, -13.0),
                "cos_gwtheta": pg.par("cgt", -0.9, 0.9),
                "gwphi": pg.par("gwphi", 0.1, 6.0),
                "gwpol": pg.par("gwpol", 0.1, 3.0),
                "t0": pg.par("bwmt0", 53150.0, 53500.0),
            }
        dets.append(add({"s": "det", "f": f, "name": {"user_lin": "lin", "user_sin": "sin", "bwm_delay": "bwm"}[f], "kw": kw, "sel": rng.choice(["none", "none", detsel(rng)])}))
    if all(s["kind"] != "x" for s in specs) and rng.random() < 0.15:
        epoch = rng.random() < 0.4
        kw = {}
        for k in PHYS:
            vec = k.endswith("elements")
            lim = {"frame_drift_rate": 1e-4, "jup_orb_elements": 0.05, "sat_orb_elements": 0.5}.get(k, 1e-9)
            if rng.random() < (0.35 if vec else 0.5) or (not kw and k == "sat_orb_elements"):
                if rng.random() < 0.25:
                    lim = 1e-9 if k == "frame_drift_rate" else lim
                    P = {"t": "norm", "mu": 0, "sig": PHYS[k]} if k.endswith("mass") else {"t": "unif", "lo": -lim, "hi": lim}
                    if vec:
                        P = {"t": "vec", "n": 6, "lo": -lim, "hi": lim}
                    kw[k] = {"t": "glob", "n": k, "of": P, "dflt": True}
                else:
                    kw[k] = {"t": "vec", "n": 6, "lo": -lim, "hi": lim} if vec else pg.par("phe_" + k, -lim, lim)
        model = rng.choice(["setIII", "setIII", "orbel-v2"])
        dets.append(add({"s": "phe", "name": "", "kw": kw, "epoch": epoch, "model": model}))
    models = []
    same_order = rng.random() < 0.35
    for i in range(npsr):
        use = list(white) + [tm]
        for g in gps + dets + basis:
            if npsr == 1 or rng.random() < 0.75:
                use.append(g)
        for g in commons:
            if rng.random() < 0.85:
                use.append(g)
        if same_order:
            use.sort(key=lambda g: sigs[g]["s"] in ("gp", "cgp", "det"))
        else:
            rng.shuffle(use)
        if rng.random() < 0.08 and sigs[tm]["s"] == "tm":
            use.remove(tm)
            if rng.random() < 0.5:  # no Gaussian processes at all
                use = [g for g in use if g not in gps + commons + basis]
        models.append({"psr": i, "sigs": use})
    if npsr > 1 and rng.random() < 0.3:
        rng.shuffle(models)
    for m in models:  # an ecorr kernel sums with plain arrays whatever the order, but two structured matrices do not
        pass
    for d in sigs:
        if d["s"] in ("ecorrk", "gp", "cgp"):
            d["brief"] = rng.random() < 0.3
    cfg = {"psrs": specs, "signals": sigs, "models": models, "lnl": rng.choice(["sparse", "sparse", "dense"]), "assoc": rng.randrange(30)}
    return cfg


def common_info(cfg):
    """(number of common signals that act on two or more pulsars, whether 'partition' applies)."""
    cnt = {}
    for m in cfg["models"]:
        for i in m["sigs"]:
            if cfg["signals"][i]["s"] in ("cgp", "ephgp", "physgp") and not cfg["signals"][i].get("coef"):
                cnt[i] = cnt.get(i, 0) + 1
    act = [i for i, c in cnt.items() if c > 1]
    # (refused with an error for common processes with a dense covariance)
    part = not any(cfg["signals"][i].get("prior", {}).get("f") == "user_dense" for i in act)
    return len(act), part


def valid(cfg):
    """Configurations that the documentation supports (see DESIGN.md for the ones left out)."""
    for m in cfg["models"]:
        # enough observations for the number of timing-model columns
        s = cfg["psrs"][m["psr"]]
        if len(s["obs"]) < len(s["fit"]) + s.get("ndmx", 0) + 4:
            return False
    return True


def flat_conditioned(cfg, ref):
    """Unconstrained processes must be told from the timing model by the observations; no vectors without elements."""
    if any(e["size"] == 0 for e in ref.reg.var.values()):
        return False
    for m in cfg["models"]:
        rd = ref.rd[m["psr"]]
        ds = [cfg["signals"][i] for i in m["sigs"]]
        fl = [d for d in ds if d["s"] == "gp" and d["prior"]["f"] == "infinitepower"]
        if fl:
            F = ref._fourier(fl[0]["basis"], "", rd, np.ones(len(rd["toas"]), bool), {}, {})[0]
            X = np.hstack([F, rd["M"]])
            X = X / np.sqrt(np.sum(X**2, axis=0))
            if X.shape[1] + 3 > len(X) or np.linalg.cond(X) > 100:
                return False
    return True


def draw_config(rng, **kw):
    for _ in range(200):
        cfg = gen_config(rng, **kw)
        if not valid(cfg):
            continue
        try:
            ref = Ref(cfg)
        except KeyError:
            continue
        if not flat_conditioned(cfg, ref):
            continue
        names = [n for n in ref.reg.var] + [n for n in ref.reg.const]
        if len(names) != len(set(names)) or not ref.reg.var:
            continue
        return cfg
    raise RuntimeError("no valid configuration")
