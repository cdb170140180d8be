"""Synthetic pulsars: a JSON spec -> raw data arrays -> real Tempo2Pulsar / PintPulsar / FeatherPulsar objects."""
import os
import shutil
import tempfile

import numpy as np

DAY = 86400.0
BACKENDS = ["GUPPI_800", "ASP-L", "PUPPI_1400", "custom_X"]
FREQS = [430.0, 800.0, 1400.0, 2300.0]
TELS = ["ao", "gbt", "wsrt"]
NAMES = ["J0030+0451", "B1855+09", "J1713+0747", "J9999-0001", "J0437-4715"]
LIKE = ["J0030+04", "J0030+0451A", "J1713+0747B", "0451", "J0437-4715"]  # names that others begin or end with


def random_spec(rng, idx, wideband=False, kind="t2", minfit=1, small=False):
    """rng: random.Random. Observations come in epochs whose TOAs are at most 0.4 s apart; epochs are days apart."""
    nback = rng.choice([1, 2, 2])
    nep = rng.randint(4, 7) if small else rng.randint(5, 10)
    t0 = 53000 + rng.randint(0, 200)
    step = rng.choice([37.0, 91.0, 180.5])
    obs = []
    q = rng.random()  # now and then a backend (or all) without repeated observations
    nep += 3 * (q < 0.08)
    for e in range(nep):
        mjd = t0 + e * step + rng.randint(0, 9) * 0.37
        be = e % nback
        n = 1 if q < 0.08 or q < 0.15 and be else 2 if e < nback else rng.choice([1, 2, 3])
        for j in range(n):
            obs.append([mjd, j * 0.1 + 0.01 * rng.randint(0, 3), be, rng.randint(0, len(FREQS) - 1)])
    if rng.random() < 0.7:
        rng.shuffle(obs)
    fit = ["F0"] if minfit else []
    for p in ["F1", "RAJ", "DECJ", "JUMP1"]:
        if rng.random() < 0.4:
            fit.append(p)
    spec = {
        "name": (LIKE if rng.random() < 0.15 else NAMES)[idx % len(NAMES)],
        "seed": rng.randint(0, 10**6),
        "obs": obs,
        "raj": round(rng.uniform(0, 6.28), 3),
        "decj": round(rng.uniform(-1.5, 1.5), 3),
        "fit": fit,
        "ndmx": rng.randint(1, 3) if wideband else 0,
        "sort": rng.random() < 0.8,
        "planets": True,
        "kind": kind,
        "wideband": wideband,
        "ecl": False,
    }
    return spec


def data_from_spec(spec):
    obs = spec["obs"]
    n = len(obs)
    rs = np.random.RandomState(spec["seed"])
    uid = np.array([o[4] if len(o) > 4 else i for i, o in enumerate(obs)], dtype=int)
    nuid = int(uid.max()) + 1 if n else 0
    z = rs.standard_normal((nuid, 80))[uid] if n else np.zeros((0, 80))
    mjd = np.array([o[0] for o in obs], dtype=float)
    sec = np.array([o[1] for o in obs], dtype=float)
    toas = mjd + sec / DAY
    be = np.array([o[2] for o in obs], dtype=int)
    fr = np.array([o[3] for o in obs], dtype=int)
    tmid = 53500.0
    x = (toas - tmid) / 1000.0
    freqs = np.array(FREQS)[fr] + z[:, 70] * 0.5
    d = {"name": spec["name"], "toas": toas}
    d["stoas"] = toas + 0.003 + 1e-4 * z[:, 71]
    d["res"] = 2e-6 * z[:, 0]
    d["errs"] = 0.5 + np.abs(z[:, 1])  # microseconds
    d["freqs"] = freqs
    d["tel"] = [TELS[b % len(TELS)] for b in be]
    d["planets"] = 500.0 * z[:, 2:56].reshape(n, 9, 6)
    # an Earth closer to the barycenter: enterprise takes differences of delays, with rounding errors 1e-11 of this distance
    d["planets"][:, 2] *= 1e-5
    d["sun"] = z[:, 56:62]
    p0 = np.array(
        [
            np.cos(spec["raj"]) * np.cos(spec["decj"]),
            np.sin(spec["raj"]) * np.cos(spec["decj"]),
            np.sin(spec["decj"]),
        ]
    )
    d["pos_t"] = p0[None, :] + 1e-7 * z[:, 62:65]
    pars = {"F0": (100.0, 1e-9), "DM": (15.0 + spec["seed"] % 7, 1e-3)}
    if spec.get("ecl"):
        pars["ELONG"] = (spec["raj"], 1e-8)
        pars["ELAT"] = (spec["decj"] * 0.9, 1e-8)
    else:
        pars["RAJ"] = (spec["raj"], 1e-8)
        pars["DECJ"] = (spec["decj"], 1e-8)
    fit = list(spec["fit"])
    if spec.get("ecl"):
        fit = [{"RAJ": "ELONG", "DECJ": "ELAT"}.get(p, p) for p in fit]
    cols = [np.ones(n)]
    bnames = [BACKENDS[b] for b in be]
    for p in fit:
        if p == "F0":
            cols.append(x)
        elif p == "F1":
            cols.append(x**2)
        elif p in ("RAJ", "ELONG"):
            cols.append(np.cos(2 * np.pi * toas / 365.25))
        elif p in ("DECJ", "ELAT"):
            cols.append(np.sin(2 * np.pi * toas / 365.25))
        elif p == "JUMP1":
            cols.append(((be == 0) * 1.0 + 0.3 * (fr == 1)))
            pars["JUMP1"] = (1e-6, 1e-7)
        elif p == "PX":
            cols.append(np.cos(4 * np.pi * toas / 365.25))
        else:
            cols.append(z[:, 72] + 0.01 * len(cols) * x)
        pars.setdefault(p, (1.0 + len(cols), 1e-5))
    if spec.get("ndmx"):
        lo, hi = spec.get("dmx_range") or [float(np.min(d["stoas"])) - 1.0, float(np.max(d["stoas"])) + 1.0]
        edges = np.linspace(lo, hi, spec["ndmx"] + 1)
        k = 0
        for i in range(spec["ndmx"]):
            inside = (d["stoas"] >= edges[i]) & (d["stoas"] < edges[i + 1])
            if not inside.any() and not spec.get("keep_empty_dmx"):
                continue
            k += 1
            nm = "DMX_%04d" % k
            fit.append(nm)
            cols.append(inside * (1400.0 / freqs) ** 2)
            pars[nm] = (1e-3 * z[np.argmax(inside), 73], 1e-4)
            pars["DMXR1_%04d" % k] = (float(edges[i]), 0.0)
            pars["DMXR2_%04d" % k] = (float(edges[i + 1]), 0.0)
    d["M"] = np.array(cols).T.copy() if n else np.zeros((0, len(cols)))
    d["pars"], d["fit"] = pars, fit
    d["set"] = [k for k in pars]
    flags = {}
    if not spec.get("noflags"):
        flags["f"] = np.array(bnames)
        flags["B"] = np.array(["%dCM" % (10 * (q + 1)) for q in fr])
        flags["fe"] = np.array(["fe%d" % (b % 2) for b in be])
        flags["be"] = np.array(["b%d" % q for q in fr])
        if spec.get("uidflag"):
            flags["uid"] = np.array(["id%d" % u for u in uid])
        if spec.get("partialflag"):
            flags["group"] = np.array(["G" if b == 0 and q == 0 else "" for b, q in zip(be, fr)])
    if spec.get("wideband"):
        flags["pp_dm"] = np.array(["%.9f" % (15.0 + spec["seed"] % 7 + 2e-3 * v) for v in z[:, 74]])
        flags["pp_dme"] = np.array(["%.9f" % (1e-3 * (0.5 + abs(v))) for v in z[:, 75]])
    for k in spec.get("rmflags", []):
        flags.pop(k, None)
    d["flags"] = flags
    d["uid"] = uid
    return d


LAYOUTS = {
    "swapped": lambda a: a.astype(a.dtype.newbyteorder("S")),
    "fortran": np.asfortranarray,
    "single": lambda a: a.astype(np.float32),
    "strided": lambda a: np.repeat(a, 2, axis=0)[::2],
    "reversed": lambda a: np.ascontiguousarray(a[::-1])[::-1],
}


def make_pulsar(spec, scratch=None):
    """Build the real pulsar object."""
    import enterprise.pulsar as ep

    from . import fakes

    d = data_from_spec(spec)
    kind = spec.get("kind", "t2")
    if kind == "pint":
        d["with_planets"] = spec.get("planets", True)
        psr = ep.Pulsar(fakes.TOAs(d), fakes.TimingModel(d), sort=spec.get("sort", True), planets=spec.get("planets", True))
    else:
        psr = ep.Pulsar(fakes.tempopulsar(data=d), sort=spec.get("sort", True), planets=spec.get("planets", True))
    if spec.get("layout"):  # arrays in memory as another source of data may have them
        for attr in ("_designmatrix", "_planetssb", "_sunssb"):
            a = getattr(psr, attr)
            if a is not None:
                setattr(psr, attr, LAYOUTS[spec["layout"]](a))
    if kind == "feather":
        tmp = tempfile.mkdtemp(prefix="simf")
        try:
            fn = os.path.join(tmp, "p.feather")
            psr.to_feather(fn)
            psr = ep.Pulsar(fn)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return psr


# ------------------------------------------------------------------------------------------------ par/tim files
# par line: NAME VALUE ERR FIT ; tim line: "<name> <freq> <mjd> <err> <site> -id <uid> -f <be>"


def write_par(path, spec):
    with open(path, "w") as f:
        f.write("PSR %s\nRAJ %r\nDECJ %r\nSEED %d\nFIT %s\nMARK %s\n" % (
            spec["name"], spec["raj"], spec["decj"], spec["seed"], ",".join(spec["fit"]) or "-", spec.get("mark", "x")))


def tim_line(o, uid, name="obs"):
    return name + "%d %s %.6f %s %s -uid %d -be %d -sec %r" % (uid, o[3], o[0], "1.0", "ao", uid, o[2], o[1])


def spec_from_files(parfile, timfile, maxobs, kind):
    spec = {"seed": 0, "raj": 0.1, "decj": 0.1, "fit": [], "sort": True, "planets": True, "kind": kind, "uidflag": True}
    with open(parfile) as f:
        for line in f:
            w = line.split()
            if not w:
                continue
            if w[0] == "PSR":
                spec["name"] = w[1]
            elif w[0] == "RAJ":
                spec["raj"] = float(w[1])
            elif w[0] == "DECJ":
                spec["decj"] = float(w[1])
            elif w[0] == "SEED":
                spec["seed"] = int(w[1])
            elif w[0] == "FIT":
                spec["fit"] = [] if w[1] == "-" else w[1].split(",")
            elif w[0] == "MARK":
                spec["mark"] = w[1]
    obs = []

    def read(fn):
        with open(fn) as f:
            for line in f:
                if line.startswith(("C ", "CC ", "#")) or not line.strip():
                    continue
                w = line.split()
                if w[0].upper() == "INCLUDE":
                    read(w[1])
                elif w[0] in ("FORMAT", "MODE"):
                    continue
                else:
                    if maxobs is not None and len(obs) >= maxobs:
                        raise RuntimeError("MAXOBS-EXCEEDED")
                    kv = dict(zip(w[5::2], w[6::2]))
                    obs.append([float(w[2]), float(kv["-sec"]), int(kv["-be"]), int(w[1]), int(kv["-uid"])])

    read(timfile)
    spec["obs"] = obs
    return spec
