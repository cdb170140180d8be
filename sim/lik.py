"""Sessions of clients that evaluate models: shared by C01 - C04, C11 and C13."""
import copy
import math
import zlib

import numpy as np

from . import gen, models, psrgen
from .core import HarnessError, Violation, fnum

LL_ABS, LL_REL = 3e-5, 1e-7


class Bad(Exception):
    pass


def h32(*a):
    return zlib.crc32(":".join(str(x) for x in a).encode())


def value(ref, name, seed, k):
    e = ref.reg.var[name]
    P, h = e["P"], h32(seed, name, k)
    if P["t"] == "gpc":
        return P["sc"] * np.random.RandomState(h % 3 + 17 * (h32(name) % 1000)).standard_normal(e["size"])
    if P["t"] == "vec":
        return P["lo"] + (P["hi"] - P["lo"]) * np.random.RandomState(h % 3 + 17 * (h32(name) % 1000)).uniform(size=e["size"])
    if P["t"] == "ig":
        return P["ga"] * (0.3 + 2 * np.random.RandomState(h % 3 + 17 * (h32(name) % 1000)).uniform(size=e["size"]))
    return float(models.grid(P)[h % 3])


def constvalue(ref, name, k):
    return float(models.grid(ref.reg.constP[name])[k % 3])


def close(got, want):
    if math.isinf(want) or math.isnan(want):
        return got == want
    try:
        return abs(float(got) - want) <= LL_ABS + LL_REL * abs(want)
    except (TypeError, ValueError):
        return False


def psr_digest(psr):
    """Digest of everything a model may read from a pulsar object."""
    import hashlib

    h = hashlib.sha256()
    for a in (
        "name toas stoas residuals toaerrs freqs Mmat fitpars setpars flags backend_flags telescope theta phi pos dm dmx"
        " pdist sunssb planetssb pos_t noisedict pulse_number"
    ).split():
        try:
            x = getattr(psr, a)
        except Exception:
            h.update(b"-")
            continue
        if isinstance(x, dict):
            for k in sorted(x):
                h.update(repr(k).encode())
                v = np.asarray(x[k])
                h.update(v.tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(x, np.ndarray) and x.dtype != object:
            x = x.astype(x.dtype.newbyteorder("="), copy=False)  # (numpy's pickles do not keep the byte order)
            h.update(str(x.dtype).encode() + np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(np.asarray(x, dtype=object).tolist() if x is not None else None).encode())
    return h.hexdigest()


class Model:
    """One real PTA with its reference."""

    def __init__(self, cfg, psrs, world, seed, classes=None, colls=None):
        self.cfg, self.psrs, self.world, self.seed = cfg, psrs, world, seed
        self.ref = models.Ref(cfg)
        self.c = dict(self.ref.reg.const)
        self.names = sorted(self.ref.reg.var)
        self.ncommon, self.part = gen.common_info(cfg)
        self.memo = {}
        self.classes, self.colls = classes, colls
        self.pta = None

    def build(self, setdef=True):
        self.pta = models.build_model(self.cfg, self.world, self.psrs, self.classes)
        if setdef and self.c:
            # (constants that were given with the model need not be set)
            P = self.ref.reg.constP
            self.pta.set_default_params({n: x for n, x in self.c.items() if P[n]["t"] != "const" or x != P[n]["v"] or h32(n, self.seed) % 2})
        return self

    def fresh(self):
        """The same model from scratch (own parameters), with the constants as they are now."""
        m = models.build_model(self.cfg, models.World(), self.psrs)
        if self.c:
            m.set_default_params(dict(self.c))
        return m

    def check_names(self):
        got = [p.name for p in self.pta.params]
        if got != self.names:
            raise Violation("parameter-names", "model has %s" % sorted(set(got) ^ set(self.names)))
        want = []
        for n in self.names:
            size = self.ref.reg.var[n]["size"]
            want += [n] if not size else ["%s_%d" % (n, j) for j in range(size)]
        if list(self.pta.param_names) != want:
            raise Violation("parameter-names", "param_names %s" % sorted(set(self.pta.param_names) ^ set(want)))

    def key(self, v):
        ks = tuple((n, tuple(v[n]) if np.ndim(v[n]) else v[n]) for n in self.names)
        return ks + tuple(sorted(self.c.items()))

    def want(self, what, v):
        k = (what, self.key(v))
        if k not in self.memo:
            try:
                self.memo[k] = getattr(self.ref, what)(v, self.c)
            except np.linalg.LinAlgError:
                self.memo[k] = -np.inf
        return self.memo[k]

    def point(self, k):
        return {n: value(self.ref, n, self.seed, k) for n in self.names}

    def methods(self):
        return ["cliques", "sparse"] + (["partition"] if self.part else [])


class Client:
    """A sampler: a current point, one dictionary and one vector that it changes in place."""

    def __init__(self, model, k):
        self.m = model
        self.v = model.point(k)
        self.nudged = set()
        self.own = {n: (np.array(x) if np.ndim(x) else x) for n, x in self.v.items()}
        self.vec = np.zeros(sum(np.size(x) for x in self.v.values()))
        self.sync()

    def sync(self):
        ct = 0
        for n in self.m.names:
            x = self.v[n]
            if np.ndim(x):
                self.own[n][:] = x
                self.vec[ct : ct + len(x)] = x
                ct += len(x)
            else:
                self.own[n] = x
                self.vec[ct] = x
                ct += 1

    def move(self, how, i, k):
        names = self.m.names
        if how == "one":
            n = names[i % len(names)]
            self.v[n] = value(self.m.ref, n, k, i)
        elif how == "some":
            for j in range(1 + i % 3):
                n = names[(i * 7 + j * 5) % len(names)]
                self.v[n] = value(self.m.ref, n, k, j)
        elif how == "all":
            self.v = self.m.point(k % 5)
        elif how == "elem":
            vecs = [n for n in names if np.ndim(self.v[n])]
            if vecs:
                n = vecs[i % len(vecs)]
                x = np.array(self.v[n])
                x[k % len(x)] = value(self.m.ref, n, k, i)[k % len(x)]
                self.v[n] = x
        elif how == "near":  # a small step, like the last ones of an optimizer, and back
            n = names[i % len(names)]
            self.v[n] = value(self.m.ref, n, k, i) if n in self.nudged else self.v[n] * (1 + (4e-5 if k % 2 else 3e-6))
            self.nudged ^= {n}
        elif how == "perm":  # the same elements in another order
            vecs = [n for n in names if np.ndim(self.v[n])]
            if vecs:
                n = vecs[i % len(vecs)]
                self.v[n] = np.array(self.v[n][::-1] if k % 2 else np.roll(self.v[n], 1))
        self.sync()

    def arg(self, mode):
        if mode == "own":
            return self.own
        if mode == "vec":
            return self.vec
        if mode == "list":
            return [float(x) for x in self.vec]
        d = {n: (np.array(x) if np.ndim(x) else x) for n, x in self.v.items()}
        if mode == "extra":
            d["not_a_parameter"] = 3.25
            for n in sorted(self.m.ref.reg.var)[:2]:
                d[n + "_unrelated"] = -1.0
        elif mode == "np":
            d = {n: (x if np.ndim(x) else np.float64(x)) for n, x in d.items()}
        elif mode == "rev":
            d = dict(reversed(list(d.items())))
        return d


ARGS = ["dict", "own", "own", "vec", "vec", "list", "extra", "np", "rev"]
NOISE = [
    "summary",
    "get_basis",
    "get_phi",
    "get_phiinv",
    "get_ndiag",
    "get_TNT",
    "get_TNr",
    "signals",
    "partial",
    "empty",
    "params",
    "phiinv_logdet",
    "hypercube",
    "repr",
    "residuals",
    "badpoint",
    "cond",
]


def noise(cl, what, k):
    """Other uses of a model between evaluations; what they return or raise is not looked at here."""
    try:
        _noise(cl, what, k)
    except (HarnessError, Violation):
        raise
    except Exception:
        pass


def _noise(cl, what, k):
    pta, v = cl.m.pta, cl.arg("dict")
    if what == "summary":
        pta.summary()
    elif what in ("get_basis", "get_phi", "get_phiinv", "get_ndiag", "get_TNT", "get_TNr"):
        getattr(pta, what)(v)
    elif what == "signals":
        for sc in pta.pulsarmodels:
            for s in sc.signals:
                s.get_basis(v)
                s.get_delay(v)
                s.get_ndiag(v)
                s.get_phi(v)
    elif what == "params":
        pta.params, pta.param_names, pta.signals, pta.pulsars, len(pta), pta.keys()
        for sc in pta.pulsarmodels:
            sc.params, sc.param_names
    elif what == "phiinv_logdet":
        for m in cl.m.methods():
            pta.get_phiinv(v, logdet=bool(k % 2), method=m)
    elif what == "repr":
        repr(pta), [repr(sc) for sc in pta.pulsarmodels], [repr(p) for p in pta.params]
    elif what == "residuals":
        pta.get_residuals()
    elif what == "hypercube":
        try:
            pta.get_hypercube_transform(np.linspace(0.2, 0.7, len(cl.vec)))
        except Exception:
            pass
    elif what in ("partial", "empty", "badpoint"):
        d = v
        if what == "empty":
            d = {}
        elif what == "partial":
            d = {n: x for j, (n, x) in enumerate(sorted(v.items())) if (j + k) % 3}
        else:
            n = sorted(v)[k % len(v)]
            d[n] = (np.full(len(v[n]), np.nan) if np.ndim(v[n]) else [float("nan"), 1e3, -1e3, float("inf"), 0.0][k % 5])
        for f in (pta.get_lnlikelihood, pta.get_delay, pta.get_basis, pta.get_lnprior):
            try:
                f(d)
            except Exception:
                pass
    elif what == "cond":
        from enterprise.signals import utils

        try:
            c = utils.ConditionalGP(pta, phiinv_method=cl.m.methods()[k % len(cl.m.methods())])
            c.get_mean_coefficients(v)
            c.get_mean_processes(v)
        except Exception:
            pass
    else:
        raise HarnessError(what)


def evaluate(ctx, cl, op, guard=None):
    """One checked operation of a client. guard: None, or a callable(fn) that runs fn with faults injected."""
    m = cl.m
    kind = op[0]
    run = guard or (lambda f: ("value", f()))
    if kind == "ll":
        meths = m.methods()
        meth = meths[op[2] % len(meths)]
        a = cl.arg(op[3])
        kw = {} if meth == "cliques" and op[2] % 2 == 0 else {"phiinv_method": meth}
        st, got = run(lambda: m.pta.get_lnlikelihood(a, **kw))
        want = m.want("lnlike", cl.v)
        if st == "value":
            ctx.event("ll", meth, op[3], fnum(round(float(got), 3)) if np.ndim(got) == 0 else "?")
            if not close(got, want) and not (got == -np.inf and guard and guard.factorisation):
                raise Violation("likelihood", "%s(%s) = %r, the model has %r" % (meth, op[3], got, want))
            ctx.stat("ll")
        else:
            ctx.event("ll", meth, op[3], st)
        return st
    if kind == "prior":
        a = cl.arg(op[3])
        st, got = run(lambda: m.pta.get_lnprior(a))
        want = m.want("lnprior", cl.v)
        if st == "value":
            ctx.event("prior", fnum(round(float(got), 4)))
            if not (got == want or abs(got - want) <= 1e-7 * (1 + abs(want))):
                raise Violation("prior", "get_lnprior = %r, the model has %r" % (got, want))
            ctx.stat("prior")
        else:
            ctx.event("prior", st)
        return st
    if kind == "delay":
        a = cl.arg("own" if op[3] == "own" else "dict")
        st, got = run(lambda: m.pta.get_delay(a))
        if st == "value":
            check_delays(m, cl.v, got)
            ctx.event("delay")
            ctx.stat("delay")
            return got
        ctx.event("delay", st)
        return st
    raise HarnessError(kind)


def check_delays(m, v, got, kind="delay"):
    want = m.want("delays", v)
    for sc, g, w in zip(m.pta.pulsarmodels, got, want):
        tol = 3e-12 + 1e-8 * np.max(np.abs(w))
        try:
            d = np.max(np.abs(np.asarray(g, float) - w))
        except (TypeError, ValueError) as e:
            raise Violation(kind, "delay of %s: %s" % (sc.psrname, e))
        if not d <= tol:
            raise Violation(kind, "delay of %s is off by %g of %g" % (sc.psrname, d, np.max(np.abs(w))))


def shape(cfg):
    """Structure of a configuration, for the state measure."""
    return tuple(
        sorted(
            (
                tuple(
                    (d["s"], d.get("method"), d.get("sel"), bool(d.get("coef")), d.get("basis", {}).get("f"), d.get("prior", {}).get("f"))
                    for d in (cfg["signals"][i] for i in m["sigs"])
                )
            )
            for m in cfg["models"]
        )
    )


def make_psrs(cfg):
    used = {m["psr"] for m in cfg["models"]}
    return [psrgen.make_pulsar(s) if i in used else None for i, s in enumerate(cfg["psrs"])]


def simplify_cfg(cfg):
    """Smaller configurations (for minimisation)."""
    for i in range(len(cfg["models"])):
        if len(cfg["models"]) > 1:
            c = copy.deepcopy(cfg)
            del c["models"][i]
            if gen.valid(c):
                yield c
    for i in range(len(cfg["signals"])):
        if not any(i in m["sigs"] for m in cfg["models"]):
            continue
        c = copy.deepcopy(cfg)
        for m in c["models"]:
            m["sigs"] = [x for x in m["sigs"] if x != i]
        white = all(any(c["signals"][x]["s"] in ("mn", "uwn") for x in m["sigs"]) for m in c["models"])
        if white and gen.valid(c) and models.Ref(c).reg.var:
            yield c
    for i in range(len(cfg["models"])):
        for x in cfg["models"][i]["sigs"]:
            c = copy.deepcopy(cfg)
            c["models"][i]["sigs"].remove(x)
            white = any(c["signals"][y]["s"] in ("mn", "uwn") for y in c["models"][i]["sigs"])
            if white and gen.valid(c) and models.Ref(c).reg.var:
                yield c
    for i, d in enumerate(cfg["signals"]):
        if d.get("sel", "none") != "none":
            c = copy.deepcopy(cfg)
            c["signals"][i]["sel"] = "none"
            if d["s"] != "wtm":
                yield c
    for i, s in enumerate(cfg["psrs"]):
        if s["kind"] != "t2":
            c = copy.deepcopy(cfg)
            c["psrs"][i]["kind"] = "t2"
            yield c


def random_ops(rng, n, nclients, weights):
    ops = []
    kinds = list(weights)
    w = [weights[k] for k in kinds]
    for _ in range(n):
        k = rng.choices(kinds, w)[0]
        cl = rng.randrange(nclients)
        if k == "ll":
            ops.append(["ll", cl, rng.randrange(6), rng.choice(ARGS)])
        elif k == "prior":
            ops.append(["prior", cl, 0, rng.choice(["dict", "own", "vec", "np"])])
        elif k == "delay":
            ops.append(["delay", cl, 0, rng.choice(["dict", "own"])])
        elif k == "move":
            ops.append(["move", cl, rng.choice(["one", "one", "one", "some", "all", "elem", "near", "near", "perm"]), rng.randrange(60), rng.randrange(6)])
        elif k == "noise":
            ops.append(["noise", cl, rng.choice(NOISE), rng.randrange(12)])
        else:
            ops.append([k, cl, rng.randrange(60), rng.randrange(6)])
    return ops
