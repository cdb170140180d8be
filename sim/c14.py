"""C14: prior samplers terminate and draw from the declared distribution."""
import math

import numpy as np

from .core import Scenario, Violation
from .rngsim import Bits, Budget, pair

TOP = 1 - 2.0**-53
EPS = 2.0**-53


def user_pdf(value, scale=1.0):
    return np.where(np.asarray(value) >= 0, np.exp(-np.asarray(value) / scale) / scale, 0.0) if np.ndim(value) else (math.exp(-value / scale) / scale if value >= 0 else 0.0)


def user_sampler(scale=1.0, size=None):
    return np.random.exponential(scale, size)


def user_ppf(value, scale=1.0):
    return -scale * np.log1p(-np.asarray(value))


def arr(x):
    return np.array(x, float) if isinstance(x, list) else x


def make(spec):
    from enterprise.signals import gp_priors, parameter

    a = {k: arr(x) for k, x in spec["a"].items()}
    t, n = spec["t"], spec["n"]
    if t == "user":
        f = parameter.Function
        cls = parameter.UserParameter(prior=f(user_pdf, **a), sampler=user_sampler, ppf=f(user_ppf, **a), size=n)
    elif t == "invgamma":
        cls = gp_priors.InvGamma(size=n, **a)
    else:
        cls = {"unif": parameter.Uniform, "norm": parameter.Normal, "tnorm": parameter.TruncNormal, "linexp": parameter.LinearExp}[t](size=n, **a)
    return cls, a


def full(x, n):
    return np.broadcast_to(np.asarray(x, float), (n,))


# ---- reference: density, quantiles and draws


def pdf(spec, a, x):
    """Density of each element (of the whole vector for a covariance matrix)."""
    from scipy import stats

    t = spec["t"]
    x = np.asarray(x, float)
    if t == "unif":
        return np.where((x >= a["pmin"]) & (x <= a["pmax"]), 1.0 / (np.asarray(a["pmax"], float) - a["pmin"]), 0.0)
    if t == "linexp":
        lo, hi = np.asarray(a["pmin"], float), np.asarray(a["pmax"], float)
        return np.where((x >= lo) & (x <= hi), np.log(10) * 10.0**x / (10.0**hi - 10.0**lo), 0.0)
    if t == "norm":
        if np.ndim(a.get("sigma", 1)) == 2:
            return stats.multivariate_normal.pdf(x, a["mu"], a["sigma"])
        return stats.norm.pdf(x, a.get("mu", 0), a.get("sigma", 1))
    if t == "tnorm":
        mu, s, lo, hi = (np.asarray(a[k], float) for k in ("mu", "sigma", "pmin", "pmax"))
        sgn = np.where((lo - mu) / s > 0, -1.0, 1.0)  # work in the lower tail
        Z = np.where(sgn > 0, stats.norm.cdf((hi - mu) / s) - stats.norm.cdf((lo - mu) / s), stats.norm.sf((lo - mu) / s) - stats.norm.sf((hi - mu) / s))
        return np.where((x >= lo) & (x <= hi), stats.norm.pdf(x, mu, s) / Z, 0.0)
    if t == "invgamma":
        al, g = a.get("alpha", 1), a.get("gamma", 1)
        with np.errstate(all="ignore"):
            return np.where(x > 0, np.exp(al * np.log(g) - math.lgamma(al) - (al + 1) * np.log(np.where(x > 0, x, 1)) - g / np.where(x > 0, x, 1)), 0.0)
    return user_pdf(x if spec["n"] else float(x), **a)


def quantile(spec, a, u):
    from scipy import special

    t = spec["t"]
    u = np.asarray(u, float)
    if t == "unif":
        return np.asarray(a["pmin"], float) + (np.asarray(a["pmax"], float) - a["pmin"]) * u
    if t == "linexp":
        lo, hi = 10.0 ** np.asarray(a["pmin"], float), 10.0 ** np.asarray(a["pmax"], float)
        return np.log10(lo + (hi - lo) * u)
    if t == "norm":
        return a.get("mu", 0) + a.get("sigma", 1) * special.ndtri(u)
    if t == "user":
        return user_ppf(u, **a)
    if t == "invgamma":
        with np.errstate(all="ignore"):
            return a.get("gamma", 1) / special.gammainccinv(a.get("alpha", 1), u)
    raise KeyError(t)


def draws(spec, a, rs, rs2):
    """The values that the declared distribution assigns to the numbers of the stream: a list of accepted possibilities."""
    t, n = spec["t"], spec["n"]
    if t in ("unif", "linexp"):
        x = quantile(spec, a, rs.random_sample(n))
        return [np.clip(x, a["pmin"], a["pmax"])]
    if t == "invgamma":
        # zero has no density: the outcome next to it takes its place
        return [quantile(spec, a, np.maximum(rs.random_sample(n), EPS))]
    if t == "user":
        return [-a.get("scale", 1.0) * np.log1p(-rs.random_sample(n))]
    if t == "norm":
        return [a.get("mu", 0) + a.get("sigma", 1) * rs.standard_normal(n)]
    m = n or 1
    mu, s, lo, hi = (full(a[k], m) for k in ("mu", "sigma", "pmin", "pmax"))
    x = np.array([mu[i] + s[i] * rs.standard_normal() for i in range(m)])
    while True:  # all at once, then the rejected ones again
        w = np.flatnonzero((x <= lo) | (x >= hi))
        if not len(w):
            break
        for i in w:
            x[i] = mu[i] + s[i] * rs.standard_normal()
    y = np.full(m, np.nan)
    for i in range(m):  # one element after the other
        while not lo[i] < y[i] < hi[i]:
            y[i] = mu[i] + s[i] * rs2.standard_normal()
    return [x, y] if n else [x[0]]


def mass(a, m):
    """Smallest probability that the normal distribution gives to the domain of an element."""
    from scipy import stats

    mu, s, lo, hi = (full(a[k], m) for k in ("mu", "sigma", "pmin", "pmax"))
    zl, zh = (lo - mu) / s, (hi - mu) / s
    zl, zh = np.where(zl > 0, -zh, zl), np.where(zl > 0, -zl, zh)
    return float(np.min(stats.norm.cdf(zh) - stats.norm.cdf(zl)))


def dtol(spec, a):
    """Relative accuracy of a density: differences of error functions cancel for domains far from the centre."""
    if spec["t"] != "tnorm":
        return 1e-8
    return 1e-8 + (spec["n"] or 1) * 1e-15 / mass(a, spec["n"] or 1)


class C14(Scenario):
    ID = "C14"
    LEVEL = "exploration"
    RUNS = {"quick": 6000, "thorough": 300000}
    RULE = (
        "one evaluation = one simulated run: parameters of several types are drawn in random order while the simulator decides"
        " every outcome of the random bits; distinct non-trivial = runs with at least three checked draws one of which met an"
        " extreme outcome, told apart by the digest of their event log"
    )
    STATES = "distinct (type, which arguments are vectors, kinds of outcome supplied, number of rejections) tuples"
    REAL = ["enterprise.signals.parameter and gp_priors samplers, densities and quantile functions", "numpy RandomState and scipy.stats on top of the scripted bits"]
    STUB = ["the bit generator (every double it delivers is chosen by the simulator)"]
    ASSUME = [
        "vector arguments are numpy arrays of the declared size",
        "inverse-gamma shapes of at least 0.5 (below, the quantile of the largest random number overflows)",
        "a rejection sampler may retry element by element or all rejected elements together",
    ]

    # ---- plans

    def make_spec(self, rng):
        t = rng.choice(["unif", "norm", "tnorm", "tnorm", "tnorm", "linexp", "invgamma", "user", "mvn"])
        n = rng.choice([None, None, 1, 2, 3, 5])
        f4 = lambda x: float("%.4g" % x)

        def maybe(fn):
            if n and rng.random() < 0.4:
                return [f4(fn()) for _ in range(n)]
            return f4(fn())

        if t == "unif":
            lo = maybe(lambda: rng.uniform(-20, 5))
            if isinstance(lo, list):
                hi = [f4(x + rng.uniform(0.1, 9)) for x in lo]
            else:
                hi = f4(lo + rng.uniform(0.1, 9))
                if rng.random() < 0.2:
                    lo, hi = int(lo), int(lo) + rng.randint(1, 9)
            return {"t": t, "n": n, "a": {"pmin": lo, "pmax": hi}}
        if t == "linexp":
            lo = maybe(lambda: rng.uniform(-20, 1))
            hi = [f4(x + rng.uniform(0.1, 4)) for x in lo] if isinstance(lo, list) else f4(lo + rng.uniform(0.1, 4))
            return {"t": t, "n": n, "a": {"pmin": lo, "pmax": hi}}
        if t == "norm":
            a = {}
            if rng.random() < 0.85:
                a = {"mu": maybe(lambda: rng.uniform(-9, 9)), "sigma": maybe(lambda: math.exp(rng.uniform(-4, 3)))}
            return {"t": t, "n": n, "a": a}
        if t == "mvn":
            n = rng.randint(1, 4)
            A = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
            S = [[f4(sum(A[i][k] * A[j][k] for k in range(n)) + (0.5 if i == j else 0)) for j in range(n)] for i in range(n)]
            q = rng.choice([1, 1, 1e-2, 1e-5, 1e-7])  # in any units
            mu = [f4(rng.uniform(-3, 3)) * q for _ in range(n)]
            return {"t": "norm", "n": n, "a": {"mu": mu, "sigma": [[x * q**2 for x in row] for row in S]}}
        if t == "invgamma":
            a = {} if rng.random() < 0.2 else {"alpha": f4(rng.uniform(0.5, 4)), "gamma": f4(math.exp(rng.uniform(-3, 3)))}
            return {"t": t, "n": n, "a": a}
        if t == "user":
            return {"t": t, "n": n, "a": {} if rng.random() < 0.3 else {"scale": f4(rng.uniform(0.1, 5))}}
        m = n or 1
        mu, s = maybe(lambda: rng.uniform(-3, 3)), maybe(lambda: math.exp(rng.uniform(-2, 2)))
        ml, sl = (mu if isinstance(mu, list) else [mu] * m), (s if isinstance(s, list) else [s] * m)
        vec = n and (isinstance(mu, list) or isinstance(s, list) or rng.random() < 0.3)
        sh = rng.choice([0, 0, 0, -1.5, 1.5])
        w = rng.choice([0.2, 1, 2, 4])
        if rng.random() < 0.08:
            sh, w = rng.choice([-6, 6]), 2.0
        lo = [f4(ml[i] + sl[i] * (sh - w * rng.uniform(0.3, 1))) for i in range(m)]
        hi = [f4(ml[i] + sl[i] * (sh + w * rng.uniform(0.3, 1))) for i in range(m)]
        if not vec:
            lo, hi = lo[0], hi[0]
        elif rng.random() < 0.3:
            lo = min(lo)
        elif rng.random() < 0.3:
            hi = max(hi)
        return {"t": "tnorm", "n": n, "a": {"mu": mu, "sigma": s, "pmin": lo, "pmax": hi}}

    def make_script(self, rng, spec):
        n = spec["n"] or 1
        if spec["t"] not in ("norm", "tnorm"):
            return [["u", rng.choice([0.0, EPS, TOP, 1 - 2.0**-52, 0.5, rng.random(), rng.random()])] for _ in range(rng.choice([0, n, n, n + 2]))]
        out = []
        a = spec["a"]
        if spec["t"] == "tnorm" and rng.random() < 0.12:  # a long streak of rejected numbers
            g = lambda k, j: a[k][j] if isinstance(a[k], list) else a[k]
            lo = min((g("pmin", j) - g("mu", j)) / g("sigma", j) for j in range(n)) - 0.4
            hi = max((g("pmax", j) - g("mu", j)) / g("sigma", j) for j in range(n)) + 0.4
            z = [x for x in (lo, hi) if abs(x) < 7.5]
            if z:
                out.append(["z*", rng.choice(z), rng.choice(z), int(math.exp(rng.uniform(2, 7.6)))])
        for _ in range(rng.choice([0, 1, n, n + 1, 3 * n])):
            z = []
            for _ in range(2):
                r = rng.random()
                if r < 0.25:
                    z.append(rng.choice([-1, 1]) * rng.uniform(3, 8))
                elif r < 0.3:
                    z.append(rng.choice([0.0, 1e-9]))
                elif spec["t"] == "tnorm" and r < 0.65:
                    j = rng.randrange(n)
                    g = lambda k: a[k][j] if isinstance(a[k], list) else a[k]
                    lo, hi = (g("pmin") - g("mu")) / g("sigma"), (g("pmax") - g("mu")) / g("sigma")
                    z.append(rng.choice([lo - 1e-6, lo + 1e-6, hi - 1e-6, hi + 1e-6, 0.5 * (lo + hi)]))
                else:
                    z.append(rng.gauss(0, 1))
            if rng.random() < 0.06:
                out.append(["u", rng.choice([0.0, TOP, 0.5])])
                out.append(["u", rng.choice([0.0, TOP, 0.5])])
            else:
                out.append(["z", z[0], z[1]])
        return out

    def make_plan(self, rng, i, tier):
        ps = [self.make_spec(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(3, 10)):
            k = rng.randrange(len(ps))
            q = rng.random()
            if q < 0.72:
                b = None
                if ps[k]["t"] == "tnorm" and rng.random() < 0.2:
                    b = [rng.choice(["pmin", "pmax"]), rng.randrange(6)]
                ops.append(["draw", k, self.make_script(rng, ps[k]), rng.randrange(10**6), rng.choice([1, 1, 2, 3]), b])
            elif q < 0.86:
                ops.append(["pdf", k, [rng.choice([-0.2, 0.0, 0.1, 0.5, 0.9, 1.0, 1.3]) for _ in range(5)], rng.randrange(10**6)])
            else:
                ops.append(["ppf", k, [rng.choice([0.0, 1.0, 1e-9, 0.3, 0.5, 0.99, rng.random()]) for _ in range(5)], rng.randrange(10**6)])
        return {"params": ps, "ops": ops}

    # ---- execution

    def execute(self, plan, ctx):
        made = []
        for j, s in enumerate(plan["params"]):
            cls, a = make(s)
            made.append((s, cls("p%d" % j), a, {k: np.array(v, copy=True) for k, v in a.items()}))
        drawn = extreme = 0
        held = []
        for op in plan["ops"]:
            ctx.steps += 1
            spec, par, a, a0 = made[op[1] % len(made)]
            n = spec["n"]
            if op[0] == "draw":
                if op[5]:
                    b = self.at_bound(spec, op, n)
                    if mass(b[2], n or 1) > 1e-12:
                        spec, par, a, a0 = b
                script = self.script(op[2])
                for tok in op[2]:
                    if tok[0] == "z*":
                        extreme += 1
                        ctx.fault("streak_of_rejections")
                    elif tok[0] == "u" and tok[1] in (0.0, EPS, TOP) or tok[0] == "z" and max(abs(tok[1]), abs(tok[2])) > 3:
                        extreme += 1
                        ctx.fault("extreme_" + ("uniform" if tok[0] == "u" else "normal"))
                good = []
                if spec["t"] == "tnorm":
                    m = n or 1
                    mu, sg, lo, hi = (full(a[k], m) for k in ("mu", "sigma", "pmin", "pmax"))
                    zl, zh = (lo - mu) / sg, (hi - mu) / sg
                    zz = np.clip(np.clip(0.0, zl, zh), np.minimum(zl + 0.2, 0.5 * (zl + zh)), np.maximum(zh - 0.2, 0.5 * (zl + zh)))
                    good = [pair(z, z2) for z in zz for z2 in (zz[0], -1.0)]
                bits = Bits(script, op[3], None, good).freeze()
                shadow = bits.shadow(), bits.shadow()
                bits.budget = 400000
                bits.install()
                for r in range(op[4]):
                    try:
                        x = par.sample()
                    except Budget:
                        raise Violation("no-termination", "%s: no value after %d random numbers" % (spec, bits.i))
                    except Exception as e:
                        raise Violation("raised:" + type(e).__name__, "%r drawing from %s" % (e, spec))
                    drawn += 1
                    self.check_draw(spec, par, a, x, shadow, ctx, r)
                    held.append((x, np.array(x, copy=True)))
                    ctx.event("draw", spec["t"], n, "%.9e" % float(np.sum(x)))
                vecs = tuple(k for k in sorted(a) if np.ndim(a[k]))
                ctx.state(spec["t"], n, vecs, tuple(t[0] for t in op[2])[:4], min(bits.i // max(n or 1, 1), 12), bool(op[5]))
                if bits.i > 2 * (n or 1) * op[4] and spec["t"] == "tnorm":
                    ctx.stat("rejections")
            elif op[0] == "pdf":
                self.check_pdf(spec, par, a, op, ctx)
            else:
                self.check_ppf(spec, par, a, op, ctx)
            for k in a:
                if not np.array_equal(a[k], a0[k]):
                    raise Violation("argument-modified", "%s of %s was changed" % (k, spec))
        for x, y in held:
            if not np.array_equal(x, y):
                raise Violation("value-overwritten", "a value drawn earlier was changed by a later draw")
        if drawn >= 3 and extreme:
            ctx.stat("nontrivial")
        ctx.stat("draws", drawn)

    def script(self, toks):
        out = []
        for tok in toks:
            if tok[0] == "u":
                out.append(tok[1])
            else:
                out += pair(tok[1], tok[2]) * (tok[3] if tok[0] == "z*" else 1)
        return out

    def at_bound(self, spec, op, n):
        """The same parameter, with a bound that coincides with one of the values the stream leads to."""
        script = self.script(op[2])
        rs = Bits(script, op[3]).freeze().shadow()
        z = rs.standard_normal(n or 1)
        a = {k: arr(v) for k, v in spec["a"].items()}
        m = n or 1
        j = op[5][1] % m
        x = np.full(m, 0.0) + np.asarray(a["mu"], float) + np.asarray(a["sigma"], float) * z
        lo, hi = np.array(full(a["pmin"], m)), np.array(full(a["pmax"], m))
        (lo if op[5][0] == "pmin" else hi)[j] = x[j]
        if True:  # a domain of reasonable size
            k = op[5][0]
            if k == "pmin":
                hi[j] = lo[j] + full(a["sigma"], m)[j]
            else:
                lo[j] = hi[j] - full(a["sigma"], m)[j]
        s = {"t": "tnorm", "n": n, "a": {**spec["a"], "pmin": [float(v) for v in lo] if n else float(lo[0]), "pmax": [float(v) for v in hi] if n else float(hi[0])}}
        cls, a = make(s)
        return s, cls("pb"), a, {k: np.array(v, copy=True) for k, v in a.items()}

    def check_draw(self, spec, par, a, x, shadow, ctx, r):
        n = spec["n"]
        t = spec["t"]
        if np.shape(x) != (() if n is None else (n,)):
            raise Violation("shape", "%s gives a value of shape %s" % (spec, np.shape(x)))
        if n is not None and not isinstance(x, np.ndarray):
            raise Violation("shape", "%s gives a %s" % (spec, type(x).__name__))
        x = np.asarray(x, float)
        if not np.all(np.isfinite(x)):
            raise Violation("not-finite", "%s gives %s" % (spec, x))
        p = pdf(spec, a, x)
        q = par.get_pdf(x if n is not None else float(x))
        lq = par.get_logpdf(x if n is not None else float(x))
        if not (np.all(p > 0) and np.ndim(q) == 0 and q > 0 and lq > -np.inf):
            raise Violation("zero-density", "%s gives %r: density %r, log %r, reference %s" % (spec, x.tolist(), q, lq, p))
        want = float(np.prod(p))
        tol = dtol(spec, a)
        if not abs(q - want) <= tol * want or not abs(lq - math.log(want)) <= tol * (1 + abs(math.log(want))):
            raise Violation("density", "%s at %r: density %r, log %r, not %r" % (spec, x.tolist(), q, lq, want))
        if t == "norm" and np.ndim(a.get("sigma", 1)) == 2:
            z = shadow[0].standard_normal(n)
            d = x - a["mu"]
            m2 = float(d @ np.linalg.solve(a["sigma"], d))
            if not abs(m2 - z @ z) <= 1e-8 * (1 + z @ z):
                raise Violation("not-the-distribution", "%s: %r lies %g from the mean, the normal numbers %g from zero" % (spec, x.tolist(), m2**0.5, (z @ z) ** 0.5))
            return
        ok = False
        for w in draws(spec, a, *shadow):
            tol = 1e-9 * (1 + np.abs(w))
            if t == "linexp":
                tol = tol + 1e-9
            if np.all(np.abs(x - w) <= tol):
                ok = True
                break
        if not ok:
            raise Violation("not-the-distribution", "%s gives %r, the numbers consumed stand for %s" % (spec, x.tolist(), np.asarray(w).tolist()))

    def check_pdf(self, spec, par, a, op, ctx):
        n, t = spec["n"], spec["t"]
        rs = np.random.RandomState(op[3] % 2**31)
        if t in ("unif", "linexp", "tnorm"):
            lo, hi = np.asarray(a["pmin"], float), np.asarray(a["pmax"], float)
            inner = 1e-9
            u = np.clip(np.array(op[2][: n or 1]), None, None)
            u = np.where(u == 0.0, inner, np.where(u == 1.0, 1 - inner, u))
            x = lo + (hi - lo) * (u if n else u[0])
        elif t == "norm":
            S = a.get("sigma", 1)
            x = np.asarray(a.get("mu", 0)) + (np.sqrt(np.diag(S)) if np.ndim(S) == 2 else S) * rs.standard_normal(n)
        else:
            x = rs.standard_exponential(n) * (1 if rs.rand() < 0.8 else -1)
        x = x if n else float(x)
        want = float(np.prod(pdf(spec, a, x)))
        with np.errstate(all="ignore"):
            q, lq = par.get_pdf(x), par.get_logpdf(x)
            qp = par.get_pdf(params={par.name: x, "other": 1.0})
        ctx.event("pdf", t, "%.6e" % want)
        ctx.stat("densities")
        lw = math.log(want) if want > 0 else -math.inf
        if not (np.ndim(q) == 0 and abs(q - want) <= dtol(spec, a) * want and q == qp):
            raise Violation("density", "%s at %r: %r (%r), not %r" % (spec, x, q, qp, want))
        if not (lq == lw or abs(lq - lw) <= dtol(spec, a) * (1 + abs(lw))):
            raise Violation("density", "%s at %r: log density %r, not %r" % (spec, x, lq, lw))

    def check_ppf(self, spec, par, a, op, ctx):
        n, t = spec["n"], spec["t"]
        if t in ("tnorm", "invgamma") or np.ndim(a.get("sigma", 1)) == 2:
            try:
                par.get_ppf(0.5)
            except NotImplementedError:
                return
            raise Violation("quantile", "%s has quantiles" % spec)
        u = np.array(op[2][: n or 1])
        if t in ("norm", "user"):
            u = np.clip(u, 1e-9, 1 - 1e-9)
        u0 = u.copy()
        x = par.get_ppf(u if n else float(u[0]))
        want = quantile(spec, a, u if n else u[0])
        ctx.event("ppf", t)
        ctx.stat("quantiles")
        if np.shape(x) != np.shape(want) or not np.all(np.abs(x - want) <= 1e-8 * (1 + np.abs(want))):
            raise Violation("quantile", "%s: quantiles %s of %s, not %s" % (spec, x, u, want))
        if not np.array_equal(u, u0):
            raise Violation("argument-modified", "get_ppf changed its argument")
        if not (n or np.ndim(x) == 0):
            raise Violation("shape", "quantile of %s" % spec)

    def simplify(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op[0] == "draw":
                for j in range(len(op[2])):
                    p = {**plan, "ops": [list(o) for o in plan["ops"]]}
                    p["ops"][i][2] = op[2][:j] + op[2][j + 1 :]
                    yield p
                if op[4] > 1:
                    p = {**plan, "ops": [list(o) for o in plan["ops"]]}
                    p["ops"][i][4] = 1
                    yield p
