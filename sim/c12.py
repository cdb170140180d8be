"""C12: joint draws of parameters are coherent with their hyperparameters."""
import copy
import math
import random

import numpy as np
from scipy import special

from . import gen, lik, models, psrgen
from .core import HarnessError, Scenario, Violation
from .rngsim import Bits

FAILUSER = [0]


class SamplerError(Exception):
    pass


def user_pdf(value, scale=1.0):
    return np.where(np.asarray(value) >= 0, np.exp(-np.asarray(value) / scale) / scale, 0.0)


def user_sampler(scale=1.0, size=None):
    if FAILUSER[0] > 0:
        FAILUSER[0] -= 1
        if FAILUSER[0] == 0:
            raise SamplerError("injected")
    return np.random.exponential(scale, size)


def user_ppf(value, scale=1.0):
    return -np.asarray(scale) * np.log1p(-np.asarray(value))


def user_wave(toas, **kw):
    return np.zeros_like(toas)


def combine(x=0.5, y=0.25):
    return 0.6 * np.asarray(x) + 0.4 * np.asarray(y) if np.ndim(x) or np.ndim(y) else 0.6 * x + 0.4 * y


_as = {}


def combine_as(kw):
    """The same function, with another name for its first argument."""
    if kw not in _as:
        d = {"combine": combine}
        exec("def f(%s=0.5, y=0.25):\n    return combine(%s, y)" % (kw, kw), d)
        _as[kw] = d["f"]
    return _as[kw]


class Failing:
    """Lets the k-th call of a sampling function of numpy or scipy fail, before or after it took its numbers."""

    def __init__(self):
        import scipy.stats

        self.left, self.exc = 0, None
        for n in dir(np.random):
            f = getattr(np.random, n)
            if getattr(f, "__self__", None) is np.random.mtrand._rand and n not in ("seed", "get_state", "set_state"):
                setattr(np.random, n, self.wrap(f))
        rvs = scipy.stats.invgamma.rvs
        scipy.stats.invgamma.rvs = self.wrap(rvs)

    def wrap(self, f):
        def sampler(*a, **k):
            if self.left <= 0:
                return f(*a, **k)
            self.left -= 1
            if self.left == 0 and self.before:
                raise self.exc
            r = f(*a, **k)
            if self.left == 0:
                raise self.exc
            return r

        return sampler

    def arm(self, exc, k):
        self.exc, self.left, self.before = exc, 1 + k // 2, k % 2 == 0


# ---- hierarchies: a node is {"t", "n", "a": {argument: source}}
# sources: number or list | {"s": "class", "node": ...} | {"s": "inst", "i": index} | {"s": "const", "v": x, "late": bool, "inst": bool}
#          | {"s": "fn", "name": str, "kw": {"x": source, "y": source}, optional "as": name of the first keyword}


class Hier:
    def __init__(self, plan):
        from enterprise.signals import parameter

        self.parameter = parameter
        self.plan = plan
        self.inst = []
        self.consts = []
        self.info = {}  # name -> (type, size, {argument: getter})
        self.deps = {}
        for j, nd in enumerate(plan["nodes"]):
            name = "q%d" % j if nd.get("name") is None else nd["name"]
            p = self.cls(nd, name)(name)
            self.describe(nd, name)
            self.inst.append(p)
        for c, v, late in self.consts:
            if late:
                c.value = v

    # -- the library's objects

    def cls(self, nd, name):
        from enterprise.signals import gp_priors

        P = self.parameter
        a = {k: self.source(s, name + "_" + k) for k, s in nd["a"].items()}
        n = nd["n"]
        if nd["t"] == "user":
            kw = {"ppf": P.Function(user_ppf, **a)} if self.plan.get("cube") else {}
            return P.UserParameter(prior=P.Function(user_pdf, **a), sampler=user_sampler, size=n, **kw)
        if nd["t"] == "nosampler":
            return P.UserParameter(prior=P.Function(user_pdf, **a), size=n)
        if nd["t"] == "invgamma":
            return gp_priors.InvGamma(size=n, **a)
        return {"unif": P.Uniform, "norm": P.Normal, "tnorm": P.TruncNormal, "linexp": P.LinearExp}[nd["t"]](size=n, **a)

    def source(self, s, name):
        P = self.parameter
        if not isinstance(s, dict):
            return np.array(s, float) if isinstance(s, list) else s
        if s["s"] == "class":
            return self.cls(s["node"], name)
        if s["s"] == "inst":
            return self.inst[s["i"]]
        if s["s"] == "const":
            c = P.Constant() if s["late"] else P.Constant(s["v"])
            if s["inst"] or s["late"]:
                c = c("c%d" % len(self.consts))
                self.consts.append((c, s["v"], s["late"]))
            return c
        kw = {k: self.source(x, name + "_" + s["name"] * bool(s["name"]) + "_" * bool(s["name"]) + k) for k, x in s["kw"].items()}
        return P.Function(combine_as(s.get("as", "x")), name=s["name"], **kw)

    # -- the reference

    def describe(self, nd, name):
        self.info[name] = (nd["t"], nd["n"], {k: self.getter(s, name + "_" + k) for k, s in nd["a"].items()})
        self.deps[name] = set()
        for k, s in nd["a"].items():
            self.deps[name] |= self.names(s, name + "_" + k)

    def getter(self, s, name):
        if not isinstance(s, dict):
            x = np.array(s, float) if isinstance(s, list) else s
            return lambda v: x
        if s["s"] == "class":
            self.describe(s["node"], name)
            return lambda v: v[name]
        if s["s"] == "inst":
            nm = self.inst[s["i"]].name
            return lambda v: v[nm]
        if s["s"] == "const":
            return lambda v: s["v"]
        g = {k: self.getter(x, "_".join(q for q in (name, s["name"], k) if q)) for k, x in s["kw"].items()}
        return lambda v: combine(**{"x" if k == s.get("as") else k: f(v) for k, f in g.items()})

    def names(self, s, name):
        if not isinstance(s, dict) or s["s"] == "const":
            return set()
        if s["s"] == "class":
            return {name} | self.deps[name]
        if s["s"] == "inst":
            nm = self.inst[s["i"]].name
            return {nm} | self.deps[nm]
        out = set()
        for k, x in s["kw"].items():
            out |= self.names(x, "_".join(q for q in (name, s["name"], k) if q))
        return out

    def closure(self, idx):
        out = set()
        for j in idx:
            n = self.inst[j].name
            out |= {n} | self.deps[n]
        return out


class Stream:
    """What the bits delivered, and which values can be made of them."""

    def __init__(self, bits):
        rng = copy.deepcopy(bits.rng)
        rng.setstate(bits.state0)
        self.d = np.array([rng.random() for _ in range(bits.i)])
        x = 2 * self.d - 1
        r2 = x[:-1] ** 2 + x[1:] ** 2
        ok = (r2 > 0) & (r2 < 1)
        f = np.where(ok, np.sqrt(-2 * np.log(np.where(ok, r2, 0.5)) / np.where(ok, r2, 0.5)), np.nan)
        self.z = np.concatenate([f * x[1:], f * x[:-1]])
        self.used = {}

    def uniform(self, u, tol, who):
        return self._find(self.d, u, tol, who, "u")

    def normal(self, z, tol, who):
        return self._find(self.z, z, tol, who, "z")

    def _find(self, xs, x, tol, who, kind):
        if not len(xs):
            return "no random number was taken"
        e = np.abs(xs - x)
        e[~np.isfinite(e)] = np.inf
        for i in np.argsort(e)[:3]:
            if e[i] <= tol:
                if (kind, int(i)) not in self.used:
                    self.used[(kind, int(i))] = who
                    return None
                return "the random number of %s was used again" % self.used[(kind, int(i))]
        return "off by %.2g" % np.min(e)


def check_value(name, t, a, x, st):
    """Whether x (one element) is what the distribution with the arguments a makes of one of the random numbers."""
    if t == "unif":
        return st.uniform((x - a["pmin"]) / (a["pmax"] - a["pmin"]), 1e-11 * (1 + (abs(a["pmin"]) + abs(a["pmax"])) / (a["pmax"] - a["pmin"])), name)
    if t == "linexp":
        lo, hi = 10.0 ** a["pmin"], 10.0 ** a["pmax"]
        return st.uniform((10.0**x - lo) / (hi - lo), 1e-11 * (1 + hi / (hi - lo)) * (1 + abs(a["pmax"])), name)
    if t == "norm":
        return st.normal((x - a["mu"]) / a["sigma"], 1e-10 * (1 + abs(a["mu"]) / a["sigma"]), name)
    if t == "tnorm":
        if not a["pmin"] < x < a["pmax"]:
            return "outside of its domain"
        return st.normal((x - a["mu"]) / a["sigma"], 1e-10 * (1 + abs(a["mu"]) / a["sigma"]), name)
    if t == "invgamma":
        return st.uniform(special.gammaincc(a["alpha"], a["gamma"] / x), 1e-9, name)
    if t == "user":
        return st.uniform(-math.expm1(-x / a["scale"]), 1e-10, name)
    raise HarnessError(t)


CUBEPSR = psrgen.random_spec(random.Random(3), 0, kind="t2", small=True)
DEFAULTS = {
    "norm": {"mu": 0, "sigma": 1},
    "tnorm": {"mu": 0, "sigma": 1, "pmin": -2, "pmax": 2},
    "invgamma": {"alpha": 1, "gamma": 1},
    "user": {"scale": 1.0},
    "nosampler": {"scale": 1.0},
}


class Idx(dict):
    cube = False


class Point:
    """A point of the unit cube, in place of the stream: which number belongs to which parameter is known."""

    def __init__(self, u):
        self.u = u

    def uniform(self, x, tol, who):
        return None if abs(x - self.now) <= tol else "off by %.2g" % abs(x - self.now)

    def normal(self, x, tol, who):
        z = float(special.ndtri(self.now))
        return None if abs(x - z) <= 1e-9 * (1 + abs(z)) + tol else "off by %.2g" % abs(x - z)


class C12(Scenario):
    ID = "C12"
    LEVEL = "exploration"
    RUNS = {"quick": 6000, "thorough": 300000}
    RULE = (
        "one evaluation = one simulated run: a random hierarchy of parameters (or the parameters of a random model) is drawn"
        " jointly several times, in random lists and orders, with failures of the generator or of a sampler in between; distinct"
        " non-trivial = runs with at least two checked joint draws that involve hyperparameters, told apart by the digest of"
        " their event log"
    )
    STATES = "distinct (structure of the hierarchy drawn, length of the list, preceding failure) tuples"
    REAL = ["enterprise.signals.parameter (sample, all parameter types, Function), gp_priors.InvGamma; PTA.params of random models", "numpy RandomState on top of the scripted bits"]
    STUB = ["the bit generator (every number comes from the simulator, which knows what each distribution makes of it)"]
    ASSUME = ["a function given as an argument of another has no keyword in common with the other arguments of that one (it is given their values, as documented)", "values are matched to random numbers within rounding errors"]

    # ---- plans

    def src(self, rng, lo, hi, n, idx, depth, fn=True, pos=False):
        """Where an argument with values in [lo, hi] comes from."""
        f4 = lambda x: float("%.4g" % x)
        r = rng.random()
        if depth > 0 and r < 0.4:
            w = hi - lo
            k = rng.choice(["unif", "unif", "tnorm", "linexp"] if lo > -30 else ["unif", "tnorm"])
            m = n if n and rng.random() < 0.3 else None
            nd = {"t": k, "n": m}
            if k == "tnorm" and idx.cube:
                nd["t"] = k = "unif"
            if k == "tnorm":
                nd["a"] = {
                    "mu": self.src(rng, f4(lo + 0.3 * w), f4(lo + 0.7 * w), m, idx, depth - 1),
                    "sigma": f4(0.4 * w),
                    "pmin": lo,
                    "pmax": hi,
                }
            else:
                nd["a"] = {
                    "pmin": self.src(rng, lo, f4(lo + 0.3 * w), m, idx, depth - 1) if rng.random() < 0.5 else lo,
                    "pmax": self.src(rng, f4(lo + 0.7 * w), hi, m, idx, depth - 1) if rng.random() < 0.5 else hi,
                }
            return {"s": "class", "node": nd}
        if depth > 0 and r < 0.62:
            c = [j for j, (a, b, m) in idx.items() if a >= lo and b <= hi and (m is None or m == n)]
            if c:
                return {"s": "inst", "i": rng.choice(c)}
        if r < 0.75:
            return {"s": "const", "v": f4(rng.uniform(lo, hi)), "late": rng.random() < 0.3, "inst": rng.random() < 0.5}
        if fn and depth > 0 and r < 0.87:
            kw = {"x": self.src(rng, lo, hi, None, idx, depth - 1, False)}
            if rng.random() < 0.6:
                kw["y"] = self.src(rng, lo, hi, None, idx, depth - 1, False)
            elif not lo <= 0.25 <= hi:
                kw["y"] = f4(0.5 * (lo + hi))
            return {"s": "fn", "name": rng.choice(["", "", "fun"]), "kw": kw}
        if n and rng.random() < 0.3:
            return [f4(rng.uniform(lo, hi)) for _ in range(n)]
        return f4(rng.uniform(lo, hi))

    def node(self, rng, idx, cube=False):
        n = rng.choice([None, None, None, 1, 2, 4])
        t = rng.choice(["norm", "norm", "unif", "linexp", "user"] + ([] if cube else ["tnorm", "invgamma"]))
        d = rng.choice([1, 2, 2, 3])
        box = None
        if t == "norm":
            a = {"mu": self.src(rng, -3.0, 3.0, n, idx, d), "sigma": self.src(rng, 0.1, 2.0, n, idx, d)}
        elif t == "tnorm":
            a = {
                "mu": self.src(rng, -3.0, 3.0, n, idx, d),
                "sigma": self.src(rng, 1.0, 2.0, n, idx, d),
                "pmin": self.src(rng, -5.0, -4.0, n, idx, d),
                "pmax": self.src(rng, 4.0, 5.0, n, idx, d),
            }
        elif t == "unif":
            a = {"pmin": self.src(rng, -3.0, -2.9, n, idx, d), "pmax": self.src(rng, 2.9, 3.0, n, idx, d)}
            if rng.random() < 0.4:
                a = rng.choice([{"pmin": -3.0, "pmax": 3.0}, {"pmin": 0.1, "pmax": 2.0}, {"pmin": 1.0, "pmax": 2.0}])
                box = (a["pmin"], a["pmax"], n)
        elif t == "linexp":
            a = {"pmin": self.src(rng, -3.0, -1.0, n, idx, d), "pmax": self.src(rng, 0.0, 2.0, n, idx, d)}
        elif t == "invgamma":
            a = {"alpha": self.src(rng, 0.6, 3.0, n, idx, d), "gamma": self.src(rng, 0.5, 2.0, n, idx, d)}
        else:
            a = {"scale": self.src(rng, 0.1, 2.0, n, idx, d)}
        for k, x in a.items():
            # functions with a keyword of the same name as the argument they are given for
            if isinstance(x, dict) and x["s"] == "fn" and rng.random() < 0.3:
                x["kw"] = {k if q == "x" else q: y for q, y in x["kw"].items()}
                x["as"] = k
        return {"t": t, "n": n, "a": a}, box

    def make_plan(self, rng, i, tier):
        if i % 12 == 11:
            return self.model_plan(rng)
        idx, nodes = Idx(), []
        idx.cube = i % 6 == 5
        for j in range(rng.randint(2, 6)):
            nd, box = self.node(rng, idx, idx.cube)
            if box:
                idx[j] = box
            nodes.append(nd)
        if rng.random() < 0.15 and not idx.cube:
            nodes.append({"t": "nosampler", "n": None, "a": {"scale": self.src(rng, 0.1, 2.0, None, idx, 2)}})
        ops = []
        for _ in range(rng.randint(2, 8)):
            l = [rng.randrange(len(nodes)) for _ in range(rng.randint(1, len(nodes) + 1))]
            if rng.random() < 0.2:
                l = list(range(len(nodes)))
                rng.shuffle(l)
            q = rng.random()
            if idx.cube and rng.random() < 0.7:
                ops.append(["cube", l, rng.randrange(10**6), rng.choice(["vector", "vector", "dict", "list", "own"])])
                continue
            if q < 0.6:
                ops.append(["joint", l, rng.randrange(10**6)])
            elif q < 0.7:
                ops.append(["single", l[:1], rng.randrange(10**6)])
            elif q < 0.78:
                ops.append(["given", l[:1], rng.randrange(10**6), rng.randrange(10**6)])
            elif q < 0.9:
                ops.append(["fail", l, rng.randrange(10**6), rng.choice(["interrupt", "memory", "user"]), rng.randint(0, 8)])
            else:
                ops.append(["const", [], rng.randrange(10), float("%.4g" % rng.random())])
        ops.append(["joint", list(range(len(nodes))), rng.randrange(10**6)])
        ops.append(["joint", list(range(len(nodes)))[::-1], rng.randrange(10**6)])
        return {"nodes": nodes, "ops": ops, "cube": idx.cube}

    def model_plan(self, rng):
        for _ in range(100):
            cfg = gen.draw_config(rng, coef=0.0, pargen=gen.ParGen(rng, pconst=0.1, pconstset=0.05, pglob=0.3, pfn=0.2, phyper=0.3))
            if not any(d.get("coef") for d in cfg["signals"]):
                break
        n = rng.randint(2, 5)
        return {"cfg": cfg, "seed": rng.randrange(10**6), "ops": [["pta", rng.randrange(10**6), rng.random() < 0.3, rng.randint(0, 9), rng.randrange(1000)] for _ in range(n)]}

    # ---- execution

    def execute(self, plan, ctx):
        if "cfg" in plan:
            return self.run_model(plan, ctx)
        H = Hier(plan)
        F = Failing()
        drawn, failed = 0, None
        reprs = [repr(p) for p in H.inst]
        for op in plan["ops"]:
            ctx.steps += 1
            if op[0] == "const":
                if H.consts:
                    c, v, _ = H.consts[op[2] % len(H.consts)]
                    if c.value != v:
                        raise Violation("constant-changed", "%s is %r, not %r" % (c.name, c.value, v))
                continue
            if op[0] == "cube":
                drawn += self.cube(H, op, ctx, failed)
                continue
            parlist = [H.inst[j % len(H.inst)] for j in op[1]]
            want = H.closure([j % len(H.inst) for j in op[1]])
            nosamp = any(H.info[n][0] == "nosampler" for n in want)
            bits = Bits([], op[2]).freeze()
            bits.budget = 100000
            FAILUSER[0] = 0
            if op[0] == "fail":
                if op[3] == "user":
                    FAILUSER[0] = op[4] + 1
                else:
                    F.arm({"interrupt": KeyboardInterrupt, "memory": MemoryError}[op[3]]("injected"), op[4])
            lst = list(parlist)
            given = None
            bits.install()
            try:
                if op[0] == "single":
                    ret = H.parameter.sample(parlist[0])
                elif op[0] == "given":
                    if nosamp:
                        continue
                    b2 = Bits([], op[3]).freeze()
                    b2.install()
                    given = H.parameter.sample(parlist[0])
                    bits.install()
                    del given[parlist[0].name]
                    g0 = dict(given)
                    x = parlist[0].sample(params=given)
                    if given.keys() != g0.keys() or any(given[k] is not g0[k] for k in g0):
                        raise Violation("argument-modified", "the hyperparameters handed over were changed")
                    ret = dict(given)
                    ret[parlist[0].name] = x
                else:
                    ret = H.parameter.sample(parlist)
            except Violation:
                raise
            except AttributeError as e:
                if nosamp:
                    ctx.fault("no_sampler")
                    failed = "no sampler"
                    ctx.event(op[0], "no sampler")
                    continue
                raise Violation("raised:AttributeError", "%r drawing %s" % (e, [p.name for p in parlist]))
            except BaseException as e:
                FAILUSER[0] = 0
                if op[0] == "fail" and isinstance(e, (SamplerError, KeyboardInterrupt, MemoryError)):
                    ctx.fault(op[3])
                    failed = op[3]
                    ctx.event("fail", op[3], op[4])
                    continue
                raise Violation("raised:" + type(e).__name__, "%r drawing %s" % (e, [(p.name, repr(p)) for p in parlist]))
            finally:
                FAILUSER[0] = F.left = 0
            if nosamp:
                raise Violation("drew-without-sampler", "%s" % sorted(ret))
            if len(lst) != len(parlist) or any(a is not b for a, b in zip(lst, parlist)):
                raise Violation("argument-modified", "the list of parameters was changed")
            if bits.spent and op[0] != "fail":
                raise Violation("no-termination", "%d random numbers" % bits.i)
            if set(ret) != want:
                raise Violation("names", "drawn: %s" % sorted(set(ret) ^ want))
            st = Stream(bits)
            for n in sorted(ret):
                if given is not None and n in given:
                    continue
                self.check(H.info[n], n, ret, st, failed)
            for c, v, _ in H.consts:
                if c.value != v:
                    raise Violation("constant-changed", "%s is %r, not %r" % (c.name, c.value, v))
            deep = max(len(H.deps[n]) for n in want)
            ctx.state(sorted((H.info[n][0], H.info[n][1] or 0, len(H.deps[n])) for n in want), len(parlist), failed)
            ctx.event(op[0], [p.name for p in parlist], "%.9e" % float(sum(np.sum(x) for x in ret.values())))
            ctx.stat("joint_draws")
            ctx.stat("values", len(ret))
            if failed:
                ctx.stat("draws_after_failure")
            if deep:
                drawn += 1
        if [repr(p) for p in H.inst] != reprs:
            raise Violation("parameter-changed", "the description of a parameter changed")
        if drawn >= 2:
            ctx.stat("nontrivial")

    def cube(self, H, op, ctx, failed):
        """A draw as nested samplers make it: the model transforms a point of the unit cube."""
        from enterprise.signals import deterministic_signals, signal_base, white_signals

        key = tuple(sorted({j % len(H.inst) for j in op[1]}))
        if not hasattr(H, "ptas"):
            H.ptas, H.psr, H.own = {}, psrgen.make_pulsar(CUBEPSR), {}
        if key not in H.ptas:
            f = H.parameter.Function(user_wave, **{"a%d" % j: H.inst[j] for j in key})
            s = white_signals.MeasurementNoise(efac=H.parameter.Constant(1.0)) + deterministic_signals.Deterministic(f)
            H.ptas[key] = signal_base.PTA([s(H.psr)])
        pta = H.ptas[key]
        want = sorted(H.closure(key))
        size = {n: H.info[n][1] for n in want}
        rs = np.random.RandomState(op[2] % 2**31)
        u = {n: rs.uniform(0.001, 0.999, size[n]) for n in want}
        if op[2] % 5 == 0:
            u = {n: np.where(rs.uniform(size=size[n]) < 0.3, rs.choice([1e-9, 0.5, 1 - 1e-9]), x) for n, x in u.items()}
        vec = np.concatenate([np.ravel(u[n]) for n in want])
        if op[3] == "own":  # the same array again, with other numbers in it
            vec = H.own.setdefault(key, np.zeros(len(vec)))
            vec[:] = np.concatenate([np.ravel(u[n]) for n in want])
        arg = {"dict": {n: (x if size[n] else float(x)) for n, x in u.items()}, "list": [float(x) for x in vec]}.get(op[3], vec)
        before = copy.deepcopy(arg)
        try:
            got = pta.get_hypercube_transform(arg)
        except Exception as e:
            raise Violation("raised:" + type(e).__name__, "%r transforming a point of the unit cube for %s" % (e, [repr(p) for p in pta.params]))
        if repr(arg) != repr(before):
            raise Violation("argument-modified", "the point of the unit cube was changed")
        if np.shape(got) != (len(vec),):
            raise Violation("shape", "%s values for %d" % (np.shape(got), len(vec)))
        ret, o = {}, 0
        for n in want:
            m = size[n] or 1
            ret[n] = np.array(got[o : o + m]) if size[n] else float(got[o])
            o += m
        for n in want:
            t, k, g = H.info[n]
            a = dict(DEFAULTS.get(t, {}))
            a.update({q: f(ret) for q, f in g.items()})
            m = k or 1
            A = {q: np.broadcast_to(np.asarray(v, float), (m,)) for q, v in a.items()}
            pt = Point(u)
            for i in range(m):
                pt.now = float(np.ravel(u[n])[i])
                bad = check_value(n, t, {q: float(v[i]) for q, v in A.items()}, float(np.ravel(ret[n])[i]), pt)
                if bad:
                    raise Violation(
                        "cube" if not failed else "cube-after-failure",
                        "%s = %r is not the quantile %r of %s with %s (%s)" % (n, float(np.ravel(ret[n])[i]), pt.now, t, {q: float(v[i]) for q, v in A.items()}, bad),
                    )
        ctx.event("cube", list(key), op[3], "%.9e" % float(np.sum(got)))
        ctx.stat("cube_transforms")
        ctx.state("cube", sorted((H.info[n][0], size[n] or 0, len(H.deps[n])) for n in want), op[3], failed)
        return any(H.deps[n] for n in want)

    def check(self, info, name, ret, st, failed):
        t, n, g = info
        x = ret[name]
        if np.shape(x) != (() if n is None else (n,)):
            raise Violation("shape", "%s has shape %s, not %s" % (name, np.shape(x), n))
        a = dict(DEFAULTS.get(t, {}))
        a.update({k: f(ret) for k, f in g.items()})
        m = n or 1
        xs = np.ravel(x)
        A = {k: np.broadcast_to(np.asarray(v, float), (m,)) for k, v in a.items()}
        for i in range(m):
            bad = check_value(name, t, {k: float(v[i]) for k, v in A.items()}, float(xs[i]), st)
            if bad:
                raise Violation(
                    "not-coherent" if not failed else "not-coherent-after-failure",
                    "%s = %r was not drawn from %s with %s (%s)" % (name, float(xs[i]), t, {k: float(v[i]) for k, v in A.items()}, bad),
                )

    def run_model(self, plan, ctx):
        from enterprise.signals import parameter

        cfg = plan["cfg"]
        m = lik.Model(cfg, lik.make_psrs(cfg), models.World(), plan["seed"]).build()
        failed, F = None, Failing()
        for op in plan["ops"]:
            ctx.steps += 1
            F.left = 0
            pars = m.pta.params
            rng = np.random.RandomState(op[4])
            if op[4] % 3:
                pars = [pars[i] for i in rng.permutation(len(pars))]
            bits = Bits([], op[1]).freeze()
            bits.budget = 1000000
            if op[2]:
                F.arm(KeyboardInterrupt("injected"), op[3])
            bits.install()
            try:
                ret = parameter.sample(pars)
            except KeyboardInterrupt:
                if not op[2]:
                    raise
                ctx.fault("interrupt")
                failed = "interrupt"
                continue
            except Exception as e:
                raise Violation("raised:" + type(e).__name__, "%r drawing the parameters of a model" % e)
            if set(ret) != set(m.names):
                raise Violation("names", "drawn: %s" % sorted(set(ret) ^ set(m.names)))
            st = Stream(bits)
            for n in sorted(ret):
                e = m.ref.reg.var[n]
                P = e["P"]
                t = {"vec": "unif", "hnorm": "norm", "ig": "invgamma"}.get(P["t"], P["t"])
                if t in ("unif", "linexp"):
                    g = {"pmin": P["lo"], "pmax": P["hi"]}
                elif t == "invgamma":
                    g = {"alpha": P["al"], "gamma": P["ga"]}
                else:
                    g = {"mu": P.get("mu"), "sigma": P["sig"]}
                    if t == "tnorm":
                        g.update(pmin=P["lo"], pmax=P["hi"])
                info = (t, e["size"], {k: (lambda v, x=x: x) for k, x in g.items()})
                if P["t"] == "hnorm":
                    info[2]["mu"] = lambda v, k=n + "_mu": v[k]
                self.check(info, n, ret, st, failed)
            got, want = m.pta.get_lnprior(ret), m.ref.lnprior(ret, m.c)
            if not (np.isfinite(want) and abs(got - want) <= 1e-6 * (1 + abs(want))):
                raise Violation("prior", "the prior of the values drawn is %r, not %r" % (got, want))
            ctx.event("pta", len(ret), "%.6e" % float(want))
            ctx.stat("joint_draws_of_models")
            ctx.stat("values", len(ret))
            ctx.state(repr(lik.shape(cfg)), failed)
        ctx.stat("nontrivial")

    def simplify(self, plan):
        if "cfg" in plan:
            return
        used = set()

        def walk(s):
            if isinstance(s, dict):
                if s.get("s") == "inst":
                    used.add(s["i"])
                for v in s.values():
                    walk(v)

        for j, nd in enumerate(plan["nodes"]):
            for k, s in nd["a"].items():
                if isinstance(s, dict):
                    walk(s)
        last = len(plan["nodes"]) - 1
        if last > 0 and last not in used:
            p = copy.deepcopy(plan)
            del p["nodes"][last]
            for op in p["ops"]:
                if isinstance(op[1], list):
                    op[1] = [j for j in op[1] if j < last]
            p["ops"] = [op for op in p["ops"] if op[0] == "const" or op[1]]
            yield p
        for i, op in enumerate(plan["ops"]):
            if op[0] in ("joint", "fail", "cube"):
                for j in range(len(op[1])):
                    if len(op[1]) > 1:
                        p = copy.deepcopy(plan)
                        del p["ops"][i][1][j]
                        yield p
