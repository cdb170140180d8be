"""C11: the caller's random stream is used by explicit sampling only, and reproducibly."""
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from . import c01, faultcall, gen, lik, models, psrgen
from .core import HarnessError, Scenario, Violation

WORK = {
    "build": 5, "fresh": 4, "ll": 16, "delay": 7, "prior": 5, "noise": 14, "means": 9, "coefmean": 6, "psr": 3, "pickle": 3, "basis": 7,
    "params": 3, "setdef": 2,
}
SAMPLE = {"joint": 7, "one": 6, "collection": 3, "coef": 7, "proc": 5, "getcoef": 6, "rand": 4, "randn": 5, "gauss": 3, "seed": 4, "pshift": 4, "std": 2}
CALLER = ("rand", "randn", "gauss", "seed", "std")


def same(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def advanced(a, b, limit=400):
    """Whether state b is reached from state a by taking numbers."""
    rs = np.random.RandomState(0)
    rs.set_state(a)
    for _ in range(limit):
        st = rs.get_state()
        if np.array_equal(st[1], b[1]) and st[2] <= b[2]:
            return True
        left = 624 - st[2]
        if left > 0:
            rs.bytes(4 * left)
        rs.bytes(4)
    return False


def flat(x):
    """Values of a result, with their names, in a fixed order."""
    if isinstance(x, dict):
        return [(k + "/" + n, v) for k in sorted(x) for n, v in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [("%d/%s" % (j, n), v) for j, y in enumerate(x) for n, v in flat(y)]
    return [("", np.array(x, float))]


class Preempt:
    """Another client takes numbers from the stream while the library is at work on something else."""

    kind = "interrupt"  # all the probes

    def __init__(self, points, act):
        self.points, self.n, self.act, self.where = sorted(points), 0, act, []

    def fire(self, where):
        self.n += 1
        if self.points and self.n >= self.points[0]:
            self.points.pop(0)
            f = sys._getframe(1)
            while "faultcall" in f.f_code.co_filename:
                f = f.f_back
            self.where.append(f.f_code.co_name)
            faultcall.G[0] = None
            try:
                self.act()
            finally:
                faultcall.G[0] = self

    def before(self, fn):
        self.fire("before")


class Library:
    """The operations, on one real model; what they do does not depend on the recorded history."""

    def __init__(self, plan):
        self.plan, self.cfg = plan, plan["cfg"]
        self.psrs = lik.make_psrs(self.cfg)
        self.m = lik.Model(self.cfg, self.psrs, models.World(), plan["seed"])
        self.m.build()
        self.clients = [lik.Client(self.m, k) for k in range(plan["clients"])]
        self.cgs = {}

    def cg(self, meth):
        from enterprise.signals import utils

        if meth not in self.cgs:
            self.cgs[meth] = utils.ConditionalGP(self.m.pta, phiinv_method=meth)
        return self.cgs[meth]

    def sample(self, op):
        """An operation that is asked for random numbers."""
        from enterprise.signals import gp_bases, parameter, utils

        k, c, i, j = op[:4]
        m = self.m
        cl = self.clients[c % len(self.clients)]
        meths = m.methods()
        meth = meths[i % len(meths)]
        if k == "joint":
            ps = list(m.pta.params)
            if j % 3 == 1:
                ps = ps[::-1]
            elif j % 3 == 2:
                ps = ps[i % len(ps) :]
            return parameter.sample(ps)
        if k == "one":
            p = m.pta.params[i % len(m.pta.params)]
            return [p.sample() for _ in range(1 + j % 2)]
        if k == "collection":
            sc = m.pta.pulsarmodels[i % len(m.pta.pulsarmodels)]
            return parameter.sample(sc.params)
        if k == "coef":
            return self.cg(meth).sample_coefficients(cl.arg("dict"), 1 + j % 3)
        if k == "proc":
            return self.cg(meth).sample_processes(cl.arg("dict"), 1 + j % 2)
        if k == "getcoef":
            return utils.get_coefficients(m.pta, cl.arg("dict"), n=1 + j % 3, phiinv_method=meth, common_sparse=bool(i % 2))
        if k == "pshift":
            psr = self.apsr(i)
            f = [gp_bases.createfourierdesignmatrix_red, gp_bases.createfourierdesignmatrix_dm, gp_bases.createfourierdesignmatrix_chromatic][j % 3]
            a = (psr.toas,) if j % 3 == 0 else (psr.toas, psr.freqs)
            return list(f(*a, nmodes=1 + i % 4, pshift=True))
        if k == "rand":
            return np.random.rand(1 + i % 4)
        if k == "randn":
            return np.random.randn(1 + i % 3)
        if k == "gauss":
            return [np.random.normal(0.5, 2.0), np.random.randint(0, 1000)]
        if k == "seed":
            np.random.seed(1 + i)
            random.seed(i)
            return 0.0
        if k == "std":
            return random.random()
        raise HarnessError(k)

    def apsr(self, i):
        ps = [p for p in self.psrs if p is not None]
        return ps[i % len(ps)]

    def work(self, op):
        """An operation that is not asked for random numbers."""
        from enterprise.signals import gp_bases, utils

        k, c, i, j = op[:4]
        m = self.m
        cl = self.clients[c % len(self.clients)]
        meths = m.methods()
        meth = meths[i % len(meths)]
        if k == "build":
            models.build_model(self.cfg, models.World(), self.psrs)
        elif k == "fresh":
            f = m.fresh()
            f.get_lnlikelihood(cl.arg("dict"))
            f.get_lnprior(cl.arg("vec"))
        elif k == "ll":
            m.pta.get_lnlikelihood(cl.arg(lik.ARGS[j % len(lik.ARGS)]), phiinv_method=meth)
        elif k == "delay":
            m.pta.get_delay(cl.arg("own"))
        elif k == "prior":
            m.pta.get_lnprior(cl.arg("vec"))
        elif k == "noise":
            what = lik.NOISE[i % len(lik.NOISE)]
            lik.noise(cl, what, j)
        elif k == "means":
            cg = utils.ConditionalGP(m.pta, phiinv_method=meth) if j % 2 else self.cg(meth)
            cg.get_mean_coefficients(cl.arg("dict"))
            cg.get_mean_processes(cl.arg("dict"))
        elif k == "coefmean":
            utils.get_coefficients(m.pta, cl.arg("dict"), n=1 + j % 3, phiinv_method=meth, variance=False, common_sparse=bool(i % 2))
        elif k == "psr":
            psrgen.make_pulsar(self.cfg["psrs"][i % len(self.cfg["psrs"])])
        elif k == "pickle":
            pickle.loads(pickle.dumps(self.apsr(i)))
        elif k == "params":
            m.pta.params, m.pta.param_names, [repr(p) for p in m.pta.params]
            for p in m.pta.params:
                p.get_pdf(p.value) if getattr(p, "value", None) is not None else None
        elif k == "setdef":
            if m.c:
                m.pta.set_default_params(dict(m.c))
        elif k == "basis":
            psr = self.apsr(i)
            nm, ps = 1 + j, 3 + (i * 7 + j) % 50
            b = gp_bases.createfourierdesignmatrix_red
            if i % 3 == 0:
                F, f = b(psr.toas, nmodes=nm, pseed=ps)
            elif i % 3 == 1:
                F, f = b(psr.toas, nmodes=nm, pseed=ps, pshift=bool(j % 2))
            else:
                F, f = b(nmodes=nm, pseed=ps)("b", psr=psr)()
            ph = np.random.RandomState(int(psr.toas[0] / 17) + ps).uniform(0.0, 2 * np.pi, nm)
            f0 = np.arange(1, nm + 1) / (psr.toas.max() - psr.toas.min())
            x = 2 * np.pi * np.asarray(psr.toas)[:, None] * f0 + ph
            return ("basis", np.asarray(F), np.stack([np.sin(x), np.cos(x)], axis=2).reshape(len(x), -1), ps, psr.name)
        else:
            raise HarnessError(k)
        return None


class C11(Scenario):
    ID = "C11"
    LEVEL = "exploration"
    RUNS = {"quick": 2400, "thorough": 80000}
    RULE = (
        "one evaluation = one simulated run: a scheduler interleaves clients that draw random numbers (their own and through the"
        " library) with clients that build and evaluate models, also in the middle of the library's functions, and strikes these"
        " with exceptions; distinct non-trivial = runs with at least three operations of each sort whose draws were then repeated"
        " from the same state on a fresh model, told apart by the digest of their event log"
    )
    STATES = "distinct (operation, function preempted or struck, following operation) tuples"
    REAL = ["everything under enterprise/", "numpy's global random stream (MT19937) and the random module of Python"]
    STUB = ["tempo2 and PINT (fakes.py)", "POSIX shared memory"]
    ASSUME = [
        "clients switch before statements of library functions, before the calls they make and after these return",
        "drawn values are compared with a relative tolerance of 1e-6: what is interleaved may change roundings",
    ]

    def make_plan(self, rng, i, tier):
        kw = {"coef": 0.0}
        if i % 5 == 1:
            kw["npsr"] = 1
        if i % 9 == 4:
            kw["wideband"] = True
        pg = gen.ParGen(rng, pconst=0.1, pconstset=0.05, pglob=0.15, pfn=0.08, phyper=0.15)
        cfg = gen.draw_config(rng, pargen=pg, **kw)
        for s in cfg["signals"]:  # more seeded phases
            if s.get("basis", {}).get("f") == "red" and rng.random() < 0.5:
                s["basis"].setdefault("pseed", rng.randint(1, 99))
        ops = []
        n = rng.randint(14, 44) if tier == "thorough" else rng.randint(12, 30)
        for _ in range(n):
            r = rng.random()
            arg = [rng.randrange(3), rng.randrange(60), rng.randrange(6)]
            if r < 0.15:
                ops.append(["move", arg[0], rng.choice(["one", "some", "all"]), arg[1], arg[2]])
            elif r < 0.5:
                k = rng.choices(list(SAMPLE), list(SAMPLE.values()))[0]
                ops.append([k] + arg + ([{"kind": rng.choice(["interrupt", "memory"]), "k": int(10 ** (rng.random() * 2.8))}] if k not in CALLER and rng.random() < 0.08 else [None]))
            else:
                k = rng.choices(list(WORK), list(WORK.values()))[0]
                o = {}
                q = rng.random()
                hi = 3.3
                if q < 0.4:
                    o["preempt"] = [
                        [int(10 ** (rng.random() * hi)) + 1, rng.choice(CALLER + ("joint", "one")), rng.randrange(60), rng.randrange(6)]
                        for _ in range(rng.randint(1, 4))
                    ]
                elif q < 0.6:
                    o["fault"] = {"kind": rng.choice(["interrupt", "interrupt", "memory", "user", "linalg", "cholmod"]), "k": int(10 ** (rng.random() * hi))}
                    if o["fault"]["kind"] in ("user", "linalg", "cholmod"):
                        o["fault"]["k"] = 1 + o["fault"]["k"] % 4
                ops.append([k] + arg + [o])
        return {"cfg": cfg, "seed": rng.randrange(10**6), "s0": rng.randrange(2**32), "skip": rng.randrange(700), "clients": 2, "twin": i % 150 == 11, "ops": ops}

    # ---- the recorded execution

    def execute(self, plan, ctx):
        try:
            self._execute(plan, ctx)
        except Violation:
            raise
        except Exception as e:
            raise c01.raised(e)

    def begin(self, plan):
        np.random.seed(plan["s0"])
        random.seed(plan["s0"])
        np.random.randint(0, 2**32, size=plan["skip"], dtype=np.uint32)  # anywhere between two blocks of the generator

    def _execute(self, plan, ctx):
        if IMPORT_STATE and not IMPORT_STATE[0]:
            raise Violation("stream-used", "the stream changed while the library was imported")
        self.begin(plan)
        self.S, self.P = np.random.get_state(), random.getstate()
        lib = Library(plan)
        self.unchanged("building a model and reading pulsars")
        hist = []  # what was sampled, in order
        nw = ns = 0
        last = "start"
        g = faultcall.Guard()
        for op in plan["ops"]:
            ctx.steps += 1
            k = op[0]
            if k == "move":
                for cl in lib.clients[op[1] % 2 : op[1] % 2 + 1]:
                    cl.move(op[2], op[3], op[4])
                hist.append((op, None))
                continue
            if k in SAMPLE:
                ns += 1
                if op[4]:
                    self.failing(lib, op, hist, g, ctx)
                else:
                    self.take(lib, op, hist, ctx)
                ctx.state(k, last)
            else:
                nw += 1
                where = self.work(lib, op, hist, g, ctx)
                ctx.state(k, where, last)
            last = k
        # nothing else decides what is drawn: the same draws again
        self.begin(plan)
        lib2 = Library(plan)
        self.compare(self.again(lib2, hist), hist, "on a fresh model without the other operations")
        if plan["twin"]:
            self.compare(twin(plan, [op for op, _ in hist]), hist, "in another process")
            ctx.stat("replayed_in_other_process")
        ctx.stat("draws_replayed", len([1 for o, r in hist if r is not None]))
        if nw >= 3 and ns >= 3:
            ctx.stat("nontrivial")

    def unchanged(self, what):
        if not same(np.random.get_state(), self.S):
            raise Violation("stream-used", "numpy's random stream is not where the caller left it after %s" % what)
        if random.getstate() != self.P:
            raise Violation("stream-used", "the stream of the random module is not where the caller left it after %s" % what)

    def take(self, lib, op, hist, ctx):
        try:
            r = lib.sample(op)
        except Exception as e:
            r = e
        st = np.random.get_state()
        if op[0] not in CALLER:
            if not advanced(self.S, st):
                raise Violation("stream-reset", "%s left the random stream in a state that drawing numbers does not lead to" % op[0])
            if random.getstate() != self.P:
                raise Violation("stream-used", "%s used the random module" % op[0])
        self.S, self.P = st, random.getstate()
        hist.append((op[:4], r))
        ctx.event(op[0], "raised %s" % type(r).__name__ if isinstance(r, Exception) else len(flat(r)))
        ctx.stat("sample_" + op[0])

    def failing(self, lib, op, hist, g, ctx):
        g.arm(op[4]["kind"], op[4]["k"])
        st = None
        try:
            st, r = g(lambda: lib.sample(op))
        except Exception as e:
            if g.raised is None:
                st, r = "value", e
        if not advanced(self.S, np.random.get_state()):
            raise Violation("stream-reset", "%s that was struck by %r left the random stream in a state that drawing numbers does not lead to" % (op[0], g.raised))
        if st == "value":
            hist.append((op[:4], r))
        else:
            ctx.fault(op[4]["kind"])
            # the numbers taken before the fault are lost: the caller starts its stream again
            hist.append((["seed", 0, 77, 0], lib.sample(["seed", 0, 77, 0])))
        self.S, self.P = np.random.get_state(), random.getstate()
        ctx.event(op[0], "fault" if st != "value" else "value")

    def work(self, lib, op, hist, g, ctx):
        o = op[4]
        ctx.stat("work_" + op[0])
        where = None
        got = None
        if o.get("preempt"):
            pts = sorted(o["preempt"])
            todo = list(pts)

            def act():
                k, what, i, j = todo.pop(0)
                self.unchanged("a part of %s" % op[0])
                self.take(lib, [what, 0, i, j, None], hist, ctx)
                ctx.fault("preempted")

            pre = Preempt([x[0] for x in pts], act)
            faultcall.G[0] = pre
            try:
                got = self.outcome(lambda: lib.work(op))
            finally:
                faultcall.G[0] = None
            where = tuple(pre.where[:2])
        elif o.get("fault"):
            g.arm(o["fault"]["kind"], o["fault"]["k"])
            try:
                st, got = g(lambda: lib.work(op))
                got = ("value", got) if st == "value" else (st, None)
            except Exception as e:
                got = ("raised", e)  # an error in the course of another one
            if g.raised is not None:
                ctx.fault(g.kind)
                where = g.where
        else:
            got = self.outcome(lambda: lib.work(op))
        self.unchanged("%s%s" % (op[0], " (struck by %r)" % g.raised if o.get("fault") and g.raised else ""))
        if got[0] == "raised" and not o.get("fault") and op[0] in ("build", "fresh", "psr", "pickle", "basis", "params", "setdef"):
            raise got[1]
        if got[0] == "value" and got[1] is not None:
            _, F, want, seed, name = got[1]
            if F.shape != want.shape or not np.max(np.abs(F - want)) < 1e-6:
                raise Violation("seeded-basis", "the basis with pseed=%d of %s is not the one of its seed" % (seed, name))
            ctx.stat("seeded_bases_compared")
        ctx.event(op[0], got[0], where)
        return where

    def outcome(self, fn):
        try:
            return ("value", fn())
        except Exception as e:
            return ("raised", e)

    def again(self, lib, hist):
        out = []
        for op, _ in hist:
            if op[0] == "move":
                for cl in lib.clients[op[1] % 2 : op[1] % 2 + 1]:
                    cl.move(op[2], op[3], op[4])
                out.append(None)
                continue
            try:
                r = lib.sample(op)
            except Exception as e:
                r = e
            out.append(r)
        return out

    def compare(self, got, hist, how):
        for (op, a), b in zip(hist, got):
            if op[0] == "move":
                continue
            if isinstance(a, Exception) or isinstance(b, Exception):
                if type(a) is not type(b):
                    raise Violation("not-reproduced", "%s gave %r, and %r from the same state %s" % (op[0], _r(a), _r(b), how))
                continue
            fa, fb = flat(a), flat(b)
            if [n for n, _ in fa] != [n for n, _ in fb]:
                raise Violation("not-reproduced", "%s returned other names from the same state %s" % (op[0], how))
            for (n, x), (_, y) in zip(fa, fb):
                if x.shape != y.shape or not np.all(np.abs(x - y) <= 1e-6 * np.max(np.abs(x), initial=1e-300)):
                    raise Violation("not-reproduced", "%s: %s is %s, and %s from the same state %s" % (op[0], n, _r(x), _r(y), how))

    simplify = c01.C01.simplify


def _r(x):
    return repr(np.asarray(x).ravel()[:3].tolist()) if not isinstance(x, Exception) else repr(x)


# ---- the same draws by an interpreter of its own, with another order of sets of strings


def twin(plan, ops):
    env = dict(os.environ)
    env.pop("SIM_BOOTED", None)
    env["SIM_HASHSEED"] = "12345"
    exe = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py")
    p = subprocess.run(
        [sys.executable, exe, "C11", "--twin"], input=json.dumps({"plan": plan, "ops": ops}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env
    )
    if p.returncode:
        raise HarnessError("twin process: " + p.stderr.decode()[-500:])
    return pickle.loads(p.stdout[p.stdout.index(b"TWIN") + 4 :])


def serve():
    d = json.loads(sys.stdin.buffer.read())
    s = C11()
    s.begin(d["plan"])
    out = s.again(Library(d["plan"]), [(op, None) for op in d["ops"]])
    out = [type(x)(str(x)) if isinstance(x, Exception) and type(x).__module__ == "builtins" else x for x in out]
    sys.stdout.buffer.write(b"TWIN" + pickle.dumps(out))
    sys.stdout.buffer.flush()


IMPORT_STATE = []
