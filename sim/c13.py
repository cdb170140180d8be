"""C13: conditional draws have exactly the posterior mean and covariance."""
import os
import sys

import numpy as np

from . import boot, c01, gen, lik, models
from .core import Scenario, Violation

PACKAGE = os.path.join(os.path.realpath(boot.REPO), "enterprise", "")

APIS = ["coef", "coef", "proc", "proc", "get", "get", "mean_coef", "mean_proc", "get_mean"]


def consumed(state, seed):
    """How many standard-normal numbers were taken from the stream seeded with seed to arrive at state."""
    rs = np.random.RandomState(seed)
    for k in range(4000):
        s = rs.get_state(legacy=True)
        if s[2] == state[2] and s[3] == state[3] and s[4] == state[4] and np.array_equal(s[1], state[1]):
            return k
        rs.standard_normal()
    return None


class SvdFails:
    """The singular-value decomposition of every other matrix handed to it by the library does not converge."""

    def __init__(self, ctx):
        self.ctx, self.n, self.on = ctx, 0, False
        import scipy.linalg as sl

        self.sl, self.real, self.npreal = sl, sl.svd, np.linalg.svd
        sl.svd = self._wrap(self.real)
        np.linalg.svd = self._wrap(self.npreal)

    def _wrap(self, fn):
        def svd(*a, **k):
            if self.on and sys._getframe(1).f_code.co_filename.startswith((PACKAGE, os.path.join(boot.REPO, ""))):
                self.n += 1
                if self.n % 2:
                    self.ctx.fault("svd_does_not_converge")
                    raise np.linalg.LinAlgError("SVD did not converge")
            return fn(*a, **k)

        return svd


class C13(Scenario):
    ID = "C13"
    LEVEL = "exploration"
    RUNS = {"quick": 1500, "thorough": 60000}
    RULE = (
        "one evaluation = one simulated run: clients evaluate a random model while conditional means and draws are requested in"
        " between; for every request the whole affine map from normal numbers to values is reconstructed from draws with known"
        " states of the random stream; distinct non-trivial = runs in which at least one covariance was compared, told apart by"
        " the digest of their event log"
    )
    STATES = "distinct (structure of the model, kind of request, number of draws, method) tuples"
    REAL = ["enterprise.signals.utils.ConditionalGP and get_coefficients, all signal code behind them", "numpy's random generator", "scipy, scikit-sparse"]
    STUB = c01.C01.STUB
    ASSUME = [
        "processes do not share basis columns (combine=False, or different bases), as documented; requests on models that share are only required to be refused",
        "no MarginalizingTimingModel, as documented",
        "tolerance 1e-6 of the standard deviations plus rounding errors estimated from the condition number of the scaled precision matrix;"
        " get_coefficients is compared only if the unscaled one is below 1e10",
    ]

    def make_plan(self, rng, i, tier):
        kw = {}
        if i % 5 == 1:
            kw["common"], kw["npsr"] = True, rng.choice([2, 3])
        if i % 11 == 3:
            kw["wideband"] = True
        if i % 40 == 12:
            kw["big"] = True
        share = rng.random() < 0.12
        for _ in range(100):
            cfg = gen.draw_config(rng, coef=0.12, **kw)
            if any(d["s"] == "mtm" for d in cfg["signals"]):
                continue
            break
        if not share:
            for d in cfg["signals"]:
                if "combine" in d:
                    d["combine"] = False
        ncl = rng.choice([1, 2])
        ops = lik.random_ops(rng, rng.randint(2, 10), ncl, {"ll": 30, "move": 30, "delay": 5, "noise": 12, "set": 6})
        out = []
        for op in ops:
            out.append(op)
        for _ in range(rng.randint(1, 3)):
            x = ["x", rng.randrange(ncl), rng.choice(APIS), rng.choice([1, 1, 2, 3]), rng.randrange(100), rng.randrange(10**6)]
            x.append({"sparse": rng.random() < 0.5, "fail": rng.random() < 0.25, "mix": rng.random() < 0.4, "tm": rng.randrange(8)})
            x[-1].update(keep=rng.random() < 0.6, own=rng.random() < 0.4)
            out.insert(rng.randrange(len(out) + 1), x)
        if rng.random() < 0.4:  # the same question again, after something has changed
            x = rng.choice([op for op in out if op[0] == "x"])
            x[-1]["keep"] = True
            out += rng.choice(
                [
                    [["set", x[1], rng.randrange(60), rng.randrange(6)] for _ in range(3)],
                    [["move", x[1], "one", rng.randrange(60), rng.randrange(6)] for _ in range(2)],
                    [["noise", x[1], rng.choice(lik.NOISE), rng.randrange(12)]],
                ]
            ) + [x]
        return {"cfg": cfg, "seed": rng.randrange(10**6), "clients": ncl, "ops": out}

    # ---- expected values

    def expected(self, m, v, kind, tmp):
        """(keys with their sizes, mean, covariance, scaled condition number, unscaled condition number)."""
        Sig, b, layout = m.ref.posterior(v, m.c)
        s = np.sqrt(np.diag(Sig))
        R = Sig / np.outer(s, s)
        cond = np.linalg.cond(R) if len(R) else 1.0
        cov = np.linalg.inv(R) / np.outer(s, s)
        cov = 0.5 * (cov + cov.T)
        mean = np.linalg.solve(R, b / s) / s
        keys, rows = [], []
        for ip, i, sl_, Fs in layout:
            d = m.cfg["signals"][i]
            psr = m.ref.rd[m.cfg["models"][ip]["psr"]]["name"]
            name = psr + "_" + d.get("name", "") + ("_svd" if d["s"] == "tm" and d["svd"] else "")
            sig = [x for x in m.pta.pulsarmodels[ip].signals if x.name == name]
            if len(sig) != 1:
                raise Violation("names", "pulsar %s has %d signals %s" % (psr, len(sig), name))
            B = np.asarray(sig[0].get_basis(params=dict(v)), float)
            sc = np.max(np.abs(Fs), axis=0) if Fs.size else np.zeros(0)
            if B.shape != Fs.shape:
                raise Violation("basis", "%s has %s columns, not %s" % (name, B.shape, Fs.shape))
            E = np.zeros((Fs.shape[1], len(cov)))
            E[:, sl_] = np.eye(Fs.shape[1])
            if d.get("svd"):  # any orthogonal basis of the same space
                T = np.linalg.lstsq(B, Fs, rcond=None)[0]
                if np.max(np.abs(B @ T - Fs)) > 1e-7:
                    raise Violation("basis", "%s does not span the timing model" % name)
                E = T @ E
                Bm = B
            else:
                # (columns of ephemeris perturbations are differences of delays, with rounding errors)
                if Fs.size and np.max((np.abs(B - Fs) - 1e-11 * (d["s"] == "physgp")) / np.where(sc > 0, sc, 1)) > 1e-5:
                    raise Violation("basis", "%s differs from its definition" % name)
                Bm = Fs
            if kind == "proc":
                keys.append((name, Bm.shape[0]))
                rows.append(Bm @ E)
            else:
                keys.append((name + "_coefficients", Bm.shape[1]))
                rows.append(E)
            if tmp and "timing_model" in name:
                for par in tmp:
                    q = list(m.ref.rd[m.cfg["models"][ip]["psr"]]["fitpars"]).index(par)
                    keys.append((psr + "_" + par + ("" if kind == "proc" else "_coefficients"), Bm.shape[0] if kind == "proc" else None))
                    rows.append(np.outer(Bm[:, q], E[q]) if kind == "proc" else E[q : q + 1])
        have = {k for k, _ in keys}
        for pm in m.cfg["models"]:  # selections without any observation leave a process without coefficients
            for i in pm["sigs"]:
                d = m.cfg["signals"][i]
                if d["s"] in ("gp", "ecorrb") and not d.get("coef"):
                    rd = m.ref.rd[pm["psr"]]
                    k = rd["name"] + "_" + d.get("name", "") + ("" if kind == "proc" else "_coefficients")
                    if k not in have:
                        keys.append((k, len(rd["toas"]) if kind == "proc" else 0))
                        rows.append(np.zeros((keys[-1][1], len(cov))))
        A = np.vstack([np.zeros((0, len(cov)))] + rows)
        return keys, A @ mean, A @ cov @ A.T, cond, np.linalg.cond(Sig) if len(Sig) else 1.0

    def stack(self, ret, keys, what):
        out = []
        if set(ret) != {k for k, _ in keys}:
            raise Violation("names", "%s returned %s" % (what, sorted(set(ret) ^ {k for k, _ in keys})))
        for k, n in keys:
            x = np.asarray(ret[k], float)
            if x.shape != (() if n is None else (n,)):
                raise Violation("shape", "%s[%s] has shape %s" % (what, k, x.shape))
            out.append(np.atleast_1d(x))
        return np.concatenate([np.zeros(0)] + out)

    # ---- one request

    def request(self, m, cl, other, op, ctx, svd):
        from enterprise.signals import utils

        _, _, api, n, mi, seed, o = op
        v = dict(cl.v)
        meths = m.methods()
        meth = meths[mi % len(meths)]
        kind = "proc" if "proc" in api else "coef"
        get = api.startswith("get")
        mean = "mean" in api
        tmp = []
        if not get and o["tm"] % 2 and len(m.cfg["models"]) == 1 and m.cfg["psrs"][m.cfg["models"][0]["psr"]]["kind"] != "feather":
            tms = [d for d in (m.cfg["signals"][i] for i in m.cfg["models"][0]["sigs"]) if d["s"] in ("tm", "wtm") and not d.get("coef")]
            fp = list(m.ref.rd[m.cfg["models"][0]["psr"]]["fitpars"])
            if tms and not tms[0].get("svd") and not tms[0].get("excl"):
                tmp = [p for j, p in enumerate(fp) if (o["tm"] >> 1 >> j % 2) & 1]
        if self.shared(m, v):
            try:
                if get:
                    utils.get_coefficients(m.pta, dict(v), phiinv_method=meth)
                else:
                    utils.ConditionalGP(m.pta, phiinv_method=meth).get_mean_coefficients(dict(v))
            except Exception:
                ctx.stat("refused")
                return False
            raise Violation("not-refused", "values were assigned to signals although columns are shared")
        keys, mu, cov, cond, ucond = self.expected(m, v, kind, tmp)
        if get and ucond > 1e10:
            ctx.stat("too_ill_scaled_for_svd")
            return False
        if tmp:
            ctx.stat("with_timing_parameters")
        cg = m.memo.get(("conditional", meth, tuple(tmp))) if o.get("keep") else None
        if cg is None:
            cg = utils.ConditionalGP(m.pta, meth, tmp, m.psrs[m.cfg["models"][0]["psr"]]) if tmp else utils.ConditionalGP(m.pta, phiinv_method=meth)
            m.memo["conditional", meth, tuple(tmp)] = cg
        fail = o["fail"] and get

        def draw(s, n, mean):
            a = cl.arg("own" if o.get("own") else "dict")
            before = {k: np.array(x) for k, x in a.items()}
            np.random.seed(s)
            svd.n, svd.on = 0, fail
            try:
                if get:
                    r = utils.get_coefficients(m.pta, a, n=n, phiinv_method=meth, variance=not mean, common_sparse=o["sparse"])
                    r = [r] if n == 1 else r
                elif mean:
                    r = [(cg.get_mean_processes if kind == "proc" else cg.get_mean_coefficients)(a)]
                else:
                    r = (cg.sample_processes if kind == "proc" else cg.sample_coefficients)(a, n)
            finally:
                svd.on = False
            st = np.random.get_state()
            if set(a) != set(before) or any(not np.array_equal(a[k], before[k]) for k in before):
                raise Violation("argument-modified", "the parameters were changed by " + api)
            if not isinstance(r, list) or len(r) != n:
                raise Violation("number-of-draws", "%d requested from %s" % (n, api))
            ys = []
            for x in r:
                if get:
                    for k in v:
                        if k not in x or not np.array_equal(x[k], v[k]):
                            raise Violation("names", "%s does not return %s as it was given" % (api, k))
                    x = {k: y for k, y in x.items() if k not in v}
                ys.append(self.stack(x, keys, api))
            return np.concatenate(ys), st

        sd = np.sqrt(np.maximum(np.diag(cov), 0))
        tol = 1e-6 + 3e-14 * cond + (1e-14 * ucond if get else 0)
        if any(m.cfg["signals"][i]["s"] == "physgp" for pm in m.cfg["models"] for i in pm["sigs"]):
            tol += 3e-5  # (the columns of its basis are finite differences)
        nn = n if get or not mean else 1
        try:
            if mean:
                y, st = draw(seed, nn, True)
                if consumed(st, seed) != 0:
                    raise Violation("draws-random-numbers", "%s takes numbers from the random stream" % api)
                self.compare("mean", y, np.tile(mu, nn), np.tile(sd, nn), tol, keys * nn, ctx)
                ctx.event(api, meth, nn)
                ctx.stat("means")
                return True
            # a mean first: the offset of the affine map
            y, st = draw(seed, nn, False)
            K = consumed(st, seed)
            if K is None:
                raise Violation("normal-numbers", "%s uses other numbers than standard-normal ones" % api)
            if not len(mu):  # no coefficients at all
                ctx.event(api, meth, "nothing", K)
                return True
            if K > 150 and nn > 1:
                nn = 1
                y, st = draw(seed, nn, False)
                K = consumed(st, seed)
            rows, Z = [y], [np.random.RandomState(seed).standard_normal(K)]
            for j in range(1, K + 4):
                if o["mix"] and j % 7 == 3:
                    other.move("all", 0, j % 5)
                    lik.noise(other, ["get_phi", "get_TNT", "cond", "get_basis"][j % 4], j)
                y, st = draw(seed + j, nn, False)
                if consumed(st, seed + j) != K:
                    raise Violation("normal-numbers", "%s takes a varying number of random numbers" % api)
                rows.append(y)
                Z.append(np.random.RandomState(seed + j).standard_normal(K))
        except np.linalg.LinAlgError as e:
            if fail:
                ctx.stat("failed_draws")
                ctx.event(api, "failed")
                return False
            raise
        Z, Y = np.array(Z), np.array(rows)
        mu_, sd_ = np.tile(mu, nn), np.tile(sd, nn)
        safe = np.where(sd_ > 0, sd_, 1.0)
        W = np.hstack([np.ones((len(Z), 1)), Z])
        U = (Y - mu_) / safe
        co = np.linalg.lstsq(W, U, rcond=None)[0]
        wc = np.linalg.cond(W)
        tol2 = tol * 10 + 1e-14 * wc * np.max(np.abs(mu_ / safe))
        res = np.max(np.abs(W @ co - U))
        if not res <= tol2:
            raise Violation("not-affine", "%s is not an affine map of the normal numbers: off by %g standard deviations" % (api, res))
        self.compare("mean", co[0] * safe + mu_, mu_, sd_, tol2, keys * nn, ctx)
        C = co[1:].T @ co[1:]
        want = np.kron(np.eye(nn), cov) / np.outer(safe, safe)
        err = np.max(np.abs(C - want))
        ctx.notes.append("%s %s cond %.1e ucond %.1e wc %.1e: cov err %.1e tol %.1e" % (api, meth, cond, ucond, wc, err, tol2))
        if __import__("os").environ.get("SIM_DEBUG"):
            print("ERR", api, meth, "%.1e %.1e %.1e" % (err / tol2, res / tol2, tol2), file=sys.stderr)
        if not err <= 4 * tol2:
            a, b = np.unravel_index(np.argmax(np.abs(C - want)), C.shape)
            names = [k for _ in range(nn) for k, q in keys for _ in range(1 if q is None else q)]
            raise Violation(
                "covariance",
                "%s(%s): covariance of %s and %s is %.6g of the product of the posterior standard deviations, not %.6g" % (api, meth, names[a], names[b], C[a, b], want[a, b]),
            )
        ctx.event(api, meth, nn, K, "%.3e" % float(np.sum(np.abs(mu))))
        ctx.stat("covariances")
        ctx.stat("random_draws", len(Z) * nn)
        ctx.stat("nontrivial")
        ctx.state(repr(lik.shape(m.cfg)), api, nn, meth, fail)
        return True

    def compare(self, kind, got, want, sd, tol, keys, ctx):
        t = tol * (sd + 1e-3 * np.abs(want)) + 1e-12 * np.max(np.abs(want), initial=0) * (sd == 0)
        bad = ~(np.abs(got - want) <= t)
        if np.any(bad):
            a = int(np.argmax(np.abs(got - want) / np.where(t > 0, t, 1e-300)))
            names = [k for k, q in keys for _ in range(1 if q is None else q)]
            raise Violation(kind, "%s: %.8g, the posterior has %.8g +- %.3g" % (names[a], got[a], want[a], sd[a]))

    def shared(self, m, v):
        """Whether signals of one pulsar share columns of the basis matrix."""
        T = m.pta.get_basis(dict(v))
        for sc, t in zip(m.pta.pulsarmodels, T):
            n = 0
            for s in sc.signals:
                b = s.get_basis(params=dict(v))
                n += 0 if b is None else b.shape[1]
            if n != (0 if t is None else t.shape[1]):
                return True
        return False

    def execute(self, plan, ctx):
        cfg = plan["cfg"]
        psrs = lik.make_psrs(cfg)
        m = lik.Model(cfg, psrs, models.World(), plan["seed"])
        svd = SvdFails(ctx)
        try:
            m.build()
            clients = [lik.Client(m, k) for k in range(plan["clients"])]
            other = lik.Client(m, 3)
            for op in plan["ops"]:
                ctx.steps += 1
                cl = clients[op[1] % len(clients)]
                if op[0] == "x":
                    self.request(m, cl, other, op, ctx, svd)
                elif op[0] == "move":
                    cl.move(op[2], op[3], op[4])
                elif op[0] == "noise":
                    lik.noise(cl, op[2], op[3])
                elif op[0] == "set":
                    if m.c:
                        n = sorted(m.c)[op[2] % len(m.c)]
                        m.c[n] = lik.constvalue(m.ref, n, op[3])
                        m.pta.set_default_params({n: m.c[n]})
                else:
                    lik.evaluate(ctx, cl, op)
        except Violation:
            raise
        except Exception as e:
            raise c01.raised(e)

    simplify = c01.C01.simplify
