"""C19: the pieces of linear algebra that a model exposes all describe the same Gaussian model, the one declared."""
import math

import numpy as np

from . import c01, gen, lik, models
from .c02 import KINDS, ill_scaled
from .core import HarnessError, Scenario, Violation
from .faultcall import Guard

PIECES = ["ndiag", "ndiag", "cov", "cov", "phiinv", "phiinv", "TNT", "TNr", "rNr", "extra", "signal", "signal", "signal", "coll", "meta", "sum"]
BIG = 1e30  # prior variances above this stand for "unconstrained" (the library writes 1e40)


def cond(a):
    return np.linalg.cond(a) if a.size else 1.0


class Struck(Exception):
    """The injected fault came out of the library, as it should."""


def dense(x):
    return np.asarray(x.todense()) if hasattr(x, "todense") else np.asarray(x, float)


def near(kind, what, got, want, scale, rel):
    """got and want agree to rel times scale (an array of magnitudes or one magnitude)."""
    got = dense(got)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation(kind, "%s has shape %s, not %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return
    d = np.abs(got - want)
    tol = rel * np.asarray(scale, float) + 1e-300
    if not np.all(d <= tol):
        worst = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d / tol)), d.shape) if d.ndim else ()
        raise Violation(kind, "%s: element %s is %r, the model has %r" % (what, tuple(int(q) for q in worst), float(got[worst]), float(want[worst])))


class White:
    """Reference of the noise matrix of one pulsar, with the marginalised columns in it."""

    def __init__(self, p):
        self.N, self.M = p["N"], p["Mmarg"]
        self.Ni = np.linalg.inv(self.N)
        self.Ni = 0.5 * (self.Ni + self.Ni.T)
        self.P = self.Ni
        self.ld = np.linalg.slogdet(self.N)[1]
        self.rel = 1e-8
        if self.M is not None:
            M = self.M / np.sqrt(np.sum(self.M**2, axis=0))
            A = M.T @ self.Ni @ M
            s = np.sqrt(np.diag(A))
            X = np.linalg.solve(A / np.outer(s, s), (self.Ni @ M / s).T)
            self.P = self.Ni - (self.Ni @ M / s) @ X
            nrm = np.log(np.sum(self.M**2, axis=0))
            self.ld += np.linalg.slogdet(A / np.outer(s, s))[1] + 2 * np.sum(np.log(s)) + np.sum(nrm)
            self.ld += self.M.shape[1] * np.log(models.TM_VAR)
            self.rel = 1e-11 * cond(A / np.outer(s, s)) + 1e-8

    def quad(self, L, R):
        """L^T N^-1 R, and the magnitude that rounding errors are relative to."""
        a = np.sqrt(np.maximum(np.sum(L * (self.Ni @ L), axis=0), 0))
        b = np.sqrt(np.maximum(np.sum(R * (self.Ni @ R), axis=0), 0))
        return L.T @ self.P @ R, np.multiply.outer(a, b)


class Pieces:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.held = []
        self.white = {}
        # the columns of this process are finite differences, with the rounding errors of these
        self.rel = 1e-5 if any(m.cfg["signals"][i]["s"] == "physgp" for pm in m.cfg["models"] for i in pm["sigs"]) else 1e-8

    def ref(self, cl):
        return self.m.want("assemble", cl.v)

    def whites(self, cl):
        k = self.m.key(cl.v)
        if k not in self.white:
            self.white[k] = [White(p) for p in self.ref(cl)]
        return self.white[k]

    def hold(self, what, x):
        """Something handed out to a client, who keeps it: it must stay as it is."""
        if isinstance(x, (list, tuple)):
            for y in x:
                self.hold(what, y)
        elif isinstance(x, np.ndarray) or hasattr(x, "todense"):
            if len(self.held) < 150:
                self.held.append((what, x, dense(x).copy()))

    def check_held(self):
        for what, x, was in self.held:
            if not np.array_equal(dense(x), was, equal_nan=True):
                raise Violation("handed-out-changed", "%s handed out earlier has changed" % what)

    # ------------------------------------------------------------------------------------ requests

    def request(self, cl, op, guard):
        """One operation: the library is called (with a fault, if guard is armed), then judged."""
        what, k = op[2], op[3]

        def call(f, *a, **kw):
            if guard is None:
                return f(*a, **kw)
            st, got = guard(lambda: f(*a, **kw))
            if st != "value":
                raise Struck
            return got

        try:
            getattr(self, "do_" + what)(cl, k, call, cl.arg(op[4]) if op[4] not in ("vec", "list") else cl.arg("dict"))
        except Struck:
            self.ctx.event(what, "fault")
            return "fault"
        self.ctx.event(what, k)
        self.ctx.stat("pieces")
        return "value"

    def do_ndiag(self, cl, k, call, v):
        Ns = call(self.m.pta.get_ndiag, v)
        self.judge_ndiag(Ns, self.whites(cl), self.m.pta, k, call)
        if len(self.held) < 150:
            self.held_N = (getattr(self, "held_N", []) + [(Ns, self.whites(cl), k)])[-4:]

    def judge_ndiag(self, Ns, whites, pta, k, call=None):
        call = call or (lambda f, *a, **kw: f(*a, **kw))
        for N, w, sc in zip(Ns, whites, pta.pulsarmodels):
            n = len(w.N)
            rs = np.random.RandomState(17 + k)
            W, L = rs.standard_normal((n, 3 + k % 3)) * 1e-6, rs.standard_normal((n, 2)) * 1e-6
            r = rs.standard_normal(n) * 1e-6
            nm = "noise matrix of %s (%s)" % (sc.psrname, type(N).__name__)
            want, s = w.quad(W, W)
            near("ndiag", nm + " W^T N^-1 W", call(N.solve, W, left_array=W), want, s, w.rel)
            want, s = w.quad(W, r[:, None])
            near("ndiag", nm + " W^T N^-1 r", call(N.solve, r, left_array=W), want[:, 0], s[:, 0], w.rel)
            got, ld = call(N.solve, r, left_array=r, logdet=True)
            want, s = w.quad(r[:, None], r[:, None])
            near("ndiag", nm + " r^T N^-1 r", got, want[0, 0], s[0, 0], w.rel)
            want, s = w.quad(L[:, :1], r[:, None])
            near("ndiag", nm + " q^T N^-1 r", call(N.solve, r, left_array=L[:, 0].copy()), want[0, 0], s[0, 0], w.rel)
            if w.M is None:
                want, s = w.quad(W, r[:, None])
                near("ndiag", nm + " r^T N^-1 W", call(N.solve, W, left_array=r), want[:, 0], s[:, 0], w.rel)
            near("ndiag", nm + " logdet", ld, w.ld, 1 + abs(w.ld), w.rel)
            if type(N).__name__ == "FastShermanMorrison":  # compiled elsewhere; takes these shapes only
                continue
            want, s = w.quad(L, W)
            near("ndiag", nm + " L^T N^-1 W", call(N.solve, W, left_array=L), want, s, w.rel)
            if w.M is None:
                want = w.Ni @ r
                near("ndiag", nm + " N^-1 r", call(N.solve, r), want, np.sqrt(np.diag(w.Ni) * (r @ want)), w.rel)
                if type(N).__name__ != "ShermanMorrison":
                    want = w.Ni @ W
                    s = np.sqrt(np.outer(np.diag(w.Ni), np.sum(W * want, axis=0)))
                    near("ndiag", nm + " N^-1 W", call(N.solve, W), want, s, w.rel)

    def layout(self, Ts, Phi):
        """All bases and the whole coefficient covariance as one pair of matrices."""
        ns = [len(p["rd"]["toas"]) for p in self.parts]
        off = np.concatenate([[0], np.cumsum(ns)])
        ms = [0 if T is None else T.shape[1] for T in Ts]
        moff = np.concatenate([[0], np.cumsum(ms)])
        B = np.zeros((off[-1], moff[-1]))
        for T, o, q, n, m in zip(Ts, off, moff, ns, ms):
            if T is not None:
                if T.shape[0] != n:
                    raise Violation("basis", "basis has %d rows for %d observations" % (T.shape[0], n))
                B[o : o + n, q : q + m] = T
        if isinstance(Phi, list):
            if [0 if p is None else p.shape[0] for p in Phi] != ms:
                raise Violation("phi", "basis has %s columns, phi %s" % (ms, [None if p is None else p.shape for p in Phi]))
            P = np.zeros((moff[-1], moff[-1]))
            for p, q, m in zip(Phi, moff, ms):
                if p is not None:
                    P[q : q + m, q : q + m] = np.diag(p) if p.ndim == 1 else p
        else:
            P = np.asarray(Phi, float)
            if P.shape != (moff[-1], moff[-1]):
                raise Violation("phi", "basis has %s columns, phi %s" % (ms, P.shape))
        return B, P, off

    def judge_cov(self, Ts, Phi, cl, name):
        """T phi T^T is the covariance of the declared processes."""
        self.parts = parts = self.ref(cl)
        B, P, off = self.layout(Ts, Phi)
        near(name, "coefficient covariance is not symmetric", P, P.T, np.sqrt(np.outer(np.diag(P), np.diag(P))) if P.size else 0, 1e-12)
        flat = np.diag(P) > BIG
        if np.any(np.abs(P[flat][:, ~flat]) > 0):
            raise Violation(name, "unconstrained coefficients are correlated with others")
        C, F, (Cr, Fr) = (B[:, ~flat] @ P[~flat][:, ~flat]) @ B[:, ~flat].T, (B[:, flat] * (np.diag(P)[flat] / models.TM_VAR)) @ B[:, flat].T, self.refcov(cl)
        d = np.sqrt(np.abs(np.diag(Fr)))
        near(name, "unconstrained processes", F, Fr, np.outer(d, d) + 1e-300, 1e-8)
        # a column shared between an unconstrained and another process is unconstrained: look outside of these columns
        X = np.hstack([B[:, flat], np.zeros((len(B), 1))])
        nrm = np.sqrt(np.sum(X**2, axis=0))
        U, sv, _ = np.linalg.svd(X / np.where(nrm > 0, nrm, 1), full_matrices=False)
        U = U[:, sv > 1e-9 * max(sv.max(), 1e-300)]
        shared = np.any([np.any(np.all(B[:, [j]] == B[:, ~flat], axis=0)) for j in np.flatnonzero(flat)]) or self.sharedflat
        if shared:
            C, Cr = (y - U @ (U.T @ y) for y in (C, Cr))
            C, Cr = (y - (y @ U) @ U.T for y in (C, Cr))
        d = np.sqrt(np.maximum(np.diag(self.refcov(cl)[0]), 0))
        near(name, "covariance of the processes", C, Cr, np.outer(d, d) + 1e-300, max(self.rel, 1e-7 if shared else 0))
        return B, P

    def refcov(self, cl):
        k = ("refcov", self.m.key(cl.v))
        if k not in self.m.memo:
            parts = self.ref(cl)
            ns = [len(p["rd"]["toas"]) for p in parts]
            off = np.concatenate([[0], np.cumsum(ns)])
            C, F = np.zeros((off[-1], off[-1])), np.zeros((off[-1], off[-1]))
            sharedflat = False
            for p, o, n in zip(parts, off, ns):
                s = slice(o, o + n)
                cols = set()
                for _, _, G, phi in p["gps"]:
                    if phi.ndim == 2:
                        C[s, s] += G @ phi @ G.T
                        continue
                    fl = np.isinf(phi)
                    F[s, s] += G[:, fl] @ G[:, fl].T
                    C[s, s] += (G[:, ~fl] * phi[~fl]) @ G[:, ~fl].T
                    cols |= {np.round(x, 9).tobytes() for x in G[:, fl].T}
                sharedflat |= any(np.round(x, 9).tobytes() in cols for _, _, G, phi in p["gps"] if phi.ndim == 2 or not np.isinf(phi).all() for x in G.T)
            for ia, pa in enumerate(parts):
                for ib in range(ia + 1, len(parts)):
                    pb = parts[ib]
                    for i, (Fa, phi, orf, nm) in pa.get("common", {}).items():
                        if i in pb.get("common", {}):
                            g = self.m.ref._orf(orf, nm, pa["rd"], pb["rd"], cl.v, self.m.c)
                            Fb = pb["common"][i][0]
                            X = (Fa @ phi @ Fb.T if phi.ndim == 2 else (Fa * phi) @ Fb.T) * g
                            sa, sb = slice(off[ia], off[ia + 1]), slice(off[ib], off[ib + 1])
                            C[sa, sb] += X
                            C[sb, sa] += X.T
            self.m.memo[k] = (C, F, sharedflat)
        C, F, self.sharedflat = self.m.memo[k]
        return C, F

    def do_cov(self, cl, k, call, v):
        pta = self.m.pta
        if k % 2:
            Ts = call(pta.get_basis, v)
            Phi = call(pta.get_phi, v)
        else:
            Phi = call(pta.get_phi, v, cliques=True) if k % 4 == 2 else call(pta.get_phi, v)
            Ts = call(pta.get_basis, v)
        self.judge_cov(Ts, Phi, cl, "phi")
        self.hold("basis", Ts)
        self.hold("phi", Phi)

    def inverse(self, nm, got, ld, P):
        """got is the inverse of P, ld the logarithm of its determinant."""
        s = np.sqrt(np.diag(P))
        Q = P / np.outer(s, s)
        near("phiinv", nm + " times phi", (dense(got) * np.outer(s, s)) @ Q, np.eye(len(Q)), np.ones(Q.shape), 1e-9 + 1e-13 * cond(Q) ** 2)
        if ld is not None:
            want = np.linalg.slogdet(Q)[1] + 2 * np.sum(np.log(s))
            near("phiinv", nm + " logdet", ld, want, 1 + np.sum(np.abs(np.log(s))), 1e-9 + 1e-14 * cond(Q))

    def do_phiinv(self, cl, k, call, v):
        pta = self.m.pta
        Phi = call(pta.get_phi, v)
        Ts = call(pta.get_basis, v)
        self.judge_cov(Ts, Phi, cl, "phi")
        meth = self.m.methods()[k % len(self.m.methods())]
        ld = bool(k % 2)
        if meth == "cliques" and k % 3 == 0:
            got = call(pta.get_phiinv_byfreq_cliques, v, logdet=ld, cholesky=True)
            meth = "cliques with Cholesky"
        else:
            got = call(pta.get_phiinv, v, logdet=ld, method=meth)
        if isinstance(Phi, list):
            for p, g in zip(Phi, got):
                if (p is None) != (g is None):
                    raise Violation("phiinv", "%r for phi %r" % (g, p))
                if p is not None:
                    g, l = g if ld else (g, None)
                    if p.ndim == 1:
                        near("phiinv", meth, g, 1 / np.asarray(p), 1 / np.asarray(p), 1e-12)
                        if ld:
                            near("phiinv", meth + " logdet", l, np.sum(np.log(p)), 1 + np.sum(np.abs(np.log(p))), 1e-12)
                    else:
                        self.inverse(meth, g, l, np.asarray(p))
        else:
            g, l = got if ld else (got, None)
            self.inverse(meth, g, l, np.asarray(Phi))
        self.hold("phiinv", got)

    def do_TNT(self, cl, k, call, v):
        pta = self.m.pta
        if k % 2:
            got, Ts = call(pta.get_TNT, v), call(pta.get_basis, v)
        else:
            Ts, got = call(pta.get_basis, v), call(pta.get_TNT, v)
        self.judge_cov(Ts, call(pta.get_phi, v), cl, "basis")
        for g, T, w, sc in zip(got, Ts, self.whites(cl), pta.pulsarmodels):
            if T is None:
                if g is not None:
                    raise Violation("TNT", "%r without processes" % (g,))
                continue
            want, s = w.quad(T, T)
            near("TNT", "T^T N^-1 T of %s" % sc.psrname, g, want, s, w.rel)
        self.hold("TNT", got)

    def do_TNr(self, cl, k, call, v):
        pta = self.m.pta
        got, Ts = call(pta.get_TNr, v), call(pta.get_basis, v)
        self.judge_cov(Ts, call(pta.get_phi, v), cl, "basis")
        for g, T, w, p, sc in zip(got, Ts, self.whites(cl), self.ref(cl), pta.pulsarmodels):
            if T is None:
                if g is not None:
                    raise Violation("TNr", "%r without processes" % (g,))
                continue
            r = p["rd"]["res"] - p["delay"]
            want, s = w.quad(T, r[:, None])
            near("TNr", "T^T N^-1 r of %s" % sc.psrname, g, want[:, 0], s[:, 0] + self.slack(w, T, p), w.rel)
        self.hold("TNr", got)

    def slack(self, w, T, p):
        """Rounding of the delays, seen through T^T N^-1."""
        e = np.full(len(w.N), 3e-12 + 1e-8 * np.max(np.abs(p["delay"])))
        return (np.abs(w.Ni @ T).T @ e) * 1e8

    def do_rNr(self, cl, k, call, v):
        got = call(self.m.pta.get_rNr_logdet, v)
        for g, w, p, sc in zip(got, self.whites(cl), self.ref(cl), self.m.pta.pulsarmodels):
            r = p["rd"]["res"] - p["delay"]
            want, s = w.quad(r[:, None], r[:, None])
            tol = s[0, 0] + 2 * self.slack(w, r[:, None], p)[0]
            near("rNr", "r^T N^-1 r of %s" % sc.psrname, g[0], want[0, 0], tol, w.rel)
            near("rNr", "logdet N of %s" % sc.psrname, g[1], w.ld, 1 + abs(w.ld), w.rel)

    def do_extra(self, cl, k, call, v):
        got = call(self.m.pta.get_logsignalprior, v)
        for g, p, sc in zip(got, self.ref(cl), self.m.pta.pulsarmodels):
            near("extra", "additional terms of %s" % sc.psrname, g, p["extra"], 1 + abs(p["extra"]), 1e-6)

    def do_coll(self, cl, k, call, v):
        """The model of one pulsar, used directly."""
        j = k % len(self.m.pta.pulsarmodels)
        sc, p, w = self.m.pta.pulsarmodels[j], self.ref(cl)[j], self.whites(cl)[j]
        near("residuals", "residuals of %s" % sc.psrname, call(self.m.pta.get_residuals)[j], p["rd"]["res"], np.abs(p["rd"]["res"]) + 1e-12, 1e-12)
        near("delay", "residuals of %s less delays" % sc.psrname, call(sc.get_detres, v), p["rd"]["res"] - p["delay"], 1.0, 3e-12 + 1e-8 * np.max(np.abs(p["delay"])))
        T, phi = call(sc.get_basis, v), call(sc.get_phi, v)
        if (T is None) != (phi is None):
            raise Violation("phi", "basis %r, phi %r" % (T, phi))
        if T is None:
            return
        if phi.shape[0] != T.shape[1]:
            raise Violation("phi", "basis has %d columns, phi %s" % (T.shape[1], phi.shape))
        P = np.diag(phi) if phi.ndim == 1 else np.asarray(phi)
        inv = call(sc.get_phiinv, v)
        self.inverse("inverse for %s" % sc.psrname, np.diag(inv) if inv.ndim == 1 else inv, None, P)
        want, s = w.quad(T, T)
        near("TNT", "T^T N^-1 T of %s" % sc.psrname, call(sc.get_TNT, v), want, s, w.rel)
        self.hold("phi of one pulsar", phi)
        self.hold("basis of one pulsar", T)
        self.hold("inverse of phi of one pulsar", inv)

    def do_signal(self, cl, k, call, v):
        """One signal of one pulsar, used directly."""
        j = k % len(self.m.pta.pulsarmodels)
        sc, p = self.m.pta.pulsarmodels[j], self.ref(cl)[j]
        sigs = self.m.cfg["models"][j]["sigs"]
        q = (k // 3) % len(sigs)
        s, i = sc.signals[q], sigs[q]
        d = self.m.cfg["signals"][i]
        nm = "signal %s (%s)" % (s.name, d["s"])
        n = len(p["rd"]["toas"])
        dl = call(s.get_delay, v)
        want = p["sigdelay"][i]
        near("signal", nm + " delay", np.zeros(n) + (0 if dl is None else dl), want, 1.0, 3e-12 + 1e-8 * np.max(np.abs(p["delay"])))
        N = call(s.get_ndiag, v)
        if d["s"] in ("mn", "tneq", "uwn"):
            want = np.diag(p["signdiag"][i])
            near("signal", nm + " variances", np.zeros(n) + (0 if N is None else N), want, want, 1e-9)
        elif N is None and d["s"] == "ecorrk" and not np.any(p["signdiag"][i]):
            pass
        elif (N is not None) != (d["s"] in ("mtm", "ecorrk")):
            raise Violation("signal", "%s has noise matrix %r" % (nm, N))
        if d["s"] == "wtm":
            wb = p["wb"]
            for fn, key, kw in (("get_dm", "dm", {}), ("get_dme", "dme", {}), ("get_mean_dm", "mean", {}), ("get_mean_dme", "meane", {}), ("get_delta_dm", "delta", {}), ("get_delta_dm", "meandelta", {"use_mean_dm": True}), ("get_dm_chi2", "chi2", {}), ("get_dm_chi2", "meanchi2", {"use_mean_dm": True})):
                got = call(getattr(s, fn), v, **kw)
                near("signal", "%s %s%s" % (nm, fn, kw or ""), got, wb[key], np.abs(wb[key]) + (1 if "chi2" in fn else 1e-3 * np.max(np.abs(wb["dm"]))), 1e-9)
                self.hold(fn, got)
        T, phi = call(s.get_basis, v), call(s.get_phi, v)
        for what, x in (("delay", dl), ("noise", N), ("basis", T), ("phi", phi)):
            self.hold("%s of %s" % (what, nm), x)
        gps = [(F, ph) for ii, _, F, ph in p["gps"] if ii == i]
        if not gps:
            if phi is not None and np.size(phi):
                raise Violation("signal", "%s has phi %r" % (nm, phi))
            return
        if T is None or phi is None or T.shape != (n, phi.shape[0]):
            raise Violation("signal", "%s: basis and phi do not fit" % nm)
        P = np.diag(phi) if phi.ndim == 1 else np.asarray(phi)
        flat = np.diag(P) > BIG
        C = T[:, ~flat] @ P[~flat][:, ~flat] @ T[:, ~flat].T
        F = (T[:, flat] * (np.diag(P)[flat] / models.TM_VAR)) @ T[:, flat].T
        Cr, Fr = np.zeros((n, n)), np.zeros((n, n))
        for G, ph in gps:
            if ph.ndim == 2:
                Cr += G @ ph @ G.T
            else:
                fl = np.isinf(ph)
                Fr += G[:, fl] @ G[:, fl].T
                Cr += (G[:, ~fl] * ph[~fl]) @ G[:, ~fl].T
        for x, y, z in ((C, Cr, "covariance"), (F, Fr, "unconstrained part")):
            dd = np.sqrt(np.diag(y))
            near("signal", "%s %s" % (nm, z), x, y, np.outer(dd, dd), self.rel)
        if d["s"] not in ("cgp", "ephgp", "physgp"):
            inv = call(s.get_phiinv, v)
            self.inverse(nm, np.diag(inv) if np.ndim(inv) == 1 else inv, None, P)

    def do_meta(self, cl, k, call, v):
        """Names and look-up."""
        pta, m = self.m.pta, self.m
        names = [self.m.ref.rd[pm["psr"]]["name"] for pm in m.cfg["models"]]
        for what, got in (("keys", list(pta.keys())), ("pulsars", list(pta.pulsars)), ("items", [a for a, _ in pta.items()]), ("pulsarmodels", [sc.psrname for sc in pta.pulsarmodels])):
            if got != names:
                raise Violation("names", "%s: %s, not %s" % (what, got, names))
        if len(pta) != len(names):
            raise Violation("names", "length %d" % len(pta))
        for j, n in enumerate(names):
            if pta[j] is not pta.pulsarmodels[j] or pta[n] is not pta.pulsarmodels[names.index(n)]:
                raise Violation("names", "%r looks up another pulsar" % n)
        for sc in pta.pulsarmodels:
            ids = list(sc.keys())
            if len(ids) != len(sc) or [a for a, _ in sc.items()] != ids:
                raise Violation("names", "signals of %s" % sc.psrname)
            for j, n in enumerate(ids):
                if sc[j] is not sc.signals[j] or sc[n] is not sc.signals[ids.index(n)]:
                    raise Violation("names", "%r looks up another signal" % n)
            for s in sc.signals:
                x = pta.get_signal(s.name)
                if x.name != s.name or pta.signals[s.name] is not x:
                    raise Violation("names", "get_signal(%r) is %r" % (s.name, x.name))
        mine = cl.arg("vec")
        got = pta.map_params(mine)
        if sorted(got) != m.names or any(not np.array_equal(np.ravel(got[n]), np.ravel(cl.v[n])) for n in m.names):
            raise Violation("names", "map_params of the vector %s is %s" % (mine, got))
        text = call(pta.summary)
        lines = ["Varying params: %d\n" % len(pta.param_names), "Number of pulsars: %d\n" % len(names)]
        for sc, p in zip(pta.pulsarmodels, self.ref(cl)):
            for s in sc.signals:
                lines.append("\n%s " % s.name)
        for line in lines:
            if line not in text:
                raise Violation("summary", "summary lacks %r" % line)

    def do_sum(self, cl, k, call, v):
        """The likelihood put together from the pieces is the likelihood."""
        pta = self.m.pta
        x = 0.0
        for g in call(pta.get_rNr_logdet, v):
            x -= 0.5 * (g[0] + g[1])
        x += sum(call(pta.get_logsignalprior, v))
        TNr, TNT = call(pta.get_TNr, v), call(pta.get_TNT, v)
        got = call(pta.get_phiinv, v, logdet=True, method=self.m.methods()[k % len(self.m.methods())])
        if isinstance(got, list):
            todo = [(a, b, *g) for a, b, g in zip(TNr, TNT, got) if a is not None]
        else:
            import scipy.linalg as sl

            some = [a is not None for a in TNr]
            TNr, TNT = [a for a, q in zip(TNr, some) if q], [a for a, q in zip(TNT, some) if q]
            todo = [(np.concatenate(TNr), sl.block_diag(*TNT), dense(got[0]), got[1])]
        for a, b, pi, ld in todo:
            S = np.asarray(b) + (np.diag(pi) if np.ndim(pi) == 1 else pi)
            s = np.sqrt(np.diag(S))
            try:
                c = np.linalg.cholesky(S / np.outer(s, s))
            except np.linalg.LinAlgError:
                raise Violation("sum", "the sum of T^T N^-1 T and the inverse of phi is not positive definite")
            y = np.linalg.solve(c, np.asarray(a) / s)
            x += 0.5 * (y @ y - 2 * np.sum(np.log(np.diag(c))) - 2 * np.sum(np.log(s)) - ld)
        want = self.m.want("lnlike", cl.v)
        if not lik.close(x, want):
            raise Violation("sum", "the pieces give %r, the model has %r" % (x, want))


class C19(Scenario):
    ID = "C19"
    LEVEL = "exploration"
    RUNS = {"quick": 2400, "thorough": 80000}
    RULE = (
        "one evaluation = one simulated run: 1-3 clients on a random model move, evaluate, assign constants, and request the pieces of"
        " its linear algebra (noise matrices, bases, coefficient covariances and inverses, products, residuals, additional terms, single"
        " signals), in half of the runs with exceptions injected; distinct non-trivial = runs with at least five judged pieces, told"
        " apart by the digest of their event log"
    )
    STATES = "distinct (structure of the model, piece, preceding operation) tuples"
    REAL = c01.C01.REAL
    STUB = c01.C01.STUB
    ASSUME = [
        "agreement to 1e-8 of the magnitudes involved (more where the marginalised timing model is degenerate)",
        "the order of basis columns and how equal columns are combined are free: T phi T^T is compared",
    ]

    def make_plan(self, rng, i, tier):
        kw = {}
        if i % 11 == 3:
            kw["coef"] = 0.5
        if i % 11 == 7:
            kw["ecorr"] = rng.choice(["sparse", "block", "sherman-morrison", "fast-sherman-morrison"])
        if i % 11 in (1, 5):
            kw.update(common=True, npsr=rng.choice([2, 3]), shared="dense" if i % 11 == 5 else True)
        if i % 11 == 9:
            kw["wideband"] = True
        if i % 23 == 11:
            kw["big"] = True
        cfg = gen.draw_config(rng, **kw)
        ncl = rng.choice([1, 2, 2, 3])
        faults = rng.random() < 0.5
        n = rng.randint(12, 50) if tier == "thorough" else rng.randint(10, 32)
        base = lik.random_ops(rng, n, ncl, {"ll": 8, "move": 32, "prior": 2, "delay": 4, "noise": 5, "set": 3, "piece": 48})
        ops = []
        for op in base:
            if op[0] == "piece":
                op = ["piece", op[1], rng.choice(PIECES), rng.randrange(24), rng.choice(["dict", "own", "extra", "np", "rev"])]
                if faults and rng.random() < 0.4:
                    kind = rng.choice(KINDS)
                    hi = {"interrupt": 1500, "memory": 900, "linalg": 8, "cholmod": 3, "user": 6}[kind]
                    ops.append(["fault", kind, max(1, int(math.exp(rng.random() * math.log(hi)))), rng.randrange(2), op])
                    if rng.random() < 0.6:
                        ops.append(op)
                    continue
            ops.append(op)
        return {"cfg": cfg, "seed": rng.randrange(10**6), "clients": ncl, "share": rng.random() < 0.3, "ops": ops}

    def execute(self, plan, ctx):
        cfg = plan["cfg"]
        psrs = lik.make_psrs(cfg)
        m = lik.Model(cfg, psrs, models.World(plan.get("share", False)), plan["seed"])
        g = Guard()
        try:
            m.build()
            clients = [lik.Client(m, k) for k in range(plan["clients"])]
            ps = Pieces(ctx, m)
            shape = repr(lik.shape(cfg))
            last = None
            for op in plan["ops"]:
                ctx.steps += 1
                if op[0] == "fault":
                    _, kind, k, variant, inner = op
                    g.arm(kind, k, variant)
                    try:
                        ps.request(clients[inner[1] % len(clients)], inner, g)
                    except Violation as v:
                        if g.raised is not None and g.fallback and ill_scaled(cfg):
                            ctx.stat("value_of_ill_scaled_fallback_not_checked")
                        elif g.raised is not None:
                            raise Violation("wrong-after-fault:" + v.kind, "%s; injected %r in %s" % (v.detail, g.raised, g.where))
                        else:
                            raise
                    if g.raised is not None:
                        ctx.fault(kind)
                        ctx.event("struck", kind, g.where)
                    last = "fault"
                    continue
                cl = clients[op[1] % len(clients)]
                if op[0] == "move":
                    cl.move(op[2], op[3], op[4])
                    ctx.event("move", op[1:])
                elif op[0] == "noise":
                    ctx.event("noise", op[2])
                    lik.noise(cl, op[2], op[3])
                elif op[0] == "set":
                    if m.c:
                        n = sorted(m.c)[op[2] % len(m.c)]
                        m.c[n] = lik.constvalue(m.ref, n, op[3])
                        m.pta.set_default_params({n: m.c[n]})
                        ctx.event("set", n)
                elif op[0] == "piece":
                    ps.request(cl, op, None)
                    ctx.state(shape, op[2], last)
                else:
                    lik.evaluate(ctx, cl, op)
                last = op[2] if op[0] in ("move", "noise", "piece") else op[0]
            for Ns, w, k in getattr(ps, "held_N", []):  # noise matrices that clients kept, for the parameters they asked for
                ps.judge_ndiag(Ns, w, m.pta, k + 1)
            ps.check_held()
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise c01.raised(e)
        if ctx.stats.get("pieces", 0) >= 5:
            ctx.stat("nontrivial")

    simplify = c01.C01.simplify
