"""C07: arrays obtained from an inflated pulsar stay valid while referenced."""
import copy
import gc
import pickle

import numpy as np

from . import lik, psrgen, shmsim
from .c01 import raised
from .core import Scenario, Violation

ATTRS = ["Mmat", "planetssb", "sunssb", "flags", "backend_flags", "toas", "pos_t", "_designmatrix", "_planetssb", "_sunssb", "_flags"]
DERIVE = {
    "slice": lambda a: a[1:-1],
    "step": lambda a: a[::2],
    "reverse": lambda a: a[::-1],
    "last": lambda a: a[..., -1:] if a.ndim > 1 else a[-2:],
    "column": lambda a: a[:, 0] if a.ndim > 1 else a[:],
    "row": lambda a: a[1] if a.ndim > 1 else a[1:2],
    "T": lambda a: a.T,
    "swap": lambda a: a.swapaxes(0, -1),
    "ravel": lambda a: a.ravel(),
    "reshape": lambda a: a.reshape(-1),
    "asarray": lambda a: np.asarray(a),
    "view": lambda a: a.view(np.ndarray),
    "newaxis": lambda a: a[None],
    "squeeze": lambda a: a.squeeze(),
    "real": lambda a: a.real if a.dtype.kind == "f" else a,
    "field": lambda a: a[a.dtype.names[0]] if a.dtype.names else a,
    "fields": lambda a: a[list(a.dtype.names[:2])] if a.dtype.names else a,
    "bytes": lambda a: np.ascontiguousarray(a).view(np.uint8) if a.dtype.kind == "f" else a,
    "memoryview": lambda a: np.asarray(memoryview(a)) if a.dtype.kind == "f" else a,
    "broadcast": lambda a: np.broadcast_to(a, (2,) + a.shape),
    "atleast": lambda a: np.atleast_2d(a),
    "split": lambda a: np.array_split(a, 2)[0],
    "iter": lambda a: list(a)[0] if a.ndim > 1 else a,
    "diag": lambda a: a[:, :].diagonal() if a.ndim == 2 else a,
    "flatbase": lambda a: a.flat.base,
    "ascontiguous": lambda a: np.ascontiguousarray(a),
    "expand": lambda a: np.expand_dims(a, 1),
    "moveaxis": lambda a: np.moveaxis(a, -1, 0),
    "window": lambda a: np.lib.stride_tricks.sliding_window_view(a, 2, axis=0) if a.dtype.kind == "f" else a,
    "strided": lambda a: np.lib.stride_tricks.as_strided(a, a.shape, a.strides),
    "frombuffer": lambda a: np.frombuffer(a, a.dtype) if a.flags.c_contiguous and a.dtype.kind == "f" else a,
    "recarray": lambda a: np.asarray(a.view(np.recarray)) if a.dtype.names else a,
    # independent data
    "copy": lambda a: a.copy(),
    "fancy": lambda a: a[np.arange(len(a))[::-1]],
    "twice": lambda a: a * 2 if a.dtype.kind == "f" else a,
    "negate": lambda a: np.negative(a, out=np.empty_like(a)) if a.dtype.kind == "f" else a,
    "deepcopy": lambda a: copy.deepcopy(a),
    "shallow": lambda a: copy.copy(a),
    "pickle": lambda a: pickle.loads(pickle.dumps(a)),
    "astype": lambda a: a.astype(a.dtype, copy=False),
    "matmul": lambda a: a.T @ a if a.ndim == 2 and a.dtype.kind == "f" else a,
    "concat": lambda a: np.concatenate([a, a]),
    "sorted": lambda a: np.sort(a, axis=0) if a.dtype.kind == "f" else a,
    "where": lambda a: np.where(a != 0, a, a) if a.dtype.kind == "f" else a,
}


def get(psr, attr, sub):
    a = getattr(psr, attr, None)
    if not isinstance(a, (dict, np.ndarray)):  # arrays kept under private names, if there are
        a = getattr(psr, {"_designmatrix": "Mmat"}.get(attr, attr.lstrip("_")))
    if isinstance(a, dict):
        a = a[sorted(a)[sub % len(a)]]
    return a


def derive(a, chain):
    for k in chain:
        try:
            a = DERIVE[k](a)
        except Exception:
            pass
        if not isinstance(a, np.ndarray):
            a = np.asarray(a)
    return a


def model(psr, kind):
    """A small model of the pulsar without varying parameters."""
    from enterprise.signals import gp_signals, parameter, signal_base, utils, white_signals

    s = white_signals.MeasurementNoise(efac=parameter.Constant(1.1))
    if kind % 3 == 1:
        s = s + gp_signals.MarginalizingTimingModel()
    elif kind % 3 == 2:
        s = s + gp_signals.TimingModel(use_svd=True)
    else:
        s = s + gp_signals.TimingModel()
    pl = utils.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(3.0))
    s = s + gp_signals.FourierBasisGP(pl, components=3)
    return signal_base.PTA([s(psr)])


class Held:
    def __init__(self, array, want, what):
        self.array, self.want, self.what = array, want, what


def native(a):
    """The contents (numpy's pickles do not keep the byte order)."""
    return a.astype(a.dtype.newbyteorder("="), copy=False).tobytes()


class C07(Scenario):
    ID = "C07"
    LEVEL = "exploration"
    RUNS = {"quick": 7000, "thorough": 400000}
    RULE = (
        "one evaluation = one simulated run: a creator and one to three users of a shared pulsar take arrays through 0-4"
        " derivations, build models, and delete, collect, pickle, copy, destroy and exit in a random order; distinct non-trivial ="
        " runs in which an array was compared after the pulsar it came from had gone, told apart by the digest of their event log"
    )
    STATES = "distinct (attribute, derivation chain, sorted or not, owner alive, pulsar destroyed) tuples at comparisons"
    REAL = ["enterprise.pulsar_inflate", "enterprise.pulsar", "enterprise.signals models that keep data", "multiprocessing.shared_memory.SharedMemory", "numpy, mmap of real memory (unmapped ranges are fenced off)"]
    STUB = ["POSIX shared-memory namespace (memfd segments)", "processes and resource trackers", "tempo2/libstempo (arrays of synthetic observations)"]
    ASSUME = ["arrays obtained through raw pointers (ctypes, __array_interface__ of an object that is gone) are outside the property"]

    def make_plan(self, rng, i, tier):
        s = psrgen.random_spec(rng, 0, kind="t2", small=True)
        s["sort"] = rng.random() < 0.35
        s["layout"] = rng.choice([None, None, None, "single"])
        s["uidflag"] = True
        s["fit"] = rng.choice([["F0"], ["F0", "F1"]])
        ops = []
        nu = rng.choice([1, 1, 2, 3])
        n = rng.randint(8, 44) if tier == "thorough" else rng.randint(8, 30)
        for _ in range(n):
            u, j = rng.randrange(nu), rng.randrange(7)
            x = rng.random()
            if x < 0.10:
                ops.append(["inflate", u])
            elif x < 0.48:
                chain = [rng.choice(sorted(DERIVE)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
                ops.append(["take", u, j, rng.choice(ATTRS), rng.randrange(4), chain])
            elif x < 0.54:
                ops.append(["more", u, j, [rng.choice(sorted(DERIVE))]])
            elif x < 0.58:
                ops.append(["model", u, j, rng.randrange(3)])
            elif x < 0.60:
                ops.append(["repsr", u, j, rng.choice(["copy", "deepcopy", "pickle"])])
            elif x < 0.74:
                ops.append(["delpsr", u, j])
            elif x < 0.82:
                ops.append(["drop", u, j])
            elif x < 0.88:
                ops.append(["check", u])
            elif x < 0.93:
                ops.append(["gc", u])
            elif x < 0.96:
                ops.append(["destroy"])
            else:
                ops.append(["exitcreator"])
        return {"spec": s, "users": nu, "ops": [["inflate", k] for k in range(nu)] + ops}

    def execute(self, plan, ctx):
        sim = shmsim.Sim(ctx)
        self.ctx, self.sim = ctx, sim
        self.want = psrgen.make_pulsar(plan["spec"])
        self.sorted = plan["spec"]["sort"]
        self.lnl = {}
        creator = sim.spawn(0)
        users = [sim.spawn(1 + k) for k in range(plan["users"])]
        self.gone = False
        try:
            with shmsim.inside(sim, creator):
                creator.obj["psr"] = psrgen.make_pulsar(plan["spec"])
                creator.obj["psr"].deflate()
                self.mail = pickle.dumps(creator.obj["psr"])
            for p in users:
                p.obj = {"psr": [], "held": [], "model": []}
            for op in plan["ops"]:
                ctx.steps += 1
                if op[0] == "exitcreator":
                    if creator.alive:
                        ctx.event("exitcreator")
                        ctx.fault("exit_creator")
                        sim.end(creator, False)
                        sim.reap()
                    continue
                if op[0] == "destroy":
                    if not self.gone:
                        ctx.event("destroy")
                        ctx.fault("destroy")
                        d = sim.spawn(50)
                        with shmsim.inside(sim, d):
                            pickle.loads(self.mail).destroy()
                        sim.end(d, False)
                        sim.reap()
                        self.gone = True
                    continue
                p = users[op[1] % len(users)]
                with shmsim.inside(sim, p):
                    self.act(p, op)
            for p in users:
                with shmsim.inside(sim, p):
                    self.check(p)
                    self.mappings(p)
                    p.obj["psr"].clear()
                    self.check(p)
                    p.obj["held"].clear()
                    p.obj["model"].clear()
                    self.mappings(p)
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        finally:
            shmsim.ACTIVE[0] = None

    def act(self, p, op):
        ctx, k, o = self.ctx, op[0], p.obj
        if k == "inflate":
            if self.gone or len(o["psr"]) > 3:
                return
            psr = pickle.loads(self.mail)
            psr.inflate()
            o["psr"].append(psr)
            ctx.event("inflate", p.pid)
            return
        if k == "check":
            self.check(p)
            return
        if k == "gc":
            self.mappings(p)
            return
        if k in ("more", "drop"):
            if not o["held"]:
                return
            j = op[2] % len(o["held"])
            if k == "drop":
                ctx.event("drop", p.pid)
                del o["held"][j]
            else:
                h = o["held"][j]
                if self.sim.dangling(h.array):
                    raise Violation("unmapped", "an array points to unmapped memory: %s" % (h.what,))
                o["held"].append(Held(derive(h.array, op[3]), derive(h.want, op[3]), h.what + op[3]))
                ctx.event("more", p.pid, op[3])
            return
        if not o["psr"]:
            return
        j = op[2] % len(o["psr"])
        if k == "delpsr":
            ctx.event("delpsr", p.pid)
            ctx.fault("owner_deleted")
            del o["psr"][j]
            return
        psr = o["psr"][j]
        if k == "take":
            a = derive(get(psr, op[3], op[4]), op[5])
            w = derive(get(self.want, op[3], op[4]), op[5])
            o["held"].append(Held(a, w, [op[3]] + op[5]))
            ctx.event("take", p.pid, op[3], op[5])
            ctx.stat("taken")
            if self.sim.in_shared(a):
                ctx.stat("taken_shared")
        elif k == "model":
            o["model"].append((op[3], model(psr, op[3])))
            ctx.event("model", p.pid, op[3])
        elif k == "repsr":
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[op[3]](psr)
            o["psr"].append(c)
            ctx.event("repsr", p.pid, op[3])

    def check(self, p):
        ctx, o = self.ctx, p.obj
        for psr in o["psr"]:
            for a in vars(psr).values():
                if isinstance(a, np.ndarray) and self.sim.dangling(a):
                    raise Violation("unmapped", "an array of an inflated pulsar points to unmapped memory")
            if lik.psr_digest(psr) != lik.psr_digest(self.want):
                raise Violation("data", "an inflated pulsar differs from the original")
        for h in o["held"]:
            ctx.stat("compared")
            if self.sim.dangling(h.array):
                raise Violation("unmapped", "an array points to unmapped memory: %s" % (h.what,))
            if h.array.shape != h.want.shape or native(h.array) != native(h.want):
                raise Violation("contents", "an array changed: %s" % (h.what,))
            ctx.state(h.what, self.sorted, bool(o["psr"]), self.gone)
            if not o["psr"]:
                ctx.stat("nontrivial")
        for kind, m in o["model"]:
            v = m.get_lnlikelihood({})
            if kind not in self.lnl:
                self.lnl[kind] = model(self.want, kind).get_lnlikelihood({})
            w = self.lnl[kind]
            ctx.stat("models_compared")
            if v != w and not (np.isnan(v) and np.isnan(w)) and not abs(v - w) < 1e-6 * (1 + abs(w)):
                raise Violation("model", "a model over a shared pulsar gives %r instead of %r" % (v, w))
        ctx.event("check", p.pid, len(o["held"]))

    def mappings(self, p):
        """Memory stays mapped only for arrays that are still there."""
        gc.collect()
        sim, o = self.sim, p.obj
        if o["model"]:
            return
        live = set()
        arrays = [a for psr in o["psr"] for a in vars(psr).values() if isinstance(a, np.ndarray)] + [h.array for h in o["held"]]
        roots = []
        for a in arrays:
            roots.append(a)
            while getattr(a, "base", None) is not None:
                a = a.base
                if isinstance(a, np.ndarray):
                    roots.append(a)
        for a in roots:
            lo, hi = sim.address(a)
            hi = max(hi, lo + 1)
            for key, ((x, y), pid) in sim.maps.items():
                if pid == p.pid and lo < y and hi > x:
                    live.add(key)
        n = sim.mappings(p)
        self.ctx.event("mapped", p.pid, n)
        if n > len(live):
            raise Violation("leak", "%d mappings exist, but arrays only for %d" % (n, len(live)))
        if len(p.fds) > len(live):
            raise Violation("leak-descriptors", "%d descriptors open, but arrays only for %d mappings" % (len(p.fds), len(live)))
