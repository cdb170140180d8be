"""C08: all per-TOA data stay aligned through any sequence of operations."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from . import fakes, psrgen, shmsim
from .c01 import raised
from .core import Scenario, Violation, scratch_root

OBLIQUITY = 23.43704 * np.pi / 180.0  # the value the library uses
FLAGS = ["group", "g", "sys", "i", "f", "fe", "be", "mine"]
WORDS = ["", "a", "L-wide", "PUPPI_1400_with_a_long_name", "x y", "\u03bc"]


def rotate(x):
    c, s = np.cos(OBLIQUITY), np.sin(OBLIQUITY)
    return np.stack([x[..., 0], c * x[..., 1] - s * x[..., 2], s * x[..., 1] + c * x[..., 2]], axis=-1)


class Table:
    """What is known about the observations of one pulsar."""

    def __init__(self, spec):
        self.spec = spec
        d = self.d = psrgen.data_from_spec(spec)
        n = len(d["toas"])
        pint = spec["kind"] == "pint"
        self.sort, self.rows = spec["sort"], list(range(n))
        self.vals = {
            "toas": d["toas"] * 86400,
            "stoas": d["stoas"] * 86400,
            "residuals": d["res"],
            "toaerrs": d["errs"] * 1e-6,
            "freqs": d["freqs"],
            "pos_t": d["pos_t"],
        }
        rot = rotate if spec.get("ecl") and not pint else lambda x: x
        self.vals["pos_t"] = rot(d["pos_t"])
        if spec["planets"]:
            p = d["planets"]
            s = d["sun"]
            if pint:
                q = np.full((n, 9, 6), np.nan)
                for k in (2, 4, 5, 6, 7):
                    q[:, k, :3] = p[:, k, :3]
                z = np.zeros((n, 6))
                z[:, :3] = s[:, :3]
                p, s = q, z
            else:
                p = np.concatenate([rot(p[..., :3]), rot(p[..., 3:])], axis=-1)
                s = np.concatenate([rot(s[..., :3]), rot(s[..., 3:])], axis=-1)
            self.vals["planetssb"], self.vals["sunssb"] = p, s
        self.telescope = [str(t) for t in d["tel"]]
        self.cols = [(nm, d["M"][:, j]) for j, nm in enumerate(["Offset"] + list(d["fit"]))]
        self.units = {nm: "u%d" % j for j, (nm, _) in enumerate(self.cols)} if pint else None
        self.dm = d["pars"]["DM"][0]
        self.dmx = {}
        for nm in d["pars"]:
            if nm.startswith("DMX_"):
                v, e = d["pars"][nm]
                r = [d["pars"]["DMXR%d_" % j + nm[4:]][0] for j in (1, 2)]
                self.dmx[nm] = {"DMX": v, "DMXerr": e, "DMXR1": r[0], "DMXR2": r[1], "fit": True}
        self.flags = {k: [str(x) for x in v] for k, v in d["flags"].items()}
        if pint:
            self.flags = {k: v for k, v in self.flags.items() if any(v)}
        self.setflags = not (spec["kind"] == "t2")

    def clone(self):
        t = copy.copy(self)
        t.rows, t.cols = list(self.rows), list(self.cols)
        t.flags = {k: list(v) for k, v in self.flags.items()}
        return t

    def filter(self, a, b):
        t = self.vals["toas"]
        keep = [r for r in self.rows if (a is None or t[r] >= a * 86400) and (b is None or t[r] <= b * 86400)]
        self.rows = keep
        gone = {nm for nm, c in self.cols if not np.any(c[keep] != 0)}
        self.cols = [(nm, c) for nm, c in self.cols if nm not in gone]
        self.dmx = {nm: v for nm, v in self.dmx.items() if nm not in gone}

    def backend(self, r):
        f = {k: v[r] for k, v in self.flags.items()}
        for k in ("group", "g", "sys", "i", "f"):
            if f.get(k):
                return f[k]
        return f["fe"] + "_" + f["be"] if f.get("fe") and f.get("be") else ""


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-13, equal_nan=True)


class C08(Scenario):
    ID = "C08"
    LEVEL = "exploration"
    RUNS = {"quick": 4000, "thorough": 200000}
    RULE = (
        "one evaluation = one simulated run: one to three pulsars undergo 6-40 interleaved operations (filter, sort, flags, pickle,"
        " feather, deepcopy, deflate/inflate in simulated processes) and are compared with a table of observations; distinct"
        " non-trivial = runs in which an unsorted pulsar was filtered or got flags and was compared later, told apart by the"
        " digest of their event log"
    )
    STATES = "distinct (kind of pulsar, sort, planets, ecliptic, last four operations, number of observations left) tuples"
    REAL = ["enterprise.pulsar (Pulsar, Tempo2Pulsar, PintPulsar, FeatherPulsar)", "enterprise.pulsar_inflate", "pyarrow, pickle, real files in a scratch directory"]
    STUB = ["tempo2/libstempo and PINT (arrays of synthetic observations)", "POSIX shared memory, processes, resource trackers"]
    ASSUME = ["residuals identify the observations (they are all different)", "values are compared to 1e-10; ties in time may come in any order"]

    def make_plan(self, rng, i, tier):
        specs = []
        for q in range(rng.choice([1, 1, 2, 3])):
            s = psrgen.random_spec(rng, q, wideband=rng.random() < 0.3, kind=rng.choice(["t2", "t2", "pint", "pint"]))
            s["sort"] = rng.random() < 0.6
            s["planets"] = rng.random() < 0.7
            s["ecl"] = rng.random() < 0.3
            s["uidflag"] = rng.random() < 0.8
            s["partialflag"] = rng.random() < 0.4
            s["drop"] = rng.random() < 0.6
            s["rmflags"] = sorted(rng.sample(["f", "fe", "be", "B"], rng.choice([0, 0, 1, 1, 2])))
            if s["ndmx"] and rng.random() < 0.4:
                s["ndmx"] += 4
            if rng.random() < 0.3:
                s["keep_empty_dmx"] = True
            if rng.random() < 0.5:  # ties in time and whole days
                for o in s["obs"]:
                    if rng.random() < 0.5:
                        o[0], o[1] = float(int(o[0])), 0.0
            if rng.random() < 0.1:
                s["obs"] = s["obs"][: rng.choice([2, 3])]
            specs.append(s)
        ops = []
        n = rng.randint(6, 40) if tier == "thorough" else rng.randint(6, 24)
        for _ in range(n):
            k = rng.choice(["filter", "filter", "sort", "setflag", "setflag", "setflag", "topickle", "pickle", "feather", "share", "share", "deepcopy", "filterdeflated", "check", "check", "badflag"])
            op = [k, rng.randrange(6)]
            if k in ("filter", "filterdeflated"):
                op += [rng.choice([None, 0, 0.02, 0.1, 0.3]), rng.choice([None, 1, 0.98, 0.9, 0.7]), rng.random() < 0.3]
            elif k == "setflag":
                op += [rng.choice(FLAGS), rng.randrange(1000)]
            elif k == "share":
                op += [rng.random() < 0.5, rng.random() < 0.5]
            ops.append(op)
        return {"specs": specs, "ops": ops}

    def make(self, spec):
        import enterprise.pulsar as ep

        d = psrgen.data_from_spec(spec)
        kw = {"sort": spec["sort"], "planets": spec["planets"]}
        if spec["kind"] == "pint":
            d["with_planets"] = spec["planets"]
            return ep.Pulsar(fakes.TOAs(d), fakes.TimingModel(d), drop_pintpsr=spec["drop"], **kw)
        return ep.Pulsar(fakes.tempopulsar(data=d), drop_t2pulsar=spec["drop"], **kw)

    def execute(self, plan, ctx):
        self.ctx = ctx
        self.sim = shmsim.Sim(ctx)
        self.tmp = tempfile.mkdtemp(prefix="simc08", dir=scratch_root())
        try:
            cells = []
            for s in plan["specs"]:
                cells.append([self.make(s), Table(s), []])
            for c in cells:
                self.check(c)
            touched = False
            for op in plan["ops"]:
                ctx.steps += 1
                c = cells[op[1] % len(cells)]
                c[2].append(op[0])
                ctx.event(op[:2], len(c[1].rows))
                self.op(c, op, cells)
                touched |= op[0] in ("filter", "setflag") and c[1].rows != sorted(c[1].rows, key=lambda r: c[1].vals["toas"][r])
                for x in cells:
                    self.check(x)
            if touched:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        finally:
            shmsim.ACTIVE[0] = None
            shutil.rmtree(self.tmp, ignore_errors=True)

    def window(self, t, op):
        ts = sorted(set(t.d["toas"].tolist()))
        a = b = None
        if op[2] is not None:
            a = ts[min(int(op[2] * len(ts)), len(ts) - 1)]
        if op[3] is not None:
            b = ts[min(int(op[3] * len(ts)), len(ts) - 1)]
        if op[4]:  # exactly at whole days (exact in floating point), else half way between observations
            a = None if a is None else float(int(a))
            b = None if b is None else float(int(b))
        else:
            a = None if a is None else a - 1e-7
            b = None if b is None else b + 1e-7
        return a, b

    def op(self, c, op, cells):
        ctx, (psr, t, hist), k = self.ctx, c, op[0]
        if k == "filter":
            a, b = self.window(t, op)
            kw = {}
            if a is not None:
                kw["start_time"] = a
            if b is not None:
                kw["end_time"] = b
            psr.filter_data(**kw)
            t.filter(a, b)
            ctx.stat("filtered")
        elif k == "sort":
            psr.sort_data()
        elif k in ("setflag", "badflag"):
            if k == "badflag":
                name, vals = "mine", np.array(["z"] * 500)[: max(len(t.rows) - 1, 0)]
                if not t.sort or not len(t.rows):
                    return  # whatever is given is stored
            else:
                rs = np.random.RandomState(op[3])
                name, word = op[2], [WORDS[j] for j in rs.randint(0, len(WORDS), 80)]
                order = self.order(psr, t)
                vals = np.array([word[r % 80] for r in order], dtype=str if len(order) else "U1")
            before = vals.copy()
            try:
                psr.set_flags(name, vals)
            except NotImplementedError:
                if t.setflags:
                    raise
                return
            except IndexError:
                if k == "setflag":
                    raise
                return
            if k == "badflag":
                raise Violation("flags", "flags of the wrong length were accepted")
            if not np.array_equal(vals, before):
                raise Violation("arguments", "set_flags modified its argument")
            n = len(t.d["toas"])
            t.flags[name] = [word[r % 80] for r in range(n)]
            ctx.stat("flags_set")
        elif k == "topickle":
            psr.to_pickle(self.tmp)
            with open(os.path.join(self.tmp, psr.name + ".pkl"), "rb") as f:
                c[0] = pickle.load(f)
            ctx.stat("pickled")
        elif k == "pickle":
            psr.drop_not_picklable()
            c[0] = pickle.loads(pickle.dumps(psr))
        elif k == "deepcopy":
            c[0] = copy.deepcopy(psr)
            if len(cells) < 5:
                cells.append([psr, t.clone(), list(hist)])
        elif k == "feather":
            if t.spec["planets"] and t.rows:
                self.feather(psr, t)
        elif k in ("share", "filterdeflated"):
            if t.spec["kind"] != "t2" or getattr(psr, "_deflated", "pristine") != "pristine":
                return
            psr.drop_not_picklable()
            one = self.sim.spawn(0)
            two = self.sim.spawn(1)
            with shmsim.inside(self.sim, one):
                psr.deflate()
                if k == "filterdeflated":
                    ctx.fault("operation_on_deflated_pulsar")
                    a, b = self.window(t, op)
                    kw = {"start_time": -1e9 if a is None else a, "end_time": 1e9 if b is None else b}
                    t2 = t.clone()
                    t2.filter(kw["start_time"], kw["end_time"])
                    try:
                        psr.filter_data(**kw)
                    except Exception:
                        pass  # refused: nothing has changed
                    else:
                        t.rows, t.cols = t2.rows, t2.cols
                    mine = True
                else:
                    mine = op[2]
                data = pickle.dumps(psr)
            with shmsim.inside(self.sim, one if mine else two):
                other = psr if mine else pickle.loads(data)
                other.inflate()
                self.check([other, t, hist])
                if op[2] is True and k == "share":
                    other = copy.deepcopy(other)
                c[0] = other
            ctx.stat("shared")

    def order(self, psr, t):
        """The observation that each entry belongs to."""
        res = np.asarray(psr.residuals)
        if len(res) != len(t.rows):
            raise Violation("observations", "%d observations instead of %d" % (len(res), len(t.rows)))
        want = t.vals["residuals"][t.rows]
        order = []
        for x in res:
            j = int(np.argmin(np.abs(want - x))) if len(want) else 0
            if abs(want[j] - x) > 1e-18 + 1e-9 * abs(x):
                raise Violation("observations", "residual %r belongs to no observation that should be there" % x)
            # (a file that is included twice repeats its observations)
            same = [k for k in np.flatnonzero(np.abs(want - want[j]) < 1e-18) if t.rows[k] not in order]
            order.append(t.rows[same[0] if same else j])
        if sorted(order) != sorted(t.rows):
            raise Violation("observations", "observations %r instead of %r" % (sorted(order), sorted(t.rows)))
        return order

    def check(self, c):
        psr, t, hist = c
        ctx = self.ctx
        order = self.order(psr, t)
        n = len(order)
        toas = np.asarray(psr.toas)
        if t.sort:
            if n and np.any(np.diff(toas) < 0):
                raise Violation("order", "observations are not in time order")
        elif order != t.rows:
            raise Violation("order", "observations %r instead of %r" % (order, t.rows))
        for a, v in t.vals.items():
            if not same(np.asarray(getattr(psr, a)), v[order]):
                raise Violation("misaligned", "%s does not belong to the observations" % a)
        if not t.spec["planets"]:
            for a in ("planetssb", "sunssb"):
                try:
                    v = getattr(psr, a)
                except Exception:
                    continue
                if v is not None:
                    raise Violation("planets", "%s although planets are off" % a)
        if [str(x) for x in psr.telescope] != [t.telescope[r] for r in order]:
            raise Violation("misaligned", "telescope does not belong to the observations")
        flags = psr.flags
        if sorted(flags) != sorted(t.flags):
            raise Violation("flags", "flags %r instead of %r" % (sorted(flags), sorted(t.flags)))
        for k, v in flags.items():
            if [str(x) for x in v] != [t.flags[k][r] for r in order]:
                raise Violation("misaligned", "flag %s does not belong to the observations" % k)
        if t.flags:
            if [str(x) for x in psr.backend_flags] != [t.backend(r) for r in order]:
                raise Violation("misaligned", "backend flags do not belong to the observations")
        if list(psr.fitpars) != [nm for nm, _ in t.cols]:
            raise Violation("fitpars", "%r instead of %r" % (list(psr.fitpars), [nm for nm, _ in t.cols]))
        self.dispersion(psr, t)
        if t.units and list(psr.designmatrix_units) != [t.units[nm] for nm, _ in t.cols]:
            raise Violation("misaligned", "units of the design matrix %r do not belong to its columns" % (list(psr.designmatrix_units),))
        M = np.array([col[order] for _, col in t.cols]).T.reshape(n, len(t.cols))
        if not same(np.asarray(psr.Mmat), M):
            raise Violation("misaligned", "the design matrix does not belong to the observations and parameters")
        i, j = psr.isort, psr.iisort
        k = np.arange(n)
        if not np.array_equal(k[i][j], k):
            raise Violation("order", "isort and iisort are not inverse")
        ctx.stat("compared")
        ctx.state(t.spec["kind"], t.sort, t.spec["planets"], t.spec.get("ecl"), hist[-4:], n)

    def dispersion(self, psr, t):
        dmx = psr.dmx or {}
        if abs(float(psr.dm) - t.dm) > 1e-9 * abs(t.dm) or sorted(dmx) != sorted(t.dmx):
            raise Violation("dispersion", "DM %r, %s instead of %r, %s" % (psr.dm, sorted(dmx), t.dm, sorted(t.dmx)))
        for k, v in t.dmx.items():
            if sorted(dmx[k]) != sorted(v) or any(abs(dmx[k][q] - v[q]) > 1e-12 * abs(v[q]) for q in v):
                raise Violation("dispersion", "%s is %r instead of %r" % (k, dmx[k], v))

    def feather(self, psr, t):
        import enterprise.pulsar as ep

        fn = os.path.join(self.tmp, "p.feather")
        psr.to_feather(fn)
        f = ep.Pulsar(fn)
        for again in range(2):
            self.dispersion(f, t)
            for a in ("toas", "stoas", "residuals", "toaerrs", "freqs", "Mmat", "pos_t", "sunssb", "planetssb"):
                if not same(np.asarray(getattr(f, a)), np.asarray(getattr(psr, a))):
                    raise Violation("feather", "%s read back differs" % a)
            for a in ("telescope", "backend_flags"):
                if [str(x) for x in getattr(f, a)] != [str(x) for x in getattr(psr, a)]:
                    raise Violation("feather", "%s read back differs" % a)
            if {k: [str(x) for x in v] for k, v in f.flags.items()} != {k: [str(x) for x in v] for k, v in psr.flags.items()}:
                raise Violation("feather", "flags read back differ")
            ep.FeatherPulsar.save_feather(f, fn)
            f = ep.Pulsar(filepath=fn)
        self.ctx.stat("feathered")

    def simplify(self, plan):
        for j in range(len(plan["specs"])):
            if len(plan["specs"]) > 1:
                yield dict(plan, specs=plan["specs"][:j] + plan["specs"][j + 1 :])
        for j, s in enumerate(plan["specs"]):
            for k, v in (("ecl", False), ("partialflag", False), ("rmflags", []), ("ndmx", 0)):
                if s.get(k):
                    yield dict(plan, specs=plan["specs"][:j] + [dict(s, **{k: v})] + plan["specs"][j + 1 :])
