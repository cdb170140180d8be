"""C09: a saved pulsar reads back equal, a failed save never reads back as another."""
import copy
import ctypes
import errno
import hashlib
import os
import pickle
import shutil
import tempfile

import numpy as np

from . import fakes, psrgen
from .c01 import raised
from .core import HarnessError, Scenario, Violation, scratch_root

OPENW, OPENR, WRITE, CLOSEW, READ, RENAME, UNLINK, MKDIR, TRUNC, FSYNC = range(10)
KN = {OPENW: "open", OPENR: "open", WRITE: "write", CLOSEW: "close", READ: "read", RENAME: "rename", MKDIR: "mkdir"}
ERR = {
    OPENW: [errno.EMFILE, errno.ENFILE, errno.EACCES, errno.EROFS, errno.ENOSPC],
    OPENR: [errno.EMFILE, errno.EACCES, errno.EIO],
    WRITE: [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EINTR, errno.EFBIG],
    CLOSEW: [errno.EIO, errno.ENOSPC, errno.EDQUOT],
    READ: [errno.EIO, errno.EINTR],
    MKDIR: [errno.EACCES, errno.ENOSPC],
}
L = ctypes.CDLL(None)
EXTRA = ["PMRA", "PMDEC", "DM1", "DM2", "F2", "FB0", "PB", "A1", "T0", "OM", "ECC", "SINI", "M2", "FD1", "FD2", "JUMP2"]
FILES = ["d0/a.feather", "d0/b.feather", "d1/c.feather"]
DIRS = ["d0", "d1", "d2/deep"]


def content(psr):
    """Everything a saved pulsar has to preserve, as comparable text."""
    out = []
    for a in "toas stoas residuals toaerrs freqs Mmat sunssb planetssb pos_t".split():
        try:
            x = np.ascontiguousarray(np.asarray(getattr(psr, a)), dtype=float)
            out.append((a, x.shape, hashlib.md5(x.tobytes()).hexdigest()))
        except (TypeError, AttributeError):
            out.append((a, None))
    for a in ("telescope", "backend_flags"):
        out.append((a, [str(x) for x in getattr(psr, a)]))
    out.append(("flags", sorted((k, [str(x) for x in v]) for k, v in psr.flags.items())))
    for a in ("name", "dm", "theta", "phi"):
        x = getattr(psr, a, None)
        out.append((a, x if isinstance(x, str) or x is None else float(x).hex()))
    for a in ("pos", "pdist"):
        out.append((a, [float(x).hex() for x in getattr(psr, a)]))
    dmx = psr.dmx
    out.append(("dmx", None if not dmx else sorted((k, sorted((p, repr(v)) for p, v in d.items())) for k, d in dmx.items())))
    return out


def noise(d, name):
    return sorted((k, [float(x).hex() for x in (v if isinstance(v, (list, tuple)) else [v])]) for k, v in (d or {}).items() if k.startswith(name))


def differs(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x[0]
    return "length"


class C09(Scenario):
    ID = "C09"
    LEVEL = "fault_enumeration"
    RUNS = {"quick": 5000, "thorough": 250000}
    RULE = (
        "one evaluation = one simulated run of 5-30 saves and loads of one to three pulsars to shared file names, with failing,"
        " short and interrupted calls, full disks and crashes after any prefix of the effects; distinct non-trivial = runs in which"
        " a fault struck a save and the file was loaded later, told apart by the digest of their event log"
    )
    STATES = "distinct (operation, format, kind of pulsar, fault, position of the fault in tenths, outcome) tuples"
    REAL = ["enterprise.pulsar save_feather/read_feather/to_pickle/Pulsar", "pyarrow, pickle, Python file objects, a real file system below an LD_PRELOAD seam"]
    STUB = ["failures and crashes of open, write, read, close, rename, unlink, mkdir (ioshim.c)", "tempo2/libstempo and PINT (arrays of synthetic observations)"]
    ASSUME = [
        "after a crash the disk holds a prefix of the effects of the process (no reordering of writes: the formats have no checksums)",
        "pulsars without observations or without planets are not exported to feather (not supported by the format as it is)",
    ]

    def make_plan(self, rng, i, tier):
        specs = []
        for q in range(rng.choice([1, 2, 2, 3])):
            s = psrgen.random_spec(rng, rng.randrange(3), wideband=rng.random() < 0.3, kind=rng.choice(["t2", "t2", "pint", "feather"]), small=True)
            s["sort"] = rng.random() < 0.6
            s["ecl"] = rng.random() < 0.2
            s["uidflag"] = rng.random() < 0.7
            s["partialflag"] = rng.random() < 0.3
            s["drop"] = rng.random() < 0.5
            if rng.random() < 0.4:  # more than ten columns
                s["fit"] += rng.sample(EXTRA, rng.randint(6, len(EXTRA)))
            if rng.random() < 0.15:  # larger than the buffers of the file objects
                s["obs"] = [[o[0] + 0.37 * k, o[1], o[2], o[3]] for k in range(rng.choice([4, 12])) for o in s["obs"]]
            specs.append(s)
        for q in range(len(specs)):
            if rng.random() < 0.3:  # the same pulsar with other data, as after new observations
                t = dict(specs[q], seed=rng.randint(0, 10**6))
                specs.append(t)
        ops = []
        if rng.random() < 0.5:  # saved again over what is there
            fmt, k, q = rng.choice(["feather", "pickle", "pickle"]), rng.randrange(6), rng.randrange(6)
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(["save", rng.randrange(6), fmt, k, ["none"], rng.randrange(6)])
            ops.append(["save", rng.randrange(6), fmt, k, self.fault(rng, True), rng.randrange(4)])
            ops.append(["load", q, fmt, k, ["none"]])
        n = rng.randint(5, 30) if tier == "thorough" else rng.randint(5, 18)
        for _ in range(n):
            x = rng.random()
            p = rng.randrange(6)
            if x < 0.5:
                ops.append(["save", p, rng.choice(["feather", "feather", "pickle"]), rng.randrange(6), self.fault(rng, True), rng.randrange(6)])
            elif x < 0.85:
                ops.append(["load", p, rng.choice(["feather", "feather", "pickle"]), rng.randrange(6), self.fault(rng, False)])
            elif x < 0.93:
                ops.append(["change", p, rng.choice(["filter", "flag", "noise"]), rng.randrange(100)])
            else:
                ops.append(["keep", p, rng.choice(["feather", "feather", "pickle"]), rng.randrange(6)])
        return {"specs": specs, "ops": ops}

    def fault(self, rng, save):
        x = rng.random()
        f = round(rng.random(), 3)
        if x < 0.3:
            return ["none"]
        if not save:
            k = rng.choice([OPENR, READ, READ])
            return ["fail", k, f, rng.choice(ERR[k])] if x < 0.8 else ["short", rng.choice([1, 7, 100, 1000])]
        if x < 0.55:
            k = rng.choice([OPENW, WRITE, WRITE, WRITE, CLOSEW, CLOSEW, MKDIR])
            return ["fail", k, f, rng.choice(ERR[k]), rng.choice([0, 1, 100, 5000])]
        if x < 0.7:
            return ["full", f]
        if x < 0.76:
            return ["short", rng.choice([1, 100, 3000])]
        return ["crash", f, rng.choice([0, 1, 10, 1000, 10**9, -rng.randint(1, 999), -rng.randint(1, 999), -rng.randint(1, 999)])]

    # ------------------------------------------------------------------------------------------------ execution

    def execute(self, plan, ctx):
        import pyarrow

        pyarrow.set_cpu_count(1)
        pyarrow.set_io_thread_count(1)
        if not hasattr(L, "sim_prefix"):
            raise HarnessError("the file-system seam is not loaded")
        self.ctx = ctx
        self.tmp = tempfile.mkdtemp(prefix="simc09", dir=scratch_root())
        self.root = os.path.join(self.tmp, "disk")
        self.dry = os.path.join(self.tmp, "dry")
        self.disk = {}  # path -> (may be rejected, list of acceptable contents)
        self.struck_files = set()
        self.nontrivial = False
        try:
            for d in (self.root, self.dry):
                os.makedirs(os.path.join(d, "d0"))
                os.makedirs(os.path.join(d, "d1"))
            os.chdir(os.path.join(self.root, "d0"))
            self.psrs = [self.make(s) for s in plan["specs"]]
            self.kinds = [s["kind"] for s in plan["specs"]]
            for op in plan["ops"]:
                ctx.steps += 1
                j = op[1] % len(self.psrs)
                getattr(self, "op_" + op[0])(j, op)
            for fmt, path in sorted(self.disk):
                self.load(fmt, path, ["none"], "final")
            if self.nontrivial:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        finally:
            if hasattr(L, "sim_prefix"):
                L.sim_prefix(b"")
            os.chdir("/")
            shutil.rmtree(self.tmp, ignore_errors=True)

    def make(self, spec):
        import enterprise.pulsar as ep

        if spec["kind"] == "feather":
            return psrgen.make_pulsar(spec)
        d = psrgen.data_from_spec(spec)
        if spec["kind"] == "pint":
            return ep.Pulsar(fakes.TOAs(d), fakes.TimingModel(d), sort=spec["sort"], drop_pintpsr=spec["drop"])
        return ep.Pulsar(fakes.tempopulsar(data=d), sort=spec["sort"], drop_t2pulsar=spec["drop"])

    def target(self, psr, fmt, k):
        return (fmt, FILES[k % len(FILES)]) if fmt == "feather" else (fmt, DIRS[k % len(DIRS)] + "/" + psr.name + ".pkl")

    def write(self, psr, fmt, path, root, how):
        import enterprise.pulsar as ep

        full = os.path.join(root, path)
        if fmt == "feather":
            nd = self.noisedict(psr, how)
            if how % 2 and hasattr(psr, "to_feather"):
                psr.to_feather(full, noisedict=nd) if nd is not None else psr.to_feather(full)
            else:
                ep.FeatherPulsar.save_feather(psr, full, noisedict=nd)
        elif path.startswith("d0/") and how % 2 and root == self.root:
            psr.to_pickle()
        else:
            psr.to_pickle(os.path.dirname(full))

    def noisedict(self, psr, how):
        if how < 2:
            return None
        if how % 3 == 1:  # whole numbers and vectors
            return {psr.name + "_efac": how, psr.name + "_A_log10_ecorr": -6.25, psr.name + "_n": [1.5, how], "XOTHER_efac": 3}
        return {psr.name + "_efac": 1.0 + how / 7, psr.name + "_A_log10_ecorr": -6.25, "XOTHER_efac": 3.0, "gw_log10_A": -15.0}

    def expected(self, psr, fmt, how):
        if fmt == "feather":
            nd = self.noisedict(psr, how)
            nd = getattr(psr, "noisedict", None) if nd is None else nd
        else:
            nd = getattr(psr, "noisedict", None)
        return content(psr) + [("noisedict", noise(nd, psr.name))]

    def arm(self, fault, counts):
        ncalls, effects, written = counts
        k = fault[0]
        long = ctypes.c_long
        if k == "fail":
            L.sim_fail(fault[1], long(1 + int(fault[2] * max(ncalls[fault[1]], 1))), fault[3], long(fault[4] if len(fault) > 4 else 0))
        elif k == "full":
            L.sim_budget(long(int(fault[1] * written)))
        elif k == "short":
            L.sim_maxio(long(fault[1]))
        elif k == "crash":
            L.sim_crash(long(1 + int(fault[1] * max(effects, 1))), long(fault[2]))

    def name(self, fault):
        if fault[0] == "fail":
            return "%s_%s" % (KN[fault[1]], errno.errorcode[fault[3]])
        return {"full": "disk_full", "short": "short_transfers", "crash": "crash"}.get(fault[0], "none")

    def op_save(self, j, op):
        ctx, psr, fmt, fault, how = self.ctx, self.psrs[j], op[2], op[4], op[5]
        if fmt == "pickle" and not hasattr(psr, "to_pickle"):
            return
        key = self.target(psr, fmt, op[3])
        want = self.expected(psr, fmt, how)
        counts = ([0] * 10, 0, 0)
        if fault[0] in ("fail", "full", "crash"):
            probe = copy.deepcopy(psr)
            L.sim_prefix(os.fsencode(self.dry))
            try:
                self.write(probe, fmt, key[1], self.dry, how)
            except Exception:
                pass  # reported below, by the save itself
            counts = ([L.sim_calls(k) for k in range(10)], L.sim_effects(), L.sim_written())
        L.sim_prefix(os.fsencode(self.root))
        self.arm(fault, counts)
        err = None
        try:
            self.write(psr, fmt, key[1], self.root, how)
        except Exception as e:
            err = e
        struck = L.sim_struck() or (fault[0] == "short")
        dead = L.sim_dead()
        L.sim_prefix(b"")
        fn = self.name(fault)
        ctx.event("save", fmt, self.kinds[j], key[1], fn, bool(struck), type(err).__name__)
        ctx.state("save", fmt, self.kinds[j], fn, int(10 * fault[1]) if fault[0] in ("full", "crash") else 0, type(err).__name__)
        if struck:
            ctx.fault(fn)
            self.struck_files.add(key)
        old = self.disk.get(key, (True, []))
        if self.expected(psr, fmt, how) != want:
            raise Violation("memory", "saving changed the pulsar in memory (%s)" % differs(self.expected(psr, fmt, how), want))
        if dead:
            self.disk[key] = (True, old[1] + [want])
            err = None
        elif err is None:
            self.disk[key] = (False, [want])
            ctx.stat("saved")
            if struck:
                self.load(fmt, key[1], ["none"], "verify")
        else:
            if not struck or fault[0] == "short" or (fault[0] == "fail" and fault[3] == errno.EINTR and False):
                raise raised(err)
            ctx.stat("save_failed")
            self.disk[key] = (True, old[1] + [want])
            if how != 3:  # can be saved again
                L.sim_prefix(b"")
                self.write(psr, fmt, key[1], self.root, how)
                self.disk[key] = (False, [want])
                self.load(fmt, key[1], ["none"], "again")
                ctx.stat("saved_again")

    def op_load(self, j, op):
        key = self.target(self.psrs[j], op[2], op[3])
        self.load(op[2], key[1], op[4], "load")

    def op_keep(self, j, op):
        """Go on with what was loaded (a process started after a crash)."""
        key = self.target(self.psrs[j], op[2], op[3])
        psr = self.load(op[2], key[1], ["none"], "keep")
        if psr is not None and len(self.psrs) < 5:
            self.psrs.append(psr)
            self.kinds.append("loaded-" + op[2])

    def load(self, fmt, path, fault, why):
        import enterprise.pulsar as ep

        ctx = self.ctx
        full = os.path.join(self.root, path)
        may, ok = self.disk.get((fmt, path), (True, []))

        def read():
            if fmt == "feather":
                return ep.Pulsar(full)
            with open(full, "rb") as f:
                return pickle.load(f)

        counts = ([0] * 10, 0, 0)
        if fault[0] == "fail":
            L.sim_prefix(os.fsencode(self.root))
            try:
                read()
            except Exception:
                pass
            counts = ([L.sim_calls(k) for k in range(10)], 0, 0)
        L.sim_prefix(os.fsencode(self.root))
        self.arm(fault, counts)
        psr = err = None
        try:
            psr = read()
        except Exception as e:
            err = e
        struck = L.sim_struck() or (fault[0] == "short")
        L.sim_prefix(b"")
        fn = self.name(fault)
        ctx.event(why, fmt, path, fn, bool(struck), err is None)
        ctx.state(why, fmt, fn, may, len(ok), err is None)
        if struck:
            ctx.fault("load_" + fn)
        if (fmt, path) in self.struck_files and ok:
            self.nontrivial = True
        if err is not None:
            ctx.stat("rejected")
            if not may and (not struck or fault[0] == "short"):
                if isinstance(raised_safely(err), Violation):
                    raise raised_safely(err)
                raise Violation("unreadable", "%s was saved without an error but cannot be loaded: %r" % (fmt, err))
            return None
        got = content(psr) + [("noisedict", noise(getattr(psr, "noisedict", None), psr.name))]
        if got not in ok:
            d = differs(got, ok[-1]) if ok else "there was nothing"
            raise Violation("another", "loading a %s file gives a pulsar that was never saved there (%s)" % (fmt, d))
        ctx.stat("loaded")
        return psr

    def op_change(self, j, op):
        psr = self.psrs[j]
        self.ctx.event("change", op[2])
        if op[2] == "noise":
            psr.noisedict = {psr.name + "_efac": 1.0 + op[3] / 3, "other": 1.0}
        elif op[2] == "filter" and hasattr(psr, "filter_data"):
            t = np.sort(np.asarray(psr.toas)) / 86400
            if len(t) > 3:
                psr.filter_data(start_time=t[0] + 1e-6, end_time=t[-1] + 1)
        elif op[2] == "flag" and hasattr(psr, "set_flags"):
            try:
                psr.set_flags("x", np.array(["v%d" % (op[3] + k) for k in range(len(psr.toas))]))
            except NotImplementedError:
                pass

    def simplify(self, plan):
        for j in range(len(plan["specs"])):
            if len(plan["specs"]) > 1:
                yield dict(plan, specs=plan["specs"][:j] + plan["specs"][j + 1 :])
        for j, o in enumerate(plan["ops"]):
            if o[0] in ("save", "load") and o[4] != ["none"]:
                p = list(o)
                p[4] = ["none"]
                yield dict(plan, ops=plan["ops"][:j] + [p] + plan["ops"][j + 1 :])


def raised_safely(e):
    try:
        return raised(e)
    except Exception:
        return e
