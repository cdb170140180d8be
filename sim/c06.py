"""C06: failed sharing operations are atomic, and destruction leaves nothing behind."""
import errno
import gc
import os
import pickle

from . import lik, psrgen, shmsim
from .c01 import raised
from .core import Scenario, Violation

KINDS = {"deflate": ["create", "ftruncate", "mmap"], "inflate": ["shm_open"], "destroy": ["shm_open", "shm_unlink", "mmap-attach"]}
ERRNO = {
    "create": [errno.EMFILE, errno.ENFILE, errno.ENOSPC, errno.EACCES],
    "ftruncate": [errno.ENOSPC, errno.EFBIG, errno.EINTR],
    "mmap": [errno.ENOMEM, errno.EAGAIN],
    "mmap-attach": [errno.ENOMEM],
    "shm_open": [errno.EMFILE, errno.ENFILE, errno.EACCES],
    "shm_unlink": [errno.EACCES, errno.EPERM],
}


class Obj:
    def __init__(self, q, psr, state):
        self.q, self.psr, self.state = q, psr, state


class C06(Scenario):
    ID = "C06"
    LEVEL = "fault_enumeration"
    RUNS = {"quick": 9000, "thorough": 400000}
    RULE = (
        "one evaluation = one simulated run of 6-40 life-cycle operations on copies of one to three pulsars in one to three"
        " processes, each operation with at most one failing system call at a seeded position; distinct non-trivial = runs in which"
        " at least one injected failure struck and a later operation succeeded, told apart by the digest of their event log"
    )
    STATES = "distinct (operation, failing call, its position, state of the copy, state of the pulsar) tuples"
    REAL = ["enterprise.pulsar_inflate", "enterprise.pulsar.Tempo2Pulsar.deflate/inflate/destroy", "multiprocessing.shared_memory.SharedMemory", "pickle, numpy, mmap of real memory"]
    STUB = ["POSIX shared-memory namespace (memfd segments)", "processes and resource trackers", "tempo2/libstempo (arrays of synthetic observations)"]
    ASSUME = [
        "one failing call per operation",
        "a failing mmap, or a failing registration, while attaching to a segment is not injected into inflate: the standard"
        " library itself unlinks or leaks the segment then",
    ]

    def make_plan(self, rng, i, tier):
        nq = rng.choice([1, 1, 2, 3])
        specs = []
        for q in range(nq):
            s = psrgen.random_spec(rng, q, kind="t2", small=True)
            s["planets"] = rng.random() < 0.8
            s["sort"] = rng.random() < 0.6
            s["layout"] = rng.choice([None, None] + sorted(psrgen.LAYOUTS))
            s["empty"] = rng.random() < 0.06
            s["bare"] = rng.random() < 0.06
            specs.append(s)
        nproc = rng.choice([1, 1, 2, 3])
        ops = []
        n = rng.randint(6, 40) if tier == "thorough" else rng.randint(6, 26)
        for _ in range(n):
            k = rng.choice(["deflate", "deflate", "inflate", "inflate", "inflate", "destroy", "copy", "copy", "drop", "check", "new", "exit"])
            op = [k, rng.randrange(nproc), rng.randrange(12)]
            if k in KINDS:
                if rng.random() < 0.5:
                    kind = rng.choice(KINDS[k])
                    op += [kind, rng.choice([1, 1, 2, 3, 4, 5]), rng.choice(ERRNO[kind])]
                else:
                    op += [None, 0, 0]
            elif k == "copy":
                op += [rng.randrange(nproc)]
            ops.append(op)
        return {"specs": specs, "nproc": nproc, "ops": ops, "collide": rng.choice([0, 0, 0, 0, 3])}

    def execute(self, plan, ctx):
        sim = self.sim = shmsim.Sim(ctx)
        sim.collide = plan["collide"]
        self.ctx, self.plan = ctx, plan
        self.expect = {}  # pulsar -> [must exist, may exist] names
        self.nseg = {}
        self.digest = {}
        self.failed_once = self.after = 0
        self.nq = 0
        self.objs = []
        self.tainted = set()
        self.empty = set()
        try:
            procs = [sim.spawn(k) for k in range(plan["nproc"])]
            for p in procs:
                p.obj = {}
            self.procs = procs
            self.new(procs[0], 0)
            for op in plan["ops"]:
                ctx.steps += 1
                self.op(op)
                self.invariants()
            # the end: everything is destroyed, every object goes
            for p in list(self.procs):
                for key in list(p.obj):
                    o = p.obj[key]
                    if o.state == "deflated" and self.expect.get(o.q):
                        self.life(p, o, "destroy", None, 0, 0)
                        self.invariants()
                    del o
            for p in self.procs:
                with shmsim.inside(sim, p):
                    p.obj.clear()
                    gc.collect()
            for q in list(self.expect):
                if self.expect[q] and q not in self.orphans():
                    raise Violation("left-behind", "segments of pulsar %d after everything ended" % q)
            self.invariants()
            if self.failed_once and self.after:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        finally:
            shmsim.ACTIVE[0] = None

    def orphans(self):
        """Pulsars that no deflated copy could destroy any more (the last copy was inflated, dropped or ended)."""
        return self.lost

    lost = ()

    def new(self, p, j):
        spec = self.plan["specs"][j % len(self.plan["specs"])]
        with shmsim.inside(self.sim, p):
            psr = psrgen.make_pulsar(spec)
            if spec.get("bare"):
                psr._flags = {}
            if spec.get("empty"):
                psr.filter_data(start_time=1e6)
        q = self.nq
        if spec.get("empty"):
            self.empty.add(q)
        self.nq += 1
        self.digest[q] = lik.psr_digest(psr)
        p.obj[q * 100] = Obj(q, psr, "pristine")
        self.ctx.event("new", p.pid, j % len(self.plan["specs"]))

    def op(self, op):
        sim, ctx, k = self.sim, self.ctx, op[0]
        p = self.procs[op[1] % len(self.procs)]
        if k == "new":
            if self.nq < 5:
                self.new(p, op[2])
            return
        if k == "exit":
            if len(self.procs) > 1 or op[2] > 8:
                sim.end(p, False)
                sim.reap()
                q = sim.spawn(100 + len(sim.procs))
                q.obj = {}
                self.procs[self.procs.index(p)] = q
                ctx.event("exit", p.pid)
                self.lost = self.find_lost()
            return
        if not p.obj:
            return
        key = sorted(p.obj)[op[2] % len(p.obj)]
        o = p.obj[key]
        if k == "drop":
            ctx.event("drop", p.pid, o.q, o.state)
            with shmsim.inside(sim, p):
                del p.obj[key]
                del o
                gc.collect()
            self.lost = self.find_lost()
        elif k == "copy":
            if o.state == "destroyed" or len(p.obj) > 12:
                return
            t = self.procs[op[3] % len(self.procs)]
            ctx.event("copy", p.pid, t.pid, o.q, o.state)
            with shmsim.inside(sim, p):
                data = pickle.dumps(o.psr)
            with shmsim.inside(sim, t):
                psr = pickle.loads(data)
            key = o.q * 100
            while key in t.obj:
                key += 1
            t.obj[key] = Obj(o.q, psr, {"inflated": "copied"}.get(o.state, o.state))
            if o.state == "pristine":
                # an independent pulsar from now on
                q = self.nq
                self.nq += 1
                self.digest[q] = self.digest[o.q]
                if o.q in self.empty:
                    self.empty.add(q)
                c = t.obj.pop(key)
                c.q = q
                t.obj[q * 100] = c
        elif k == "check":
            self.check(o)
        else:
            self.life(p, o, k, op[3], op[4], op[5])

    def find_lost(self):
        have = {o.q for p in self.procs for o in p.obj.values() if o.state == "deflated"}
        return {q for q in self.expect if q not in have}

    def life(self, p, o, k, kind, at, eno):
        sim, ctx = self.sim, self.ctx
        st = o.state
        alive = bool(self.expect.get(o.q))
        before = set(sim.ns)
        sim.fail = [kind, at, eno] if kind else None
        sim.failed = None
        err = None
        with shmsim.inside(sim, p):
            try:
                getattr(o.psr, k)()
            except OSError as e:
                err = (type(e).__name__, e.errno)
            gc.collect()
        struck, sim.fail = sim.failed, None
        ctx.state(k, struck, at if struck else 0, st, alive)
        ctx.event(k, p.pid, o.q, st, struck, err)
        if struck:
            ctx.fault("%s_%s_%s" % (k, struck, errno.errorcode[eno]))
            self.failed_once += 1
            if err is None:
                raise Violation("silent", "%s reported no error although %s failed with %s" % (k, struck, os.strerror(eno)))
        elif kind:
            ctx.stat("failure_not_reached")
        works = {"deflate": st == "pristine", "inflate": st == "deflated" and alive, "destroy": st == "deflated"}[k]
        if err is not None and not struck:
            if k == "inflate" and st == "deflated" and (not alive or o.q in self.tainted):
                return
            if k == "destroy" and st == "deflated" and not alive:
                return
            raise Violation("refused", "%s of a %s pulsar raised %s without cause" % (k, st, err))
        if err is not None:  # the operation failed: nothing must have changed
            if k == "deflate":
                self.check(o)
            elif k == "destroy" and st == "deflated" and alive:
                self.tainted.add(o.q)  # parts may be gone
            return
        if not works:
            if k == "inflate" and st == "deflated":
                if self.nseg.get(o.q):
                    raise Violation("inflated-after-destroy", "pulsar %d" % o.q)
            return
        if self.failed_once:
            self.after += 1
        ctx.stat(k + "s")
        if k == "deflate":
            self.expect[o.q] = set(sim.ns) - before
            self.nseg[o.q] = len(self.expect[o.q])
            if not self.nseg[o.q] and o.q not in self.empty:
                raise Violation("not-deflated", "deflate of a pulsar that was never shared created no shared memory")
            o.state = "deflated"
        elif k == "inflate":
            if o.q in self.tainted and self.expect.get(o.q) != (self.expect.get(o.q, set()) & set(sim.ns)):
                raise Violation("inflated-after-destroy", "parts of pulsar %d" % o.q)
            o.state = "inflated"
            self.check(o)
            self.lost = self.find_lost()
        else:
            o.state = "destroyed"
            self.expect[o.q] = set()
            self.tainted.discard(o.q)

    def check(self, o):
        if o.state in ("pristine", "inflated", "copied"):
            if lik.psr_digest(o.psr) != self.digest[o.q]:
                raise Violation("data", "a %s pulsar differs from the original" % o.state)
            self.ctx.stat("compared")

    def invariants(self):
        sim = self.sim
        want = set()
        for q, names in self.expect.items():
            if q not in self.tainted:
                want |= names
        may = want.union(*[self.expect[q] for q in self.tainted]) if self.tainted else want
        have = set(sim.ns)
        if not want <= have:
            raise Violation("gone", "%d segments of pulsars that nobody destroyed are gone" % len(want - have))
        if not have <= may:
            raise Violation("leak-segments", "%d segments exist that belong to no pulsar" % len(have - may))
        for p in self.procs:
            n = sum(self.nseg.get(o.q, 0) for o in p.obj.values() if o.state == "inflated")
            if sim.mappings(p) > n:
                raise Violation("leak-mappings", "%d mappings for %d arrays" % (sim.mappings(p), n))
            if len(p.fds) > n:
                raise Violation("leak-descriptors", "%d open descriptors for %d arrays" % (len(p.fds), n))
            if want & p.tracker.names:
                raise Violation("tracked", "the tracker of a process would destroy %d segments of others" % len(want & p.tracker.names))

    def simplify(self, plan):
        if plan["collide"]:
            yield dict(plan, collide=0)
        for j, o in enumerate(plan["ops"]):
            if len(o) > 3 and o[0] in KINDS and o[3]:
                ops = list(plan["ops"])
                ops[j] = o[:3] + [None, 0, 0]
                yield dict(plan, ops=ops)
