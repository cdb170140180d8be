"""C05: shared pulsars read back bit-identical in every process until destroyed."""
import pickle

from . import lik, psrgen, shmsim
from .c01 import raised
from .core import Scenario, Violation

KEY = "user-killed-between-attach-and-unregister"
BASE = ["toas", "stoas", "residuals", "toaerrs", "freqs"]


class Copy:
    """A pulsar object in one simulated process, with what is known about it."""

    def __init__(self, q, psr, state):
        self.q, self.psr, self.state = q, psr, state


class C05(Scenario):
    ID = "C05"
    LEVEL = "fault_enumeration"
    RUNS = {"quick": 9000, "thorough": 400000}
    RULE = (
        "one evaluation = one simulated run: a creator, users and destroyers of one or two shared pulsars in 2-8 simulated"
        " processes with 1-4 resource trackers, in a random order with exits and kills at any simulated call; distinct"
        " non-trivial = runs in which at least two processes inflated and compared a pulsar and one process ended before the"
        " last comparison, told apart by the digest of their event log"
    )
    STATES = "distinct (operation, state of the copy, state of the pulsar, live processes, trackers that have cleaned up) tuples"
    REAL = ["enterprise.pulsar_inflate", "enterprise.pulsar.Tempo2Pulsar.deflate/inflate/destroy", "multiprocessing.shared_memory.SharedMemory", "pickle, numpy, mmap of real memory"]
    STUB = [
        "POSIX shared-memory namespace (memfd segments)",
        "processes (contexts in one process; objects of a killed one are never finalised)",
        "resource trackers (set of names, clean-up when the last process has ended)",
        "tempo2/libstempo (arrays of synthetic observations)",
    ]
    ASSUME = [
        "kills strike between simulated calls (opening, sizing, mapping, unlinking, registering), not inside a memory copy",
        "processes are forks of one that has imported enterprise, or of each other: they inherit module and class data, the state"
        " of the global random number generators, but no pulsar objects (which they get as pickles)",
    ]

    def make_plan(self, rng, i, tier):
        ntr = rng.choice([1, 2, 3, 4])
        nq = rng.choice([1, 1, 2, 2, 3])
        specs = []
        for q in range(nq):
            s = psrgen.random_spec(rng, q, kind="t2", small=True)
            s["planets"] = rng.random() < 0.7
            s["sort"] = rng.random() < 0.6
            s["layout"] = rng.choice([None, None] + sorted(psrgen.LAYOUTS))
            specs.append(s)

        def spawn(force=False):
            # tracker, parent (None: the main process), whether to reuse the number of a process that has ended
            return ["spawn", rng.randrange(ntr), rng.choice([None, rng.randrange(9)]), rng.random() < 0.3]

        ops = [spawn()]
        for q in range(nq):
            if rng.random() < 0.06:
                ops.append(["killin", 0, ["create", 0, q], rng.randint(1, 20)])
                ops.append(spawn())
            ops.append(["create", rng.randrange(3), q])
        n = rng.randint(8, 40) if tier == "thorough" else rng.randint(8, 28)
        for _ in range(n):
            x = rng.random()
            p, j = rng.randrange(9), rng.randrange(9)
            if x < 0.16:
                ops.append(spawn())
                ops.append(["recv", 99, j])
                if rng.random() < 0.8:
                    ops.append(["inflate", 99, 0])
            elif x < 0.24:
                ops.append(["recv", p, j])
            elif x < 0.40:
                ops.append(["inflate", p, j])
            elif x < 0.60:
                ops.append(["check", p, j])
            elif x < 0.65:
                ops.append(["send", p, j])
            elif x < 0.69:
                ops.append(["destroy", p, j])
            elif x < 0.78:
                ops.append(["exit", p])
            elif x < 0.85:
                ops.append(["kill", p])
            elif x < 0.91:
                k = rng.choice(["inflate", "inflate", "destroy", "deflate"])
                ops.append(["killin", p, [k, p, j], rng.randint(1, 14)])
            elif x < 0.93:
                ops.append(["deflate", p, j])
            else:
                ops.append(["reap"])
        for k in range(1, nq):  # later pulsars also in processes that come later
            if rng.random() < 0.6:
                j = next(j for j, o in enumerate(ops) if o[0] == "create" and o[2] == k)
                o = ops.pop(j)
                o[1] = rng.randrange(9)
                ops.insert(rng.randrange(len(ops) - len(ops) // 4), o)
                if o[1] and rng.random() < 0.5:
                    ops.append(["check", rng.randrange(9), rng.randrange(9)])
        return {"specs": specs, "ops": ops, "collide": rng.choice([0, 0, 0, 2])}

    # ------------------------------------------------------------------------------------------------ execution

    def execute(self, plan, ctx):
        sim = shmsim.Sim(ctx)
        sim.collide = plan["collide"]
        self.sim, self.ctx = sim, ctx
        self.origin = {}
        self.status = {}  # per pulsar: absent, alive, partial, destroyed, lost
        self.names = {}
        self.mail = []
        self.inflated = set()
        self.ended = self.after = 0
        for q, s in enumerate(plan["specs"]):
            psr = psrgen.make_pulsar(s)
            self.origin[q] = (s, lik.psr_digest(psr))
            self.status[q] = "absent"
        try:
            for op in plan["ops"]:
                ctx.steps += 1
                self.op(op)
            sim.reap()
            for q in self.origin:
                self.fresh(q)
            for p in sim.procs.values():
                if p.alive:
                    for c in list(p.obj.values()):
                        self.check(p, c)
            if len(self.inflated) >= 2 and self.after:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        finally:
            shmsim.ACTIVE[0] = None

    def pick(self, k):
        live = [p for p in self.sim.procs.values() if p.alive]
        return (live[-1] if k == 99 else live[k % len(live)]) if live else None

    def op(self, op):
        sim, ctx, k = self.sim, self.ctx, op[0]
        if k == "spawn":
            free = sorted({q.number for q in sim.procs.values()} - {q.number for q in sim.procs.values() if q.alive})
            number = free[0] if op[3] and free else None
            if number:
                ctx.fault("process_number_reused")
            p = sim.spawn(op[1], self.pick(op[2]) if op[2] is not None else None, number)
            ctx.event("spawn", p.pid, op[1], op[2], number)
            return
        if k == "reap":
            sim.reap()
            ctx.event("reap")
            for q in self.origin:
                self.fresh(q)
            return
        p = self.pick(op[1])
        if p is None:
            return
        if k in ("exit", "kill"):
            sim.end(p, k == "kill")
            ctx.fault(k)
            self.ended += 1
            return
        inner, at = (op[2], op[3]) if k == "killin" else (op, None)
        if at is not None:
            sim.kill_at, sim.killed_in = at, None
        n0 = len(sim.calls)
        try:
            with shmsim.inside(sim, p):
                self.act(p, inner)
        except shmsim.Killed:
            pass
        finally:
            sim.kill_at = None
        if not p.alive:
            sim.end(p, True)
            ctx.fault("kill_in_" + inner[0])
            self.ended += 1
            self.killed(p, inner)
        elif at is not None:
            ctx.stat("kill_not_reached")
        if len(sim.calls) == n0 and k == "killin":
            return

    def killed(self, p, inner):
        if inner[0] == "destroy" and self.cur and self.cur.state == "deflated" and self.status[self.cur.q] == "alive":
            self.status[self.cur.q] = "partial"

    def act(self, p, op):
        k, ctx = op[0], self.ctx
        self.cur = None
        if k == "create":
            q = op[2]
            if self.status[q] != "absent":
                return
            psr = psrgen.make_pulsar(self.origin[q][0])
            c = Copy(q, psr, "pristine")
            p.obj[len(p.obj)] = c
            self.deflate(p, c)
            self.mail.append((q, pickle.dumps(psr), "deflated"))
            return
        if k == "recv":
            if self.mail:
                q, data, st = self.mail[op[2] % len(self.mail)]
                p.obj[len(p.obj)] = Copy(q, pickle.loads(data), st)
                ctx.event("recv", p.pid, q, st)
            return
        if not p.obj:
            return
        c = p.obj[sorted(p.obj)[op[2] % len(p.obj)]]
        self.cur = c
        ctx.state(k, c.state, self.status[c.q], sum(x.alive for x in self.sim.procs.values()), sum(t.done for t in self.sim.trackers.values()))
        ctx.event(k, p.pid, c.q, c.state, self.status[c.q])
        if k == "inflate":
            self.inflate(p, c)
        elif k == "check":
            self.check(p, c)
        elif k == "deflate":
            self.deflate(p, c)
        elif k == "send":
            if c.state != "destroyed":
                self.mail.append((c.q, pickle.dumps(c.psr), c.state))
        elif k == "destroy":
            try:
                c.psr.destroy()
            except OSError:
                if self.status[c.q] == "alive":
                    raise
                ctx.event("destroy failed")  # already destroyed, in part or completely
                return
            if c.state == "deflated":
                c.state = "destroyed"
                if self.status[c.q] in ("alive", "partial", "lost"):
                    self.status[c.q] = "destroyed"
                self.ctx.stat("destroyed")

    def deflate(self, p, c):
        first = c.state == "pristine"
        before = set(self.sim.ns)
        c.psr.deflate()
        if first:
            c.state = "deflated"
            self.status[c.q] = "alive"
            self.names[c.q] = sorted(set(self.sim.ns) - before)
            if not self.names[c.q]:
                raise Violation("not-deflated", "deflate of a pulsar that was never shared created no shared memory")
            self.ctx.stat("deflated")

    def inflate(self, p, c):
        if c.state != "deflated":
            c.psr.inflate()  # without effect
            return
        st = self.status[c.q]
        try:
            c.psr.inflate()
        except Exception as e:
            self.ctx.event("inflate failed")
            if st == "alive":
                if any(n in self.sim.lost_known for n in self.names[c.q]):
                    self.status[c.q] = "lost"
                    self.ctx.known.append(KEY)
                    return
                raise Violation("lost", "a pulsar that nobody has destroyed cannot be inflated: %r" % e)
            return
        if st in ("destroyed",):
            raise Violation("inflated-after-destroy", "pulsar %d" % c.q)
        c.state = "inflated"
        self.ctx.stat("inflated")
        self.check(p, c)

    def check(self, p, c):
        if c.state in ("inflated", "pristine"):
            for a in vars(c.psr).values():
                if hasattr(a, "dtype") and hasattr(a, "shape") and self.sim.dangling(a):
                    raise Violation("unmapped", "an array of an inflated pulsar points to memory that was unmapped")
            if lik.psr_digest(c.psr) != self.origin[c.q][1]:
                raise Violation("data", "pulsar %d differs from the original in process %d" % (c.q, p.pid))
            self.inflated.add(p.pid)
            self.ctx.stat("compared")
            if self.ended:
                self.after += 1
        else:
            for a in BASE:
                getattr(c.psr, a)

    def fresh(self, q):
        """A process that nobody has heard of can inflate the pulsar, and its end changes nothing."""
        sim = self.sim
        todo = [(data, st) for qq, data, st in self.mail if qq == q and st == "deflated"]
        if not todo:
            return
        p = sim.spawn("fresh%d" % len(sim.procs))
        with shmsim.inside(sim, p):
            c = Copy(q, pickle.loads(todo[0][0]), "deflated")
            p.obj[0] = c
            self.inflate(p, c)
        del c
        sim.end(p, False)
        sim.reap()

    def simplify(self, plan):
        if len(plan["specs"]) > 1:
            p = dict(plan)
            p["specs"] = plan["specs"][:1]
            p["ops"] = [o for o in plan["ops"] if not (o[0] == "create" and o[2] > 0) and not (o[0] == "killin" and o[2][0] == "create" and o[2][2] > 0)]
            yield p
        if plan["collide"]:
            p = dict(plan)
            p["collide"] = 0
            yield p
