"""C02: a failed or interrupted evaluation never corrupts later results."""
import math

from . import c01, gen, lik, models
from .core import Scenario, Violation
from .faultcall import Guard

KINDS = ["interrupt", "interrupt", "memory", "memory", "linalg", "cholmod", "user"]


def ill_scaled(cfg):
    """Whether Phi has elements 1e50 times smaller than others.

    The inverse of Phi through its singular values, which the library falls back on for matrices that are not positive
    definite to working precision, has no correct digits for the small elements then.  A positive definite matrix never
    makes the factorisation fail, so that this is not a result the library promises.
    """
    return any(cfg["signals"][i]["s"] in ("tm", "wtm", "physgp") for m in cfg["models"] for i in m["sigs"])


class C02(Scenario):
    ID = "C02"
    LEVEL = "fault_enumeration"
    RUNS = {"quick": 2400, "thorough": 80000}
    RULE = (
        "one evaluation = one simulated run: sampler clients operate on a random model while exceptions are injected at random"
        " call boundaries inside the library; distinct non-trivial = runs in which at least one fault was raised and at least"
        " three likelihood values were checked after a fault, told apart by the digest of their event log"
    )
    STATES = "distinct (kind of fault, library function and call it struck, operation) tuples"
    REAL = c01.C01.REAL
    STUB = c01.C01.STUB
    ASSUME = c01.C01.ASSUME + [
        "faults strike before statements of library functions, before the calls they make and after these return; not between two"
        " operators of one expression, nor inside the numerical libraries",
    ]

    def make_plan(self, rng, i, tier):
        cfg = gen.draw_config(rng, **({"coef": 0.5} if i % 7 == 2 else {"big": True} if i % 17 == 9 else {}))
        ncl = rng.choice([1, 2, 2])
        n = rng.randint(12, 50) if tier == "thorough" else rng.randint(12, 32)
        base = lik.random_ops(rng, n, ncl, {"ll": 40, "move": 30, "prior": 5, "delay": 8, "noise": 6, "set": 5})
        ops = []
        for op in base:
            if op[0] == "set":
                hi = 500
                ops.append(["fault", rng.choice(["interrupt", "memory"]), int(math.exp(rng.random() * math.log(hi))), 0, op])
            elif op[0] in ("ll", "prior", "delay") and rng.random() < 0.5:
                kind = rng.choice(KINDS)
                hi = {"interrupt": 3000, "memory": 1800, "linalg": 12, "cholmod": 4, "user": 8}[kind]
                k = int(math.exp(rng.random() * math.log(hi)))
                ops.append(["fault", kind, max(1, k), rng.randrange(2), op])
                if rng.random() < 0.5:  # the user tries again at once, or at another point and back
                    ops.append(op)
            else:
                ops.append(op)
        for c in range(ncl):
            ops.append(["ll", c, rng.randrange(6), "dict"])
        return {"cfg": cfg, "seed": rng.randrange(10**6), "clients": ncl, "ops": ops}

    def execute(self, plan, ctx):
        cfg = plan["cfg"]
        psrs = lik.make_psrs(cfg)
        m = lik.Model(cfg, psrs, models.World(), plan["seed"])
        g = Guard()
        try:
            m.build()
            clients = [lik.Client(m, k) for k in range(plan["clients"])]
            faulted = after = 0
            for op in plan["ops"]:
                ctx.steps += 1
                if op[0] == "fault":
                    _, kind, k, variant, inner = op
                    cl = clients[inner[1] % len(clients)]
                    g.arm(kind, k, variant)
                    if inner[0] == "set":
                        if m.c:
                            self.assign(ctx, m, cl, inner, g)
                            faulted += g.raised is not None
                        continue
                    try:
                        lik.evaluate(ctx, cl, inner, g)
                    except Violation as v:
                        if g.raised is not None and g.fallback and inner[0] == "ll" and ill_scaled(cfg):
                            ctx.stat("value_of_ill_scaled_fallback_not_checked")
                        elif g.raised is not None:
                            raise Violation("wrong-after-fault:" + v.kind, "%s; injected %r in %s" % (v.detail, g.raised, g.where))
                        else:
                            raise
                    if g.raised is not None:
                        ctx.fault(kind)
                        ctx.state(kind, g.where, inner[0])
                        ctx.event("struck", kind, g.where)
                        faulted += 1
                    else:
                        ctx.stat("fault_not_reached")
                    continue
                cl = clients[op[1] % len(clients)]
                if op[0] == "move":
                    cl.move(op[2], op[3], op[4])
                    ctx.event("move", op[1:])
                elif op[0] == "noise":
                    ctx.event("noise", op[2])
                    lik.noise(cl, op[2], op[3])
                else:
                    try:
                        lik.evaluate(ctx, cl, op)
                    except Violation as v:
                        if faulted:
                            raise Violation("stale-after-fault:" + v.kind, "%s; last fault %r in %s" % (v.detail, g.raised, g.where))
                        raise
                    if faulted and op[0] == "ll":
                        after += 1
            # faults have stopped: every client gets correct values again, wherever it moves
            for r in range(2):
                for cl in clients:
                    lik.evaluate(ctx, cl, ["ll", 0, r, "dict"])
                    lik.evaluate(ctx, cl, ["delay", 0, 0, "dict"])
                    lik.evaluate(ctx, cl, ["prior", 0, 0, "dict"])
                    cl.move("all", 0, r + 1)
            if faulted and after >= 3:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise c01.raised(e)

    def assign(self, ctx, m, cl, op, g):
        """Constants are assigned, which is interrupted: the next value belongs to the constants before or after."""
        n = sorted(m.c)[op[2] % len(m.c)]
        x, old = lik.constvalue(m.ref, n, op[3]), m.c[n]
        st, _ = g(lambda: m.pta.set_default_params({n: x}))
        ctx.event("set", n, st, g.where)
        if st != "value":
            ctx.fault(g.kind)
            ctx.state(g.kind, g.where, "set")
            got = m.pta.get_lnlikelihood(cl.arg("dict"))
            want = [m.want("lnlike", cl.v)]
            m.c[n] = x
            want.append(m.want("lnlike", cl.v))
            if not any(lik.close(got, w) for w in want):
                raise Violation(
                    "stale-after-fault:set",
                    "likelihood %r after the assignment %s = %r was struck in %s: the model has %r before and %r after it" % (got, n, x, g.where, want[0], want[1]),
                )
            m.c[n] = old
            m.pta.set_default_params({n: x})
        m.c[n] = x

    simplify = c01.C01.simplify
