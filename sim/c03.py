"""C03: constants set on a model take effect at the next evaluation."""
import numpy as np

from . import c01, gen, lik, models
from .core import Scenario, Violation


class C03(Scenario):
    ID = "C03"
    LEVEL = "exploration"
    RUNS = {"quick": 3600, "thorough": 120000}
    RULE = (
        "one evaluation = one simulated run: clients evaluate a random model with many constants while these are assigned in"
        " between; distinct non-trivial = runs with at least two assignments that changed a value and three likelihood values"
        " checked after one, told apart by the digest of their event log"
    )
    STATES = "distinct (role of the constant, kind of assignment, following operation) tuples"
    REAL = c01.C01.REAL
    STUB = c01.C01.STUB
    ASSUME = c01.C01.ASSUME + ["constants are assigned through PTA.set_default_params, or on all collections before the PTA is made"]

    def make_plan(self, rng, i, tier):
        kw = {}
        if i % 9 == 2:
            kw["coef"] = 0.6
        if i % 9 == 5:
            kw["ecorr"] = rng.choice(["sparse", "block", "sherman-morrison", "fast-sherman-morrison"])
        if i % 9 == 7:
            kw["wideband"] = True
        if i % 13 == 6:
            kw["big"] = True
        pc = rng.choice([0.3, 0.55, 0.75])
        for _ in range(50):
            cfg = gen.draw_config(rng, pargen=gen.ParGen(rng, pconst=pc, pconstset=0.15, pglob=0.15, pfn=0.08, phyper=0.02), **kw)
            if models.Ref(cfg).reg.const:
                break
        ncl = rng.choice([1, 1, 2])
        n = rng.randint(12, 50) if tier == "thorough" else rng.randint(12, 34)
        ops = lik.random_ops(rng, n, ncl, {"ll": 40, "move": 18, "prior": 5, "delay": 8, "noise": 5, "set": 22, "fresh": 2})
        for op in ops:
            if op[0] == "set":
                op.append(rng.choice(["one", "one", "some", "all", "ineffective", "same", "keep"]))
        return {"cfg": cfg, "seed": rng.randrange(10**6), "clients": ncl, "early": rng.random() < 0.3, "ops": ops}

    def choose(self, m, i, k, mode):
        names = sorted(m.c)
        d = {}
        if mode in ("one", "keep"):
            sel = [names[i % len(names)]]
        elif mode == "some":
            sel = [x for j, x in enumerate(names) if (j * 7 + i) % 3 == 0] or names[:1]
        elif mode == "all":
            sel = names
        else:
            sel = []
        for x in sel:
            d[x] = lik.constvalue(m.ref, x, k + (i if mode == "all" else 0))
        if mode == "same":
            d = dict(m.c)
        return d

    def execute(self, plan, ctx):
        cfg = plan["cfg"]
        psrs = lik.make_psrs(cfg)
        m = lik.Model(cfg, psrs, models.World(), plan["seed"])
        try:
            m.build(setdef=False)
            if not m.c:
                return
            if plan["early"]:
                for sc in m.pta.pulsarmodels:
                    sc.set_default_params(dict(m.c))
                m.pta = type(m.pta)(list(m.pta.pulsarmodels), lnlikelihood=m.pta.lnlikelihood)
            else:
                m.pta.set_default_params(dict(m.c))
            m.check_names()
            clients = [lik.Client(m, k) for k in range(plan["clients"])]
            nset = after = 0
            held = {}
            pend = None
            for op in plan["ops"]:
                ctx.steps += 1
                cl = clients[op[1] % len(clients)]
                if op[0] == "set":
                    mode = op[4]
                    d = self.choose(m, op[2], op[3], mode)
                    changed = [n for n in d if d[n] != m.c[n]]
                    arg = held if mode == "keep" else {}  # a dictionary that the user keeps and extends
                    arg.update(d)
                    d = dict(arg)
                    if mode in ("ineffective", "some"):
                        for n in m.names[: 1 + op[2] % 3]:
                            arg[n] = np.full(len(cl.v[n]), 0.1) if np.ndim(cl.v[n]) else -5.0
                        arg["J0000+0000_efac"] = 17.0
                        arg[m.names[0] + "x"] = 3.0
                    before = dict(arg)
                    m.pta.set_default_params(arg)
                    if sorted(arg) != sorted(before) or any(np.any(arg[n] != before[n]) for n in before):
                        raise Violation("argument-modified", "the dictionary of constants was changed")
                    m.c.update(d)
                    for n in list(arg):
                        if mode != "keep":
                            arg[n] = -77.0  # of no concern to the model any more
                    ctx.event("set", mode, sorted(d.items()))
                    ctx.stat("assignments")
                    if changed:
                        nset += 1
                        pend = (mode, tuple(sorted({n.split("_", 1)[-1] for n in changed}))[:3])
                elif op[0] == "move":
                    cl.move(op[2], op[3], op[4])
                    ctx.event("move", op[1:])
                elif op[0] == "noise":
                    ctx.event("noise", op[2])
                    lik.noise(cl, op[2], op[3])
                elif op[0] == "fresh":
                    a = m.pta.get_lnlikelihood(cl.arg("dict"))
                    b = m.fresh().get_lnlikelihood(cl.arg("dict"))
                    ctx.event("fresh")
                    ctx.stat("fresh_model_comparisons")
                    if not lik.close(a, float(b)):
                        raise Violation("fresh-model", "%r, a model built afresh has %r" % (a, b))
                else:
                    lik.evaluate(ctx, cl, op)
                    if pend:
                        ctx.state(pend, op[0])
                        pend = None
                    if nset and op[0] == "ll":
                        after += 1
            for cl in clients:
                for op in (["ll", 0, 0, "dict"], ["delay", 0, 0, "dict"], ["prior", 0, 0, "dict"]):
                    lik.evaluate(ctx, cl, op)
            m.check_names()
            if nset >= 2 and after >= 3:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise c01.raised(e)

    simplify = c01.C01.simplify
