"""C01: likelihood and prior depend only on the parameters, never on the history."""
from . import gen, lik, models
from .core import Scenario, Violation


class C01(Scenario):
    ID = "C01"
    LEVEL = "exploration"
    RUNS = {"quick": 3600, "thorough": 120000}
    RULE = (
        "one evaluation = one simulated run: a random model of 1-3 pulsars is built and 1-3 interleaved sampler clients perform"
        " 12-60 operations on it; distinct non-trivial = runs with at least three checked likelihood values, told apart by the"
        " digest of their event log (operations, methods and values)"
    )
    STATES = "distinct (structure of the model, last three operations, parameter kind moved last) tuples"
    REAL = ["enterprise.signals.* (all likelihood, prior, delay, caching and linear-algebra code)", "enterprise.pulsar classes", "scipy, scikit-sparse, fastshermanmorrison"]
    STUB = ["tempo2/libstempo and PINT (arrays of synthetic observations)"]
    ASSUME = [
        "tolerance 3e-5 + 1e-7 |lnL| against the dense reference (observed differences are below 3e-6)",
        "configurations the library documents as unsupported are not generated (listed in DESIGN.md)",
    ]

    def make_plan(self, rng, i, tier):
        kw = {}
        if i % 11 == 3:
            kw["coef"] = 0.6
        if i % 11 == 7:
            kw["ecorr"] = rng.choice(["sparse", "block", "sherman-morrison", "fast-sherman-morrison"])
        if i % 11 in (1, 5):
            kw.update(common=True, npsr=rng.choice([2, 3]), shared="dense" if i % 11 == 5 else True)
        if i % 11 == 9:
            kw["big"] = True
        cfg = gen.draw_config(rng, **kw)
        ncl = rng.choice([1, 1, 2, 2, 3])
        n = rng.randint(12, 60) if tier == "thorough" else rng.randint(12, 40)
        ops = lik.random_ops(rng, n, ncl, {"ll": 40, "move": 34, "prior": 6, "delay": 8, "noise": 9, "fresh": 1, "indep": 1, "rebuild": 1})
        return {"cfg": cfg, "seed": rng.randrange(10**6), "clients": ncl, "share": rng.random() < 0.3, "ops": ops}

    def execute(self, plan, ctx):
        cfg = plan["cfg"]
        psrs = lik.make_psrs(cfg)
        m = lik.Model(cfg, psrs, models.World(plan.get("share", False)), plan["seed"])
        held = []
        try:
            m.build()
            m.check_names()
            clients = [lik.Client(m, k) for k in range(plan["clients"])]
            shape = repr(lik.shape(cfg))
            last = []
            for op in plan["ops"]:
                ctx.steps += 1
                cl = clients[op[1] % len(clients)]
                if op[0] == "move":
                    cl.move(op[2], op[3], op[4])
                    ctx.event("move", op[1:])
                elif op[0] == "noise":
                    ctx.event("noise", op[2])
                    ctx.stat("other_use")
                    lik.noise(cl, op[2], op[3])
                elif op[0] == "fresh":
                    a = m.pta.get_lnlikelihood(cl.arg("dict"))
                    b = m.fresh().get_lnlikelihood(cl.arg("dict"))
                    ctx.event("fresh")
                    ctx.stat("fresh_model_comparisons")
                    if not lik.close(a, float(b)):
                        raise Violation("fresh-model", "%r, a model built afresh has %r" % (a, b))
                elif op[0] == "indep":  # the other algorithms, on models built for the purpose
                    self.alternatives(m, cl, ctx)
                elif op[0] == "rebuild":
                    m.build()
                    ctx.event("rebuild")
                else:
                    r = lik.evaluate(ctx, cl, op)
                    if op[0] == "delay":
                        held.append((m.key(cl.v), dict(cl.v), r))
                last = (last + [(op[0], op[2] if op[0] in ("move", "noise") else op[-1])])[-3:]
                ctx.state(shape, tuple(last))
            for key, v, r in held:  # results handed out earlier have not been overwritten
                lik.check_delays(m, v, r, "delay-overwritten")
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        if ctx.stats.get("ll", 0) >= 3:
            ctx.stat("nontrivial")

    def alternatives(self, m, cl, ctx):
        import copy

        base = m.want("lnlike", cl.v)
        for j, d in enumerate(m.cfg["signals"]):
            c = None
            if d["s"] == "ecorrk":
                c = copy.deepcopy(m.cfg)
                meths = ["sparse", "block", "sherman-morrison", "fast-sherman-morrison"]
                c["signals"][j]["method"] = meths[(meths.index(d["method"]) + 1) % 4]
            elif d["s"] == "tm" and not d.get("coef") and not d.get("excl"):
                c = copy.deepcopy(m.cfg)
                c["signals"][j] = {"s": "mtm", "name": "mtm", "svd": d["svd"], "normed": d["normed"]}
            if c is None or not gen.valid(c):
                continue
            pta = models.build_model(c, models.World(), m.psrs)
            if m.c:
                pta.set_default_params(dict(m.c))
            got = pta.get_lnlikelihood(cl.arg("dict"))
            ctx.event("alt", d["s"])
            ctx.stat("alternative_algorithms")
            ref = models.Ref(c).lnlike(cl.v, m.c)
            if not lik.close(got, ref):
                raise Violation("likelihood", "alternative %s: %r, the model has %r" % (c["signals"][j], got, ref))

    def simplify(self, plan):
        for c in lik.simplify_cfg(plan["cfg"]):
            p = dict(plan)
            p["cfg"] = c
            yield p
        if plan["clients"] > 1:
            p = dict(plan)
            p["clients"] = 1
            yield p


def raised(e):
    import traceback

    fr = [f for f in traceback.extract_tb(e.__traceback__)]
    where = " <- ".join("%s:%d %s" % (f.filename.split("/")[-1], f.lineno, f.name) for f in reversed(fr[-4:]))
    if not any("/enterprise/" in f.filename for f in fr) or fr[-1].filename.endswith("faultcall.py"):
        raise e
    return Violation("raised:" + type(e).__name__, "%r at %s" % (e, where))
