"""C04: models that share pulsars and signal descriptions are isolated."""
import copy
import gc

import numpy as np

from . import c01, gen, lik, models, psrgen
from .core import HarnessError, Scenario, Violation

SPAN_KEY = "fourier-common-span-of-other-models"


def variant(rng, cfg):
    """A model over some of the pulsars with some of the signals of cfg."""
    for _ in range(30):
        c = copy.deepcopy(cfg)
        c["lnl"] = rng.choice(["sparse", "dense"])
        ms = [m for m in c["models"] if rng.random() < 0.75] or [rng.choice(c["models"])]
        if rng.random() < 0.3:
            rng.shuffle(ms)
        if rng.random() < 0.6:
            for m in ms:
                keep = []
                for i in m["sigs"]:
                    d = c["signals"][i]
                    if d["s"] in ("mn", "uwn", "tm", "mtm", "wtm") or rng.random() < 0.75:
                        keep.append(i)
                if rng.random() < 0.3:
                    rng.shuffle(keep)
                m["sigs"] = keep
        c["models"] = ms
        if gen.valid(c) and models.Ref(c).reg.var:
            return {"models": ms, "lnl": c["lnl"]}
    return {"models": cfg["models"], "lnl": cfg["lnl"]}


def twin(rng, spec, fixed):
    """Another pulsar of the same name: other residuals and errors, and perhaps other backends, times, epochs or position."""
    s = copy.deepcopy(spec)
    s["seed"] = spec["seed"] + 7 * rng.randint(1, 1000)
    q = rng.random()
    back = sorted({o[2] for o in s["obs"]})
    if q < 0.6 and len(back) > 1:
        m = dict(zip(back, back[1:] + back[:1]))
        s["obs"] = [o[:2] + [m[o[2]]] + o[3:] for o in s["obs"]]
    if q > 0.4:
        s["obs"] = [[o[0] + 11.25] + o[1:] for o in s["obs"]]
    if rng.random() < 0.4 and not fixed:  # elsewhere in the sky
        s["raj"], s["decj"] = s["decj"] + 2.0, 0.9 * (1.5 - s["raj"] / 3)
    if rng.random() < 0.4:  # as many observations between the same ends, in other epochs
        lo, hi = min(o[0] for o in s["obs"]), max(o[0] for o in s["obs"])
        s["obs"] = [[o[0] + (1.0 if lo < o[0] < hi and (i * 7 + s["seed"]) % 3 == 0 else 0.0)] + o[1:] for i, o in enumerate(s["obs"])]
    return s


def shorter(rng, cfg, variants):
    """The pulsars without their last observations (and the time when they end), if the models can still be made."""
    cut, ends = [], []
    for s in cfg["psrs"]:
        days = sorted({int(o[0]) for o in s["obs"]})
        end = days[rng.randint(min(3, len(days) - 1), len(days) - 1)] - 5.0
        t = copy.deepcopy(s)
        t["obs"] = [list(o) + [i] for i, o in enumerate(s["obs"]) if o[0] < end]
        M = psrgen.data_from_spec(t)["M"]
        nrm = np.sqrt(np.sum(M**2, axis=0)) if len(M) else np.zeros(1)
        if len(s["obs"][0]) > 4 or s.get("ndmx") or np.any(nrm == 0) or np.linalg.cond(M / nrm) > 300:
            return None
        cut.append(t)
        ends.append(end)
    if any(not d.get("basis", {}).get("psrTspan", True) for d in cfg["signals"]):
        return None
    for v in variants:
        c = dict(cfg, psrs=cut, models=v["models"], lnl=v["lnl"])
        try:
            ref = models.Ref(c)
            if v.get("tw") or gen.valid(c) and ref.reg.var and gen.flat_conditioned(c, ref):
                continue
        except (KeyError, IndexError, ValueError, np.linalg.LinAlgError):
            pass
        return None
    return {"psrs": cut, "ends": ends}


class C04(Scenario):
    ID = "C04"
    LEVEL = "exploration"
    RUNS = {"quick": 3000, "thorough": 100000}
    RULE = (
        "one evaluation = one simulated run: 2-5 models over the same pulsars, signal classes, selections and parameters are"
        " built (also pulsar by pulsar), used, joined, sampled from and dropped in a random order; distinct non-trivial = runs"
        " in which at least two live models gave two checked values each, told apart by the digest of their event log"
    )
    STATES = "distinct (sequence of the last three operations with their model slots, sharing mode) tuples"
    REAL = c01.C01.REAL
    STUB = c01.C01.STUB
    ASSUME = c01.C01.ASSUME + [
        "constants of parameter objects that models share have the same value in all of them",
    ]

    def make_plan(self, rng, i, tier):
        if i % 60 == 17:
            return self.span_plan(rng)
        kw = {"npsr": rng.choice([1, 2, 2, 3, 3])}
        if i % 7 == 3:
            kw["common"] = True
            kw["npsr"] = rng.choice([2, 3])
        if i % 29 == 5:
            kw["big"] = True
        cfg = gen.draw_config(rng, pargen=gen.ParGen(rng, pconst=0.2, pconstset=0.1, pglob=0.25, pfn=0.06, phyper=0.06), **kw)
        nv = rng.randint(2, 4)
        vs = [{"models": cfg["models"], "lnl": cfg["lnl"]}] + [variant(rng, cfg) for _ in range(nv - 1)]
        tw = rng.random() < 0.35
        if tw:
            fixed = "anis_orf" in repr((cfg, vs))  # (the positions are arguments of the models)
            cfg2 = dict(cfg, psrs=[twin(rng, s, fixed) for s in cfg["psrs"]])
            for v in list(vs) if rng.random() < 0.5 else vs[:1]:
                c = dict(cfg2, models=v["models"], lnl=v["lnl"])
                try:
                    ref = models.Ref(c)
                    if gen.valid(c) and ref.reg.var and gen.flat_conditioned(c, ref):
                        vs.append(dict(v, tw=1))
                except (KeyError, np.linalg.LinAlgError):
                    pass
            nv = len(vs)
        ops = []
        n = rng.randint(20, 70) if tier == "thorough" else rng.randint(20, 45)
        for k in range(n):
            q = rng.random()
            if k == 0 or q < 0.13:
                ops.append(["build", rng.randrange(nv), rng.randrange(3)])
            elif q < 0.20:
                ops.append(["start", rng.randrange(nv), rng.randrange(3)])
            elif q < 0.27:
                ops.append(["part", rng.randrange(4)])
            elif q < 0.29:
                ops.append(["drop", rng.randrange(6)])
            elif q < 0.34:
                ops.append(["sub", rng.randrange(6), rng.randrange(8), rng.choice(["sparse", "dense"])])
            elif q < 0.37:
                ops.append(["join", rng.randrange(6), rng.randrange(6)])
            elif q < 0.41:
                ops.append(["sample", rng.randrange(6), rng.randrange(36)])
            elif q < 0.43:
                ops.append(["gc"])
            elif q < 0.57:
                ops.append(["move", rng.randrange(6), rng.choice(["one", "one", "some", "all", "elem", "near", "perm"]), rng.randrange(60), rng.randrange(6)])
            elif q < 0.60:
                ops.append(["noise", rng.randrange(6), rng.choice(lik.NOISE), rng.randrange(12)])
            else:
                w = rng.choice(["ll", "ll", "ll", "ll", "ll", "delay", "prior"])
                ops.append([w, rng.randrange(6), rng.randrange(6) if w == "ll" else 0, rng.choice(lik.ARGS) if w == "ll" else rng.choice(["dict", "own"])])
        cut = shorter(rng, cfg, vs) if rng.random() < 0.7 else None
        if cut or tw and rng.random() < 0.3:
            # the program goes on with the pulsars cut to shorter spans, or with others in their place
            how = rng.choice(["cut", "cut", "anew"]) if cut else "swap"
            if how == "cut" and any(t["kind"] == "feather" for t in cfg["psrs"]):
                how = "anew"
            at = rng.randint(5, len(ops) - 8)
            ops[at:at] = [["renew", how], ["build", rng.randrange(nv), rng.randrange(3)], ["ll", 0, 0, "dict"], ["build", rng.randrange(nv), rng.randrange(3)]]
        return {
            "cfg": cfg,
            "cut": cut,
            "twins": cfg2["psrs"] if tw else None,
            "variants": vs,
            "seed": rng.randrange(10**6),
            "share": rng.random() < 0.6,
            "shareclass": rng.random() < 0.6,
            "ops": ops,
        }

    # ------------------------------------------------------------------------------------------------ execution

    def consts(self, m, v):
        """Constants of this model: its own ones differ from those of the other models."""
        for n in sorted(m.c):
            P = m.ref.reg.constP[n]
            own = any(n.startswith(m.cfg["psrs"][pm["psr"]]["name"] + "_") for pm in m.cfg["models"])
            # a named constant, or one of a common signal, is one object in all the models
            m.c[n] = lik.constvalue(m.ref, n, v) if own and P["t"] in ("const", "constset") else P["v"]

    def execute(self, plan, ctx):
        if plan.get("directed"):
            return self.span_run(plan, ctx)
        from enterprise.signals import parameter, utils
        from enterprise.signals import signal_base as sb

        plan = dict(plan)
        cfg = plan["cfg"]
        np.random.seed(plan["seed"])
        family = []
        for t in (0, 1):
            used = {m["psr"] for v in plan["variants"] for m in v["models"] if v.get("tw", 0) == t}
            specs = (cfg["psrs"], plan.get("twins"))[t] or []
            family.append([psrgen.make_pulsar(s) if i in used else None for i, s in enumerate(specs)])
        allpsrs = family[0] + family[1]
        digests = [lik.psr_digest(p) if p is not None else None for p in allpsrs]
        world = models.World(plan["share"])
        classes = {} if plan["shareclass"] else None
        slots, partial, values = [], [], {}
        last = []

        def model(v, cv):
            c = dict(cfg)
            c["models"], c["lnl"] = v["models"], v["lnl"]
            t = v.get("tw", 0)
            if t:
                c["psrs"] = plan["twins"]
                ctx.stat("models_of_twins")
            m = lik.Model(c, family[t], world, plan["seed"], classes)
            m.twin = t
            self.consts(m, cv)
            return m

        def collection(m, pm, cv):
            c = dict(m.cfg)
            c["models"] = [pm]
            pta = models.build_model(c, world, m.psrs, classes)
            return pta.pulsarmodels[0]

        def ready(m, colls):
            m.colls = colls
            m.pta = sb.PTA(colls, lnlikelihood={"sparse": sb.LogLikelihood, "dense": sb.LogLikelihoodDenseCholesky}[m.cfg["lnl"]])
            if m.c:
                m.pta.set_default_params(dict(m.c))
            m.check_names()
            add(m)

        def add(m):
            slots.append((m, lik.Client(m, len(slots))))
            values[id(m)] = 0
            if len(slots) > 5:
                slots.pop(0)

        def intact(what):
            for p, d in zip(allpsrs, digests):
                if p is not None and lik.psr_digest(p) != d:
                    raise Violation("pulsar-modified", "data of %s changed in %s" % (p.name, what))
            if not world.args_intact():
                raise Violation("argument-modified", "arguments of signals changed in %s" % what)

        best = 0
        try:
            for op in plan["ops"]:
                ctx.steps += 1
                k = op[0]
                if k == "build":
                    m = model(plan["variants"][op[1] % len(plan["variants"])], op[2])
                    ready(m, [collection(m, pm, op[2]) for pm in m.cfg["models"]])
                    ctx.stat("models_built")
                elif k == "start":
                    m = model(plan["variants"][op[1] % len(plan["variants"])], op[2])
                    partial.append([m, []])
                elif k == "part":
                    if partial:
                        j = op[1] % len(partial)
                        m, colls = partial[j]
                        colls.append(collection(m, m.cfg["models"][len(colls)], 0))
                        if len(colls) == len(m.cfg["models"]):
                            del partial[j]
                            ready(m, colls)
                            ctx.stat("models_built_in_parts")
                elif k == "gc":
                    gc.collect()
                elif k == "renew":
                    slots.clear()
                    partial.clear()
                    values.clear()
                    m = cl = colls = None
                    gc.collect()
                    cfg = dict(cfg)
                    if op[1] == "swap":
                        cfg["psrs"], plan["twins"] = plan["twins"], cfg["psrs"]
                    else:
                        cfg["psrs"] = plan["cut"]["psrs"]
                    if op[1] == "cut":
                        for p, end in zip(family[0], plan["cut"]["ends"]):
                            if p is not None:
                                p.filter_data(end_time=end)
                    else:
                        have = [[p is not None for p in f] for f in family]
                        p = f = allpsrs = None
                        family[:] = [[], []]
                        gc.collect()
                        for t in (1, 0) if op[1] == "swap" else (0, 1):
                            specs = (cfg["psrs"], plan.get("twins"))[t] or []
                            family[t] = [psrgen.make_pulsar(s) if h else None for s, h in zip(specs, have[t])]
                    allpsrs = family[0] + family[1]
                    digests = [lik.psr_digest(p) if p is not None else None for p in allpsrs]
                    ctx.stat("renewed_" + op[1])
                elif not slots:
                    continue
                elif k == "drop":
                    if len(slots) > 1:
                        slots.pop(op[1] % len(slots))
                        gc.collect()
                        ctx.stat("models_dropped")
                elif k == "sub":
                    m0 = slots[op[1] % len(slots)][0]
                    if len(m0.cfg["models"]) > 1:
                        keep = [j for j in range(len(m0.cfg["models"])) if (op[2] >> j) & 1] or [0]
                        c = dict(m0.cfg)
                        c["models"], c["lnl"] = [m0.cfg["models"][j] for j in keep], op[3]
                        m = lik.Model(c, m0.psrs, world, plan["seed"], classes)
                        m.twin = m0.twin
                        if m.names:
                            m.c = {n: m0.c[n] for n in m.c}
                            m.colls = [m0.colls[j] for j in keep]
                            m.pta = sb.PTA(m.colls, lnlikelihood=[sb.LogLikelihood, sb.LogLikelihoodDenseCholesky][op[3] == "dense"])
                            add(m)
                            ctx.stat("models_sharing_collections")
                elif k == "join":
                    a, b = slots[op[1] % len(slots)][0], slots[op[2] % len(slots)][0]
                    pa, pb = [m["psr"] for m in a.cfg["models"]], [m["psr"] for m in b.cfg["models"]]
                    if not set(pa) & set(pb) and a.twin == b.twin:
                        c = dict(a.cfg)
                        c["models"] = a.cfg["models"] + b.cfg["models"]
                        if gen.valid(c):
                            m = lik.Model(c, a.psrs, world, plan["seed"], classes)
                            m.twin = a.twin
                            m.c = {n: a.c[n] if n in a.c else b.c[n] for n in m.c}
                            m.pta = a.pta + b.pta
                            m.colls = list(m.pta.pulsarmodels)
                            m.check_names()
                            add(m)
                            ctx.stat("models_joined")
                else:
                    m, cl = slots[op[1] % len(slots)]
                    if k == "move":
                        cl.move(op[2], op[3], op[4])
                    elif k == "noise":
                        lik.noise(cl, op[2], op[3])
                    elif k == "sample":
                        self.sample(m, cl, op[2], parameter, utils)
                        ctx.stat("sampled")
                    else:
                        lik.evaluate(ctx, cl, op)
                        values[id(m)] = values.get(id(m), 0) + 1
                        if sum(1 for s, _ in slots if values.get(id(s), 0) >= 2) >= 2:
                            best = 1
                    self.arguments(cl, op)
                ctx.event(*op)
                last = (last + [(k, op[1] % max(1, len(slots)) if len(op) > 1 and k != "renew" else 0)])[-3:]
                ctx.state(tuple(last), plan["share"], plan["shareclass"], len(slots), len(partial))
                intact(k)
            for m, cl in slots:
                for op in (["ll", 0, 0, "dict"], ["delay", 0, 0, "dict"], ["prior", 0, 0, "dict"]):
                    lik.evaluate(ctx, cl, op)
                m.check_names()
            intact("evaluation")
            if best:
                ctx.stat("nontrivial")
        except Violation:
            raise
        except Exception as e:
            raise c01.raised(e)

    def sample(self, m, cl, q, parameter, utils):
        """(Some models cannot be sampled from: an error is fine here, what is left behind is not.)"""
        own, n, k = cl.arg("own"), 1 + q % 2, q // 2
        try:
            if k % 6 == 0:
                parameter.sample(m.pta.params)
            elif k % 6 == 1:
                utils.ConditionalGP(m.pta).sample_coefficients(own, n)
            elif k % 6 == 2:
                utils.ConditionalGP(m.pta).sample_processes(own, n)
            elif k % 6 == 3:
                utils.ConditionalGP(m.pta).get_mean_processes(own)
            else:
                utils.get_coefficients(m.pta, own, n=n, variance=k > 6, common_sparse=k % 6 == 4)
        except Exception:
            pass

    def arguments(self, cl, op):
        ok = set(cl.own) == set(cl.m.names) and all(np.all(np.asarray(cl.own[n]) == np.asarray(cl.v[n])) for n in cl.m.names)
        if not ok:
            raise Violation("parameters-modified", "dictionary changed by %s" % op[0])
        vec = np.concatenate([np.atleast_1d(cl.v[n]) for n in cl.m.names])
        if not np.all(vec == cl.vec):
            raise Violation("parameters-modified", "vector changed by %s" % op[0])

    # -------------------------------------------------------------- common process whose span is left to the library

    def span_plan(self, rng):
        specs = [psrgen.random_spec(rng, i, kind="t2", small=True) for i in range(3)]
        for s in specs:
            gen.well_conditioned(s)
        far = 400.0 * rng.choice([1, 2, -1])
        specs[2]["obs"] = [[o[0] + far] + o[1:] for o in specs[2]["obs"]]
        sigs = [
            {"s": "mn", "efac": {"t": "unif", "lo": 0.7, "hi": 1.6}, "t2equad": None, "sel": "none"},
            {"s": "tm", "name": "linear_timing_model", "svd": False, "normed": True, "coef": False, "excl": None},
            {
                "s": "cgp",
                "name": "gw",
                "api": "fourier",
                "prior": {"f": "powerlaw", "kw": {"log10_A": {"t": "unif", "lo": -14.0, "hi": -12.8}, "gamma": {"t": "unif", "lo": 1.5, "hi": 4.5}}},
                "basis": {"f": "red", "nmodes": 3, "kw": {}},
                "orf": {"f": "hd_orf", "kw": {}},
                "combine": True,
            },
        ]
        return {"directed": "span", "specs": specs, "signals": sigs, "seed": rng.randrange(10**6), "order": rng.randrange(3), "ops": []}

    def span_run(self, plan, ctx):
        ctx.steps += 1
        specs = plan["specs"]
        psrs = [psrgen.make_pulsar(s) for s in specs]
        toas = [psrgen.data_from_spec(s)["toas"] * 86400.0 for s in specs]

        def cfg(ps, span=None):
            sigs = copy.deepcopy(plan["signals"])
            if span is not None:
                sigs[2]["basis"]["Tspan"] = span
            return {"psrs": specs, "signals": sigs, "models": [{"psr": p, "sigs": [0, 1, 2]} for p in ps], "lnl": "sparse"}

        def span(ps):
            return max(toas[p].max() for p in ps) - min(toas[p].min() for p in ps)

        world = models.World(False)
        ma, mb = [0, 1], [0, 2]
        o = plan["order"]
        ptas = {}
        for w in ("ab", "ba", "ab")[o]:
            ptas[w] = models.build_model(cfg(ma if w == "a" else mb), world, psrs)
            if o == 2 and w == "a":
                v = {n: lik.value(models.Ref(cfg(ma, 1e8)), n, plan["seed"], 0) for n in models.Ref(cfg(ma, 1e8)).reg.var}
                ptas["a"].get_lnlikelihood(v)
        for w, ps in (("a", ma), ("b", mb)):
            ref = models.Ref(cfg(ps, span(ps)))
            v = {n: lik.value(ref, n, plan["seed"], 0) for n in ref.reg.var}
            got = ptas[w].get_lnlikelihood(v)
            want = ref.lnlike(v, {})
            ctx.event("span", w, lik.fnum(round(float(got), 4)))
            ctx.stat("ll")
            ctx.state("span", o, w)
            if lik.close(got, want):
                continue
            leak = models.Ref(cfg(ps, span([0, 1, 2]))).lnlike(v, {})
            if lik.close(got, leak):
                ctx.known.append(SPAN_KEY)
            else:
                raise Violation("likelihood", "%r, the model has %r (%r with the span of all pulsars)" % (got, want, leak))

    def simplify(self, plan):
        if plan.get("directed"):
            return
        for k in ("share", "shareclass"):
            if plan[k]:
                p = dict(plan)
                p[k] = False
                yield p
        used = sorted({op[1] % len(plan["variants"]) for op in plan["ops"] if op[0] in ("build", "start")})
        if len(used) == 1 and len(plan["variants"]) > 1:
            p = copy.deepcopy(plan)
            p["variants"] = [plan["variants"][used[0]]]
            yield p
        for i in range(len(plan["cfg"]["signals"])):
            if any(i in m["sigs"] for v in plan["variants"] for m in v["models"]):
                p = copy.deepcopy(plan)
                ok = True
                for v in p["variants"]:
                    for m in v["models"]:
                        m["sigs"] = [x for x in m["sigs"] if x != i]
                        ok = ok and any(p["cfg"]["signals"][x]["s"] in ("mn", "uwn") for x in m["sigs"])
                    c = dict(p["cfg"])
                    c["models"] = v["models"]
                    ok = ok and gen.valid(c) and models.Ref(c).reg.var
                if ok:
                    yield p
