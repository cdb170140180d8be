"""Runner: seeded plans, one forked process per simulated run, minimisation, replay files, evidence."""
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class Violation(Exception):
    def __init__(self, kind, detail="", known=None):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail, self.known = kind, detail, known


class HarnessError(Exception):
    pass


class Ctx:
    """Per-run bookkeeping handed to scenarios.  Never draws random numbers, never reads a clock."""

    def __init__(self):
        self.stats = {}
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.log = hashlib.sha256()
        self.nlog = 0
        self.steps = 0
        self.trace = None
        self.notes = []
        self.simtime = 0.0
        self.known = []

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def event(self, *what):
        s = repr(what)
        self.log.update(s.encode())
        self.nlog += 1
        if self.trace is not None:
            self.trace.append(s)


def fnum(x):
    """Stable rendering of a number for event logs."""
    try:
        return "%.9e" % float(x)
    except Exception:
        return repr(type(x))


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if d == "/tmp" and os.access(d, os.W_OK):
            return d
    return "/tmp"


def run_child(scn, plan, wfd, trace, tier):
    res = {}
    try:
        ctx = Ctx()
        if trace:
            ctx.trace = []
        try:
            scn.execute(plan, ctx)
            res["outcome"] = "ok"
        except Violation as v:
            res["outcome"] = "violation"
            res["kind"], res["detail"] = v.kind, str(v.detail)[:2000]
            ctx.event("VIOLATION", v.kind)
        except HarnessError:
            raise
        except Exception as e:
            # runs are repeatable and none raises on the unchanged tree: what the code returned cannot be examined
            fr = traceback.extract_tb(e.__traceback__)[-1]
            res["outcome"] = "violation"
            res["kind"] = "unexpected:" + type(e).__name__
            res["detail"] = "%r at %s:%d %s" % (e, os.path.basename(fr.filename), fr.lineno, fr.name)
            ctx.event("VIOLATION", res["kind"])
            if os.environ.get("SIM_DEBUG"):
                traceback.print_exc()
        res.update(
            digest=ctx.log.hexdigest(),
            nlog=ctx.nlog,
            stats=ctx.stats,
            faults=ctx.faults,
            probes=ctx.probes,
            states=sorted(ctx.states),
            steps=ctx.steps,
            simtime=ctx.simtime,
            notes=ctx.notes[:5],
            known=ctx.known,
        )
        if trace:
            res["trace"] = ctx.trace[-400:]
    except BaseException as e:  # harness failure, reported apart from violations
        tb = traceback.format_exc()
        res = {"outcome": "harness", "detail": "%r\n%s" % (e, tb[-3000:])}
    data = pickle.dumps(res)
    os.write(wfd, len(data).to_bytes(8, "little"))
    o = 0
    while o < len(data):
        o += os.write(wfd, data[o : o + 65536])


CRASH = {signal.SIGSEGV: "SIGSEGV", signal.SIGBUS: "SIGBUS", signal.SIGABRT: "SIGABRT", signal.SIGFPE: "SIGFPE", signal.SIGILL: "SIGILL"}


class Pool:
    """Runs jobs in forked children, at most n at a time; yields (job, result)."""

    def __init__(self, scn, workers, tier, cpu_limit=90):
        self.scn, self.workers, self.tier, self.cpu = scn, workers, tier, cpu_limit
        self.live = {}

    def start(self, job, plan, trace=False):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for f in list(self.live):
                    try:
                        os.close(f)
                    except OSError:
                        pass
                signal.alarm(0)
                resource.setrlimit(resource.RLIMIT_CPU, (self.cpu, self.cpu + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                dn = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get("SIM_DEBUG"):
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                run_child(self.scn, plan, w, trace, self.tier)
            finally:
                if os.environ.get("SIM_COVER"):
                    from . import boot

                    boot.cover_dump()
                os._exit(0)
        os.close(w)
        self.live[r] = [pid, job, plan, b"", time.time()]

    def wait(self, timeout=1.0):
        """Return list of finished (job, plan, result)."""
        done = []
        if not self.live:
            return done
        rs, _, _ = select.select(list(self.live), [], [], timeout)
        for r in rs:
            ent = self.live[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                ent[3] += chunk
                continue
            os.close(r)
            del self.live[r]
            _, status = os.waitpid(ent[0], 0)
            done.append((ent[1], ent[2], self._result(ent[3], status)))
        now = time.time()
        for r, ent in list(self.live.items()):
            if now - ent[4] > 4 * self.cpu:  # stuck without using the CPU
                os.kill(ent[0], signal.SIGKILL)
                os.waitpid(ent[0], 0)
                os.close(r)
                del self.live[r]
                done.append((ent[1], ent[2], {"outcome": "hang", "kind": "no-progress", "detail": "blocked"}))
        return done

    def _result(self, buf, status):
        if len(buf) >= 8 and len(buf) >= 8 + int.from_bytes(buf[:8], "little"):
            return pickle.loads(buf[8:])
        if os.WIFSIGNALED(status):
            sg = os.WTERMSIG(status)
            if sg in CRASH:
                return {"outcome": "crash", "kind": "crash-" + CRASH[sg], "detail": "the process died of " + CRASH[sg]}
            if sg == signal.SIGXCPU:
                return {"outcome": "hang", "kind": "no-progress", "detail": "no progress within %d s of CPU" % self.cpu}
            return {"outcome": "harness", "detail": "child ended by signal %d" % sg}
        return {"outcome": "harness", "detail": "child ended without a result, status %r" % status}

    def one(self, plan, trace=False):
        self.start(0, plan, trace)
        while True:
            d = self.wait()
            if d:
                return d[0][2]

    def kill(self):
        for r, ent in list(self.live.items()):
            try:
                os.kill(ent[0], signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(ent[0], 0)
            os.close(r)
        self.live = {}


def bad(res):
    return res["outcome"] in ("violation", "crash", "hang")


def plan_for(scn, seed, i, tier):
    rng = random.Random("%s|%d|%d" % (scn.ID, seed, i))
    p = scn.make_plan(rng, i, tier)
    p = json.loads(json.dumps(p))
    p["_id"] = [scn.ID, seed, i]
    return p


# ----------------------------------------------------------------------------------------------- minimisation


def minimise(pool, scn, plan, kind, budget_s):
    """Delta debugging on plan['ops'], then scenario-specific simplifications, keeping the violation kind."""
    t0 = time.time()
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        r = pool.one(p)
        return bad(r) and r.get("kind") == kind

    def left():
        return time.time() - t0 < budget_s

    cur = plan
    changed = True
    while changed and left():
        changed = False
        ops = cur.get("ops", [])
        n = 2
        while len(ops) >= 1 and left():
            size = max(1, len(ops) // n)
            hit = False
            for st in range(0, len(ops), size):
                cand = dict(cur)
                cand["ops"] = ops[:st] + ops[st + size :]
                if not left():
                    break
                if fails(cand):
                    cur, ops, hit, changed = cand, cand["ops"], True, True
                    n = max(n - 1, 2)
                    break
            if not hit:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        for cand in scn.simplify(cur):
            if not left():
                break
            cand = json.loads(json.dumps(cand))
            if fails(cand):
                cur = cand
                changed = True
                break
    return cur, tried


# ---------------------------------------------------------------------------------------------------- checking


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def check(scn, tier, seed):
    t0 = time.time()
    gc.collect()
    gc.freeze()  # collections in the simulated runs need not look at the modules
    workers = int(os.environ.get("SIM_WORKERS", "8"))
    nruns = int(os.environ.get("SIM_RUNS", "0")) or scn.RUNS[tier]
    cap = float(os.environ.get("SIM_CAP", "0")) or (420.0 if tier == "quick" else 3 * 3600.0)
    os.makedirs(EVID, exist_ok=True)
    pool = Pool(scn, workers, tier, cpu_limit=getattr(scn, "CPU", 90))
    agg = {"stats": {}, "faults": {}, "probes": {}}
    states, digests, sigs = set(), set(), set()
    samples, first, harness, known_seen = [], None, [], {}
    steps = simtime = 0
    done_runs = nontrivial = 0
    nxt = 0
    recheck = {}  # determinism: some plans are executed twice
    redone = 0

    def handle(job, plan, res):
        nonlocal first, done_runs, steps, simtime, nontrivial, redone
        if isinstance(job, tuple):  # repeated run
            i = job[1]
            redone += 1
            if res.get("digest") != recheck.get(i):
                harness.append("run %d is not deterministic: %s / %s (%s)" % (i, recheck.get(i), res.get("digest"), res["outcome"]))
            return
        if res["outcome"] == "harness":
            harness.append("run %r: %s" % (job, res["detail"]))
            return
        done_runs += 1
        if bad(res):
            if first is None or job < first[0]:
                first = (job, plan, res)
            return
        for k in ("stats", "faults", "probes"):
            merge(agg[k], res[k])
        states.update(res["states"])
        digests.add(res["digest"])
        steps += res["steps"]
        simtime += res["simtime"]
        if res["stats"].get("nontrivial", 0):
            sigs.add(res["digest"])
        for kf in res["known"]:
            known_seen[kf] = known_seen.get(kf, 0) + 1
        if len(samples) < 3 and res["stats"].get("nontrivial", 0):
            samples.append({"plan": _short(plan), "steps": res["steps"], "faults": res["faults"], "digest": res["digest"][:16]})
        if job % 23 == 5:
            recheck[job] = res["digest"]
            again.append((("again", job), plan))

    again = []
    capped = False
    while (nxt < nruns or again or pool.live) and first is None and not harness:
        while len(pool.live) < workers and (nxt < nruns or again):
            if again:
                j, p = again.pop()
                pool.start(j, p)
            else:
                if time.time() - t0 > cap:
                    capped = True
                    nruns = nxt
                    break
                pool.start(nxt, plan_for(scn, seed, nxt, tier))
                nxt += 1
        for job, plan, res in pool.wait():
            handle(job, plan, res)
    # let runs with a smaller number finish, so that the reported one does not depend on timing
    while pool.live:
        for job, plan, res in pool.wait():
            handle(job, plan, res)
    wall = time.time() - t0
    rc, line = 0, None
    if harness and first is None:
        print("HARNESS-ERROR %s" % scn.ID)
        for h in harness[:3]:
            print(h)
        rc = 3
    if first is not None:
        rc, line = report(scn, pool, first, tier, seed)
        if rc == 3:
            harness.append("unconfirmed violation")
    for k in load_known(scn.ID):
        # every listed finding is demonstrated by its own directed scenario
        n = known_seen.get(k["key"], 0)
        if n:
            print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (scn.ID, k["what"], n))
    evidence(scn, tier, seed, wall, done_runs, nxt, agg, states, sigs, samples, steps, simtime, redone, first, harness, known_seen, capped)
    if line:
        print(line)
    print(
        "%s %s seed=%d: %d runs, %d distinct, %d states, %d faults, %.1f s%s"
        % (scn.ID, tier, seed, done_runs, len(sigs), len(states), sum(agg["faults"].values()), wall, " VIOLATED" if first else "")
    )
    return rc


def _short(plan):
    s = json.dumps(plan)
    return plan if len(s) < 6000 else {"truncated": s[:6000]}


def report(scn, pool, first, tier, seed):
    job, plan, res = first
    kind = res["kind"]
    again = pool.one(plan)
    if not (bad(again) and again.get("kind") == kind):
        if bad(again):
            kind, res = again["kind"], again
        else:
            print("HARNESS-ERROR %s: run %r gave %s once, then %s" % (scn.ID, job, kind, again.get("outcome")))
            print(res.get("detail", ""), again.get("detail", ""))
            return 3, None
    small, tried = minimise(pool, scn, plan, kind, float(os.environ.get("SIM_MIN") or (100.0 if tier == "quick" else 300.0)))
    final = pool.one(small, trace=True)
    if not bad(final):
        small = plan
        final = pool.one(small, trace=True)
    name = "%s-%d-%d-%s.json" % (scn.ID, seed, job, hashlib.md5(json.dumps(small, sort_keys=True).encode()).hexdigest()[:8])
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    path = os.path.join(EVID, "replay", name)
    with open(path, "w") as f:
        json.dump(
            {
                "property": scn.ID,
                "seed": seed,
                "run": job,
                "kind": kind,
                "detail": final.get("detail"),
                "plan": small,
                "original_ops": len(plan.get("ops", [])),
                "minimised_ops": len(small.get("ops", [])),
                "minimisation_runs": tried,
                "digest": final.get("digest"),
                "trace": final.get("trace"),
            },
            f,
            indent=1,
        )
    print("violated: %s: %s" % (kind, final.get("detail")))
    print("seed=%d run=%s, %d operations minimised to %d" % (seed, job, len(plan.get("ops", [])), len(small.get("ops", []))))
    return 1, "VIOLATION property=%s replay=%s" % (scn.ID, path)


def replay(scn, path):
    with open(path) as f:
        rec = json.load(f)
    pool = Pool(scn, 1, "quick", cpu_limit=getattr(scn, "CPU", 90))
    res = pool.one(rec["plan"], trace=True)
    for t in res.get("trace") or []:
        print("  ", t)
    if res["outcome"] == "harness":
        print("HARNESS-ERROR", res["detail"])
        return 3
    if not bad(res):
        print("replay: no violation (recorded: %s)" % rec["kind"])
        return 0
    same = res["kind"] == rec["kind"] and (res.get("digest") == rec.get("digest") or res["outcome"] != "violation")
    print("replay: %s: %s%s" % (res["kind"], res.get("detail"), " (same event log)" if same else " (differs from the recorded run)"))
    print("VIOLATION property=%s replay=%s" % (scn.ID, path))
    return 1


def evidence(scn, tier, seed, wall, done, started, agg, states, sigs, samples, steps, simtime, redone, first, harness, known, capped):
    ev = {
        "property": scn.ID,
        "tier": tier,
        "seed": seed,
        "level": scn.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": scn.RULE,
            "samples": samples or [{"note": "no completed non-trivial run before the verdict"}],
            "simulated_runs": done,
            "seeds": done,
            "runs_per_hour": int(done / wall * 3600) if wall > 0 else 0,
            "simulated_steps": steps,
            "simulated_time_s": simtime,
            "simulated_time_note": getattr(scn, "TIMENOTE", "the code of this property reads no clock: time is counted in simulator steps"),
            "faults_injected": agg["faults"],
            "operations": agg["stats"],
            "probes": agg["probes"],
            "distinct_states": len(states),
            "state_measure": scn.STATES,
            "runs_repeated_for_determinism": redone,
            "real_components": scn.REAL,
            "stubbed_components": scn.STUB,
            "stopped_by_wall_cap": capped,
            "known_findings_seen": known,
        },
        "assumptions": scn.ASSUME,
        "wall_s": round(wall, 2),
        "violations": 1 if first else 0,
    }
    if harness:
        ev["coverage"]["harness_errors"] = harness[:3]
    with open(os.path.join(EVID, scn.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


class Scenario:
    ID = None
    LEVEL = "exploration"
    RUNS = {"quick": 200, "thorough": 4000}
    RULE = ""
    STATES = ""
    REAL = []
    STUB = []
    ASSUME = []
    CPU = 90

    def make_plan(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def simplify(self, plan):
        return []
