"""C10: loading reads the named files, restores the working directory, sizes buffers."""
import os
import shutil
import sys
import tempfile

import numpy as np

from . import c08, fakes, psrgen
from .c01 import raised
from .core import HarnessError, Scenario, Violation, scratch_root

REAL = ["A", "B", "A/sub", "B/sub", "A/sub/deep", "W", "W/x"]
LINKS = {"LA": "A", "W/lb": "../B", "W/ls": "../A/sub", "B/sub/la": "../../A", "A/up": "../W/x", "Ldeep": "A/sub/deep"}
NAMES = ["p", "q.v2"]
STAGES = ["open", "parsed", "toas", "residuals", "designmatrix", "formbats"]
EXC = {
    "RuntimeError": RuntimeError,
    "MemoryError": MemoryError,
    "OSError": OSError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "ValueError": ValueError,
}


class Injected(Exception):
    pass


class C10(Scenario):
    ID = "C10"
    LEVEL = "fault_enumeration"
    RUNS = {"quick": 3600, "thorough": 250000}
    RULE = (
        "one evaluation = one simulated run: 2-10 loads from a scratch tree of directories, symbolic links, includes and decoy files of"
        " the same names, from random working directories, files that grow, with failures and interrupts in the loader and timing package; distinct"
        " non-trivial = runs with a successful load across directories after a failed one, told apart by the digest of their event log"
    )
    STATES = "distinct (timing package, directory of tim, of par, working directory, path style, failure) tuples"
    REAL = ["enterprise.pulsar.Pulsar, get_maxobs, Tempo2Pulsar, PintPulsar", "os and a real directory tree with symbolic links"]
    STUB = ["tempo2/libstempo and PINT: readers of a minimal par/tim syntax that open the files they are given"]
    ASSUME = [
        "interrupts strike inside constructors, counting and the timing package and after the change of directory, not inside the"
        " clean-up itself",
    ]

    def make_plan(self, rng, i, tier):
        dirs = REAL + sorted(LINKS) + ["LA/sub", "W/ls/deep", "B/sub/la/sub", "W/lb/sub/la"]
        ops = []
        for _ in range(rng.randint(2, 10) if tier == "thorough" else rng.randint(2, 7)):
            x = rng.random()
            if x < 0.15:
                ops.append(["cd", rng.choice(dirs + ["."])])
                continue
            if x < 0.25:
                ops.append(["grow", rng.randrange(len(REAL)), rng.choice(NAMES), rng.choice([".tim", ".tim", ".toa"]), rng.randrange(4), rng.choice([1, 7, 120])])
                continue
            fault = ["none"]
            y = rng.random()
            if y < 0.25:
                fault = ["stage", rng.choice(STAGES), rng.choice(sorted(EXC))]
            elif y < 0.32:
                fault = ["chdir", rng.choice(["before", "after"]), rng.choice(["OSError", "KeyboardInterrupt", "MemoryError"])]
            elif y < 0.45:
                fault = ["line", rng.randint(1, 120), rng.choice(["KeyboardInterrupt", "MemoryError"])]
            elif y < 0.55:
                fault = ["missing", rng.choice(["par", "tim", "include", "package", "clk", "getcwd"])]
            ops.append(
                [
                    "load",
                    rng.choice(["tempo2", "pint", None, "Tempo2", "PINT"]),
                    [rng.choice(dirs), rng.choice(NAMES), rng.choice(["rel", "rel", "abs", "dot", "updown"])],
                    [rng.choice(dirs), rng.choice(NAMES), rng.choice(["rel", "rel", "abs", "dot", "updown"])],
                    {
                        "same": rng.random() < 0.25,
                        "swap": rng.random() < 0.3,
                        "sort": rng.random() < 0.6,
                        "planets": rng.random() < 0.7,
                        "drop": rng.random() < 0.6,
                        "link": rng.choice([None, None, "par", "tim", "both"]),
                        "clk": rng.choice([None, "TT(BIPM2019)"]),
                        "ephem": rng.choice([None, "DE440", "DE436"]),
                        "bipm": rng.choice([None, None, "BIPM2021"]),
                        "toa": rng.random() < 0.15,
                    },
                    fault,
                ]
            )
        return {
            "seed": rng.randrange(10**6),
            "cwd": rng.choice(dirs + ["."]),
            "nobs": rng.choice([3, 4, 5, 8, 8, 20, 150]),
            "big": rng.random() < 0.5,
            "includes": rng.choice([0, 0, 1, 2, 3]),
            "style": rng.randrange(8),
            "prefix": rng.choice(["obs", "obs", "Cobs", "INCLUDE_", "FORMATTED"]),
            "include": rng.choice(["INCLUDE", "INCLUDE", "INCLUDE", "include", "Include"]),
            "twice": rng.random() < 0.3,
            "ops": ops,
        }

    # -------------------------------------------------------------------------------------------------- the tree

    def tree(self, plan):
        self.prefix = plan.get("prefix", "obs")
        include = plan.get("include", "INCLUDE") + " "
        root = self.root = tempfile.mkdtemp(prefix="simc10", dir=scratch_root())
        rs = np.random.RandomState(plan["seed"])
        for d in REAL + ["T"]:
            os.makedirs(os.path.join(root, d))
        for k, v in LINKS.items():
            os.symlink(v, os.path.join(root, k))
        self.par = {}
        self.files = {}
        self.rs = rs
        uid = 0
        st = plan["style"]
        for d in REAL + ["T"]:
            for nm in NAMES:
                spec = {"name": psrgen.NAMES[rs.randint(5)], "seed": int(rs.randint(10**6)), "raj": round(rs.uniform(0, 6), 3), "decj": round(rs.uniform(-1.5, 1.5), 3)}
                spec["fit"] = ["F0"] + [p for p in ("F1", "RAJ") if rs.rand() < 0.5]
                path = os.path.join(root, d, nm + ".par")
                psrgen.write_par(path, spec)
                self.par[os.path.realpath(path)] = spec
                for ext in (".tim", ".toa"):
                    path = os.path.join(root, d, nm + ext)
                    parts = [nm + ext] + ["inc%d_%s%s" % (k, nm, ext) for k in range(plan["includes"])]
                    if d + "/sub" in REAL and plan["includes"]:
                        # (names are relative to the working directory, also within an included file)
                        q = 1 + rs.randint(plan["includes"]) if rs.rand() < 0.5 else plan["includes"]
                        parts[q:] = ["sub/x" + x for x in parts[q:]]
                    n = plan["nobs"]
                    lines = {}
                    obs = {}
                    for k, part in enumerate(parts):
                        lines[part], obs[part] = [], []
                        if st & 1:
                            lines[part] += ["FORMAT 1", "MODE 1"]
                        m = n if k != 1 else max(2, n // 2)
                        if plan.get("big") and rs.rand() < 0.12:
                            m = 130
                        for _ in range(m):
                            o = [53000 + int(rs.randint(0, 2000)) + 0.25 * uid % 1, 0.01 * int(rs.randint(100)), int(rs.randint(2)), int(rs.randint(4)), uid]
                            lines[part].append(psrgen.tim_line(o, uid, plan.get("prefix", "obs")))
                            obs[part].append(o)
                            uid += 1
                        if st & 2:
                            lines[part].insert(1, ["C a comment", "C INCLUDE none.tim", "# INCLUDE none.tim", "CC INCLUDE none.tim"][rs.randint(4)])
                            lines[part].insert(1, "")
                    # includes: chained (each includes the next) or all in the main file, at the start or end
                    order = obs
                    if st & 4:
                        for a, b in zip(parts[:-1], parts[1:]):
                            lines[a].append(include + b)
                        seq = parts
                    else:
                        inc = [include + b for b in parts[1:]]
                        head = st & 1
                        lines[parts[0]] = inc + lines[parts[0]] if head else lines[parts[0]] + inc
                        seq = parts[1:] + parts[:1] if head else parts
                    if plan.get("twice") and len(parts) > 1:
                        # the last file is included a second time, from the main file
                        seq = seq + parts[-1:]
                        lines[parts[0]].append(include + parts[-1])
                    for part in parts:
                        with open(os.path.join(root, d, part), "w") as f:
                            f.write("\n".join(lines[part]) + ("" if st & 2 else "\n"))
                    self.files[d, nm, ext] = (parts, lines, order, seq)
        self.uid = uid
        # links to files: the target lies in T, includes are still looked up next to the link
        for d in REAL:
            if self.files[d, "p", ".tim"][0] == self.files["T", "p", ".tim"][0]:
                for ext in (".tim", ".toa"):
                    os.symlink(os.path.relpath(os.path.join(root, "T", "p" + ext), os.path.join(root, d)), os.path.join(root, d, "lt" + ext))
                    self.files[d, "lt", ext] = None
            os.symlink(os.path.relpath(os.path.join(root, "T", "p.par"), os.path.join(root, d)), os.path.join(root, d, "lp.par"))

    def observations(self, tdir, nm, ext):
        """The observations as they follow one another when read from the directory."""
        d = os.path.relpath(tdir, os.path.realpath(self.root))
        if nm == "lt":
            main = self.files["T", "p", ext][2]
            parts, _, obs, seq = self.files[d, "p", ext]
            return [o for p in seq for o in (main if p == parts[0] else obs)[p]]
        parts, _, obs, seq = self.files[d, nm, ext]
        return [o for p in seq for o in obs[p]]

    def grow(self, op):
        """New observations are added to a file between loads."""
        _, d, nm, ext, k, n = op
        parts, lines, obs, seq = self.files[REAL[d], nm, ext]
        part = parts[k % len(parts)]
        at = 1 + max(j for j, w in enumerate(lines[part]) if w.startswith(self.prefix))
        for j in range(n):
            o = [53000 + int(self.rs.randint(0, 2000)), 0.01 * int(self.rs.randint(100)), int(self.rs.randint(2)), int(self.rs.randint(4)), self.uid]
            self.uid += 1
            lines[part].insert(at + j, psrgen.tim_line(o, o[4], self.prefix))
            obs[part].append(o)
        with open(os.path.join(self.root, REAL[d], part), "w") as f:
            f.write("\n".join(lines[part]) + "\n")
        self.ctx.event("grow", REAL[d], part, n)

    def path(self, where, ext, style, cwd):
        d, nm, _ = where
        full = os.path.join(self.root, d, nm + ext)
        if style == "abs":
            return full
        # a relative path that is right for the physical working directory
        parent, rest = os.path.join(self.root), os.path.join(d, nm + ext)
        rel = os.path.join(os.path.relpath(os.path.realpath(parent), os.path.realpath(cwd)), rest)
        if os.path.realpath(os.path.dirname(full)) == os.path.realpath(cwd):
            rel = nm + ext
        elif style == "updown":
            rel = os.path.join(os.path.relpath(os.path.realpath(os.path.dirname(full)), os.path.realpath(cwd)), nm + ext)
        return "./" + rel if style == "dot" else rel

    # ------------------------------------------------------------------------------------------------- execution

    def execute(self, plan, ctx):
        self.ctx = ctx
        home = os.getcwd()
        self.failed = 0
        try:
            self.tree(plan)
            os.chdir(os.path.join(self.root, plan["cwd"]))
            for op in plan["ops"]:
                ctx.steps += 1
                if op[0] == "cd":
                    os.chdir(os.path.join(self.root, op[1]))
                    ctx.event("cd", op[1])
                elif op[0] == "grow":
                    self.grow(op)
                else:
                    self.load(plan, op)
        except Violation:
            raise
        except Exception as e:
            raise raised(e)
        finally:
            fakes.FAIL[0] = None
            os.chdir(home)
            shutil.rmtree(self.root, ignore_errors=True)

    def load(self, plan, op):
        import enterprise.pulsar as ep

        ctx = self.ctx
        _, package, pw, tw, o, fault = op
        if o["same"]:
            pw = [tw[0], pw[1], pw[2]]
        cwd = os.getcwd()
        here = os.stat(".")
        ext = ".toa" if o["toa"] else ".tim"
        if o["link"] in ("par", "both"):
            pw = [pw[0], "lp", pw[2]]
        if o["link"] in ("tim", "both") and os.path.exists(os.path.join(self.root, tw[0], "lt.tim")):
            tw = [tw[0], "lt", tw[2]]
            ctx.stat("linked_tim")
        parfile = self.path(pw, ".par", pw[2], cwd)
        timfile = self.path(tw, ext, tw[2], cwd)
        tdir = os.path.realpath(os.path.dirname(os.path.join(cwd, timfile)))
        with open(parfile) as f:
            partext = f.read()
        with open(timfile) as f:
            timtext = f.read()
        spec = dict(self.par[os.path.realpath(os.path.join(cwd, parfile))])
        obs = self.observations(tdir, tw[1], ext)
        kind = "pint" if package and package.lower() == "pint" else "t2"
        spec.update(obs=obs, kind=kind, sort=o["sort"], planets=o["planets"], uidflag=True)
        kw = {"sort": o["sort"], "planets": o["planets"], "drop_t2pulsar": o["drop"], "drop_pintpsr": o["drop"]}
        if package:
            kw["timing_package"] = package
        if o["clk"]:
            kw["clk"] = o["clk"]
        if o.get("ephem"):
            kw["ephem"] = o["ephem"]
        if o.get("bipm"):
            kw["bipm_version"] = o["bipm"]
        undo = []
        strike = {"n": 0}

        def strikes(exc):
            strike["n"] += 1
            raise EXC[exc]("injected")

        f0 = fault[0]
        if f0 == "stage":

            def fail(stage, info):
                if stage == fault[1]:
                    strikes(fault[2])

            fakes.FAIL[0] = fail
        elif f0 == "chdir":
            real = os.chdir

            def chdir(p):
                if strike["n"] == 0:
                    if fault[1] == "after":
                        real(p)
                    strikes(fault[2])
                return real(p)

            os.chdir = chdir
            undo.append(lambda: setattr(os, "chdir", real))
        elif f0 == "line":
            left = [fault[1]]
            src = ep.__file__

            def tracer(frame, event, arg):
                if frame.f_code.co_filename != src:
                    return None
                if not (frame.f_code.co_name == "get_maxobs" or isinstance(frame.f_locals.get("self"), ep.BasePulsar)):
                    return None
                if event == "line":
                    left[0] -= 1
                    if left[0] == 0:
                        strikes(fault[2])
                return tracer

        elif f0 == "missing":
            what = fault[1]
            if what == "par":
                parfile = parfile[:-4] + "_none.par"
            elif what == "tim":
                timfile = timfile[:-4] + "_none" + ext
            elif what == "package":
                kw["timing_package"] = "psrchive"
            elif what == "clk":
                kw["clk"] = "UTC"
            elif what == "getcwd":
                real_cwd = os.getcwd
                last = os.getcwd

                def getcwd():
                    strikes("OSError")

                os.getcwd = getcwd
                undo.append(lambda: setattr(os, "getcwd", real_cwd))
            elif what == "include":
                if not plan["includes"]:
                    what = None
                else:
                    first = [w.split()[-1] for w in timtext.split("\n") if w.upper().startswith("INCLUDE ")][0]
                    gone = os.path.join(tdir, first)
                    os.rename(gone, gone + ".away")
                    undo.append(lambda: os.rename(gone + ".away", gone))
            must_fail = what in ("par", "tim", "include", "package") or (what == "clk" and kind == "pint" and not o.get("bipm"))
        else:
            must_fail = False
        if f0 != "missing":
            must_fail = False
        fakes.CALLS.clear()
        args = [timfile, parfile] if o["swap"] else [parfile, timfile]
        psr = err = None
        try:
            if f0 == "line":
                sys.settrace(tracer)
            try:
                psr = ep.Pulsar(*args, **kw)
            finally:
                sys.settrace(None)
        except BaseException as e:
            err = e
        fakes.FAIL[0] = None
        for u in undo:
            u()
        struck = strike["n"] > 0
        fn = "none" if f0 == "none" else "_".join(str(x) for x in (fault[:2] if f0 != "line" else [f0, fault[2]]))
        ctx.event("load", package, pw, tw, o["swap"], fn, struck, type(err).__name__)
        ctx.state(kind, tw[0], pw[0], os.path.relpath(cwd, self.root), pw[2], tw[2], fn, type(err).__name__)
        try:
            now = os.stat(".")
        except OSError:
            now = None
        if now is None or (now.st_ino, now.st_dev) != (here.st_ino, here.st_dev):
            where = os.getcwd()
            os.chdir(cwd)
            raise Violation("directory", "the working directory is %s after loading from %s%s" % (os.path.relpath(where, self.root), os.path.relpath(cwd, self.root), " failed with %r" % err if err else ""))
        if struck or must_fail:
            ctx.fault(fn)
            self.failed += 1
        if err is not None:
            ctx.stat("load_failed")
            if not struck and not must_fail:
                if isinstance(err, Exception):
                    raise Violation("refused", "loading raised %r (%s)" % (err, args))
                raise err
            return
        if must_fail:
            raise Violation("accepted", "loading succeeded although something was missing: %s" % fault[1])
        if struck and not isinstance(psr, ep.BasePulsar):
            raise Violation("accepted", "no pulsar")
        ctx.stat("loaded")
        # exactly the files named
        t = c08.Table(spec)
        c = c08.C08()
        c.ctx = ctx
        if psr.name != spec["name"]:
            raise Violation("wrong-file", "name %s instead of %s" % (psr.name, spec["name"]))
        c.check([psr, t, [package]])
        for call in fakes.CALLS:
            ephem, clk, bipm = call[5]
            if kind == "t2" and (ephem, clk) != (kw.get("ephem"), kw.get("clk")):
                raise Violation("arguments", "the timing package was given ephemeris %r and clock %r" % (ephem, clk))
            if kind == "pint" and (ephem, bipm) != (kw.get("ephem"), kw.get("bipm_version") or (kw["clk"][3:-1] if "clk" in kw else None)):
                raise Violation("arguments", "the timing package was given ephemeris %r and BIPM version %r" % (ephem, bipm))
            if call[4] is not None and call[4] < len(obs):
                raise Violation("maxobs", "room for %d observations was requested, the files have %d" % (call[4], len(obs)))
        if not o["drop"] and kind == "t2":
            if getattr(psr, "parfile", None) != partext or getattr(psr, "timfile", None) != timtext:
                raise Violation("wrong-file", "parfile or timfile kept with the pulsar is not the file named")
        if self.failed:
            ctx.stat("nontrivial")

    def simplify(self, plan):
        for k, v in (("includes", 0), ("nobs", 3), ("style", 0), ("cwd", "."), ("prefix", "obs"), ("include", "INCLUDE")):
            if plan.get(k, v) != v:
                yield dict(plan, **{k: v})
        for j, o in enumerate(plan["ops"]):
            if o[0] == "load" and o[5] != ["none"]:
                yield dict(plan, ops=plan["ops"][:j] + [o[:5] + [["none"]]] + plan["ops"][j + 1 :])
