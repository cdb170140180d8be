"""Generator of MANIFEST.json from the scenarios that exist (one source of wording)."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
    "C01": "Seeded search over configurations, histories and interleavings of clients; every value is compared with an independent dense evaluation of the Gaussian model. Trusts that reference (cross-checked by the unchanged tree agreeing on all configurations) and the waveform formulas of the physical ephemeris.",
    "C02": "Exceptions are injected at call and statement boundaries of library code during evaluations; values during and after are compared with the dense reference. Not covered: interruptions inside numerical libraries or between operators of one expression.",
    "C03": "Interleavings of assignments of constants and evaluations; oracle: dense reference at the constants assigned last, and a fresh model.",
    "C04": "Interleaved construction, use and disposal of several models over shared pulsars, classes and parameters; oracle: dense reference of each model separately, digests of all pulsar arrays and arguments.",
    "C05": "Simulated processes, shared-memory namespace and resource trackers around the real inflater and pulsar code; exits and kills at any step. Trusts the model of POSIX shared memory and of Python's resource tracker written down in sim/shmsim.py.",
    "C06": "One failing system call per operation, at every call position reached by the seeded search, around the real life-cycle code; oracle: namespace, mappings and descriptors of the simulator, and the original data.",
    "C07": "Derived arrays of all kinds kept while owners are deleted, collected, pickled or destroyed in random orders; oracle: address ranges of live mappings plus contents.",
    "C08": "Random sequences of operations on pulsars in which each observation carries an identity through every quantity; oracle: a reference table of observations.",
    "C09": "File-system calls of save and load fail or are cut short behind a seam (LD_PRELOAD), crashes after any prefix of what was written; oracle: reload gives the new or the old pulsar, or an error.",
    "C10": "Real loader over scratch directories with symbolic links, includes and failures at every stage of fake timing packages; oracle: identity marks in the files and the working directory.",
    "C11": "Clients that draw random numbers interleaved with construction and evaluation of models, also in the middle of library functions and with injected exceptions; oracle: the state of the global stream at every switch, and the same draws repeated from the same state without the other work (some in another process).",
    "C12": "Random hierarchies of parameters with the generator behind a seam; oracle: each value against its distribution at the hyperparameters returned.",
    "C13": "The generator is put into known states, so that the normal numbers of every draw are known and the affine map is extracted exactly; oracle: mean and covariance of the dense posterior.",
    "C14": "The generator is scripted, extreme outcomes included, with a budget of draws; oracle: independent quantile maps, support and shape.",
    "C19": "Pieces of the linear algebra requested by interleaved clients in random histories, with exceptions injected in half of the runs; every piece is compared with an independent dense reference in a form that does not depend on the order of columns; everything handed out is compared again at the end.",
}
TECH = {
    "C19": "deterministic simulation with fault injection: seeded interleavings of requests, reference-model oracle",
    "C02": "deterministic simulation with fault injection: seeded exceptions at call boundaries, reference-model oracle",
    "C05": "deterministic simulation of processes, shared memory and trackers with kills",
    "C06": "deterministic simulation with system-call fault injection",
    "C09": "deterministic simulation with disk fault and crash injection",
    "C10": "deterministic simulation with loader fault injection",
    "C12": "deterministic simulation with a seeded random-number seam and injected failures of draws",
    "C14": "deterministic simulation with a scripted random-number seam",
    "C11": "deterministic simulation: seeded interleavings inside library functions with fault injection, replay oracle on the random stream",
    "C13": "deterministic simulation with a controlled random stream and injected SVD failures, exact affine-map extraction",
}
NA = {
    "C15": "pure function of its input: no schedule, clock, I/O, randomness or history on which simulation could decide anything",
    "C16": "pure function of its input (the closure state of selection factories, which is history, is decided under C04)",
    "C17": "pure function of its input; whether a waveform formula is right involves no source of nondeterminism",
    "C18": "pure function of its input; normalisation is not a property of executions (what samplers return is decided under C14)",
}
PY = "/opt/venv/bin/python"


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        f = os.path.join(HERE, "sim", p.lower() + ".py")
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
        elif not os.path.exists(f):
            na.append({"property": p, "reason": "machinery under construction"})
        else:
            level = re.search(r'LEVEL = "(\w+)"', open(f).read()).group(1)
            checks.append(
                {
                    "property": p,
                    "quick_cmd": "%s check.py %s" % (PY, p),
                    "thorough_cmd": "%s check.py %s --tier thorough" % (PY, p),
                    "evidence_file": "evidence/%s.json" % p,
                    "technique": TECH.get(p, "deterministic simulation: seeded interleavings of clients, reference-model oracle"),
                    "level": level,
                    "level_note": NOTE[p],
                }
            )
    m = {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: all seams are Python-level (imports, module attributes, an import hook that instruments the loaded syntax tree for C02 and C11) or LD_PRELOAD (C09), installed by the checks. Commits in /repo are repairs only, listed in known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
        json.dump(m, out, indent=1)
        out.write("\n")


main()
