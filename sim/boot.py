"""Start-up of a simulation process: environment, import path, seams that must exist before enterprise is imported.

Everything here is process-global and is done once, in the parent from which every simulated run is forked.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")

_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "ARROW_DEFAULT_MEMORY_POOL": "system",
    "OMP_THREAD_LIMIT": "1",
}


def build_shim():
    """Compile the file-system seam to a scratch directory, which goes as soon as the library is loaded."""
    import subprocess
    import tempfile

    d = tempfile.mkdtemp(prefix="simshim")
    so = os.path.join(d, "ioshim.so")
    src = os.path.join(VERIF, "sim", "ioshim.c")
    for cc in ("gcc", "cc", "clang"):
        try:
            if subprocess.call([cc, "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl"]) == 0:
                return so
        except OSError:
            continue
    raise SystemExit("harness: cannot compile " + src)


def ensure_env(shim=False):
    """Re-execute the interpreter once so that the environment is the one the simulator needs."""
    want = dict(_ENV)
    want["PYTHONHASHSEED"] = os.environ.get("SIM_HASHSEED", "0")
    if os.environ.get("SIM_BOOTED") == "1":
        so = os.environ.pop("LD_PRELOAD", "")
        if so.endswith("ioshim.so"):
            os.unlink(so)
            os.rmdir(os.path.dirname(so))
        return
    if shim:
        want["LD_PRELOAD"] = build_shim()
    env = dict(os.environ)
    env.update(want)
    env["SIM_BOOTED"] = "1"
    env.pop("PYTHONPATH", None)
    exe = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(exe, [exe, "-X", "faulthandler", "-W", "ignore"] + sys.argv, env)


_done = False
_lines = set()


def cover():
    """With SIM_COVER=directory: which lines of the library are executed (a tool for extending the generators, no check uses it)."""
    top = os.path.realpath(os.path.join(REPO, "enterprise")) + os.sep
    mon = sys.monitoring

    def line(code, n):
        f = code.co_filename
        if f.startswith(top):
            _lines.add((f[len(top) :], n))
        return mon.DISABLE

    mon.use_tool_id(3, "simcover")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def cover_dump():
    import json
    import tempfile

    fd, _ = tempfile.mkstemp(dir=os.environ["SIM_COVER"])
    os.write(fd, json.dumps(sorted(_lines)).encode())
    os.close(fd)



def load(instrument=False):
    """Import enterprise from the working tree with the fake timing packages and the patched trackers in place."""
    global _done
    if _done:
        return
    _done = True
    import logging

    if os.environ.get("SIM_COVER"):
        cover()
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)

    from . import fakes, shmsim

    fakes.install()
    if instrument:
        from . import faultcall

        faultcall.install_hook()
    shmsim.install()

    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")

    import enterprise

    here = os.path.realpath(os.path.dirname(enterprise.__file__))
    if here != os.path.realpath(os.path.join(REPO, "enterprise")):
        raise SystemExit("harness: enterprise imported from %s, not from %s" % (here, REPO))
    import enterprise.pulsar  # noqa
    import enterprise.signals.signal_base  # noqa
    import enterprise.signals.gp_signals  # noqa
    import enterprise.signals.white_signals  # noqa
    import enterprise.signals.deterministic_signals  # noqa
    import enterprise.signals.gp_bases  # noqa
    import enterprise.signals.gp_priors  # noqa
    import enterprise.signals.utils  # noqa
    import enterprise.signals.selections  # noqa
    import enterprise.signals.parameter  # noqa

    logging.disable(logging.CRITICAL)
