"""Simulated POSIX shared memory, processes and resource trackers around the real SharedMemory and PulsarInflater code.

Seams: _posixshmem.shm_open / shm_unlink (as seen by multiprocessing.shared_memory), os.ftruncate, os.close,
mmap.mmap, resource_tracker.register / unregister and the random names.  Memory is real: a segment is a memfd, a mapping
is a real mapping of it.  A "process" of the simulation is a context: what it attaches, maps and registers is booked
on it; when it ends, its descriptors and mappings are dropped and its tracker may clean up what is still registered,
as Python's resource_tracker does once all processes that use it have ended.

With no Sim active everything is passed on to the real functions.
"""
import ctypes
import errno
import itertools
import mmap as _mmap
import os
import random
import sys
import types

ACTIVE = [None]
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
PAGE = _mmap.PAGESIZE
NAMES = {"shm_open": "opening", "create": "creating", "ftruncate": "sizing", "mmap": "mapping", "shm_unlink": "unlinking"}


class Killed(BaseException):
    """The simulated process has been killed: nothing it does from now on has any effect."""


class Mapping(_mmap.mmap):
    """A mapping whose address range is never used again after it was unmapped."""

    def sim_start(self, sim):
        self.sim = sim
        self.proc = sim.cur
        a = ctypes.addressof(ctypes.c_char.from_buffer(self))
        self.range = (a, a + (len(self) + PAGE - 1) // PAGE * PAGE)
        self.done = False
        sim.maps[id(self)] = (self.range, self.proc.pid)

    def close(self):
        _mmap.mmap.close(self)  # BufferError if there are exported pointers
        if not getattr(self, "done", True):
            self.done = True
            a, b = self.range
            # reserve the range without access: MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
            _libc.mmap(a, b - a, 0, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0)
            self.sim.maps.pop(id(self), None)
            self.sim.dead.append(self.range)
            self.sim.event("unmap", self.proc.pid)

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


# What a process has of its own besides objects: the data in the modules and classes of the code, and the state of the
# global random number generators.  All simulated processes are forks of one that has imported enterprise.
MODULES = ["enterprise.pulsar_inflate", "enterprise.pulsar"]
CODE = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, property, staticmethod, classmethod)
FORK_HOOKS = []


def _spaces():
    for name in MODULES:
        m = sys.modules.get(name)
        if m is None:
            continue
        yield m
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == name:
                yield v


def take_state():
    state = []
    for ns in _spaces():
        d = {k: v for k, v in vars(ns).items() if not k.startswith("__") and not isinstance(v, CODE) and not hasattr(type(v), "__get__")}
        state.append((ns, d))
    import numpy as np

    return state, random.getstate(), np.random.get_state()


def put_state(state):
    import numpy as np

    spaces, r, n = state
    for ns, want in spaces:
        have = vars(ns)
        for k in [k for k, v in have.items() if k not in want and not k.startswith("__") and not isinstance(v, CODE) and not hasattr(type(v), "__get__")]:
            delattr(ns, k)
        for k, v in want.items():
            if k not in have or have[k] is not v:
                setattr(ns, k, v)
    random.setstate(r)
    np.random.set_state(n)


def _clone(v):
    t = type(v)
    if t is dict:
        return {k: _clone(x) for k, x in v.items()}
    if t in (list, tuple):
        return t(_clone(x) for x in v)
    if t is set:
        return set(v)
    if t is itertools.count:
        n = int(repr(v).split("(")[1].split(")")[0].split(",")[0])
        return itertools.count(n)
    return v


def clone_state(state):
    return [(ns, {k: _clone(v) for k, v in d.items()}) for ns, d in state[0]], state[1], state[2]


PRISTINE = []


class Proc:
    def __init__(self, pid, tracker):
        self.pid, self.tracker, self.alive = pid, tracker, True
        self.number = 5000 + pid  # what os.getpid() says
        self.fds = set()
        self.obj = {}


class Tracker:
    """Python's resource tracker: a set of names, cleaned up when the last process that uses it has ended."""

    def __init__(self, tid):
        self.tid, self.names, self.procs, self.done = tid, set(), set(), False
        self.interrupted = set()  # registered by a process killed between attaching and unregistering


class Sim:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ns = {}  # name -> master descriptor
        self.maps, self.dead = {}, []
        self.procs, self.trackers = {}, {}
        self.cur = None
        self.n = 0
        self.graveyard = []
        self.fail = None  # (kind, countdown, errno)
        self.failed = None
        self.kill_at = None
        self.killed_in = None
        self.collide = 0
        self.calls = []
        self.lost_known = set()
        self.creating = {}
        if not PRISTINE:
            PRISTINE.append(take_state())
        self.main = clone_state(PRISTINE[0])
        put_state(self.main)
        ACTIVE[0] = self

    # ------------------------------------------------------------------------------------------- processes

    def event(self, *w):
        self.ctx.event(*w)

    def spawn(self, tid, parent=None, number=None):
        """A new process: a fork of the main process or of another one."""
        t = self.trackers.setdefault(tid, Tracker(tid))
        if t.done:  # a new process of a tree whose tracker is gone starts a new one
            t = self.trackers[tid] = Tracker(tid)
        p = Proc(len(self.procs), t)
        t.procs.add(p.pid)
        if number is not None:
            p.number = number
        p.state = clone_state(parent.state if parent is not None else self.main)
        if FORK_HOOKS:
            with inside(self, p):
                for f in FORK_HOOKS:
                    f()
        self.procs[p.pid] = p
        return p

    def end(self, p, kill):
        """The process exits (its objects are finalised first) or is killed (they are not)."""
        if not kill:
            with inside(self, p):
                p.obj.clear()
                put_state(clone_state(self.main))
                p.state = None
                import gc

                gc.collect()
        else:
            self.graveyard.append((dict(p.obj), p.state))
            p.obj = {}
        p.state = None
        p.alive = False
        p.tracker.procs.discard(p.pid)
        for k in [k for k, (r, pid) in self.maps.items() if pid == p.pid]:
            del self.maps[k]
        self.event("killed" if kill else "exited", p.pid)

    def reap(self):
        """Trackers whose processes have all ended clean up."""
        for t in list(self.trackers.values()):
            if not t.procs and not t.done:
                t.done = True
                for name in sorted(t.names):
                    if name in self.ns:
                        self.event("tracker-unlinks", t.tid)
                        self.ctx.stat("unlinked_by_tracker")
                        if name in t.interrupted:
                            self.lost_known.add(name)
                        self.remove(name)
                t.names = set()

    def remove(self, name):
        os.close(self.ns.pop(name))

    # --------------------------------------------------------------------------------------- system calls

    def step(self, kind):
        """Entry of every simulated call: where failures and kills strike."""
        if not self.cur.alive:
            raise Killed()
        self.calls.append(kind)
        self.ctx.steps += 1
        if self.kill_at is not None:
            self.kill_at -= 1
            if self.kill_at <= 0:
                self.kill_at = None
                self.killed_in = kind
                self.cur.alive = False
                self.event("killed-in", kind)
                raise Killed()
        if self.fail is not None and self.fail[0] == kind:
            self.fail[1] -= 1
            if self.fail[1] <= 0:
                e = self.fail[2]
                self.fail = None
                self.failed = kind
                self.event("failed", kind, e)
                raise OSError(e, os.strerror(e))

    def shm_open(self, name, flags, mode):
        create = bool(flags & os.O_CREAT)
        self.step("create" if create else "shm_open")
        if create:
            if name in self.ns:
                if flags & os.O_EXCL:
                    raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
            else:
                self.ns[name] = os.memfd_create("sim")
                self.event("create", self.cur.pid)
        elif name not in self.ns:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        fd = os.dup(self.ns[name])
        self.cur.fds.add(fd)
        return fd

    def shm_unlink(self, name):
        self.step("shm_unlink")
        if name not in self.ns:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        self.event("unlink", self.cur.pid)
        self.remove(name)

    def register(self, name):
        self.step("register")
        self.cur.tracker.names.add(name)

    def unregister(self, name):
        try:
            self.step("unregister")
        except Killed:
            if name in self.cur.tracker.names:
                self.cur.tracker.interrupted.add(name)
            raise
        self.cur.tracker.names.discard(name)

    def token(self, n):
        self.n += 1
        if self.collide > 0 and self.ns:
            self.collide -= 1
            self.ctx.fault("name_collision")
            return sorted(self.ns)[0].split("psm_", 1)[-1]
        return "%0*x" % (2 * n, self.n)

    # --------------------------------------------------------------------------------------------- checks

    def address(self, array):
        import numpy as np

        lo, hi = np.lib.array_utils.byte_bounds(array) if hasattr(np.lib, "array_utils") else np.byte_bounds(array)
        return lo, hi

    def dangling(self, array):
        lo, hi = self.address(array)
        return any(lo < b and hi > a for a, b in self.dead)

    def in_shared(self, array):
        lo, hi = self.address(array)
        return any(lo < b and hi > a for (a, b), _ in self.maps.values())

    def mappings(self, p):
        return sum(1 for _, pid in self.maps.values() if pid == p.pid)


class _Tracked:
    """Context of a simulated process."""

    def __init__(self, sim, p):
        self.sim, self.p = sim, p

    def __enter__(self):
        self.prev, self.sim.cur = self.sim.cur, self.p
        self.outer = take_state()
        put_state(self.p.state)
        return self.p

    def __exit__(self, *a):
        self.p.state = take_state()
        put_state(self.outer)
        self.outer = None
        self.sim.cur = self.prev


def inside(sim, p):
    return _Tracked(sim, p)


_installed = False


def install():
    """Put the dispatchers in place; must run before enterprise is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import secrets

    import _posixshmem
    from multiprocessing import resource_tracker, shared_memory

    real_open, real_unlink = _posixshmem.shm_open, _posixshmem.shm_unlink
    real_trunc, real_close = os.ftruncate, os.close
    real_getpid = os.getpid
    real_reg, real_unreg = resource_tracker.register, resource_tracker.unregister

    def sim():
        s = ACTIVE[0]
        return s if s is not None and s.cur is not None else None

    def shm_open(path, flags, mode=0o777):
        s = sim()
        return s.shm_open(path, flags, mode) if s else real_open(path, flags, mode=mode)

    def shm_unlink(path):
        s = sim()
        return s.shm_unlink(path) if s else real_unlink(path)

    def ftruncate(fd, length):
        s = sim()
        if s and fd in s.cur.fds:
            s.step("ftruncate")
        return real_trunc(fd, length)

    def close(fd):
        s = ACTIVE[0]
        if s is not None:
            for p in s.procs.values():
                p.fds.discard(fd)
        return real_close(fd)

    def mapping(fileno, length, *a, **k):
        s = sim()
        if not s or fileno not in s.cur.fds:
            return _mmap.mmap(fileno, length, *a, **k)
        # the standard library destroys the segment when mapping it fails in a process that attaches (see DESIGN.md)
        s.step("mmap" if s.calls[-1:] == ["ftruncate"] else "mmap-attach")
        m = Mapping(fileno, length, *a, **k)
        m.sim_start(s)
        return m

    def getpid():
        s = sim()
        return s.cur.number if s else real_getpid()

    def at_fork(*, before=None, after_in_parent=None, after_in_child=None):
        real_at_fork(before=before or none, after_in_parent=after_in_parent or none, after_in_child=after_in_child or none)
        if after_in_child and getattr(after_in_child, "__module__", None) in MODULES:
            FORK_HOOKS.append(after_in_child)

    def none():
        pass

    real_at_fork, os.register_at_fork = os.register_at_fork, at_fork
    os.getpid = getpid

    def register(name, rtype):
        s = sim()
        return s.register(name) if s and rtype == "shared_memory" else real_reg(name, rtype)

    def unregister(name, rtype):
        s = sim()
        return s.unregister(name) if s and rtype == "shared_memory" else real_unreg(name, rtype)

    def token_hex(n=None):
        s = sim()
        return s.token(n) if s else secrets.token_hex(n)

    shared_memory._posixshmem = types.SimpleNamespace(shm_open=shm_open, shm_unlink=shm_unlink)
    _posixshmem.shm_open, _posixshmem.shm_unlink = shm_open, shm_unlink
    shared_memory.mmap = types.SimpleNamespace(**{**vars(_mmap), "mmap": mapping})
    shared_memory.secrets = types.SimpleNamespace(token_hex=token_hex)
    os.ftruncate, os.close = ftruncate, close
    resource_tracker.register, resource_tracker.unregister = register, unregister
    resource_tracker._resource_tracker.register, resource_tracker._resource_tracker.unregister = register, unregister
