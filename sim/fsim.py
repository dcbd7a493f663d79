"""
File-system seam: every file operation of the code under test on a path below
the scenario's root is an *event*.  Events are numbered; a plan says at which
event which fault is injected.  Everything else is passed to the real calls.

Model of a crash: the process is killed.  Completed system calls survive, the
one in flight is either not started, complete, or (for writes) torn at an
arbitrary byte; data still in user-space buffers is lost.  Nothing the dying
process still does (``finally``, ``except``, ``__del__``) reaches the disk.
"""
import builtins
import errno
import io
import os
import random
import shutil


class SimCrash(BaseException):
    """The simulated process was killed."""


class FaultState:
    def __init__(self):
        self.root = None
        self.active = False  # events are counted
        self.n_all = 0
        self.n_mut = 0
        self.faults = []  # [{"on": "mut"|"all", "at": int, "kind": str, "frac": float}]
        self.fired = []
        self.sticky = None
        self.dead = False
        self.order_rng = None  # permutes directory listings
        self.log = None  # list of event strings, or None
        self.short_rng = None
        self.on_event = None  # callable(kind, path), for the thread scheduler
        self.cuts = None  # set of mutating-event indices to call 'observer' at
        self.observer = None
        self.in_observer = False


S = FaultState()

_real = {}
MUTATING = {"create", "write", "rename", "remove", "rmdir", "mkdir", "truncate"}
ERRNO = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "eacces": errno.EACCES,
    "emfile": errno.EMFILE,
    "torn_eio": errno.EIO,
    "torn_enospc": errno.ENOSPC,
}


def reset(root=None):
    S.__init__()
    S.root = root


def arm(faults=(), log=None):
    """Start counting events, with these faults planned."""
    S.active = True
    S.n_all = S.n_mut = 0
    S.faults = [dict(f) for f in faults]
    S.fired = []
    S.sticky = None
    S.dead = False
    S.log = log


def disarm():
    """Stop counting; returns (n_all, n_mut, fired)."""
    S.active = False
    S.sticky = None
    S.dead = False
    S.faults = []
    return S.n_all, S.n_mut, S.fired


def _path(p, dir_fd=None):
    if isinstance(p, int):
        try:
            return _real["readlink"](f"/proc/self/fd/{p}")
        except OSError:
            return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        if dir_fd is not None:
            base = _path(dir_fd)
            if base is None:
                return None
            return os.path.normpath(base + "/" + p)
        if S.root is None:
            return None
        p = os.path.join(os.getcwd(), p)
    return os.path.normpath(p)


def _inside(p):
    return p is not None and S.root is not None and (p == S.root or p.startswith(S.root + "/"))


def _rel(p):
    return p[len(S.root):] or "/"


def event(kind, path, nbytes=None):
    """
    Account for one file operation.

    Returns None (go on), or ("torn", k, exc): write k bytes, then raise; or
    ("after", exc): do it, then raise.
    """
    if not S.active or S.in_observer:
        return None
    if S.dead:
        raise SimCrash("dead")
    mut = kind in MUTATING
    i_all, i_mut = S.n_all, S.n_mut
    if mut and S.observer is not None and (S.cuts is None or i_mut in S.cuts):
        S.in_observer = True
        try:
            S.observer(i_mut, kind, _rel(path))
        finally:
            S.in_observer = False
    S.n_all += 1
    if mut:
        S.n_mut += 1
    if S.log is not None:
        S.log.append(f"{kind} {_rel(path)}" + (f" {nbytes}" if nbytes is not None else ""))
    if S.on_event is not None:
        S.on_event(kind, path)
    if S.sticky is not None and (kind in ("write", "create", "mkdir")):
        if S.log is not None:
            S.log.append(f"  !{S.sticky}")
        raise OSError(ERRNO[S.sticky], os.strerror(ERRNO[S.sticky]), path)
    for f in S.faults:
        if f.get("done"):
            continue
        if f["at"] != (i_mut if f["on"] == "mut" else i_all) or (f["on"] == "mut" and not mut):
            continue
        f["done"] = True
        k = f["kind"]
        S.fired.append({"kind": k, "op": kind, "path": _rel(path), "at": f["at"]})
        if S.log is not None:
            S.log.append(f"  !{k}")
        if k.startswith("crash"):
            if k == "crash_torn" and kind == "write":
                return ("torn", int(nbytes * f.get("frac", 0.5)), SimCrash(k))
            if k == "crash_after":
                return ("after", SimCrash(k))
            S.dead = True
            raise SimCrash(k)
        if k == "enospc_sticky":
            S.sticky = "enospc"
            if kind in ("write", "create", "mkdir"):
                if kind == "write":
                    return ("torn", int(nbytes * f.get("frac", 0.5)), OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path))
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            return None
        if k.startswith("torn_") and kind == "write":
            e = ERRNO[k]
            return ("torn", int(nbytes * f.get("frac", 0.5)), OSError(e, os.strerror(e), path))
        e = ERRNO[k]
        raise OSError(e, os.strerror(e), path)
    return None


class SimRaw(io.FileIO):
    """Unbuffered file whose writes are events."""

    def __init__(self, path, mode, npath):
        super().__init__(path, mode)
        self._np = npath

    def write(self, b):
        n = memoryview(b).nbytes
        if not n:
            return 0
        if S.dead:
            return n  # the process is dead: nothing reaches the disk
        act = event("write", self._np, n)
        if act is None:
            if S.short_rng is not None and S.active and n > 1 and S.short_rng.random() < 0.3:
                return super().write(memoryview(b).cast("B")[: S.short_rng.randrange(1, n)])
            return super().write(b)
        if act[0] == "torn":
            k = act[1]
            mv = memoryview(b).cast("B")[:k]
            while len(mv):
                mv = mv[super().write(mv):]
        else:
            mv = memoryview(b).cast("B")
            while len(mv):
                mv = mv[super().write(mv):]
        exc = act[-1]
        if isinstance(exc, SimCrash):
            S.dead = True
        raise exc

    def truncate(self, size=None):
        if S.dead:
            raise SimCrash("dead")
        act = event("truncate", self._np)
        r = super().truncate(size)
        _after(act)
        return r


def _after(act):
    if act is not None:
        exc = act[-1]
        if isinstance(exc, SimCrash):
            S.dead = True
        raise exc


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _path(file) if S.active and not isinstance(file, int) else None
    if not _inside(p) or S.in_observer:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not any(c in mode for c in "wax+"):
        act = event("open", p)
        f = _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        _after(act)
        return f
    act = event("create", p)
    raw = SimRaw(file, mode.replace("b", "").replace("t", ""), p)
    try:
        _after(act)
    except BaseException:
        raw.close()
        raise
    if buffering == 0:
        return raw
    size = 8192 if buffering in (-1, 1) else buffering
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline)


def _wrap2(name, kind):
    real = _real[name]

    def f(src, dst, *a, src_dir_fd=None, dst_dir_fd=None, **k):
        kw = {}
        if src_dir_fd is not None:
            kw["src_dir_fd"] = src_dir_fd
        if dst_dir_fd is not None:
            kw["dst_dir_fd"] = dst_dir_fd
        p = _path(src, src_dir_fd) if S.active else None
        if not _inside(p):
            return real(src, dst, *a, **kw, **k)
        act = event(kind, p)
        r = real(src, dst, *a, **kw, **k)
        _after(act)
        return r

    f.__name__ = name
    return f


def _wrap1(name, kind):
    real = _real[name]

    def f(path, *a, dir_fd=None, **k):
        kw = {} if dir_fd is None else {"dir_fd": dir_fd}
        p = _path(path, dir_fd) if S.active else None
        if not _inside(p):
            return real(path, *a, **kw, **k)
        act = event(kind, p)
        r = real(path, *a, **kw, **k)
        _after(act)
        return r

    f.__name__ = name
    return f


class _Scan:
    """Permuted directory iterator."""

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _order(entries, key):
    entries = sorted(entries, key=key)
    if S.order_rng is not None:
        S.order_rng.shuffle(entries)
    return entries


def sim_scandir(path=None):
    p = _path("." if path is None else path) if S.root is not None else None
    if not _inside(p):
        return _real["scandir"]() if path is None else _real["scandir"](path)
    act = event("scandir", p)
    with _real["scandir"](path) as it:
        entries = list(it)
    _after(act)
    return _Scan(_order(entries, lambda e: e.name))


def sim_listdir(path=None):
    p = _path("." if path is None else path) if S.root is not None else None
    if not _inside(p):
        return _real["listdir"]() if path is None else _real["listdir"](path)
    act = event("listdir", p)
    r = _real["listdir"](path)
    _after(act)
    return _order(r, lambda e: e)


def install():
    """Replace the file-system calls; must run before oups is imported."""
    for n in ("rename", "replace", "remove", "unlink", "rmdir", "mkdir", "scandir", "listdir", "readlink", "truncate"):
        _real[n] = getattr(os, n)
    _real["open"] = builtins.open
    builtins.open = io.open = sim_open
    os.rename, os.replace = _wrap2("rename", "rename"), _wrap2("replace", "rename")
    os.remove, os.unlink = _wrap1("remove", "remove"), _wrap1("unlink", "remove")
    os.rmdir, os.mkdir = _wrap1("rmdir", "rmdir"), _wrap1("mkdir", "mkdir")
    os.scandir, os.listdir = sim_scandir, sim_listdir
    # Copies go through reads and writes, which are events.
    shutil._USE_CP_SENDFILE = False
    # 'shutil' decided at import, from the identity of these functions, whether
    # directory-descriptor based removal is possible.
    for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
        for n in ("rename", "remove", "unlink", "rmdir", "mkdir", "scandir", "listdir"):
            if _real[n] in s:
                s.add(getattr(os, n))


def set_order(seed):
    S.order_rng = None if seed is None else random.Random(seed)


def set_short(seed):
    S.short_rng = None if seed is None else random.Random(seed)
