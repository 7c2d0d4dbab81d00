"""A small file system for symbolic runs: directories of files whose names, contents and times may be symbolic.

Only paths below ROOT exist.  Every call is a step; another process may be let in before a given step, unless a
file lock is held (it would wait for it).  Writing or removing outside ROOT is refused (PermissionError), here and
in the concrete twin (symx/replay_fs.py)."""
import builtins
import os
import os.path
import time
import z3

import filelock

from symx import core, rt, tm, vec
from symx.core import SymInt, SymStr, Unsupported
from symx.rt import MODELS, eq, model

ROOT = '/symfs'
T0 = 1700000000 * 10 ** 9


class Entry:
    __slots__ = ('name', 'text', 'mtime')

    def __init__(self, name, text, mtime):
        self.name, self.text, self.mtime = name, text, mtime


class FS:
    def __init__(self, X):
        self.X = X
        self.dirs = {ROOT: []}
        self.now = T0
        self.nwrites = 0
        self.steps = 0
        self.held = []
        self.when = self.cb = None
        self.cache = {}
        self.escaped = False

    # -- for the harness
    def dir(self, name):
        return ROOT + '/' + name

    def interrupt(self, when, fn):
        """fn is run by another process before the when-th step from now"""
        self.when, self.cb, self.fired = self.steps + when, fn, False

    def settle(self):
        """no more interruptions; was there one?"""
        f, self.cb = self.cb is None, None
        return f

    def put(self, d, name, text):
        self.write(d, name, text)

    def names(self, d):
        return [e.name for e in self.dirs.get(d, []) if not rt.call(e.name.endswith, '.lock')]

    # -- mechanics
    def step(self):
        if self.cb is not None and not self.held and self.steps >= self.when:
            fn, self.cb = self.cb, None
            fn()
        self.steps += 1

    def tick(self):
        self.nwrites += 1
        d = self.X.int('fs_dt%d' % self.nwrites, 1, 3 * 10 ** 9)
        self.now = SymInt(core.zi(self.now) + d.z)
        return self.now

    def find(self, d, name):
        for e in self.dirs[d]:
            if eq(e.name, name):
                return e
        return None

    def write(self, d, name, text):
        t = self.tick()
        self.dirs.setdefault(d, [])
        e = self.find(d, name)
        if e is None:
            self.dirs[d].append(Entry(name, text, t))
        else:
            e.text, e.mtime = text, t


def fs():
    return core.ENGINE.fs


def first_text(p):
    """(constant start of the path, the rest as parts)"""
    if not isinstance(p, SymStr):
        return p, []
    us = vec.vunits(p)
    if us is not None:
        n = 0
        while n < len(us) and isinstance(us[n], int):
            n += 1
        return ''.join(map(chr, us[:n])), list(us[n:])
    z = z3.simplify(p.z) if p.z.decl().kind() == z3.Z3_OP_SEQ_CONCAT else p.z
    parts = []

    def flat(t):
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                flat(c)
        else:
            parts.append(t)
    flat(z)
    head = ''
    while parts and z3.is_string_value(parts[0]):
        head += core.unesc(parts.pop(0).as_string())
    return head, parts




def locate(p):
    """('dir', path) | ('name', dir, name) | ('none',) | ('out',)  for a path"""
    s = fs()
    if isinstance(p, os.PathLike):
        p = os.fspath(p)
    head, rest = first_text(p)
    if not rest:
        q = os.path.normpath(head) if head else ''
        if head.endswith('/') and q not in s.dirs and q.startswith(ROOT):
            return ('none',)
        if q in s.dirs:
            return ('dir', q)
        d, n = os.path.split(q)
        if not q.startswith(ROOT + '/'):
            return ('out',)
        return ('name', d, n) if d in s.dirs else ('none', d)
    best = None
    for d in s.dirs:
        if head.startswith(d + '/') and (best is None or len(d) > len(best)):
            best = d
    if best is None:
        if head.startswith(ROOT + '/') and '/' in head[len(ROOT) + 1:]:
            return ('none', None)
        if head.startswith(ROOT + '/'):
            raise Unsupported('a directory with a symbolic name')
        return ('out',)
    tail = head[len(best) + 1:]
    if isinstance(rest[0], int) or vec.vunits(p) is not None:
        name = vec.mk([ord(c) for c in tail] + rest)
    else:
        zs = ([core.zs(tail)] if tail else []) + rest
        name = SymStr(zs[0] if len(zs) == 1 else z3.Concat(*zs))
    if eq(name, '') or eq(name, '.'):
        return ('dir', best)
    if eq(name, '..'):
        return ('dir', os.path.dirname(best))
    if rt.contains(name, '/'):
        s.X.taint('file names with separators')
        if rt.call(name.startswith, '/') or rt.call(name.startswith, '.'):
            raise Unsupported('a path through other directories')
        return ('none', None)
    if rt.contains(name, '\0'):
        raise ValueError('embedded null byte')
    return ('name', best, name)


def ours(p):
    """is the file system model in charge of this path?"""
    if core.ENGINE is None or getattr(core.ENGINE, 'fs', None) is None:
        return False
    if isinstance(p, os.PathLike):
        p = os.fspath(p)
    if isinstance(p, SymStr):
        return True
    return isinstance(p, str) and (p == ROOT or p.startswith(ROOT + '/'))


def refuse(p):
    fs().escaped = True
    raise PermissionError(13, 'Permission denied')


def missing():
    raise FileNotFoundError(2, 'No such file or directory')


@model(os.path.isfile)
def _(path):
    if not ours(path):
        return NotImplemented
    fs().step()
    try:
        w = locate(path)
    except ValueError:
        return False
    return w[0] == 'name' and fs().find(w[1], w[2]) is not None


@model(os.path.isdir)
def _(s):
    if not ours(s):
        return NotImplemented
    fs().step()
    return locate(s)[0] == 'dir'


@model(os.path.exists)
def _(path):
    if not ours(path):
        return NotImplemented
    fs().step()
    w = locate(path)
    return w[0] == 'dir' or w[0] == 'name' and fs().find(w[1], w[2]) is not None


def mkdir(path, parents, exist_ok):
    fs().step()
    w = locate(path)
    if w[0] == 'dir':
        if exist_ok:
            return
        raise FileExistsError(17, 'File exists')
    if w[0] == 'out':
        refuse(path)
    if isinstance(path, SymStr):
        raise Unsupported('making a directory with a symbolic name')
    q = os.path.normpath(path)
    if w[0] == 'name':
        if fs().find(w[1], w[2]) is not None:
            raise FileExistsError(17, 'File exists')
    elif not parents:
        missing()
    while q not in fs().dirs:
        fs().dirs[q] = []
        q = os.path.dirname(q)


@model(os.makedirs)
def _(name, mode=0o777, exist_ok=False):
    return mkdir(name, True, exist_ok) if ours(name) else NotImplemented


@model(os.mkdir)
def _(path, mode=0o777, **k):
    return mkdir(path, False, False) if ours(path) else NotImplemented


@model(os.listdir)
def _(path='.'):
    if not ours(path):
        return NotImplemented
    fs().step()
    w = locate(path)
    if w[0] == 'dir':
        subs = [os.path.basename(d) for d in fs().dirs if os.path.dirname(d) == w[1] and d != ROOT]
        return subs + [e.name for e in fs().dirs[w[1]]]
    if w[0] == 'name' and fs().find(w[1], w[2]) is not None:
        raise NotADirectoryError(20, 'Not a directory')
    missing()


class Stat:
    def __init__(self, e):
        self.e = e

    @property
    def st_mtime_ns(self):
        return self.e.mtime

    @property
    def st_mtime(self):
        return tm.SymFrac(z3.ToReal(core.zi(self.e.mtime)) / 10 ** 9)

    @property
    def st_size(self):
        return rt.call(len, self.e.text)


def stat(path):
    fs().step()
    w = locate(path)
    if w[0] == 'name':
        e = fs().find(w[1], w[2])
        if e is not None:
            return Stat(Entry(e.name, e.text, e.mtime))
    elif w[0] == 'dir':
        raise Unsupported('stat of a directory')
    missing()


@model(os.stat)
def _(path, **k):
    return stat(path) if ours(path) else NotImplemented


@model(os.path.getmtime)
def _(filename):
    return stat(filename).st_mtime if ours(filename) else NotImplemented


@model(os.unlink, os.remove)
def _(path, **k):
    if not ours(path):
        return NotImplemented
    fs().step()
    w = locate(path)
    if w[0] == 'out':
        refuse(path)
    if w[0] == 'dir':
        raise IsADirectoryError(21, 'Is a directory')
    if w[0] == 'name':
        e = fs().find(w[1], w[2])
        if e is not None:
            fs().dirs[w[1]].remove(e)
            return
    missing()


@model(os.rename, os.replace)
def _(src, dst, **k):
    if not ours(src) and not ours(dst):
        return NotImplemented
    fs().step()
    a, b = locate(src), locate(dst)
    if a[0] == 'out' or b[0] == 'out':
        refuse(dst)
    if a[0] != 'name' or b[0] != 'name':
        raise Unsupported('renaming directories')
    e = fs().find(a[1], a[2])
    if e is None:
        missing()
    o = fs().find(b[1], b[2])
    if o is e:
        return
    fs().dirs[a[1]].remove(e)
    if o is not None:
        fs().dirs[b[1]].remove(o)
    fs().dirs[b[1]].append(Entry(b[2], e.text, e.mtime))


@model(time.sleep)
def _(s):
    if core.ENGINE is not None and getattr(core.ENGINE, 'fs', None) is not None:
        fs().step()
        return None
    return NotImplemented


class File:
    """an open text file"""
    __sx_symbolic__ = False

    def __init__(self, d, name, mode, newline):
        self.d, self.name, self.mode, self.newline = d, name, mode, newline
        self.closed = False
        s = fs()
        e = s.find(d, name)
        self.writing = mode[0] in 'wax'
        self.parts = []
        if mode[0] == 'x' and e is not None:
            raise FileExistsError(17, 'File exists')
        if self.writing:
            if e is None:
                s.dirs[d].append(Entry(name, '', s.now))
            elif mode[0] == 'w':
                e.text = ''
        elif e is None:
            missing()
        self.done = False

    def read(self, n=-1):
        if n not in (-1, None):
            raise Unsupported('reading a part of a file')
        fs().step()
        if self.writing or self.closed:
            raise ValueError('not readable')
        if self.done:
            return ''
        self.done = True
        e = fs().find(self.d, self.name)
        if e is None:
            raise Unsupported('reading a file that was removed while open')
        t = e.text
        if self.newline is None and isinstance(t, SymStr) and not isinstance(t, rt.Doc) and \
                rt.contains(t, '\r'):
            fs().X.taint('universal newlines')
            t = rt.deep_conc(t, 'universal newlines')
        if self.newline is None and not isinstance(t, SymStr):
            t = t.replace('\r\n', '\n').replace('\r', '\n')
        return t

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('write() argument must be str, not %s' % type(text).__name__)
        if not self.writing or self.closed:
            raise ValueError('not writable')
        self.parts.append(text)
        return rt.call(len, text)

    def flush(self):
        pass

    def fileno(self):
        raise Unsupported('file descriptors')

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.writing:
            fs().step()
            s = fs()
            e = s.find(self.d, self.name)
            if e is None:
                raise Unsupported('writing a file that was removed while open')
            t = e.text if self.mode[0] == 'a' else ''
            for p in self.parts:
                t = p if isinstance(t, str) and not isinstance(t, SymStr) and t == '' else rt.concat([t, p])
            e.text, e.mtime = t, s.tick()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass


@model(builtins.open)
def _(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not ours(file):
        return NotImplemented
    if 'b' in mode or '+' in mode:
        raise Unsupported('open mode ' + mode)
    fs().step()
    w = locate(file)
    if w[0] == 'out':
        if mode[0] == 'r':
            raise Unsupported('reading another file')
        refuse(file)
    if w[0] == 'dir':
        raise IsADirectoryError(21, 'Is a directory')
    if w[0] == 'none':
        missing()
    return File(w[1], w[2], mode, newline)


class Lock:
    """an exclusive lock on a file, which stays there"""

    def __init__(self, path):
        self.path, self.n = path, 0

    def acquire(self, *a, **k):
        if self.n == 0:
            s = fs()
            s.step()
            w = locate(self.path)
            if w[0] == 'out':
                refuse(self.path)
            if w[0] != 'name':
                missing()
            for d, n in s.held:
                if d == w[1] and eq(n, w[2]):
                    raise RuntimeError('Deadlock')
            if s.find(w[1], w[2]) is None:
                s.dirs[w[1]].append(Entry(w[2], '', s.now))
            self.where = (w[1], w[2])
            s.held.append(self.where)
        self.n += 1
        return self

    def release(self, force=False):
        if self.n:
            self.n -= 1
            if self.n == 0 or force:
                self.n = 0
                fs().held.remove(self.where)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    @property
    def is_locked(self):
        return self.n > 0


@model(filelock.FileLock, filelock.SoftFileLock)
def _(lock_file, *a, **k):
    return Lock(lock_file) if ours(lock_file) else NotImplemented
