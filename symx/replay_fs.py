"""Concrete twin of symx/fsm.py: a real scratch directory; writing outside of it is refused; file times are those of
the model; another process is let in before the given step."""
import builtins
import filelock
import os
import os.path
import shutil
import tempfile
import time

T0 = 1700000000 * 10 ** 9
_real = {}


class FS:
    def __init__(self, X):
        self.X = X
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='symx_fs_'))
        self.now, self.nwrites = T0, 0
        self.steps = 0
        self.depth = 0
        self.held = 0
        self.when = self.cb = None
        self.undo = []
        self.install()

    def dir(self, name):
        return os.path.join(self.root, name)

    def interrupt(self, when, fn):
        self.when, self.cb = self.steps + when, fn

    def settle(self):
        f, self.cb = self.cb is None, None
        return f

    def put(self, d, name, text):
        self.depth += 1
        try:
            os.makedirs(d, exist_ok=True)
            with _real['open'](os.path.join(d, name), 'w', newline='') as fp:
                fp.write(text)
        finally:
            self.depth -= 1
        self.stamp(os.path.join(d, name))

    def names(self, d):
        self.depth += 1
        try:
            return [n for n in _real['listdir'](d) if not n.endswith('.lock')]
        finally:
            self.depth -= 1

    def stamp(self, path):
        self.nwrites += 1
        self.now += self.X.int('fs_dt%d' % self.nwrites, 1)
        os.utime(path, ns=(self.now, self.now))

    def step(self):
        if self.cb is not None and not self.held and self.steps >= self.when:
            fn, self.cb = self.cb, None
            fn()
        self.steps += 1

    def ours(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if not isinstance(p, str):
            return False
        return p == self.root or p.startswith(self.root + '/')

    def guard(self, p):
        """nothing outside of the scratch directory is changed"""
        try:
            p = os.fspath(p)
        except TypeError:
            raise PermissionError(13, 'Permission denied')
        if not isinstance(p, str):
            p = os.fsdecode(p)
        q = os.path.normpath(os.path.join(_real['getcwd'](), p))
        if q != self.root and not q.startswith(self.root + '/'):
            raise PermissionError(13, 'Permission denied')

    def install(self):
        me = self

        def wrap(mod, name, changes=False, two=False, cls=False):
            real = getattr(mod, name)
            _real[name] = real

            def f(*a, **k):
                p = a[0] if a else next(iter(k.values()), '.')
                if changes:
                    me.guard(p)
                    if two:
                        me.guard(a[1])
                if me.depth or not me.ours(p):
                    return real(*a, **k)
                me.step()
                me.depth += 1
                try:
                    return real(*a, **k)
                finally:
                    me.depth -= 1
            setattr(mod, name, f)
            me.undo.append((mod, name, real))
        _real['getcwd'] = os.getcwd
        for n in ('isfile', 'isdir', 'exists', 'getmtime'):
            wrap(os.path, n)
        for n in ('stat', 'listdir'):
            wrap(os, n)
        for n in ('makedirs', 'mkdir', 'unlink', 'remove', 'rmdir'):
            wrap(os, n, True)
        for n in ('rename', 'replace'):
            wrap(os, n, True, True)
        _real['open'] = builtins.open
        builtins.open = self.open
        acq, rel = filelock.FileLock.acquire, filelock.FileLock.release

        def acquire(lock, *a, **k):
            if me.depth or lock.is_locked:
                return acq(lock, *a, **k)
            me.guard(lock.lock_file)
            me.step()
            me.depth += 1
            try:
                r = acq(lock, *a, **k)
            finally:
                me.depth -= 1
            me.held += 1
            return r

        def release(lock, *a, **k):
            was = lock.is_locked
            me.depth += 1
            try:
                return rel(lock, *a, **k)
            finally:
                me.depth -= 1
                if was and not lock.is_locked:
                    me.held -= 1
        filelock.BaseFileLock.acquire = acquire
        filelock.BaseFileLock.release = release
        _real['sleep'] = time.sleep

        def sleep(s):
            if not me.depth:
                me.step()
        time.sleep = sleep

    def open(self, file, mode='r', *a, **k):
        writing = any(c in mode for c in 'wax+')
        if writing:
            self.guard(file)
        if self.depth or not self.ours(file):
            return _real['open'](file, mode, *a, **k)
        self.step()
        fp = _real['open'](file, mode, *a, **k)
        return File(self, fp, file, writing)

    def close(self):
        for mod, name, f in self.undo:
            setattr(mod, name, f)
        shutil.rmtree(self.root, ignore_errors=True)


class File:
    def __init__(self, fs, fp, path, writing):
        self.fs, self.fp, self.path, self.writing = fs, fp, path, writing

    def read(self, *a):
        self.fs.step()
        return self.fp.read(*a)

    def close(self):
        if not self.fp.closed:
            if self.writing:
                self.fs.step()
            self.fp.close()
            if self.writing:
                self.fs.stamp(self.path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.fp)

    def __getattr__(self, n):
        return getattr(self.fp, n)
