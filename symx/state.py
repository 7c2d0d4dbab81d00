"""Snapshot / restore of the package's module- and class-level mutable containers, so that every
explored path starts from the state the modules have right after import."""
import sys
import types


class Snapshot:
    def __init__(self, prefixes=('oidcmsg', 'harness')):
        self.items = []
        self.attrs = []
        self.seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is None or name.split('.')[0] not in prefixes:
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith('__'):
                    continue
                self._walk(v, prefixes)

    def _walk(self, v, prefixes, depth=0):
        if id(v) in self.seen or depth > 12:
            return
        t = type(v)
        if t in (dict, list, set):
            self.seen.add(id(v))
            self.items.append((v, t(v)))
            for x in (list(v.values()) if t is dict else list(v)):
                self._walk(x, prefixes, depth + 1)
        elif t is tuple:
            for x in v:
                self._walk(x, prefixes, depth + 1)
        elif isinstance(v, type) and v.__module__.split('.')[0] in prefixes:
            self.seen.add(id(v))
            own = {k: x for k, x in vars(v).items() if not (
                k.startswith('__') or k in ('_abc_impl',))}
            self.attrs.append((v, own))
            for x in own.values():
                self._walk(x, prefixes, depth + 1)
        elif isinstance(v, (types.FunctionType, staticmethod, classmethod)):
            f = v.__func__ if not isinstance(v, types.FunctionType) else v
            for x in (f.__defaults__ or ()):
                self._walk(x, prefixes, depth + 1)
            for x in (f.__kwdefaults__ or {}).values():
                self._walk(x, prefixes, depth + 1)

    def restore(self):
        for v, orig in self.items:
            t = type(v)
            if t is dict:
                dict.clear(v)
                dict.update(v, orig)
            elif t is list:
                v[:] = orig
            else:
                set.clear(v)
                set.update(v, orig)
        for c, own in self.attrs:
            cur = vars(c)
            for k, x in own.items():
                if cur.get(k) is not x:
                    setattr(c, k, x)
            for k in [k for k in cur if k not in own and not k.startswith('__') and
                      k not in ('_abc_impl',)]:
                delattr(c, k)
