"""Runtime for rewritten modules: every operation whose operands may be symbolic comes through here."""
import builtins
import collections
import collections.abc
import copy
import functools
import itertools
import json
import logging
import operator
import types
import z3

from symx import core, vec
from symx.core import (Control, Cut, Infeasible, SymInt, SymStr, Unsupported, concretise, eng, eqz,
                       is_sym, zi, zs)

INSTRUMENTED = ('oidcmsg', 'harness')


def enter(qualname, modname):
    e = core.ENGINE
    if e is not None:
        e.stats.functions.add(modname + ':' + qualname)


# ------------------------------------------------------------------ deep symbolic test


def deep_sym(x, depth=0, seen=None):
    if isinstance(x, (SymStr, SymInt)):
        return True
    t = type(x)
    if t in (str, int, bool, float, bytes, type(None), type, types.FunctionType, types.ModuleType):
        return False
    if getattr(x, '__sx_symbolic__', False):
        return True
    if depth > 8:
        return False
    if t in (list, tuple, set, frozenset) or isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return any(deep_sym(k, depth + 1) or deep_sym(v, depth + 1) for k, v in x.items())
    if isinstance(x, (collections.abc.KeysView, collections.abc.ValuesView,
                      collections.abc.ItemsView)):
        try:
            return any(deep_sym(i, depth + 1) for i in x)
        except Exception:
            return False
    d = getattr(x, '_dict', None)
    if type(d) is dict:
        return deep_sym(d, depth + 1)
    return False


def has_sym_key(d):
    for k in d:
        if type(k) is not str and isinstance(k, (SymStr, SymInt, tuple)) and deep_sym(k):
            return True
    return False


MISSING = object()


def find_key(d, k):
    """the key object already in mapping/set `d` that equals `k`, or MISSING (forks)"""
    if not deep_sym(k):
        if k.__class__ in (str, int, bool, type(None), tuple, float, bytes) or True:
            try:
                if k in d:
                    # stored key object identity is irrelevant for concrete keys
                    return k
            except TypeError:
                raise
        for kk in d:
            if isinstance(kk, (SymStr, SymInt, tuple)) and type(kk) not in (str, int) and deep_sym(kk):
                if eq(kk, k):
                    return kk
        return MISSING
    for kk in d:
        if kk is k:
            return kk
    # one query for "no key equals k" first: the common case for arbitrary names
    conds, cands = [], []
    for kk in d:
        r = eqz(kk, k)
        if r is True:
            return kk
        if r is None:
            if eq(kk, k):
                return kk
            continue
        if r is not False:
            conds.append(r)
            cands.append(kk)
    if not conds:
        return MISSING
    e = core.ENGINE
    if len(conds) > 1:
        if not e.branch(z3.Or(*conds)):
            return MISSING
    for c, kk in zip(conds[:-1], cands[:-1]):
        if e.branch(c):
            return kk
    if len(conds) == 1:
        return cands[0] if e.branch(conds[0]) else MISSING
    return cands[-1]


# ------------------------------------------------------------------ comparisons / operators


def eq(a, b):
    r = eqz(a, b)
    if r is None:
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (
                deep_sym(a) or deep_sym(b)):
            return set_le(a, b) and set_le(b, a)
        if type(a) is dict and type(b) is dict:
            return dict_eq(a, b)
        return a == b
    if r is True or r is False:
        return r
    return core.ENGINE.branch(r)


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    for k, v in a.items():
        kk = find_key(b, k)
        if kk is MISSING:
            return False
        if not eq(v, b[kk]):
            return False
    return True


def ne(a, b):
    if eqz(a, b) is None and not isinstance(a, (dict, set, frozenset)):
        return a != b
    return not eq(a, b)


def set_le(a, b):
    return all(contains(b, x) for x in a)


def _is_set(x):
    return isinstance(x, (set, frozenset, collections.abc.KeysView, type({}.keys())))


def _setcmp(a, b):
    return _is_set(a) and _is_set(b) and (deep_sym(a) or deep_sym(b))


def lt(a, b):
    if _setcmp(a, b):
        return len(a) < len(b) and set_le(a, b)
    return a < b


def le(a, b):
    if _setcmp(a, b):
        return set_le(a, b)
    return a <= b


def gt(a, b):
    if _setcmp(a, b):
        return len(a) > len(b) and set_le(b, a)
    return a > b


def ge(a, b):
    if _setcmp(a, b):
        return set_le(b, a)
    return a >= b


def sub(a, b):
    if _setcmp(a, b):
        return {x for x in a if not contains(b, x)}
    return a - b


def and_(a, b):
    if _setcmp(a, b):
        return {x for x in a if contains(b, x)}
    return a & b


def or_(a, b):
    if _setcmp(a, b):
        r = set(a)
        for x in b:
            if not contains(a, x):
                r.add(x)
        return r
    if isinstance(a, dict) and isinstance(b, dict) and (has_sym_key(a) or has_sym_key(b)):
        r = dict(a)
        for k, v in b.items():
            setitem(r, k, v)
        return r
    return a | b


def xor(a, b):
    if _setcmp(a, b):
        return {x for x in a if not contains(b, x)} | {x for x in b if not contains(a, x)}
    return a ^ b


def mod(a, b):
    if isinstance(a, str):
        if isinstance(a, SymStr) or deep_sym(b) or _formats_instrumented(b):
            return percent(a, b)
    return a % b


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Mod': operator.imod,
        'FloorDiv': operator.ifloordiv, 'Div': operator.itruediv, 'BitOr': operator.ior,
        'BitAnd': operator.iand, 'BitXor': operator.ixor, 'Pow': operator.ipow,
        'LShift': operator.ilshift, 'RShift': operator.irshift, 'MatMult': operator.imatmul}


def aug(op, a, b):
    if op == 'Mod' and isinstance(a, str):
        return mod(a, b)
    if op in ('Sub', 'BitOr', 'BitAnd', 'BitXor') and _setcmp(a, b):
        r = {'Sub': sub, 'BitOr': or_, 'BitAnd': and_, 'BitXor': xor}[op](a, b)
        if isinstance(a, set):
            a.clear()
            set.update(a, r)
            return a
        return r
    if op == 'Add' and isinstance(b, SymStr) and type(a) is str:
        return a + b
    return _AUG[op](a, b)


def augitem(op, c, k, v):
    setitem(c, k, aug(op, getitem(c, k), v))


def in_(item, container):
    return contains(container, item)


def contains(c, x):
    if isinstance(c, SymStr) or (type(c) is str and isinstance(x, SymStr)):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand, not " +
                            type(x).__name__)
        us = vec.vec_pair(c, x)
        if us is not None:
            return vec.contains(*us)
        return core.ENGINE.has_text(zs(c), x.z if isinstance(x, SymStr) else x)
    t = type(c)
    if t in (list, tuple, collections.deque) or t in (types.GeneratorType, map, filter, zip):
        if t in (list, tuple):
            if type(x) is str and len(c) > 8 and all(type(i) is str for i in c):
                return x in c
            conds, rest = [], False
            for i in c:
                r = eqz(i, x)
                if r is True:
                    if not conds:
                        return True
                    conds.append(z3.BoolVal(True))
                elif r is None:
                    rest = True
                elif r is not False:
                    conds.append(r)
            if not rest:
                if not conds:
                    return False
                return core.ENGINE.branch(conds[0] if len(conds) == 1 else z3.Or(*conds))
        for i in c:
            if eq(i, x):
                return True
        return False
    if t in (set, frozenset) and isinstance(x, SymStr) and len(c) > 8:
        cs = [i for i in c if type(i) is str]
        if len(cs) == len(c) and all(len(i) == 1 for i in cs):
            return core.ENGINE.branch(_charset(x.z, cs))
    if isinstance(c, dict) and _native(c, '__contains__') or t in (set, frozenset, type({}.keys())):
        if deep_sym(x):
            _hashable(x)
            if isinstance(x, (SymStr, SymInt, tuple)):
                conds = []
                for i in c:
                    if i is x:
                        return True
                    r = eqz(i, x)
                    if r is True:
                        return True
                    if r is None:
                        return find_key(c, x) is not MISSING
                    if r is not False:
                        conds.append(r)
                if not conds:
                    return False
                return core.ENGINE.branch(conds[0] if len(conds) == 1 else z3.Or(*conds))
        return find_key(c, x) is not MISSING if t is not type({}.keys()) or deep_sym(c) else x in c
    if t is type({}.values()):
        return contains(list(c), x)
    if isinstance(c, collections.abc.KeysView):
        return contains(list(c), x)
    f = getattr(t, '__contains__', None)
    if f is not None and isinstance(f, types.FunctionType):
        return bool(f(c, x))
    if deep_sym(x) or deep_sym(c):
        if f is None and hasattr(t, '__iter__'):
            for i in c:
                if eq(i, x):
                    return True
            return False
        raise Unsupported('in %s' % t)
    return x in c


def _charset(z, cs):
    pts = sorted(ord(i) for i in cs)
    runs, s, p = [], pts[0], pts[0]
    for q in pts[1:] + [None]:
        if q is not None and q == p + 1:
            p = q
            continue
        runs.append((s, p))
        s = p = q
    code = z3.StrToCode(z)
    return z3.And(z3.Length(z) == 1, z3.Or(*[z3.And(code >= a, code <= b) for a, b in runs]))


def _hashable(x):
    if isinstance(x, (list, dict, set)):
        raise TypeError("unhashable type: '%s'" % type(x).__name__)


def _native(c, name):
    """container `c` uses dict's own implementation of `name`"""
    return getattr(type(c), name, None) is getattr(dict, name)


def slice(a, b, c):
    return builtins.slice(a, b, c)


def getitem(c, k):
    if isinstance(c, SymStr):
        return str_getitem(c, k)
    t = type(c)
    if isinstance(c, dict) and _native(c, '__getitem__'):
        if deep_sym(k) or has_sym_key(c):
            _hashable(k)
            kk = find_key(c, k)
            if kk is MISSING:
                m = getattr(t, '__missing__', None)
                if m:
                    return m(c, k)
                raise KeyError(k)
            return c[kk]
        return c[k]
    if t is types.MappingProxyType:
        return getitem(dict(c), k)
    if t in (list, tuple) or isinstance(c, (list, tuple)):
        if isinstance(k, SymInt):
            n = len(c)
            for i in range(-n, n):
                if k == i:
                    return c[i]
            raise IndexError('list index out of range')
        if isinstance(k, builtins.slice) and deep_sym([k.start, k.stop, k.step]):
            return c[_conc_slice(k, len(c))]
        return c[k]
    if type(c) is str and (isinstance(k, SymInt) or isinstance(k, builtins.slice) and deep_sym(
            [k.start, k.stop, k.step])):
        return str_getitem(SymStr(zs(c), len(c)), k)
    return c[k]


def _conc_slice(k, n):
    def fix(v):
        if isinstance(v, SymInt):
            for i in range(-n, n + 1):
                if v == i:
                    return i
            return n + 1 if v > n else -n - 1
        return v
    return builtins.slice(fix(k.start), fix(k.stop), fix(k.step))


def setitem_v(v, c, k):
    setitem(c, k, v)


def setitem(c, k, v):
    if isinstance(c, dict) and _native(c, '__setitem__'):
        if deep_sym(k) or has_sym_key(c):
            _hashable(k)
            kk = find_key(c, k)
            if kk is not MISSING:
                dict.__setitem__(c, kk, v)
                return
        dict.__setitem__(c, k, v)
        return
    if type(c) is list and isinstance(k, SymInt):
        n = len(c)
        for i in range(-n, n):
            if k == i:
                c[i] = v
                return
        raise IndexError('list assignment index out of range')
    c[k] = v


def delitem(c, k):
    if isinstance(c, dict) and _native(c, '__delitem__'):
        if deep_sym(k) or has_sym_key(c):
            kk = find_key(c, k)
            if kk is MISSING:
                raise KeyError(k)
            dict.__delitem__(c, kk)
            return
    del c[k]


def mkdict(pairs):
    r = {}
    for k, v in pairs:
        setitem(r, k, v)
    return r


def mergedict(*parts):
    r = {}
    for star, p in parts:
        if star:
            for k in p.keys():
                setitem(r, k, p[k])
        else:
            setitem(r, p[0], p[1])
    return r


def mkset(items):
    r = set()
    for i in items:
        if deep_sym(i) or any(isinstance(x, (SymStr, SymInt)) for x in r):
            _hashable(i)
            if find_key(r, i) is not MISSING:
                continue
        r.add(i)
    return r


# ------------------------------------------------------------------ strings


def _len(s):
    return z3.Length(zs(s))


def str_getitem(s, k):
    if isinstance(s, vec.SymVec):
        return vec.getitem(s, k)
    if isinstance(k, builtins.slice):
        if isinstance(s, Doc) and s.kind == 'time' and k.step in (None, 1) and k.start in (None, 0) \
                and type(k.stop) is int and k.stop >= 0 and len(s.meta) > 3 and k.stop >= s.meta[3]:
            return s        # all of a text of known length
        if k.step not in (None, 1):
            chars = s.chars()
            return join('', chars[k])
        L = z3.Length(s.z)

        def norm(v, dflt):
            if v is None:
                return dflt
            if isinstance(v, SymInt):
                z = v.z
                neg = z3.If(L + z < 0, z3.IntVal(0), L + z)
                return z3.If(z < 0, neg, z)
            if v < 0:
                return z3.If(L + v < 0, z3.IntVal(0), L + v)
            return z3.IntVal(v)
        a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, L)
        n = z3.If(b > a, b - a, z3.IntVal(0))
        ml = s.maxlen
        if ml is not None and isinstance(k.start, int) and not isinstance(k.start, SymInt) and \
                k.start >= 0:
            ml = max(ml - k.start, 0)
        return SymStr(z3.simplify(z3.SubString(s.z, a, n)), ml)
    z = zi(k)
    L = z3.Length(s.z)
    if not core.ENGINE.branch(z3.And(z < L, z >= -L)):
        raise IndexError('string index out of range')
    if isinstance(k, SymInt):
        z = z3.If(z < 0, L + z, z)
    elif k < 0:
        z = L + z
    return SymStr(z3.simplify(z3.SubString(s.z, z, 1)), 1)


def to_str(x):
    """str(x)"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return SymStr(z3.If(x.z >= 0, z3.IntToStr(x.z),
                            z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.z))), meta=('int', x))
    f = type(x).__str__
    if isinstance(f, types.FunctionType) and f.__module__.split('.')[0] in INSTRUMENTED:
        return f(x)
    h = getattr(x, '__sx_str__', None)
    if h:
        return h()
    if deep_sym(x):
        return opaque('formatted')
    return str(x)


def opaque(what):
    """A string whose content the encoding does not track (only used for messages and logs)."""
    e = core.ENGINE
    return SymStr(z3.String(e.fresh('opaque')), meta=('opaque', what))


def _formats_instrumented(b):
    items = b if isinstance(b, tuple) else (b,)
    for i in items:
        f = type(i).__str__
        if isinstance(f, types.FunctionType) and f.__module__.split('.')[0] in INSTRUMENTED:
            return True
    return False


def concat(parts):
    parts = [p for p in parts if not (type(p) is str and p == '')]
    if not parts:
        return ''
    if len(parts) == 1:
        return parts[0]
    if all(type(p) is str for p in parts):
        return ''.join(parts)
    us = vec.vec_pair(*parts)
    if us is not None:
        return vec.mk([u for p in us for u in p])
    ml = 0
    for p in parts:
        m = p.maxlen if isinstance(p, SymStr) else len(p)
        ml = None if (ml is None or m is None) else ml + m
    return SymStr(z3.Concat(*[zs(p) for p in parts]), ml)


def percent(fmt, args):
    import re
    if isinstance(fmt, SymStr):
        return opaque('% format')
    single = not isinstance(args, tuple)
    seq = (args,) if single else args
    out, i, n = [], 0, 0
    spec = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<w>\d+|\*)?(\.(?P<p>\d+|\*))?(?P<t>[diouxXeEfFgGcrsa%])')
    pos = 0
    while True:
        j = fmt.find('%', pos)
        if j < 0:
            out.append(fmt[pos:])
            break
        out.append(fmt[pos:j])
        m = spec.match(fmt, j)
        if not m:
            raise ValueError('unsupported format character')
        pos = m.end()
        t = m.group('t')
        if t == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            v = getitem(args, m.group('key'))
        else:
            if n >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[n]
            n += 1
        plain = not m.group('flags') and not m.group('w') and m.group('p') is None
        if t == 's' and plain:
            out.append(to_str(v))
        elif t in 'di' and plain:
            if isinstance(v, SymInt):
                out.append(to_str(v))
            elif getattr(v, '__sx_symbolic__', False):
                out.append(to_str(call(int, v)))
            elif isinstance(v, str):
                raise TypeError('%%%s format: a real number is required, not str' % t)
            else:
                out.append(('%' + t) % v)
        elif t == 'c' and plain and isinstance(v, SymStr):
            if not core.ENGINE.branch(z3.Length(v.z) == 1):
                raise TypeError('%c requires int or char')
            out.append(v)
        elif deep_sym(v):
            out.append(opaque('format'))
        else:
            out.append(m.group(0) % v)
    if n < len(seq) and not (single and isinstance(args, dict)):
        if not single or n == 0 and not isinstance(args, (dict, collections.abc.Mapping)):
            raise TypeError('not all arguments converted during string formatting')
    return concat(out)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            out.append(opaque('repr') if deep_sym(v) else repr(v) if conv == 114 else ascii(v))
        elif spec == '' or spec == 's' and isinstance(v, str):
            out.append(to_str(v))
        elif deep_sym(v):
            out.append(opaque('format spec'))
        else:
            out.append(format(v, spec))
    return concat(out)


def str_format(s, *args, **kw):
    import string
    if isinstance(s, SymStr):
        return opaque('format')
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        first, rest = string._string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else getitem(v, name)
        if conv == 'r' or conv == 'a':
            v = opaque('repr') if deep_sym(v) else repr(v)
        if spec:
            out.append(opaque('format spec') if deep_sym(v) else format(v, spec))
        else:
            out.append(to_str(v))
    return concat(out)


def join(sep, items):
    items = list(items)
    for n, i in enumerate(items):
        if not isinstance(i, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (
                n, type(i).__name__))
    out = []
    for n, i in enumerate(items):
        if n:
            out.append(sep)
        out.append(i)
    r = concat(out)
    if isinstance(r, SymStr) and r.meta is None:
        r.meta = ('join', sep, items)
    return r


SPLIT_MAX = 6


def split(s, sep=None, maxsplit=-1):
    e = core.ENGINE
    if isinstance(s, SymStr) and s.meta and s.meta[0] == 'join' and type(sep) is str and \
            s.meta[1] == sep and maxsplit == -1 and len(s.meta[2]) > 1:
        # splitting what was joined with the same separator: split each item
        out = []
        for it in s.meta[2]:
            out.extend(split(it, sep) if isinstance(it, SymStr) else it.split(sep))
        return out
    if sep is None:
        return _split_ws(s, maxsplit)
    if isinstance(sep, SymStr):
        if not sep:
            raise ValueError('empty separator')
    elif sep == '':
        raise ValueError('empty separator')
    if type(sep) is str and len(sep) == 1 and isinstance(s, SymStr) and not isinstance(s, Doc) and \
            z3.is_app_of(s.z, z3.Z3_OP_SEQ_CONCAT):
        # a one-character separator: the parts of a concatenation can be split one by one
        parts, todo = [], [s.z]
        while todo:
            z = todo.pop()
            if z3.is_app_of(z, z3.Z3_OP_SEQ_CONCAT):
                todo.extend(reversed(z.children()))
            else:
                parts.append(z)
        out, last = [], []
        for i, z in enumerate(parts):
            if z3.is_string_value(z):
                t = core.unesc(z.as_string())
                p = t.split(sep, maxsplit)
            else:
                p = split(SymStr(z, s.maxlen), sep, maxsplit)
            last.append(p[0])
            for q in p[1:]:
                out.append(concat(last))
                last = [q]
            if maxsplit >= 0:
                maxsplit -= len(p) - 1
                if maxsplit == 0:
                    last.extend(core.unesc(r.as_string()) if z3.is_string_value(r) else SymStr(
                        r, s.maxlen) for r in parts[i + 1:])
                    break
        out.append(concat(last))
        return out
    out, cur, n = [], (s if isinstance(s, SymStr) else SymStr(zs(s), len(s))), 0
    ls = z3.Length(zs(sep))
    while maxsplit < 0 or n < maxsplit:
        if not e.has_text(cur.z, sep.z if isinstance(sep, SymStr) else sep):
            break
        if n >= SPLIT_MAX:
            e.stats.note('cut: more than %d separators' % SPLIT_MAX)
            raise Cut('split')
        i = z3.IndexOf(cur.z, zs(sep), 0)
        out.append(SymStr(z3.SubString(cur.z, 0, i), cur.maxlen))
        cur = SymStr(z3.SubString(cur.z, i + ls, z3.Length(cur.z) - i - ls), cur.maxlen)
        n += 1
    out.append(cur)
    return out


def _is_ws(ch):
    if not isinstance(ch, SymStr):
        return z3.BoolVal(ch.isspace())
    c = z3.StrToCode(ch.z)
    return z3.And(z3.Length(ch.z) == 1, z3.Or(
        z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 32), c == 0x85, c == 0xa0, c == 0x1680,
        z3.And(c >= 0x2000, c <= 0x200a), c == 0x2028, c == 0x2029, c == 0x202f, c == 0x205f,
        c == 0x3000))


def _split_ws(s, maxsplit=-1):
    out, cur = [], []
    chars = s.chars()
    for i, ch in enumerate(chars):
        if core.ENGINE.branch(_is_ws(ch)):
            if cur:
                out.append(concat(cur))
                cur = []
                if 0 <= maxsplit <= len(out):
                    rest = chars[i + 1:]
                    rest = concat(rest)
                    return out + ([lstrip(rest)] if len(rest) else [])
        else:
            cur.append(ch)
    if cur:
        out.append(concat(cur))
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    parts = split(s, sep)
    if len(parts) - 1 <= maxsplit:
        return parts
    k = len(parts) - maxsplit
    return [join(sep, parts[:k])] + parts[k:]


def partition(s, sep):
    p = split(s, sep, 1)
    return (p[0], sep, p[1]) if len(p) == 2 else (p[0], '', '')


def rpartition(s, sep):
    p = rsplit(s, sep, 1)
    return (p[0], sep, p[1]) if len(p) == 2 else ('', '', p[0])


def _strip_pred(chars):
    if chars is None:
        return _is_ws
    if isinstance(chars, SymStr):
        return lambda c: z3.Contains(chars.z, c.z)
    return lambda c: _charset(c.z, list(chars)) if chars else z3.BoolVal(False)


def lstrip(s, chars=None):
    if not isinstance(s, SymStr):
        return s.lstrip(chars)
    p, cur, n = _strip_pred(chars), s, 0
    while True:
        if not core.ENGINE.branch(z3.Length(cur.z) > 0):
            return cur
        first = SymStr(z3.SubString(cur.z, 0, 1), 1)
        if not core.ENGINE.branch(p(first)):
            return cur
        n += 1
        if n > 8:
            raise Cut('lstrip')
        cur = SymStr(z3.simplify(z3.SubString(cur.z, 1, z3.Length(cur.z) - 1)), cur.maxlen)


def rstrip(s, chars=None):
    if not isinstance(s, SymStr):
        return s.rstrip(chars)
    p, cur, n = _strip_pred(chars), s, 0
    while True:
        L = z3.Length(cur.z)
        if not core.ENGINE.branch(L > 0):
            return cur
        last = SymStr(z3.SubString(cur.z, L - 1, 1), 1)
        if not core.ENGINE.branch(p(last)):
            return cur
        n += 1
        if n > 8:
            raise Cut('rstrip')
        cur = SymStr(z3.simplify(z3.SubString(cur.z, 0, L - 1)), cur.maxlen)


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def startswith(s, p, start=0, end=None):
    if start or end is not None:
        s = getitem(s, builtins.slice(start, end))
    if isinstance(p, tuple):
        conds = [z3.PrefixOf(zs(x), zs(s)) for x in p]
        return core.ENGINE.branch(z3.Or(*conds)) if conds else False
    if not isinstance(p, str):
        raise TypeError('startswith first arg must be str or a tuple of str')
    return core.ENGINE.branch(z3.PrefixOf(zs(p), zs(s)))


def endswith(s, p, start=0, end=None):
    if start or end is not None:
        s = getitem(s, builtins.slice(start, end))
    if isinstance(p, tuple):
        conds = [z3.SuffixOf(zs(x), zs(s)) for x in p]
        return core.ENGINE.branch(z3.Or(*conds)) if conds else False
    if not isinstance(p, str):
        raise TypeError('endswith first arg must be str or a tuple of str')
    return core.ENGINE.branch(z3.SuffixOf(zs(p), zs(s)))


def removeprefix(s, p):
    if startswith(s, p):
        return getitem(s, builtins.slice(call(len, p), None))
    return s


def removesuffix(s, p):
    if p and endswith(s, p):
        return SymStr(z3.SubString(zs(s), 0, _len(s) - _len(p)))
    return s


def find(s, sub_, start=0, end=None):
    off = 0
    if start or end is not None:
        if not (isinstance(start, int) and start >= 0):
            raise Unsupported('find with negative start')
        s = getitem(s, builtins.slice(start, end))
        off = zi(start)
    i = z3.IndexOf(zs(s), zs(sub_), 0)
    if core.ENGINE.branch(i < 0):
        return -1
    return SymInt(z3.simplify(i + off))


def index(s, sub_, start=0, end=None):
    r = find(s, sub_, start, end)
    if not isinstance(r, SymInt) and r == -1:
        raise ValueError('substring not found')
    return r


def rfind(s, sub_):
    i = z3.LastIndexOf(zs(s), zs(sub_))
    if core.ENGINE.branch(i < 0):
        return -1
    return SymInt(i)


def rindex(s, sub_):
    r = rfind(s, sub_)
    if not isinstance(r, SymInt):
        raise ValueError('substring not found')
    return r


def count(s, sub_):
    return len(split(s, sub_)) - 1


def replace(s, a, b, n=-1):
    if isinstance(a, str) and type(a) is str and a == '':
        raise Unsupported('replace empty')
    return join(b, split(s, a, n))


def lower(s):
    return _case(s, 65, 90, 32)


def upper(s):
    return _case(s, 97, 122, -32)


def _case(s, lo, hi, d):
    """ASCII case mapping.  Assumed: the characters whose case changes are ASCII letters."""
    out = []
    for ch in s.chars():
        c = z3.StrToCode(ch.z)
        core.ENGINE.assume(c < 128)
        out.append(SymStr(z3.If(z3.And(c >= lo, c <= hi), z3.StrFromCode(c + d), ch.z), 1))
    core.ENGINE.stats.note('assumed: case mapping on ASCII only')
    return concat(out) if out else ''


def _all_chars(s, pred):
    if not s:
        return False
    for ch in s.chars():
        if not core.ENGINE.branch(pred(z3.StrToCode(ch.z))):
            return False
    return True


def _ascii_only(s):
    for ch in s.chars():
        core.ENGINE.assume(z3.StrToCode(ch.z) < 128)
    core.ENGINE.stats.note('assumed: character classes on ASCII only')


def isdigit(s):
    _ascii_only(s)
    return _all_chars(s, lambda c: z3.And(c >= 48, c <= 57))


def _alpha(c):
    return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))


def isalpha(s):
    _ascii_only(s)
    return _all_chars(s, _alpha)


def isalnum(s):
    _ascii_only(s)
    return _all_chars(s, lambda c: z3.Or(_alpha(c), z3.And(c >= 48, c <= 57)))


def isspace(s):
    if not s:
        return False
    return all(core.ENGINE.branch(_is_ws(c)) for c in s.chars())


def isascii(s):
    return all(core.ENGINE.branch(z3.StrToCode(c.z) < 128) for c in s.chars())


def islower(s):
    _ascii_only(s)
    cs = s.chars()
    return any(core.ENGINE.branch(z3.And(z3.StrToCode(c.z) >= 97, z3.StrToCode(c.z) <= 122))
               for c in cs) and not any(core.ENGINE.branch(
                   z3.And(z3.StrToCode(c.z) >= 65, z3.StrToCode(c.z) <= 90)) for c in cs)


ANY = z3.Full(z3.ReSort(z3.StringSort()))
NON_ASCII = z3.Concat(ANY, z3.Range('\\u{80}', '\\u{2ffff}'), ANY)


def encode(s, encoding='utf-8', errors='strict'):
    if str(encoding).lower().replace('_', '-') in ('utf-8', 'utf8'):
        return SymBytes(s)
    if core.ENGINE.branch(z3.InRe(s.z, NON_ASCII)):
        return concretise(s, 'encoding of other than ASCII text').encode(encoding, errors)
    if str(encoding).lower().replace('_', '-') in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
        return SymBytes(s)
    return concretise(s, 'encoding').encode(encoding, errors)


class SymBytes:
    """The utf-8 encoding of a symbolic string."""
    __sx_symbolic__ = True

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8') and core.ENGINE.branch(
                z3.InRe(self.s.z, NON_ASCII)):
            return concretise(self.s, 'decoding as other than utf-8').encode('utf-8').decode(encoding, errors)
        return self.s

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return eq(self.s, o.s)
        if isinstance(o, bytes):
            return eq(self.s, o.decode('utf-8'))
        return False

    def __bool__(self):
        return bool(self.s)

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return SymBytes(concat([self.s, o.s if isinstance(o, SymBytes) else o.decode()]))

    def __radd__(self, o):
        return SymBytes(concat([o.decode(), self.s]))

    def __sx_concretise__(self):
        return concretise(self.s).encode('utf-8')

    def __sx_str__(self):
        return opaque('str of bytes')

    def __deepcopy__(self, memo):
        return self

    def strip(self, *a):
        return SymBytes(strip(self.s, *[i.decode() for i in a]))

    def split(self, sep=None, maxsplit=-1):
        return [SymBytes(x) for x in split(self.s, sep.decode() if sep else None, maxsplit)]


STR_METHODS = {
    'startswith': startswith, 'endswith': endswith, 'split': split, 'rsplit': rsplit,
    'partition': partition, 'rpartition': rpartition, 'strip': strip, 'lstrip': lstrip,
    'rstrip': rstrip, 'find': find, 'index': index, 'rfind': rfind, 'rindex': rindex,
    'count': count, 'replace': replace, 'lower': lower, 'upper': upper, 'isdigit': isdigit,
    'isdecimal': isdigit, 'isnumeric': isdigit, 'isalpha': isalpha, 'isalnum': isalnum,
    'isspace': isspace, 'isascii': isascii, 'islower': islower, 'encode': encode, 'join': join,
    'format': str_format, 'removeprefix': removeprefix, 'removesuffix': removesuffix,
    'casefold': lower,
}


def _vec_first(g, h):
    @functools.wraps(h)
    def f(*a, **k):
        r = NotImplemented
        if any(isinstance(x, vec.SymVec) or isinstance(x, (tuple, list)) for x in a):
            r = g(*a, **k)
        return h(*a, **k) if r is NotImplemented else r
    return f


for _n, _g in vec.METHODS.items():
    STR_METHODS[_n] = _vec_first(_g, STR_METHODS[_n])
    globals()[_n] = STR_METHODS[_n]


# ------------------------------------------------------------------ calls

MODELS = {}          # callable -> model
TYPE_MODELS = {}     # (type of __self__, name) -> model(self, *args, **kw)
NATURAL = set()      # uninstrumented callables that are transparent to symbolic contents
CASE_MODELS = {}     # models installed by the harness for one path


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def _instrumented_callable(f):
    if isinstance(f, (types.FunctionType,)):
        return '__sx__' in f.__globals__ or f.__globals__.get('__name__', '').split('.')[0] in (
            'symx', 'harness')
    if isinstance(f, types.MethodType):
        g = f.__func__
        if isinstance(g, types.FunctionType):
            return '__sx__' in g.__globals__ or g.__globals__.get('__name__', '').startswith('symx')
        return False
    return False


EXC_OK = (BaseException,)


def call(f, /, *args, **kw):
    cm = CASE_MODELS
    try:
        if cm:
            m = cm.get(f)
            if m is not None:
                return m(*args, **kw)
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        r = m(*args, **kw)
        if r is not NotImplemented:
            return r
        # fall through
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        if _instrumented_callable(f):
            return f(*args, **kw)
    elif isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)):
        s = f.__self__
        if not isinstance(s, types.ModuleType) and s is not None:
            return call_builtin_method(f, s, f.__name__, args, kw)
    elif isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*args, **kw)
        init = f.__init__
        new = f.__new__
        if (isinstance(init, types.FunctionType) and '__sx__' in init.__globals__) or (
                isinstance(new, types.FunctionType) and '__sx__' in new.__globals__):
            return f(*args, **kw)
        if f.__module__.split('.')[0] in INSTRUMENTED + ('symx',):
            return f(*args, **kw)
    elif tf is functools.partial:
        kw2 = dict(f.keywords)
        kw2.update(kw)
        return call(f.func, *(f.args + args), **kw2)
    elif tf in (types.MethodDescriptorType, types.WrapperDescriptorType) and args:
        # unbound: str.lower(x), dict.get(d, k), Exception.__init__(self, ...)
        if isinstance(args[0], BaseException) or isinstance(args[0], type):
            return f(*args, **kw)
        if isinstance(args[0], f.__objclass__):
            return call_builtin_method(functools.partial(f, args[0]), args[0], f.__name__,
                                       args[1:], kw)
    try:
        if f in NATURAL:
            return f(*args, **kw)
    except TypeError:
        pass
    sc = type(f).__dict__.get('__call__')
    if isinstance(sc, types.FunctionType) and '__sx__' in sc.__globals__:
        return f(*args, **kw)
    mod_ = getattr(f, '__module__', None) or getattr(getattr(f, '__func__', None), '__module__', None)
    if mod_ in ('collections.abc', '_collections_abc', 'abc', 'typing', 'functools', 'itertools',
                'contextlib', 'copy', 'operator', 'inspect', 'collections'):
        return f(*args, **kw)
    if mod_ and mod_.split('.')[0] == 'symx':
        return f(*args, **kw)
    if getattr(getattr(f, '__self__', None), '__sx_symbolic__', False):
        return f(*args, **kw)
    if not callable(f):
        return f(*args, **kw)     # raises TypeError
    if any(deep_sym(a) for a in args) or any(deep_sym(v) for v in kw.values()) or any(
            isinstance(k, SymStr) for k in kw):
        return unsupported_call(f, args, kw)
    return f(*args, **kw)


def unsupported_call(f, args, kw):
    """No model for this C-level callable: continue on one concrete instance (path marked partial)."""
    name = getattr(f, '__qualname__', None) or repr(f)
    if __import__('os').environ.get('SYMX_TB'): __import__('traceback').print_stack()
    core.ENGINE.stats.note('concretised at call of %s.%s' % (getattr(f, '__module__', ''), name))
    why = 'call of %s' % name
    return f(*[deep_conc(a, why) for a in args], **{k: deep_conc(v, why) for k, v in kw.items()})


def deep_conc(x, why):
    if isinstance(x, (SymStr, SymInt)):
        return concretise(x, why)
    if not deep_sym(x):
        return x
    if getattr(x, '__sx_symbolic__', False):
        c = getattr(x, '__sx_concretise__', None)
        if c is None:
            raise Unsupported('%s with %r' % (why, type(x)))
        return c()
    if isinstance(x, tuple):
        return tuple(deep_conc(i, why) for i in x)
    if isinstance(x, list):
        x[:] = [deep_conc(i, why) for i in x]
        return x
    if type(x) is dict:
        items = [(deep_conc(k, why), deep_conc(v, why)) for k, v in x.items()]
        x.clear()
        x.update(items)
        return x
    if isinstance(x, (set, frozenset)):
        return type(x)(deep_conc(i, why) for i in x)
    d = getattr(x, '_dict', None)
    if type(d) is dict:
        deep_conc(d, why)
        return x
    raise Unsupported('%s with %r' % (why, type(x)))


CONTAINER_OK = {
    list: {'append', 'extend', 'insert', 'pop', 'copy', 'clear', 'reverse', 'index', 'count',
           'remove', 'sort', '__iter__', '__len__', '__getitem__'},
    dict: {'items', 'keys', 'values', 'copy', 'clear', 'popitem', '__iter__', '__len__'},
    set: {'clear', 'copy', 'pop', '__iter__', '__len__'},
    frozenset: {'copy', '__iter__', '__len__'},
    tuple: {'index', 'count', '__iter__', '__len__'},
}


def call_builtin_method(f, s, name, args, kw):
    if isinstance(s, SymStr) or type(s) is str:
        if isinstance(s, SymStr) or any(deep_sym(a) for a in args) or any(
                deep_sym(v) for v in kw.values()) or (name == 'format' and (
                    any(_formats_instrumented(a) for a in args))) or (
                name == 'join' and args and not isinstance(args[0], (list, tuple, str))):
            if name == 'join':
                items = list(args[0])
                if not isinstance(s, SymStr) and all(type(i) is str for i in items):
                    return str.join(s, items)
                return join(s, items)
            if name == '__contains__':
                return contains(s, args[0])
            if name == '__eq__':
                return eq(s, args[0])
            if name == '__len__':
                return s.length()
            g = STR_METHODS.get(name)
            if g is not None:
                return g(s, *args, **kw)
            core.ENGINE.stats.note('concretised at str.%s' % name)
            s2 = concretise(s, 'str.' + name) if isinstance(s, SymStr) else s
            return getattr(s2, name)(*[deep_conc(a, name) for a in args],
                                     **{k: deep_conc(v, name) for k, v in kw.items()})
        return f(*args, **kw)
    if isinstance(s, type):
        tm = TYPE_MODELS.get(('cls', s, name)) or (
            TYPE_MODELS.get(('cls', s.__mro__[1], name)) if len(s.__mro__) > 2 else None)
        if tm is not None:
            r = tm(s, *args, **kw)
            if r is not NotImplemented:
                return r
        if s is dict and name == 'fromkeys' and deep_sym(args):
            return mkdict([(k, args[1] if len(args) > 1 else None) for k in args[0]])
        if name == '__new__' or not (any(deep_sym(a) for a in args) or any(
                deep_sym(v) for v in kw.values())):
            return f(*args, **kw)
        return unsupported_call(f, args, kw)
    for t in type(s).__mro__:
        tm = TYPE_MODELS.get((t, name))
        if tm is not None:
            r = tm(s, *args, **kw)
            if r is not NotImplemented:
                return r
            if t in (dict, list, set, tuple, frozenset):
                return f(*args, **kw)
            break
    for t, ok in CONTAINER_OK.items():
        if isinstance(s, t) and name in ok:
            if t is list and name == 'extend' or name == 'insert':
                return f(*args, **kw)
            return f(*args, **kw)
    if deep_sym(s) or any(deep_sym(a) for a in args) or any(deep_sym(v) for v in kw.values()):
        if isinstance(s, SymInt):
            raise Unsupported('int.%s' % name)
        if isinstance(s, (types.GeneratorType,)) or hasattr(type(s), '__next__'):
            return f(*args, **kw)
        return unsupported_call(f, args, kw)
    return f(*args, **kw)


def _symd(d, *ks):
    return any(deep_sym(k) for k in ks) or has_sym_key(d)


def tmodel(t, name):
    def deco(g):
        TYPE_MODELS[(t, name)] = g
        return g
    return deco


@tmodel(dict, 'get')
def _(d, k, default=None):
    if not _symd(d, k):
        return NotImplemented
    _hashable(k)
    kk = find_key(d, k)
    return default if kk is MISSING else dict.__getitem__(d, kk)


@tmodel(dict, '__contains__')
def _(d, k):
    return contains(d, k)


@tmodel(dict, '__getitem__')
def _(d, k):
    return getitem(d, k)


@tmodel(dict, '__setitem__')
def _(d, k, v):
    return setitem(d, k, v)


@tmodel(dict, '__delitem__')
def _(d, k):
    return delitem(d, k)


@tmodel(dict, 'pop')
def _(d, k, *default):
    if not _symd(d, k):
        return NotImplemented
    kk = find_key(d, k)
    if kk is MISSING:
        if default:
            return default[0]
        raise KeyError(k)
    return dict.pop(d, kk)


@tmodel(dict, 'setdefault')
def _(d, k, default=None):
    if not _symd(d, k):
        return NotImplemented
    kk = find_key(d, k)
    if kk is MISSING:
        setitem(d, k, default)
        return default
    return dict.__getitem__(d, kk)


@tmodel(dict, 'update')
def _(d, other=(), **kw):
    if hasattr(other, 'keys'):
        pairs = [(k, getitem(other, k)) for k in list(other.keys())]
    else:
        pairs = [(k, v) for k, v in other]
    pairs += list(kw.items())
    for k, v in pairs:
        setitem(d, k, v)


@tmodel(dict, '__eq__')
def _(d, o):
    return eq(d, o)


@tmodel(set, 'add')
def _(s, x):
    if not deep_sym(x) and not deep_sym(s):
        return NotImplemented
    _hashable(x)
    if find_key(s, x) is MISSING:
        set.add(s, x)


def _set_discard(s, x):
    if not deep_sym(x) and not deep_sym(s):
        return NotImplemented
    kk = find_key(s, x)
    if kk is not MISSING:
        set.discard(s, kk)


def _set_remove(s, x):
    if not deep_sym(x) and not deep_sym(s):
        return NotImplemented
    kk = find_key(s, x)
    if kk is MISSING:
        raise KeyError(x)
    set.discard(s, kk)


def _set_update(s, *others):
    for o in others:
        for x in o:
            if find_key(s, x) is MISSING:
                set.add(s, x)


TYPE_MODELS[(set, 'discard')] = _set_discard
TYPE_MODELS[(set, 'remove')] = _set_remove
TYPE_MODELS[(set, 'update')] = _set_update
for _T in (set, frozenset):
    TYPE_MODELS[(_T, '__contains__')] = lambda s, x: contains(s, x)
    TYPE_MODELS[(_T, 'issubset')] = lambda s, o: all(contains(mkset(o), x) for x in s)
    TYPE_MODELS[(_T, 'issuperset')] = lambda s, o: all(contains(s, x) for x in o)
    TYPE_MODELS[(_T, 'isdisjoint')] = lambda s, o: not any(contains(s, x) for x in o)
    TYPE_MODELS[(_T, 'union')] = lambda s, *o: functools.reduce(
        lambda a, b: or_(a, mkset(b)), o, set(s))
    TYPE_MODELS[(_T, 'intersection')] = lambda s, *o: functools.reduce(
        lambda a, b: and_(a, mkset(b)) if (a and b) else set(), o, set(s))
    TYPE_MODELS[(_T, 'difference')] = lambda s, *o: functools.reduce(
        lambda a, b: sub(a, mkset(b)), o, set(s))
    TYPE_MODELS[(_T, 'symmetric_difference')] = lambda s, o: xor(set(s), mkset(o))

TYPE_MODELS[(list, '__contains__')] = lambda s, x: contains(s, x)
TYPE_MODELS[(tuple, '__contains__')] = lambda s, x: contains(s, x)
TYPE_MODELS[(list, '__getitem__')] = lambda s, k: getitem(s, k)


# -- builtins


@model(len)
def _(x):
    if isinstance(x, SymStr):
        return x.length()
    if isinstance(x, SymBytes):
        e = core.ENGINE
        # utf-8 length; exact for ASCII contents
        v = z3.Int(e.fresh('bytelen'))
        e.assume(z3.And(v >= z3.Length(zs(x.s)), v <= 4 * z3.Length(zs(x.s))))
        return SymInt(v)
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return NotImplemented


@model(str)
def _(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBytes):
            return opaque('str of bytes')
        if deep_sym(x) or _formats_instrumented(x):
            return to_str(x)
    elif a and isinstance(a[0], SymBytes):
        return a[0].s
    return NotImplemented


@model(repr, ascii)
def _(x):
    if deep_sym(x):
        return opaque('repr')
    return NotImplemented


@model(format)
def _(x, spec=''):
    if deep_sym(x):
        return to_str(x) if spec == '' else opaque('format')
    return NotImplemented


INT_RE = None


@model(int)
def _(*a, **k):
    if len(a) != 1 or k:
        if a and deep_sym(a[0]):
            raise Unsupported('int() with base')
        return NotImplemented
    x = a[0]
    if isinstance(x, SymInt):
        return x
    h = getattr(x, '__sx_int__', None)
    if h:
        return h()
    if isinstance(x, (list, tuple, dict, set)):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, "
                        "not '%s'" % type(x).__name__)
    if isinstance(x, Doc) and x.kind == 'json':
        if isinstance(x.payload, SymInt):
            return x.payload
        raise ValueError("invalid literal for int() with base 10")
    if isinstance(x, vec.SymVec):
        return vec.to_int(x)
    if isinstance(x, SymStr):
        if x.meta and x.meta[0] == 'int':
            return x.meta[1]
        e = core.ENGINE
        global INT_RE
        if INT_RE is None:
            d = z3.Range('0', '9')
            INT_RE = z3.Concat(z3.Option(z3.Union(z3.Re('-'), z3.Re('+'))), z3.Plus(d))
        if in_re(x, INT_RE):
            L = z3.Length(x.z)
            if e.branch(z3.PrefixOf(z3.StringVal('-'), x.z)):
                return SymInt(-z3.StrToInt(z3.SubString(x.z, 1, L - 1)))
            if e.branch(z3.PrefixOf(z3.StringVal('+'), x.z)):
                return SymInt(z3.StrToInt(z3.SubString(x.z, 1, L - 1)))
            return SymInt(z3.StrToInt(x.z))
        # python also accepts surrounding blanks, '_' between digits and non-ASCII digits; those
        # strings are outside the encoding: require that the string holds no such character
        e.stats.note('assumed: int(str) input has no blanks, underscores or non-ASCII digits')
        bad = z3.Union(z3.Range('\\u{9}', '\\u{d}'), z3.Range('\\u{1c}', ' '), z3.Re('_'),
                       z3.Range('\\u{80}', '\\u{2ffff}'))
        allc = z3.Full(z3.ReSort(z3.StringSort()))
        if not (isinstance(x, Doc) and x.kind == 'time'):     # a written time holds none of them
            e.assume(z3.Not(z3.InRe(x.z, z3.Concat(allc, bad, allc))))
        raise ValueError("invalid literal for int() with base 10")
    return NotImplemented


@model(float)
def _(*a):
    if a and isinstance(a[0], SymInt):
        from symx.tm import SymFrac
        return SymFrac.of(a[0])
    if a and getattr(a[0], '__sx_float__', None):
        return a[0].__sx_float__()
    if a and isinstance(a[0], vec.SymVec):
        return vec.to_float(a[0])
    if a and isinstance(a[0], SymStr):
        s = a[0]
        if core.ENGINE.branch(z3.Length(s.z) == 0):
            raise ValueError('could not convert string to float')
        return unsupported_call(float, a, {})
    return NotImplemented


@model(bool)
def _(x=False):
    return True if x else False


@model(type)
def _(*a):
    if len(a) == 1:
        if isinstance(a[0], SymStr):
            return str
        if isinstance(a[0], SymInt):
            return int
        if isinstance(a[0], SymBytes):
            return bytes
        if getattr(a[0], '__sx_symbolic__', False):
            return a[0].__class__
        return type(a[0])
    return NotImplemented


@model(list)
def _(*a):
    if a:
        return list(iter_(a[0]))
    return []


@model(tuple)
def _(*a):
    if a:
        return tuple(iter_(a[0]))
    return ()


def iter_(x):
    return iter(x)


@model(set)
def _(*a):
    return mkset(list(a[0])) if a else set()


@model(frozenset)
def _(*a):
    return frozenset(mkset(list(a[0]))) if a else frozenset()


@model(dict)
def _(*a, **k):
    r = {}
    if a:
        if hasattr(a[0], 'keys'):
            for i in a[0].keys():
                setitem(r, i, getitem(a[0], i))
        else:
            for i, j in a[0]:
                setitem(r, i, j)
    for i, j in k.items():
        setitem(r, i, j)
    return r


@model(any)
def _(x):
    return any(x)


@model(all)
def _(x):
    return all(x)


@model(enumerate, zip, reversed, iter, next, id, isinstance, issubclass, callable, hasattr, getattr,
       setattr, delattr, sum, print, object)
def _(*a, **k):
    return NotImplemented


for _f in (enumerate, zip, reversed, iter, next, id, isinstance, issubclass, callable, hasattr,
           getattr, setattr, delattr, sum, object, sorted, min, max, property, classmethod,
           staticmethod, itertools.chain, itertools.islice, itertools.zip_longest,
           itertools.product, itertools.repeat, itertools.count, dict.items, dict.keys,
           dict.values, itertools.chain.from_iterable, copy.copy, copy.deepcopy,
           operator.itemgetter, operator.attrgetter):
    NATURAL.add(_f)
    if MODELS.get(_f) is not None:
        del MODELS[_f]
MODELS.pop(print, None)


@model(copy.copy)
def _(x):
    return x if isinstance(x, (SymStr, SymInt)) else NotImplemented


@model(copy.deepcopy)
def _(x, memo=None):
    return x if isinstance(x, (SymStr, SymInt)) else NotImplemented


@model(getattr)
def _(o, name, *d):
    if isinstance(name, SymStr):
        # one side per attribute there is, and one for every other name
        if getattr(type(o), '__getattr__', None) or not hasattr(o, '__dict__'):
            name = concretise(name, 'getattr')
            return getattr(o, name, *d)
        for n in dir(o):
            if eq(name, n):
                return getattr(o, n, *d)
        if d:
            return d[0]
        raise AttributeError('no such attribute')
    return NotImplemented


@model(map)
def _(f, *its):
    return (call(f, *a) for a in zip(*its))


@model(filter)
def _(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


@model(functools.reduce)
def _(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


@model(range)
def _(*a):
    if not any(isinstance(i, SymInt) for i in a):
        return NotImplemented
    return range(*[fork_int(i, 0, 64) if isinstance(i, SymInt) else i for i in a])


def fork_int(x, lo, hi):
    for i in builtins.range(lo, hi):
        if x == i:
            return i
    if x < lo:
        return lo - 1
    core.ENGINE.stats.note('cut: loop count above %d' % hi)
    raise Cut('loop count')


@model(abs)
def _(x):
    return NotImplemented if not getattr(x, '__sx_symbolic__', False) else x.__abs__()


for _f in (abs, divmod, round, pow, hash, len):
    NATURAL.add(_f)
MODELS.pop(abs, None)


@model(ord)
def _(x):
    if isinstance(x, vec.SymVec):
        if len(x.units) != 1:
            raise TypeError('ord() expected a character')
        return SymInt(x.units[0])
    if isinstance(x, SymStr):
        if not core.ENGINE.branch(z3.Length(x.z) == 1):
            raise TypeError('ord() expected a character')
        return SymInt(z3.StrToCode(x.z))
    return NotImplemented


@model(chr)
def _(x):
    if isinstance(x, SymInt):
        if not core.ENGINE.branch(z3.And(x.z >= 0, x.z <= 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr(z3.StrFromCode(x.z), 1)
    return NotImplemented


@model(operator.eq)
def _(a, b):
    return eq(a, b)


@model(operator.contains)
def _(a, b):
    return contains(a, b)


@model(operator.getitem)
def _(a, b):
    return getitem(a, b)


@model(print)
def _(*a, **k):
    return None


# -- logging: no effect

def _nolog(*a, **k):
    return None


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'):
    _fn = getattr(logging.Logger, _n, None)
    if _fn:
        MODELS[_fn] = _nolog

_real_call = call


def call(f, /, *args, **kw):  # noqa
    if type(f) is types.MethodType and isinstance(f.__self__, logging.Logger):
        return None
    return _real_call(f, *args, **kw)


# -- json


class Doc(SymStr):
    """A serialised document kept structurally: its text is an uninterpreted non-empty string, and
    decoding it gives back the structure (contract of the serialiser / parser pair)."""
    __slots__ = ('kind', 'payload')


def in_re(s, r):
    if isinstance(s, Doc) and s.kind == 'time':
        from symx import tm
        v = tm.shaped(s, r)
        if v is not None:
            return v
    return core.ENGINE.branch(z3.InRe(s.z, r))


def mkdoc(kind, payload, first=None, last=None):
    e = core.ENGINE
    for old in e.docs:      # the same structure gives the same text
        if old.kind == kind and kind == 'json' and core._jseq(old.payload, payload) is True:
            return old
    z = z3.String(e.fresh('doc_' + kind))
    d = Doc.__new__(Doc, z)
    d.kind, d.payload = kind, payload
    e.docs.append(d)
    d.meta = ('doc',)
    if first is not None:
        e.assume(z3.And(z3.Length(z) >= 2, z3.PrefixOf(z3.StringVal(first), z),
                        z3.SuffixOf(z3.StringVal(last), z)))
    else:
        e.assume(z3.Length(z) >= 1)
    return d


def jsonable(x, depth=0):
    """json.dumps' view of x, as a fresh structure; raises TypeError as json does."""
    if x is None or x is True or x is False or isinstance(x, (str, int, float)):
        if isinstance(x, SymStr) or isinstance(x, SymInt) or type(x) in (
                str, int, float, bool, type(None)):
            return x
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            if isinstance(k, SymStr) or type(k) is str:
                kk = k
            elif k is True or k is False or k is None:
                kk = {True: 'true', False: 'false', None: 'null'}[k]
            elif isinstance(k, int):
                kk = to_str(k)
            else:
                raise TypeError('keys must be str, int, float, bool or None, not ' +
                                type(k).__name__)
            setitem(r, kk, jsonable(v, depth + 1))
        return r
    if isinstance(x, (list, tuple)):
        return [jsonable(i, depth + 1) for i in x]
    if getattr(x, '__sx_json__', None):
        return x.__sx_json__()
    raise TypeError('Object of type %s is not JSON serializable' % type(x).__name__)


@model(json.dumps)
def _(obj, **k):
    if not deep_sym(obj):
        return NotImplemented
    if set(k) - {'indent', 'sort_keys', 'separators', 'ensure_ascii'}:
        raise Unsupported('json.dumps options')
    p = jsonable(obj)
    if isinstance(p, (dict, list)):
        return mkdoc('json', p, '{' if isinstance(p, dict) else '[',
                     '}' if isinstance(p, dict) else ']')
    return mkdoc('json', p)


@model(json.loads)
def _(s, **k):
    if isinstance(s, SymBytes):
        s = s.s
    if not isinstance(s, (str, bytes, bytearray)):
        raise TypeError('the JSON object must be str, bytes or bytearray, not %s' %
                        type(s).__name__)
    if isinstance(s, Doc) and s.kind == 'json':
        return copy.deepcopy(s.payload)
    if isinstance(s, Doc):
        raise json.JSONDecodeError('not JSON', 'doc', 0)
    if isinstance(s, SymStr):
        h = core.ENGINE.raw_json if hasattr(core.ENGINE, 'raw_json') else None
        if h is not None:
            return h(s)
        # arbitrary text: covered on the side where it is not JSON; a text with no JSON start
        # character cannot be parsed
        e = core.ENGINE
        allc = z3.Full(z3.ReSort(z3.StringSort()))
        start = z3.Union(*[z3.Re(c) for c in '{["-0123456789tfnNI \t\n\r'])
        if e.branch(z3.InRe(s.z, z3.Concat(start, allc))):
            return unsupported_call(json.loads, (s,), k)
        raise json.JSONDecodeError('Expecting value', 'sym', 0)
    return NotImplemented
