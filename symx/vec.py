"""Symbolic strings of a known length, as a vector of character codes.

A `SymVec` is a list of units, each a concrete code or an integer term.  Every operation on it becomes linear
arithmetic over the units (no string theory), so the operations are exact for the whole of Unicode up to U+2FFFF.
Where an operation meets an ordinary symbolic string, the vector is turned into a string term (`z`).
"""
import builtins
import re
import re._constants as sc
import re._parser as sp
import unicodedata
import z3

from symx import core
from symx.core import Cut, SymInt, SymStr, Unsupported

MAXCODE = 0x2ffff


class SymVec(SymStr):
    __slots__ = ('units', '_z')

    def __new__(cls, units):
        o = SymStr.__new__(cls, None, len(units))
        o.units = units
        return o

    @property
    def z(self):
        t = getattr(self, '_z', None)
        if t is None:
            parts, run = [], []
            for u in self.units:
                if isinstance(u, int):
                    run.append(chr(u))
                    continue
                if run:
                    parts.append(z3.StringVal(core._esc(''.join(run))))
                    run = []
                parts.append(z3.StrFromCode(u))
            if run:
                parts.append(z3.StringVal(core._esc(''.join(run))))
            t = z3.StringVal('') if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)
            self._z = t
        return t

    @z.setter
    def z(self, v):
        if v is not None:
            self._z = v

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if self is o:
            return True
        return fork(veq(self, o)) if vunits(o) is not None else core.ENGINE.branch(self.z == core.zs(o))

    __hash__ = SymStr.__hash__

    def __lt__(self, o):
        return self._vcmp(o, 'lt')

    def __le__(self, o):
        return self._vcmp(o, 'le')

    def __gt__(self, o):
        return self._vcmp(o, 'gt')

    def __ge__(self, o):
        return self._vcmp(o, 'ge')

    def _vcmp(self, o, op):
        if not isinstance(o, str):
            return NotImplemented
        b = vunits(o)
        if b is None:
            return getattr(SymStr, '__%s__' % op)(self, o)
        a = self.units
        if op in ('gt', 'ge'):
            a, b = b, a
        strict = op in ('lt', 'gt')
        # a < b (or a <= b), lexicographically
        r = len(a) < len(b) if strict else len(a) <= len(b)
        for x, y in reversed(list(zip(a, b))):
            r = or_(ult(x, y), and_(ueq(x, y), r))
        return fork(r)

    def __bool__(self):
        return len(self.units) > 0

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        b = vunits(o)
        return mk(self.units + b) if b is not None else SymStr.__add__(self, o)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        b = vunits(o)
        return mk(b + self.units) if b is not None else SymStr.__radd__(self, o)

    def length(self):
        return len(self.units)

    def fork_len(self, cap=64):
        return len(self.units)

    def chars(self):
        return [mk([u]) for u in self.units]


def mk(units):
    """a string of the given units: an ordinary one when nothing in it is symbolic"""
    if all(isinstance(u, int) for u in units):
        return ''.join(map(chr, units))
    return SymVec(list(units))


def vunits(s):
    if isinstance(s, SymVec):
        return s.units
    if type(s) is str:
        return [ord(c) for c in s]
    return None


def vec_pair(*xs):
    """units of the operands when at least one is a vector and all are known unit by unit; or None"""
    if not any(isinstance(x, SymVec) for x in xs):
        return None
    us = [vunits(x) for x in xs]
    return None if any(u is None for u in us) else us


# ------------------------------------------------------------------ formulas (python bool or z3 Bool)


def and_(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def or_(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def not_(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def fork(c):
    return c if isinstance(c, bool) else core.ENGINE.branch(c)


def ueq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    r = z3.simplify(a == b)
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def ult(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return a < b


def uin(u, ranges):
    """the unit is in one of the (lo, hi) ranges"""
    if isinstance(u, int):
        return any(a <= u <= b for a, b in ranges)
    dom = core.ENGINE.unitdom.get(u.get_id())
    if dom is not None:
        ranges = [(max(a, c), min(b, d)) for a, b in ranges for c, d in dom if max(a, c) <= min(b, d)]
        if sum(b - a + 1 for a, b in runs_of(ranges)) == sum(b - a + 1 for a, b in dom):
            return True
    return or_(*[u == a if a == b else z3.And(u >= a, u <= b) for a, b in ranges])


def veq(a, b):
    a, b = vunits(a), vunits(b)
    if len(a) != len(b):
        return False
    return and_(*[ueq(x, y) for x, y in zip(a, b)])


def at(s, p, i):
    """the units p are found in s at place i"""
    if i < 0 or i + len(p) > len(s):
        return False
    return and_(*[ueq(x, y) for x, y in zip(s[i:i + len(p)], p)])


def runs_of(ranges):
    """the ranges sorted and merged"""
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def runs(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


_UR = {}


def uranges(kind):
    """characters with a property, up to the largest of the encoding"""
    if kind not in _UR:
        if kind in 'dws':
            pat = re.compile('\\' + kind)
            f = lambda c: pat.match(c) is not None
        else:
            f = lambda c: getattr(c, kind)()
        _UR[kind] = runs([c for c in range(MAXCODE + 1) if f(chr(c))])
    return list(_UR[kind])


# ------------------------------------------------------------------ str methods


def getitem(s, k):
    """s[k] of a vector"""
    n = len(s.units)
    if isinstance(k, builtins.slice):
        def fix(v):
            if isinstance(v, SymInt):
                for i in range(-n, n + 1):
                    if v == i:
                        return i
                return n + 1 if v > n else -n - 1
            return v
        return mk(s.units[builtins.slice(fix(k.start), fix(k.stop), fix(k.step))])
    if isinstance(k, SymInt):
        for i in range(-n, n):
            if k == i:
                return mk([s.units[i]])
        raise IndexError('string index out of range')
    return mk([s.units[k]])


def contains(s, p):
    return fork(or_(*[at(s, p, i) for i in range(len(s) - len(p) + 1)])) if p else True


def _window(s, start, end):
    n = len(s)
    if isinstance(start, SymInt) or isinstance(end, SymInt):
        raise Unsupported('symbolic bounds')
    a, b, _ = builtins.slice(start, end).indices(n)
    return a, b


def startswith(s, p, start=0, end=None):
    us = vec_pair(s, *(p if isinstance(p, tuple) else (p,))) if isinstance(p, (str, tuple)) else None
    if us is None:
        return NotImplemented
    a, b = _window(us[0], start, end)
    w = us[0][a:b]
    return fork(or_(*[at(w, q, 0) for q in us[1:]]))


def endswith(s, p, start=0, end=None):
    us = vec_pair(s, *(p if isinstance(p, tuple) else (p,))) if isinstance(p, (str, tuple)) else None
    if us is None:
        return NotImplemented
    a, b = _window(us[0], start, end)
    w = us[0][a:b]
    return fork(or_(*[at(w, q, len(w) - len(q)) for q in us[1:]]))


def _pos(s, p, order):
    for i in order:
        if fork(at(s, p, i)):
            return i
    return -1


def find(s, p, start=0, end=None):
    us = vec_pair(s, p)
    if us is None:
        return NotImplemented
    a, b = _window(us[0], start, end)
    if start is not None and not isinstance(start, SymInt) and start > len(us[0]):
        return -1
    return _pos(us[0], us[1], range(a, b - len(us[1]) + 1))


def rfind(s, p, start=0, end=None):
    us = vec_pair(s, p)
    if us is None:
        return NotImplemented
    a, b = _window(us[0], start, end)
    return _pos(us[0], us[1], range(b - len(us[1]), a - 1, -1))


def index(s, p, start=0, end=None):
    r = find(s, p, start, end)
    if r is not NotImplemented and r < 0:
        raise ValueError('substring not found')
    return r


def rindex(s, p, start=0, end=None):
    r = rfind(s, p, start, end)
    if r is not NotImplemented and r < 0:
        raise ValueError('substring not found')
    return r


def split(s, sep=None, maxsplit=-1):
    if sep is None:
        if not isinstance(s, SymVec):
            return NotImplemented
        out, cur = [], []
        u = s.units
        for i, c in enumerate(u):
            if fork(uin(c, uranges('isspace'))):
                if cur:
                    out.append(mk(cur))
                    cur = []
            else:
                if 0 <= maxsplit <= len(out) and not cur:
                    rest = rstrip(mk(u[i:])) if isinstance(mk(u[i:]), SymVec) else mk(u[i:]).rstrip()
                    return out + [rest]
                cur.append(c)
        if cur:
            out.append(mk(cur))
        return out
    us = vec_pair(s, sep)
    if us is None:
        return NotImplemented
    u, p = us
    if not p:
        raise ValueError('empty separator')
    out, last, i = [], 0, 0
    while i <= len(u) - len(p) and (maxsplit < 0 or len(out) < maxsplit):
        if fork(at(u, p, i)):
            out.append(mk(u[last:i]))
            i += len(p)
            last = i
        else:
            i += 1
    out.append(mk(u[last:]))
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0 and sep is not None and len(sep) == 1:
        return split(s, sep)
    us = vec_pair(s, sep) if sep is not None else None
    if us is None:
        return NotImplemented
    u, p = us
    if not p:
        raise ValueError('empty separator')
    out, last, i = [], len(u), len(u) - len(p)
    while i >= 0 and (maxsplit < 0 or len(out) < maxsplit):
        if fork(at(u, p, i)):
            out.append(mk(u[i + len(p):last]))
            last = i
            i -= len(p)
        else:
            i -= 1
    out.append(mk(u[:last]))
    return out[::-1]


def partition(s, sep):
    p = split(s, sep, 1)
    if p is NotImplemented:
        return p
    return (p[0], sep, p[1]) if len(p) == 2 else (p[0], '', '')


def rpartition(s, sep):
    p = rsplit(s, sep, 1)
    if p is NotImplemented:
        return p
    return (p[0], sep, p[1]) if len(p) == 2 else ('', '', p[0])


def _in_chars(u, chars):
    if chars is None:
        return uin(u, uranges('isspace'))
    return or_(*[ueq(u, c) for c in vunits(chars)])


def lstrip(s, chars=None):
    if not isinstance(s, SymVec) or chars is not None and vunits(chars) is None:
        return NotImplemented
    i = 0
    while i < len(s.units) and fork(_in_chars(s.units[i], chars)):
        i += 1
    return mk(s.units[i:])


def rstrip(s, chars=None):
    if not isinstance(s, SymVec) or chars is not None and vunits(chars) is None:
        return NotImplemented
    i = len(s.units)
    while i > 0 and fork(_in_chars(s.units[i - 1], chars)):
        i -= 1
    return mk(s.units[:i])


def strip(s, chars=None):
    r = lstrip(s, chars)
    return rstrip(r, chars) if isinstance(r, SymVec) else r


def replace(s, a, b, n=-1):
    us = vec_pair(s, a)
    if us is None or vunits(b) is None or not us[1]:
        return NotImplemented
    p, b, out = split(s, a, n), vunits(b), []
    for i, x in enumerate(p):
        if i:
            out += b
        out += vunits(x)
    return mk(out)


def count(s, p):
    r = split(s, p)
    return r if r is NotImplemented else len(r) - 1


def join(sep, items):
    us = [vunits(i) for i in items]
    if vunits(sep) is None or any(u is None for u in us) or not any(
            isinstance(i, SymVec) for i in list(items) + [sep]):
        return NotImplemented
    out = []
    for i, u in enumerate(us):
        out += (vunits(sep) if i else []) + u
    return mk(out)


def _case(s, lo, hi, d, name):
    """ASCII case mapping.  Assumed: the characters whose case changes are ASCII letters."""
    if not isinstance(s, SymVec):
        return NotImplemented
    out = []
    for u in s.units:
        if isinstance(u, int):
            out += [ord(c) for c in getattr(chr(u), name)()]
        else:
            core.ENGINE.assume(u < 128)
            out.append(z3.If(z3.And(u >= lo, u <= hi), u + d, u))
    core.ENGINE.stats.note('assumed: case mapping on ASCII only')
    return mk(out)


def lower(s):
    return _case(s, 65, 90, 32, 'lower')


def upper(s):
    return _case(s, 97, 122, -32, 'upper')


def _every(kind):
    def f(s):
        if not isinstance(s, SymVec):
            return NotImplemented
        return len(s.units) > 0 and fork(and_(*[uin(u, uranges(kind)) for u in s.units]))
    return f


def isascii(s):
    if not isinstance(s, SymVec):
        return NotImplemented
    return fork(and_(*[uin(u, [(0, 127)]) for u in s.units]))


def removeprefix(s, p):
    r = startswith(s, p)
    return r if r is NotImplemented else mk(vunits(s)[len(vunits(p)):]) if r else s


def removesuffix(s, p):
    r = endswith(s, p)
    if r is NotImplemented:
        return r
    return mk(vunits(s)[:len(vunits(s)) - len(vunits(p))]) if r and len(vunits(p)) else s


METHODS = {'startswith': startswith, 'endswith': endswith, 'find': find, 'rfind': rfind, 'index': index,
           'rindex': rindex, 'split': split, 'rsplit': rsplit, 'partition': partition, 'rpartition': rpartition,
           'strip': strip, 'lstrip': lstrip, 'rstrip': rstrip, 'replace': replace, 'count': count, 'join': join,
           'lower': lower, 'upper': upper, 'casefold': lower, 'isascii': isascii, 'removeprefix': removeprefix,
           'removesuffix': removesuffix}
for _k in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace'):
    METHODS[_k] = _every(_k)


# ------------------------------------------------------------------ numbers


def digit_value(u):
    """the value of a decimal digit (z3 or int)"""
    if isinstance(u, int):
        return unicodedata.decimal(chr(u))
    r = None
    for a, b in uranges('isdecimal')[1:]:
        v = (u - a) % 10
        r = v if r is None else z3.If(z3.And(u >= a, u <= b), v, r)
    return z3.If(u <= 57, u - 48, r)


def number(units):
    """the value of a row of decimal digits"""
    ascii_ = fork(and_(*[uin(u, [(48, 57)]) for u in units]))
    t = 0
    for u in units:
        t = t * 10 + (u - 48 if ascii_ else digit_value(u))
    return t


def to_int(s):
    """int(s)"""
    if type(s) is str:
        return int(s)
    t = strip(s)
    u = vunits(t)
    neg = False
    if u:
        if fork(ueq(u[0], 45)):
            neg, u = True, u[1:]
        elif fork(ueq(u[0], 43)):
            u = u[1:]
    dec = uranges('isdecimal')
    digits, prev = [], False
    if u and fork(and_(*[uin(c, dec) for c in u])):
        digits = list(u)
    else:
        for c in u:
            if fork(uin(c, dec)):
                digits.append(c)
                prev = True
            elif prev and fork(ueq(c, 95)):
                prev = False
            else:
                raise ValueError('invalid literal for int() with base 10')
        if not prev:
            raise ValueError('invalid literal for int() with base 10')
    v = number(digits)
    if neg:
        v = -v
    return v if isinstance(v, int) else SymInt(z3.simplify(v))


def to_float(s):
    """float(s), as the exact rational number written; texts with exponents, underscores and the names of the
    special values are not covered"""
    from symx.tm import SymFrac
    t = strip(s)
    u = vunits(t)
    for c in u:
        if fork(or_(uin(c, [(128, MAXCODE)]), ueq(c, 95))):
            raise Unsupported('float() of a text with unusual characters')
    neg = False
    if u and fork(ueq(u[0], 45)):
        neg, u = True, u[1:]
    elif u and fork(ueq(u[0], 43)):
        u = u[1:]
    whole, frac, cur, point = [], [], None, False
    for c in u:
        if fork(uin(c, [(48, 57)])):
            (frac if point else whole).append(c)
        elif not point and fork(ueq(c, 46)):
            point = True
        elif fork(uin(c, [(69, 69), (101, 101), (73, 73), (105, 105), (78, 78), (110, 110)])):
            raise Unsupported('float() of an exponent or a special value')
        else:
            raise ValueError('could not convert string to float')
    if not whole and not frac:
        raise ValueError('could not convert string to float')
    n = 0
    for c in whole + frac:
        n = n * 10 + (c - 48)
    z = z3.ToReal(n if not isinstance(n, int) else z3.IntVal(n)) / (10 ** len(frac))
    return SymFrac(-z if neg else z)


# ------------------------------------------------------------------ regular expressions

LIMIT = 4096


class _Re:
    def __init__(self, pat):
        self.pat = re.compile(pat) if isinstance(pat, str) else pat
        if isinstance(self.pat.pattern, bytes):
            raise Unsupported('bytes pattern')
        self.flags = self.pat.flags
        if self.flags & ~(re.U | re.A | re.I | re.S | re.X):
            raise Unsupported('regex flags')
        self.tree = sp.parse(self.pat.pattern, self.flags & (re.X | re.I | re.S | re.A))
        self.ascii = bool(self.flags & re.A)

    def lits(self, c):
        if not self.flags & re.I:
            return [(c, c)]
        ch = chr(c)
        if c > 127 or ch.lower() in 'ksi':
            raise Unsupported('case-insensitive %r' % ch)
        return runs({ord(ch.lower()), ord(ch.upper())})

    def cat(self, av):
        n = {sc.CATEGORY_DIGIT: 'd', sc.CATEGORY_WORD: 'w', sc.CATEGORY_SPACE: 's'}.get(av)
        if n is None:
            n = {sc.CATEGORY_NOT_DIGIT: 'd', sc.CATEGORY_NOT_WORD: 'w', sc.CATEGORY_NOT_SPACE: 's'}.get(av)
            if n is None:
                raise Unsupported('regex class')
            return self.negate(self.cls(n))
        return self.cls(n)

    def cls(self, n):
        if self.ascii:
            pat = re.compile('\\' + n, re.A)
            return runs([c for c in range(128) if pat.match(chr(c))])
        return uranges(n)

    @staticmethod
    def negate(rs):
        out, cur = [], 0
        for a, b in sorted(rs):
            if a > cur:
                out.append((cur, a - 1))
            cur = max(cur, b + 1)
        out.append((cur, MAXCODE))
        return out

    def single(self, op, av):
        """ranges of a one-character node, or None"""
        if op is sc.LITERAL:
            return self.lits(av)
        if op is sc.NOT_LITERAL:
            return self.negate(self.lits(av))
        if op is sc.ANY:
            return [(0, MAXCODE)] if self.flags & re.S else self.negate([(10, 10)])
        if op is sc.IN:
            rs, neg = [], False
            for o, v in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    rs += self.lits(v)
                elif o is sc.RANGE:
                    if self.flags & re.I and not (v[1] <= 64):
                        raise Unsupported('case-insensitive range')
                    rs.append(v)
                elif o is sc.CATEGORY:
                    rs += self.cat(v)
                else:
                    raise Unsupported('regex class')
            return self.negate(rs) if neg else rs
        return None


class _Prog:
    """the pattern as a backtracking program: ('set', ranges) | ('split', first, second) | ('jmp', to) |
    ('save', slot) | ('at', what) | ('look', negated, program) | ('match',)"""

    def __init__(self, rx, tree=None):
        self.rx, self.code = rx, []
        self.seq(list(rx.tree if tree is None else tree))
        self.code.append(('match',))

    def emit(self, *ins):
        self.code.append(ins)
        if len(self.code) > LIMIT:
            raise Unsupported('regex too large')
        return len(self.code) - 1

    def seq(self, nodes):
        for op, av in nodes:
            self.node(op, av)

    def node(self, op, av):
        rs = self.rx.single(op, av)
        if rs is not None:
            self.emit('set', rs)
        elif op is sc.SUBPATTERN:
            gid, add, rem, p = av
            if add or rem & ~re.I:
                raise Unsupported('inline regex flags')
            if gid is not None:
                self.emit('save', 2 * gid)
            old = self.rx.flags
            self.rx.flags = old & ~rem
            self.seq(list(p))
            self.rx.flags = old
            if gid is not None:
                self.emit('save', 2 * gid + 1)
        elif op is sc.BRANCH:
            ends = []
            for b in av[1][:-1]:
                k = self.emit()
                self.seq(list(b))
                ends.append(self.emit())
                self.code[k] = ('split', k + 1, len(self.code))
            self.seq(list(av[1][-1]))
            for e in ends:
                self.code[e] = ('jmp', len(self.code))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is sc.MAX_REPEAT
            if hi is sc.MAXREPEAT or hi > 1:
                if p.getwidth()[0] == 0 and hi != lo:
                    raise Unsupported('regex repeating an empty match')

            def opt(k):
                self.code[k] = ('split', k + 1, len(self.code)) if greedy else (
                    'split', len(self.code), k + 1)
            for _ in range(lo):
                self.seq(list(p))
            if hi is sc.MAXREPEAT:
                k = self.emit()
                self.seq(list(p))
                self.emit('jmp', k)
                opt(k)
            else:
                ks = []
                for _ in range(hi - lo):
                    ks.append(self.emit())
                    self.seq(list(p))
                for k in ks:
                    opt(k)
        elif op is sc.AT:
            if av not in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING, sc.AT_END, sc.AT_END_STRING):
                raise Unsupported('regex %s' % av)
            self.emit('at', av)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            way, p = av
            if way < 0:
                raise Unsupported('regex lookbehind')
            self.emit('look', op is sc.ASSERT_NOT, _Prog(self.rx, p))
        else:
            raise Unsupported('regex %s' % op)


class _Run:
    """can the program succeed from a place, as a formula; shared between the places"""

    def __init__(self, prog, u, full):
        self.prog, self.u, self.full, self.memo = prog, u, full, {}

    def ok(self, pc, pos):
        k = (pc, pos)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._ok(pc, pos)
        return r

    def _ok(self, pc, pos):
        ins, u = self.prog.code[pc], self.u
        op = ins[0]
        if op == 'set':
            if pos >= len(u):
                return False
            c = uin(u[pos], ins[1])
            return False if c is False else and_(c, self.ok(pc + 1, pos + 1))
        if op == 'split':
            return or_(self.ok(ins[1], pos), self.ok(ins[2], pos))
        if op == 'jmp':
            return self.ok(ins[1], pos)
        if op == 'save':
            return self.ok(pc + 1, pos)
        if op == 'at':
            return and_(self.at(ins[1], pos), self.ok(pc + 1, pos))
        if op == 'look':
            c = _Run(ins[2], u, False).ok(0, pos)
            return and_(not_(c) if ins[1] else c, self.ok(pc + 1, pos))
        return pos == len(u) if self.full else True

    def at(self, av, pos):
        n = len(self.u)
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return pos == 0
        if av is sc.AT_END:
            return or_(pos == n, ueq(self.u[pos], 10) if pos == n - 1 else False)
        return pos == n

    def walk(self, pos):
        """the way backtracking takes, known to succeed from here: {slot: place}"""
        pc, slots = 0, {0: pos}
        while True:
            ins = self.prog.code[pc]
            op = ins[0]
            if op == 'match':
                slots[1] = pos
                return slots
            if op == 'jmp':
                pc = ins[1]
                continue
            if op == 'split':
                a, b = self.ok(ins[1], pos), self.ok(ins[2], pos)
                pc = ins[1] if b is False or a is not False and fork(a) else ins[2]
                continue
            if op == 'save':
                slots[ins[1]] = pos
            elif op == 'set':
                pos += 1
            pc += 1


class VecMatch:
    __sx_symbolic__ = True

    def __init__(self, rx, s, run, starts):
        self.rx, self.string, self._run, self._starts = rx, s, run, starts
        self._slots = None

    @property
    def __class__(self):
        return re.Match

    @property
    def re(self):
        return self.rx.pat

    def slots(self):
        if self._slots is None:
            for i, (a, c) in enumerate(self._starts):
                if i == len(self._starts) - 1 or fork(c):
                    self._slots = self._run.walk(a)
                    break
        return self._slots

    def span(self, g=0):
        if isinstance(g, str):
            if g not in self.rx.pat.groupindex:
                raise IndexError('no such group')
            g = self.rx.pat.groupindex[g]
        if not 0 <= g <= self.rx.pat.groups:
            raise IndexError('no such group')
        t = self.slots()
        return (t[2 * g], t[2 * g + 1]) if 2 * g + 1 in t else (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _g(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else mk(vunits(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        r = tuple(self._g(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        return tuple(self._g(i, default) for i in range(1, self.rx.pat.groups + 1))

    def groupdict(self, default=None):
        return {k: self._g(i, default) for k, i in self.rx.pat.groupindex.items()}

    def __getitem__(self, g):
        return self._g(g)

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self


_PROGS = {}


def rematch(pat, s, how='match'):
    pat = re.compile(pat) if isinstance(pat, str) else pat
    prog = _PROGS.get(pat)
    if prog is None:
        prog = _PROGS[pat] = _Prog(_Re(pat))
    u = vunits(s)
    run = _Run(prog, u, how == 'fullmatch')
    starts = []
    for a in range(len(u) + 1) if how == 'search' else (0,):
        c = run.ok(0, a)
        if c is not False:
            starts.append((a, c))
            if c is True:
                break
    if not fork(or_(*[c for _, c in starts])):
        return None
    return VecMatch(prog.rx, s, run, starts)


def fits(pat, s):
    """False when the text is too short for the pattern, whatever it is"""
    if s.maxlen is None:
        return True
    t = sp.parse(pat.pattern, pat.flags & (re.X | re.I | re.S | re.A)) if isinstance(
        pat, re.Pattern) else sp.parse(pat)
    return t.getwidth()[0] <= s.maxlen
