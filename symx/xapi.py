"""The interface harness functions are written against, in its symbolic form.

`SymX` feeds z3 variables to the harness; `symx/conx.py` implements the same interface with concrete
values, so that the same harness function replays a model against the unmodified code.
"""
import z3

from symx import core, jwtm, rt, vec
from symx.core import Control, Infeasible, SymInt, SymStr, unesc


class CheckFailed(Control):
    def __init__(self, msg):
        Control.__init__(self, msg)
        self.msg = msg


class Out:
    """outcome of a call: .ok, .value / .exc"""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__

    def is_exc(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


def alphabet_re(chars):
    """z3 class for a string like 'a-z0-9_' (ranges) """
    rs, i = [], 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == '-':
            rs.append(z3.Range(core._esc(chars[i]), core._esc(chars[i + 2])))
            i += 3
        else:
            rs.append(z3.Re(core._esc(chars[i])))
            i += 1
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def expand(chars):
    out, i = set(), 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == '-':
            out |= {chr(c) for c in range(ord(chars[i]), ord(chars[i + 2]) + 1)}
            i += 3
        else:
            out.add(chars[i])
            i += 1
    return out


class SymX:
    symbolic = True

    def __init__(self, engine):
        self.e = engine
        self.inputs = {}       # name -> ('str'|'int'|'pick', term)
        self.notes = []
        self.reached = set()
        self.hypo = None

    # -- inputs
    def str(self, name, maxlen=None, minlen=0, alphabet=None, exclude=None):
        z = z3.String(name)
        self._reg(name, 'str', z)
        e = self.e
        if maxlen is not None:
            e.maxlens[z.get_id()] = maxlen
            e.assume(z3.Length(z) <= maxlen)
        if minlen:
            e.assume(z3.Length(z) >= minlen)
        if alphabet is not None:
            r = alphabet_re(alphabet)
            if maxlen is not None:
                e.assume(z3.InRe(z, z3.Loop(r, minlen, maxlen) if maxlen else z3.Re('')))
            else:
                e.assume(z3.InRe(z, z3.Star(r)))
        else:
            # python strings met in practice: no NUL / lone surrogates
            pass
        if alphabet is not None:
            e.charinfo[z.get_id()] = ('only', expand(alphabet))
        elif exclude:
            e.charinfo[z.get_id()] = ('not', set(exclude))
        e.keep.append(z)
        if exclude:
            for c in exclude:
                e.assume(z3.Not(z3.Contains(z, core.zs(c))))
        return SymStr(z, maxlen)

    def vec(self, name, maxlen, minlen=0, alphabet=None):
        """a text of at most maxlen characters, kept character by character (see symx/vec.py);
        without an alphabet: every character up to U+2FFFF but the surrogates"""
        n = minlen + (self.e.choose_free(maxlen - minlen + 1) if maxlen > minlen else 0)
        rs = vec.runs({ord(c) for c in expand(alphabet)}) if alphabet else [
            (0, 0xd7ff), (0xe000, vec.MAXCODE)]
        us = []
        for i in range(n):
            u = z3.Int('%s[%d]' % (name, i))
            self.e.assume(z3.And(u >= rs[0][0], u <= rs[-1][1], vec.uin(u, rs)))
            self.e.unitdom[u.get_id()] = rs
            self.e.keep.append(u)
            us.append(u)
        v = vec.SymVec(us) if us else ''
        self._reg(name, 'str', core.zs(v))
        return v

    def url(self, scheme, netloc, path='', query='', fragment=''):
        """a URL of the given parts (the parts must not contain the delimiters)"""
        t = scheme + '://' if scheme else ''
        for p in (netloc, path):
            t = t + p
        if not (isinstance(query, str) and not isinstance(query, SymStr) and query == ''):
            t = t + "?" + query
        if not (isinstance(fragment, str) and not isinstance(fragment, SymStr) and fragment == ''):
            t = t + "#" + fragment
        if not isinstance(t, SymStr):
            return t
        d = rt.Doc.__new__(rt.Doc, t.z)
        d.kind, d.payload, d.meta = 'url', (scheme, netloc, path, '', query, fragment), ('url',)
        return d

    # -- tokens (symx/jwtm.py)
    def jwt(self, alg, claims, key, tampered=False):
        return jwtm.mkjws({'alg': alg}, claims, key, tampered)

    def jwe(self, alg, enc, inner, key, tampered=False):
        return jwtm.mkjwe({'alg': alg, 'enc': enc}, inner, key, tampered)

    def keyjar(self, entries, later=None):
        return jwtm.SymKeyJar(entries, later)

    def keys(self, labels):
        return [jwtm.Key(l) for l in labels]

    def nontoken(self, name):
        return self.str(name, 8, 1, 'A-Ha-e')

    def int(self, name, lo=None, hi=None):
        z = z3.Int(name)
        self._reg(name, 'int', z)
        c = []
        if lo is not None:
            c.append(z >= lo)
        if hi is not None:
            c.append(z <= hi)
        if c:
            self.e.assume(z3.And(*c))
        return SymInt(z)

    def bool(self, name):
        return bool(self.pick(name, [False, True]))

    def pick(self, name, options):
        """fork over a finite set of shapes"""
        if len(options) == 1:
            return options[0]
        i = self.e.choose_free(len(options))
        self._reg(name, 'pick', i)
        return options[i]

    def _reg(self, name, kind, z):
        if name in self.inputs:
            raise RuntimeError('input %s declared twice' % name)
        self.inputs[name] = (kind, z)

    # -- logic
    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg, **info):
        self.e.stats.checks += 1
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def run(self, f, *a, **k):
        try:
            return Out(True, value=f(*a, **k))
        except Exception as exc:
            return Out(False, exc=exc)

    def note(self, key, value):
        """an observation that the concrete replay of this path has to reproduce"""
        self.notes.append((key, snap(value)))

    def reach(self, label):
        self.reached.add(label)

    def taint(self, why):
        self.e.taint(why)

    def fs(self):
        from symx import fsm
        self.e.fs = fsm.FS(self)
        return self.e.fs

    def db(self):
        """the address of an empty database"""
        from symx import sqlm  # noqa
        self.e.sqldbs = {}
        return 'sqlite:////symdb/x.db'

    def between(self, f, hook):
        """run f(), and hook() before every statement and commit that f issues"""
        e = self.e
        e.sqlhook = hook
        try:
            return self.run(f)
        finally:
            e.sqlhook = None

    # -- clock, in microseconds
    def zone(self, tz):
        """the local time zone, in the notation of POSIX"""
        from symx import tm
        self.e.zone = tm.zone_table(tz)

    def clock(self, us):
        self.e.clock = core.zi(us)

    def bool_eq(self, a, b):
        return rt.eq(a, b)


def snap(v, depth=0):
    """freeze a value (may hold terms) for later evaluation under the path model"""
    if isinstance(v, SymStr):
        if isinstance(v, rt.Doc) and v.kind != 'url':
            return ('doc', v.kind)
        if v.meta and v.meta[0] == 'opaque':
            return ('opaque',)
        return ('z', v.z)
    if isinstance(v, SymInt):
        return ('z', v.z)
    if v is None or isinstance(v, (bool, int, str)) and not getattr(v, '__sx_symbolic__', False):
        return ('c', v)
    if isinstance(v, Out):
        if v.ok:
            return ('l', [('c', 'ok'), snap(v.value, depth + 1)])
        return ('l', [('c', 'exc'), ('c', exc_name(v.exc))])
    if isinstance(v, BaseException):
        return ('c', exc_name(v))
    if isinstance(v, (list, tuple)):
        return ('l', [snap(i, depth + 1) for i in v])
    if isinstance(v, (set, frozenset)):
        return ('s', [snap(i, depth + 1) for i in v])
    d = getattr(v, '_dict', None)
    if isinstance(v, dict):
        d = v
    if isinstance(d, dict):
        return ('d', [(snap(k, depth + 1), snap(x, depth + 1)) for k, x in d.items()])
    return ('c', '<%s>' % getattr(v, '__class__', type(v)).__name__)


def exc_name(e):
    return type(e).__name__


def ev(s, model):
    t = s[0]
    if t == 'z':
        v = model.eval(s[1], model_completion=True)
        if z3.is_string_value(v):
            return unesc(v.as_string())
        if z3.is_int_value(v):
            return v.as_long()
        return None
    if t == 'c':
        return s[1]
    if t == 'l':
        return [ev(i, model) for i in s[1]]
    if t == 's':
        return {'__set__': sorted((ev(i, model) for i in s[1]), key=repr)}
    if t == 'd':
        return {'__dict__': [[ev(k, model), ev(v, model)] for k, v in s[1]]}
    return {'__any__': t}
