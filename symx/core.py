"""Symbolic values and the path explorer.

A path is identified by the list of outcomes of its symbolic branches.  The explorer re-executes the
harness from the start for each path (depth-first), asking z3 at every *new* branch which sides are
satisfiable together with the path condition.  Every input is a z3 variable; comparisons on symbolic
values fork immediately and return an ordinary bool, so CPython's control flow is untouched.
"""
import copy
import time
import z3

# ---------------------------------------------------------------- control exceptions


class Control(BaseException):
    pass


class Infeasible(Control):
    """the assumptions of this path cannot be met"""


class Unsupported(Control):
    """an operation the encoding does not cover"""


class PathLimit(Control):
    """a stated bound was exceeded (loop / branch budget)"""


class Cut(Control):
    """the path leaves the stated bounds; nothing is claimed about it"""


class Handoff(Control):
    pass


# ---------------------------------------------------------------- engine state


class Stats:
    FIELDS = ('paths', 'branches', 'queries', 'solver_s', 'unknown', 'concretised', 'infeasible',
              'cut', 'limit', 'checks', 'unsupported', 'repaired')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.notes = {}
        self.functions = set()

    def note(self, kind):
        self.notes[kind] = self.notes.get(kind, 0) + 1

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        for k, v in d['notes'].items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.functions |= set(d['functions'])

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['notes'] = dict(self.notes)
        d['functions'] = sorted(self.functions)
        return d


def dump_model(m):
    """the values of the plain variables of a model, to be sent to another process"""
    if m is None or isinstance(m, list):
        return m
    out = []
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_string_value(v):
                out.append((d.name(), 's', v.as_string()))
            elif z3.is_int_value(v):
                out.append((d.name(), 'i', v.as_long()))
    return out


def load_model(vals):
    m = z3.Model()
    for n, k, v in vals:
        if k == 's':
            m.update_value(z3.String(n), z3.StringVal(v))
        else:
            m.update_value(z3.Int(n), z3.IntVal(v))
    return m


class Engine:
    """One path at a time."""

    def __init__(self, query_timeout_ms=10000, max_branches=4000):
        self.stats = Stats()
        self.query_timeout_ms = query_timeout_ms
        self.max_branches = max_branches
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.active = False

    # -- life cycle of a path
    def begin(self, prefix, model):
        self.prefix = prefix          # list of bool/int outcomes
        self.pos = 0
        self.trace = []               # outcomes so far
        self.alts = []                # (prefix, model) discovered on this path
        self.unverified = isinstance(model, list)
        if self.unverified:           # values handed over from another process
            model = load_model(model)
        self.model = model            # satisfies the path condition up to the current point or None
        self.pc = []
        self.known = {}               # ast id -> bool
        self.hexdigit = {}            # ast id of a hexadecimal digit's character code -> its value
        self.fs = None                # the file system of this path, if it has one
        self.quoted = []              # unbounded texts that were quoted
        self.docs = []                # serialised documents made on this path
        self.charinfo = {}            # ast id of a string variable -> what its characters are
        self.maxlens = {}
        self.unitdom = {}             # ast id of a character code -> its possible ranges
        self.keep = []                # keep asts alive so that ids stay unique
        self.varcache = {}            # ast id -> (variables, constants) of a condition
        self.counter = 0
        self.inputs = []              # (name, kind, term, aux)
        self.outcomes = []
        self.flags = set()
        self.clock = None
        self.zone = None              # the local time zone: [(from when, offset)]
        self.tainted = []             # reasons why this path over-approximates / is partial
        self.solver.reset()
        self.solver.set('timeout', self.query_timeout_ms)
        self.active = True

    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    # -- solver
    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *extra):
        self.stats.queries += 1
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            # a second, non-incremental attempt decides most of what the incremental core gives up on
            t = time.time()
            s = z3.Solver()
            s.set('timeout', self.query_timeout_ms)
            s.add(*self.pc)
            if extra:
                s.add(*extra)
            r = s.check()
            self.stats.queries += 1
            m = s.model() if r == z3.sat else None
            self.stats.solver_s += time.time() - t
            if r == z3.unknown:
                self.stats.unknown += 1
                self.stats.note('unknown: %s' % s.reason_unknown())
        return r, m

    def _leaves(self, c):
        """(variables, constants) of a term; (None, None) when it is not made of plain variables"""
        k = c.get_id()
        r = self.varcache.get(k)
        if r is not None:
            return r
        vs, cs, seen, todo, ok = {}, {}, set(), [c], True
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if not z3.is_app(t):
                ok = False
                break
            if t.num_args() == 0:
                if z3.is_string_value(t) or z3.is_int_value(t):
                    cs[i] = t
                elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    vs[i] = t
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                ok = False
                break
            else:
                todo.extend(t.children())
        r = (vs, cs) if ok else (None, None)
        self.varcache[k] = r
        self.keep.append(c)
        return r

    def _repair(self, cond, extra=()):
        """A model of the path condition and `cond`, found by changing one variable of the current
        model (a witness is checked by evaluation, so no search by the solver is needed); or None."""
        if self.model is None:
            return None
        vs, cs = self._leaves(cond)
        if not vs or len(vs) > 3 or len(cs) > 24 or not any(
                v.sort() == z3.StringSort() for v in vs.values()):
            return None
        t0 = time.time()
        m = None
        try:
            for vi, v in vs.items():
                sort = v.sort()
                if sort == z3.StringSort():
                    cands = [c for c in cs.values() if z3.is_string_value(c)]
                    if len(cands) > 12:
                        cands = cands[:12]
                    cur = self.model.eval(v, model_completion=True)
                    cands += [self.model.eval(o, model_completion=True) for oi, o in vs.items()
                              if oi != vi and o.sort() == sort]
                    if z3.is_string_value(cur):
                        cv = cur.as_string()
                        cands += [z3.StringVal(x) for x in (cv + 'a', cv + 'b', 'a', 'b', 'zq', 'A')]
                elif sort == z3.IntSort():
                    cands = []
                    for c in list(cs.values()) + [o for oi, o in vs.items() if oi != vi]:
                        if c.sort() == sort:
                            b = self.model.eval(c, model_completion=True)
                            if z3.is_int_value(b):
                                cands += [z3.IntVal(b.as_long() + d) for d in (0, 1, -1)]
                else:
                    continue
                rel = None
                for val in cands:
                    if m is None:
                        m = copy.copy(self.model)
                    m.update_value(v, val)
                    if not z3.is_true(m.eval(cond, model_completion=True)):
                        continue
                    if rel is None:
                        rel = [c for c in self.pc for cvs in (self._leaves(c)[0],)
                               if cvs is None or vi in cvs]
                    if all(z3.is_true(m.eval(c, model_completion=True)) for c in rel):
                        self.stats.repaired += 1
                        return m
                m = None
        finally:
            self.stats.solver_s += time.time() - t0
        return None

    def _model_says(self, c):
        if self.unverified:
            self.unverified = False
            if self.model is not None and not all(
                    z3.is_true(self.model.eval(x, model_completion=True)) for x in self.pc):
                self.model = None
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decide a z3 Bool: returns a python bool, forking when both are possible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self.known.get(cond.get_id())
        if k is not None:
            return k
        if len(self.trace) >= self.max_branches:
            raise PathLimit('more than %d branches on one path' % self.max_branches)
        neg = z3.Not(cond)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self._note(cond, v)
            if v is True or v is False:
                self._add(cond if v else neg)
            else:  # 't'/'f': implied, recorded so that positions line up
                v = v == 't'
            return v
        self.stats.branches += 1
        self.pos += 1
        guess = self._model_says(cond)
        if guess is None:
            r, m = self._check()
            if r == z3.unsat:
                raise Infeasible()
            self.model = m
            guess = self._model_says(cond)
        if guess is None:
            guess = True
            r, m = self._check(cond)
            if r != z3.sat:
                guess = False
                r, m = self._check(neg)
                if r == z3.unsat:
                    raise Infeasible()
                self.trace.append('f')
                self.model = m
                self._note(cond, False)
                return False
            self.model = m
        other = neg if guess else cond
        m = self._repair(other)
        r = z3.sat
        if m is None:
            r, m = self._check(other)
        if r == z3.unsat:
            # implied: no constraint needed, but the position must be recorded
            self.trace.append('t' if guess else 'f')
            self._note(cond, guess)
            return guess
        # sat or unknown: the other side has to be explored too
        self.alts.append((self.trace + [not guess], m))
        self.trace.append(guess)
        self._note(cond, guess)
        self._add(cond if guess else neg)
        return guess

    def _note(self, cond, v):
        if v == 't':
            v = True
        elif v == 'f':
            v = False
        self.known[cond.get_id()] = v
        neg = z3.simplify(z3.Not(cond))
        self.known[neg.get_id()] = not v
        self.keep.append(cond)
        self.keep.append(neg)

    def lacks(self, z, ch):
        """is the one-character text ch certainly absent from the string term z? (syntactic)"""
        if z3.is_string_value(z):
            return ch not in unesc(z.as_string())
        ci = self.charinfo.get(z.get_id())
        if ci is not None:
            return ch not in ci[1] if ci[0] == 'only' else ch in ci[1]
        k = z.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            return all(self.lacks(c, ch) for c in z.children())
        if k in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT):
            return self.lacks(z.arg(0), ch)
        return False

    def has_text(self, z, sub):
        """fork on: the string term z contains sub (a str or a term)"""
        if type(sub) is str:
            if sub and any(self.lacks(z, c) for c in sub):
                return False
            sub = z3.StringVal(_esc(sub))
        return self.branch(z3.Contains(z, sub))

    def choose_free(self, n):
        """fork over 0..n-1 with nothing attached: every outcome is feasible, no query needed"""
        if len(self.trace) >= self.max_branches:
            raise PathLimit('more than %d branches on one path' % self.max_branches)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            self.stats.branches += 1
            for i in range(n - 1, 0, -1):
                self.alts.append((self.trace + [('p', i)], self.model))
            v = ('p', 0)
        self.pos += 1
        self.trace.append(v)
        return v[1]

    def choose(self, term, n):
        """Fork an Int term over 0..n-1 and return the concrete value."""
        for i in range(n - 1):
            if self.branch(term == i):
                return i
        return n - 1

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self.pos < len(self.prefix):
            self._add(cond)
            return   # feasibility was established when the prefix was made
        said = self._model_says(cond)
        self._add(cond)
        if said is not True:
            m = self._repair(cond)
            if m is None:
                r, m = self._check()
                if r == z3.unsat:
                    raise Infeasible()
            self.model = m

    def get_model(self):
        if self.model is None or not all(
                z3.is_true(self.model.eval(c, model_completion=True)) for c in self.pc):
            r, m = self._check()
            if r != z3.sat:
                return None
            self.model = m
        return self.model

    def taint(self, why):
        self.tainted.append(why)
        self.stats.note('tainted: ' + why)


ENGINE = None


def eng():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


# ---------------------------------------------------------------- values


def zs(x):
    """z3 string term for str / SymStr"""
    if isinstance(x, SymStr):
        return x.z
    return z3.StringVal(_esc(x))


def _esc(s):
    # z3's python API interprets \u{..} escapes in literals: escape every backslash and non-ascii
    out = []
    for ch in s:
        o = ord(ch)
        if o < 32 or o > 126 or ch == '\\':
            out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return ''.join(out)


def unesc(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def zi(x):
    if isinstance(x, SymInt):
        return x.z
    if type(x) in _CUSTOM_NUM:
        raise Unsupported('a fraction where a whole number is expected')
    return z3.IntVal(int(x))


def is_sym(x):
    return isinstance(x, (SymStr, SymInt)) or getattr(x, '__sx_symbolic__', False)


class SymStr(str):
    """A str whose content is the z3 String term `z`."""
    __slots__ = ('z', 'maxlen', 'meta')
    _n = 0

    def __new__(cls, z, maxlen=None, meta=None):
        SymStr._n += 1
        o = str.__new__(cls, '<<sym%d>>' % SymStr._n)
        o.z = z
        o.maxlen = maxlen
        o.meta = meta
        return o

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if self is o:
            return True
        return ENGINE.branch(self.z == zs(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def _cmp(self, o, f):
        if not isinstance(o, str):
            return NotImplemented
        return ENGINE.branch(f(self.z, zs(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: b < a)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: b <= a)

    def __bool__(self):
        return ENGINE.branch(self.z != z3.StringVal(''))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(z3.Concat(self.z, zs(o)), _addlen(self, o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(z3.Concat(zs(o), self.z), _addlen(self, o))

    def __mul__(self, n):
        if isinstance(n, SymInt) or not isinstance(n, int):
            return NotImplemented
        r = ''
        for _ in range(n):
            r = r + self
        return r

    __rmul__ = __mul__

    def __len__(self):   # only reached from uninstrumented code
        raise Unsupported('len() of a symbolic string in uninstrumented code')

    def __iter__(self):
        return iter(self.chars())

    def __reversed__(self):
        return iter(self.chars()[::-1])

    def length(self):
        return SymInt(z3.Length(self.z))

    def fork_len(self, cap=64):
        """fork on the length and return it"""
        n = 0
        ml = self.maxlen if self.maxlen is not None else cap
        while n < ml:
            if ENGINE.branch(z3.Length(self.z) == n):
                return n
            n += 1
        if self.maxlen is None:
            ENGINE.stats.note('cut: string longer than %d iterated' % cap)
            if not ENGINE.branch(z3.Length(self.z) == n):
                raise Cut('iterated string longer than %d' % cap)
        return n

    def chars(self):
        if self.z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            # part by part; the characters of the constant parts are known
            out, todo = [], [self.z]
            while todo:
                t = todo.pop()
                if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                    todo.extend(reversed(t.children()))
                elif z3.is_string_value(t):
                    out.extend(unesc(t.as_string()))
                else:
                    out.extend(SymStr(t, ENGINE.maxlens.get(t.get_id(), self.maxlen)).chars())
            return out
        n = self.fork_len()
        return [SymStr(z3.SubString(self.z, i, 1), 1) for i in range(n)]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a symbolic string')

    def __repr__(self):
        return '<SymStr %s>' % self.z

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__format__(str.__str__(self), spec)

    def __getitem__(self, k):
        from symx import rt
        return rt.str_getitem(self, k)

    def __contains__(self, x):
        from symx import rt
        return rt.contains(self, x)

    def __mod__(self, x):
        raise Unsupported('symbolic format string')


def _addlen(a, b):
    def ml(x):
        return x.maxlen if isinstance(x, SymStr) else len(x)
    x, y = ml(a), ml(b)
    return None if x is None or y is None else x + y


class SymInt(int):

    def __new__(cls, z):
        o = int.__new__(cls, 7777)
        o.z = z
        return o

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return id(self) >> 4

    def _b(self, o, f):
        if isinstance(o, float):
            if o.is_integer():
                o = int(o)
            else:
                return NotImplemented
        if not isinstance(o, int):
            return NotImplemented
        return f(self.z, zi(o))

    def __eq__(self, o):
        if getattr(o, '__sx_symbolic__', False):
            return NotImplemented
        if not isinstance(o, (int, float)):
            return False
        if self is o:
            return True
        if isinstance(o, float) and not o.is_integer():
            return False
        return ENGINE.branch(self.z == zi(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _cmp(self, o, f):
        if isinstance(o, float) and not isinstance(o, SymInt):
            if o in (float('inf'), float('-inf')):
                return f(0, 1 if o > 0 else -1)
            return ENGINE.branch(f(z3.ToReal(self.z), z3.RealVal(repr(o))))
        r = self._b(o, f)
        if r is NotImplemented:
            return r
        return ENGINE.branch(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ENGINE.branch(self.z != 0)

    def _ar(self, o, f):
        if isinstance(o, float) and type(o) is float and o == o and abs(o) != float('inf') and not o.is_integer():
            from symx.tm import SymFrac, _rat
            return SymFrac(f(z3.ToReal(self.z), _rat(o)))
        r = self._b(o, f)
        return r if r is NotImplemented else SymInt(z3.simplify(r))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return NotImplemented
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.z >= 0, self.z, -self.z))

    def _dm(self, a, b):
        if ENGINE.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # python floors; z3's div/mod are euclidean
        q = z3.If(b > 0, a / b, (-a) / (-b))
        return z3.simplify(q), z3.simplify(a - b * q) if not z3.is_int_value(b) else z3.simplify(
            z3.If(b > 0, a % b, -((-a) % (-b))))

    def __floordiv__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return SymInt(self._dm(self.z, zi(o))[0])

    def __rfloordiv__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return SymInt(self._dm(zi(o), self.z)[0])

    def __mod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return SymInt(self._dm(self.z, zi(o))[1])

    def __rmod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return SymInt(self._dm(zi(o), self.z)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        from symx.tm import SymFrac
        return SymFrac.of(self) / o

    def __int__(self):
        return self

    def __index__(self):
        return concretise(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic int')

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<SymInt %s>' % self.z

    __str__ = __repr__

    def __format__(self, spec):
        return '<SymInt>'

    def _unsup(self, *a):
        raise Unsupported('bit operation on a symbolic int')

    __and__ = __or__ = __xor__ = __rand__ = __ror__ = __rxor__ = __invert__ = _unsup
    __lshift__ = __rshift__ = __rlshift__ = __rrshift__ = __pow__ = __rpow__ = _unsup


def concretise(x, why='concretised'):
    """Pin a symbolic value to one value of the current model; the other values are not explored,
    and the path is marked partial."""
    e = ENGINE
    if isinstance(x, (SymStr, SymInt)):
        e.stats.concretised += 1
        e.taint(why)
        if e.pos < len(e.prefix):
            v = e.prefix[e.pos][1]
        else:
            m = e.get_model()
            if m is None:
                raise Infeasible()
            if isinstance(x, SymStr):
                v = unesc(m.eval(x.z, model_completion=True).as_string())
            else:
                v = m.eval(x.z, model_completion=True).as_long()
        e.pos += 1
        e.trace.append(('c', v))
        e.assume(x.z == (zs(v) if isinstance(x, SymStr) else v))
        return v
    c = getattr(x, '__sx_concretise__', None)
    if c:
        return c()
    raise Unsupported('cannot concretise %r' % type(x))


def _jseq(a, b):
    if type(a) is dict and type(b) is dict:
        if any(is_sym(k) for k in a) or any(is_sym(k) for k in b):
            return None
        if list(a) != list(b):
            return False
        return _jseq(list(a.values()), list(b.values()))
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return False
        rs = [_jseq(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        if any(r is None for r in rs):
            return None
        rs = [r for r in rs if r is not True]
        return True if not rs else (rs[0] if len(rs) == 1 else z3.And(*rs))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    if type(a) is bool or type(b) is bool:
        return a is b
    return eqz(a, b)


def eqz(a, b, depth=0):
    """a == b as a python bool or z3 Bool without forking; None when code has to run to know."""
    if a is b:
        return True
    sa, sb = isinstance(a, SymStr), isinstance(b, SymStr)
    if sa or sb:
        if not (isinstance(a, str) and isinstance(b, str)):
            return None if not isinstance(a, str) and _custom_eq(a) or (
                not isinstance(b, str) and _custom_eq(b)) else False
        if getattr(a, 'units', None) is not None or getattr(b, 'units', None) is not None:
            from symx import vec
            if vec.vunits(a) is not None and vec.vunits(b) is not None:
                return vec.veq(a, b)
        if getattr(a, 'kind', None) == 'json' and getattr(b, 'kind', None) == 'json':
            r = _jseq(a.payload, b.payload)     # equal texts come from equal structures
            if r is not None:
                return r
        return a_eq(zs(a), zs(b))
    ia, ib = isinstance(a, SymInt), isinstance(b, SymInt)
    if ia or ib:
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return None if _custom_eq(a) or _custom_eq(b) else False
        if type(a) in _CUSTOM_NUM or type(b) in _CUSTOM_NUM:
            from symx.tm import _rat
            return a_eq(_rat(a), _rat(b))
        if isinstance(a, float) and not a.is_integer() or isinstance(b, float) and not \
                b.is_integer():
            return False
        return a_eq(zi(a), zi(b))
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and ta is tb:
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = eqz(x, y, depth + 1)
            if r is False:
                return False
            if r is None:
                return None
            if r is not True:
                out.append(r)
        return True if not out else (out[0] if len(out) == 1 else z3.And(*out))
    if ta is dict and tb is dict:
        if any(is_sym(k) for k in a) or any(is_sym(k) for k in b):
            return None
        if a.keys() != b.keys():
            return False
        return eqz(list(a.values()), [b[k] for k in a], depth + 1)
    if _plain(ta) and _plain(tb):
        if ta in (list, tuple, dict) or tb in (list, tuple, dict):
            return False
        return a == b
    return None


_CUSTOM_NUM = set()       # fractions (symx.tm)
_PLAIN = {str, int, bool, float, type(None), bytes, list, tuple, dict, type}


def _plain(t):
    return t in _PLAIN


def _custom_eq(x):
    return type(x) not in _PLAIN and not isinstance(x, (SymStr, SymInt))


def a_eq(x, y):
    r = z3.simplify(x == y)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r
