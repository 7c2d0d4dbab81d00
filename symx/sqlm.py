"""Model of the SQLAlchemy (1.4) / SQLite boundary: engines, reflected tables, sessions and the statements a store
issues.  Contract assumed (and cross-checked by every replay, which uses the real library on a real SQLite file):
reads see what is committed, or the session's own uncommitted changes; a session that changed something holds the
write lock until it commits or rolls back; text compares exactly; row ids count up from the largest one."""
import json

import z3

from symx import core, rt
from symx.core import SymInt, SymStr, Unsupported
from symx.rt import model

try:
    import sqlalchemy
    from sqlalchemy import exc as sqlexc
    from sqlalchemy import orm
except ImportError:                                   # pragma: no cover
    sqlalchemy = None


class DB:
    def __init__(self):
        self.tables = {}       # name -> (columns, rows); a row is a list of values
        self.writer = None


class SymEngine:
    def __init__(self, url):
        e = core.ENGINE
        if isinstance(url, SymStr):
            raise Unsupported('database address that is not fixed')
        dbs = e.__dict__.setdefault('sqldbs', {})
        self.db = dbs.setdefault(url, DB())
        self.url = url

    def __deepcopy__(self, m):
        return self

    def connect(self):
        return SymSession(self)

    def begin(self):
        raise Unsupported('engine.begin')

    def dispose(self):
        pass

    def _run_ddl_visitor(self, visitor, metadata, **kw):
        if visitor.__name__ != 'SchemaGenerator':
            raise Unsupported('schema operation')
        for name, t in metadata.tables.items():
            if name not in self.db.tables:
                cols = [(c.name, bool(c.nullable), bool(c.primary_key)) for c in t.columns]
                self.db.tables[name] = (cols, [])


class Cond:
    def __init__(self, f):
        self.f = f

    def __and__(self, o):
        return Cond(lambda r: self.f(r) and o.f(r))

    def __or__(self, o):
        return Cond(lambda r: self.f(r) or o.f(r))

    def __invert__(self):
        return Cond(lambda r: not self.f(r))

    def __bool__(self):
        raise TypeError('Boolean value of this clause is not defined')


class SymColumn:
    def __init__(self, table, i, name):
        self.table, self.i, self.name, self.key = table, i, name, name

    def __eq__(self, o):
        return Cond(lambda r: _eq(r[self.i], o))

    def __ne__(self, o):
        return Cond(lambda r: r[self.i] is not None and o is not None and not _eq(r[self.i], o))

    def __hash__(self):
        return id(self)

    def in_(self, os):
        return Cond(lambda r: any(_eq(r[self.i], o) for o in os))

    def notin_(self, os):
        return ~self.in_(os)

    not_in = notin_

    def is_(self, o):
        return self == o

    def isnot(self, o):
        return ~self.is_(o)

    is_not = isnot

    def like(self, p, escape=None):
        if escape is not None:
            raise Unsupported('LIKE with an escape character')
        return Cond(lambda r: _like(r[self.i], p))

    ilike = like

    def startswith(self, p, **kw):
        return self._part(p, kw, lambda v: rt.call(v.startswith, p))

    def endswith(self, p, **kw):
        return self._part(p, kw, lambda v: rt.call(v.endswith, p))

    def contains(self, p, **kw):
        return self._part(p, kw, lambda v: rt.contains(v, p))

    def _part(self, p, kw, f):
        def g(r):
            if r[self.i] is None:
                return False
            if f(r[self.i]):
                return True
            if _wild(p):
                raise Unsupported('LIKE with letters or wildcards')
            return False
        return Cond(g)

    def asc(self):
        return (self, False)

    def desc(self):
        return (self, True)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('column operation ' + n)


def _wild(p):
    """may the pattern match a text that it is not part of (wildcards; letters, as case does not count)?"""
    r = z3.Range
    allc = z3.Full(z3.ReSort(z3.StringSort()))
    return core.ENGINE.branch(z3.InRe(core.zs(p), z3.Concat(allc, z3.Union(
        r('A', 'Z'), r('a', 'z'), z3.Re('%'), z3.Re('_')), allc)))


def _like(v, p):
    """LIKE of SQLite, for the texts it can be told for: v is p, or p is a single %, or has nothing special in it"""
    if v is None or p is None:
        return False
    if not isinstance(p, str):
        raise Unsupported('LIKE with something else')
    if rt.eq(v, p) or rt.eq(p, '%'):
        return True
    if _wild(p):
        raise Unsupported('LIKE with letters or wildcards')
    return False


def _eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) != isinstance(b, str):
        if isinstance(b, (str, int, bool)):
            raise Unsupported('comparison of a column with another type')
        raise sqlexc.InterfaceError('x', {}, Exception('unsupported type'))
    return rt.eq(a, b)


class Columns:
    def __init__(self, cols):
        self._cols = cols

    def __getattr__(self, n):
        for c in self._cols:
            if c.name == n:
                return c
        raise AttributeError(n)

    def __getitem__(self, n):
        for c in self._cols:
            if rt.eq(c.name, n):
                return c
        raise KeyError(n)

    def __iter__(self):
        return iter(self._cols)

    def __contains__(self, n):
        return any(rt.eq(c.name, n) for c in self._cols)

    def keys(self):
        return [c.name for c in self._cols]


class SymTable:
    def __init__(self, name, engine):
        if name not in engine.db.tables:
            raise sqlexc.NoSuchTableError(name)
        self.name = name
        self.spec = engine.db.tables[name][0]
        self.c = self.columns = Columns([SymColumn(self, i, c[0]) for i, c in enumerate(self.spec)])

    def __deepcopy__(self, m):
        return self

    def index(self, n):
        for i, c in enumerate(self.spec):
            if c[0] == n:
                return i
        raise sqlexc.CompileError('Unconsumed column names: %s' % n)

    def insert(self):
        return Stmt('insert', self)

    def update(self):
        return Stmt('update', self)

    def delete(self):
        return Stmt('delete', self)

    def select(self):
        return Stmt('select', self)

    def count(self):
        raise AttributeError('count')


class Stmt:
    def __init__(self, kind, table, conds=(), vals=None, what=None):
        self.kind, self.table, self.conds, self.vals = kind, table, list(conds), dict(vals or {})
        self.what = what

    def where(self, *c):
        return Stmt(self.kind, self.table, self.conds + list(c), self.vals, self.what)

    filter = where

    def filter_by(self, **kw):
        return self.where(*[getattr(self.table.c, k) == v for k, v in kw.items()])

    def values(self, *a, **kw):
        v = dict(self.vals)
        for d in a:
            for k, x in d.items():
                v[k.name if isinstance(k, SymColumn) else k] = x
        v.update(kw)
        return Stmt(self.kind, self.table, self.conds, v)


class SymRow:
    __sx_symbolic__ = True

    def __init__(self, spec, vals):
        self._spec, self._vals = spec, list(vals)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        for c, v in zip(self._spec, self._vals):
            if c[0] == n:
                return v
        raise AttributeError("Could not locate column in row for column '%s'" % n)

    def __iter__(self):
        return iter(list(self._vals))

    def __len__(self):
        return len(self._vals)

    def __getitem__(self, i):
        if isinstance(i, str):
            raise Unsupported('row by name')
        return self._vals[i]

    def __contains__(self, x):
        for v in self._vals:
            if v is None or x is None:
                if v is x:
                    return True
            elif isinstance(v, str) == isinstance(x, str) and rt.eq(v, x):
                return True
        return False

    def __sx_json__(self):
        raise TypeError('Object of type Row is not JSON serializable')

    def __eq__(self, o):
        return rt.eq(tuple(self._vals), tuple(o._vals) if isinstance(o, SymRow) else o)

    __hash__ = None

    def _asdict(self):
        return {c[0]: v for c, v in zip(self._spec, self._vals)}


class Query:
    def __init__(self, s, what, conds=(), cut=None, order=None):
        self.s, self.what, self.conds, self.cut, self.order = s, what, list(conds), cut, order
        self.table = what[0].table if isinstance(what[0], SymColumn) else what[0]

    def _new(self, **kw):
        d = dict(conds=self.conds, cut=self.cut, order=self.order)
        d.update(kw)
        return Query(self.s, self.what, **d)

    def filter(self, *c):
        return self._new(conds=self.conds + list(c))

    where = filter

    def filter_by(self, **kw):
        return self.filter(*[getattr(self.table.c, k) == v for k, v in kw.items()])

    def limit(self, n):
        return self._new(cut=n)

    def order_by(self, *o):
        o = o[0]
        col, rev = o if isinstance(o, tuple) else (o, False)
        if not self.table.spec[col.i][2]:
            raise Unsupported('ordering by another column')
        return self._new(order=rev)

    def _rows(self):
        _boundary()
        rows = [r for r in self.s.rows(self.table) if all(c.f(r) for c in self.conds)]
        if self.order:
            rows.reverse()
        if self.cut is not None:
            rows = rows[:self.cut]
        out = []
        for r in rows:
            if isinstance(self.what[0], SymColumn):
                out.append(SymRow([self.table.spec[c.i] for c in self.what], [r[c.i] for c in self.what]))
            else:
                out.append(SymRow(self.table.spec, r))
        return out

    def all(self):
        return self._rows()

    def first(self):
        r = self._rows()
        return r[0] if r else None

    def one_or_none(self):
        r = self._rows()
        if len(r) > 1:
            raise sqlexc.MultipleResultsFound('Multiple rows were found when one or none was required')
        return r[0] if r else None

    def one(self):
        r = self.one_or_none()
        if r is None:
            raise sqlexc.NoResultFound('No row was found when one was required')
        return r

    def scalar(self):
        r = self.one_or_none()
        return None if r is None else r[0]

    def count(self):
        return len(self._rows())

    def exists(self):
        return Exists(self)

    def with_entities(self, *what):
        return Query(self.s, list(what), self.conds, self.cut, self.order)

    def __iter__(self):
        return iter(self._rows())

    def delete(self, *a, **kw):
        return self.s.dml(Stmt('delete', self.table, self.conds))

    def update(self, values, *a, **kw):
        return self.s.dml(Stmt('update', self.table, self.conds, values))


class Exists:
    """the EXISTS of a query, and COUNT"""

    def __init__(self, q, f=lambda rows: len(rows) > 0):
        self.q, self.f = q, f

    def scalar(self):
        return self.f(self.q._rows())


class Result:
    def __init__(self, n=None, rows=None):
        self.rowcount, self._r = n, rows

    def fetchall(self):
        return self._r

    all = fetchall

    def fetchone(self):
        return self._r.pop(0) if self._r else None

    def first(self):
        return self._r[0] if self._r else None

    def one_or_none(self):
        if len(self._r) > 1:
            raise sqlexc.MultipleResultsFound('Multiple rows were found when one or none was required')
        return self._r[0] if self._r else None

    scalar_one_or_none = lambda self: None if self.one_or_none() is None else self.one_or_none()[0]

    def scalar(self):
        return self._r[0][0] if self._r else None

    def scalars(self):
        return Result(rows=[r[0] for r in self._r])

    def __iter__(self):
        return iter(self._r)


def _boundary():
    e = core.ENGINE
    h = e.__dict__.get('sqlhook')
    if h is not None:
        e.sqlhook = None
        try:
            h()
        finally:
            e.sqlhook = h


class SymSession:
    def __init__(self, engine):
        self.engine = engine
        self.db = engine.db
        self.mine = None
        self.broken = False

    def __deepcopy__(self, m):
        return self

    def __call__(self):
        return self

    def rows(self, table):
        if self.broken:
            raise Unsupported('session after an error')
        return (self.mine if self.mine is not None else {
            n: t[1] for n, t in self.db.tables.items()})[table.name]

    def begin_write(self):
        if self.broken:
            raise Unsupported('session after an error')
        if self.mine is None:
            if self.db.writer is not None:
                raise sqlexc.OperationalError('x', {}, Exception('database is locked'))
            self.db.writer = self
            self.mine = {n: [list(r) for r in t[1]] for n, t in self.db.tables.items()}

    def query(self, *what):
        if len(what) == 1 and type(what[0]) is Exists:
            return what[0]
        return Query(self, list(what))

    def dml(self, st):
        _boundary()
        self.begin_write()
        t = st.table
        rows = self.mine[t.name]
        if st.kind == 'insert':
            new = [None] * len(t.spec)
            for k, v in st.vals.items():
                new[t.index(k)] = self._text(v)
            pk = [i for i, c in enumerate(t.spec) if c[2]]
            if len(pk) == 1 and new[pk[0]] is None:
                new[pk[0]] = 1 + max([r[pk[0]] for r in rows] or [0])
            for c, v in zip(t.spec, new):
                if v is None and not c[1]:
                    self._fail(sqlexc.IntegrityError('x', {}, Exception('NOT NULL constraint failed')))
            rows.append(new)
            return 1
        n, keep = 0, []
        for r in rows:
            if all(c.f(r) for c in st.conds):
                n += 1
                if st.kind == 'update':
                    for k, v in st.vals.items():
                        i = t.index(k.name if isinstance(k, SymColumn) else k)
                        if v is None and not t.spec[i][1]:
                            self._fail(sqlexc.IntegrityError('x', {}, Exception('NOT NULL constraint failed')))
                        r[i] = self._text(v)
                    keep.append(r)
            else:
                keep.append(r)
        self.mine[t.name] = keep
        return n

    def _text(self, v):
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, bool)):
            raise Unsupported('number in a text column')
        self._fail(sqlexc.InterfaceError('x', {}, Exception('type is not supported')))

    def _fail(self, exc):
        self.broken = True
        raise exc

    def execute(self, st, *a, **kw):
        if not isinstance(st, Stmt) or a or kw:
            raise Unsupported('statement')
        if st.kind == 'select':
            return Result(rows=Query(self, st.what or [st.table], st.conds).all())
        return Result(self.dml(st))

    def commit(self):
        _boundary()
        if self.mine is not None:
            for n, r in self.mine.items():
                self.db.tables[n] = (self.db.tables[n][0], r)
            self.mine = None
            self.db.writer = None

    def rollback(self):
        self.broken = False
        if self.mine is not None:
            self.mine = None
            self.db.writer = None

    def flush(self):
        pass

    def close(self):
        self.rollback()

    remove = close

    def expire_all(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


if sqlalchemy is not None:
    @model(sqlalchemy.create_engine)
    def _(url, **kw):
        if core.ENGINE is None:
            return NotImplemented
        return SymEngine(url)

    @model(sqlalchemy.Table)
    def _(name, metadata, *cols, **kw):
        e = kw.get('autoload_with') or kw.get('autoload')
        if not isinstance(e, SymEngine):
            return NotImplemented
        return SymTable(name, e)

    @model(orm.sessionmaker)
    def _(bind=None, **kw):
        if not isinstance(bind, SymEngine):
            return NotImplemented
        if kw.get('autocommit'):
            raise Unsupported('autocommit')
        return lambda **k: SymSession(bind)

    @model(orm.scoped_session)
    def _(factory, scopefunc=None):
        return factory()

    def _stmt(kind):
        def f(table):
            return Stmt(kind, table) if isinstance(table, SymTable) else NotImplemented
        return f
    @model(sqlalchemy.select)
    def _(*what):
        if len(what) == 1 and isinstance(what[0], (list, tuple)):
            what = tuple(what[0])
        if all(isinstance(w, SymTable) for w in what) and len(what) == 1:
            return Stmt('select', what[0])
        if all(isinstance(w, SymColumn) for w in what):
            return Stmt('select', what[0].table, what=list(what))
        return NotImplemented

    for _k in ('insert', 'update', 'delete'):
        if hasattr(sqlalchemy, _k):
            model(getattr(sqlalchemy, _k))(_stmt(_k))
