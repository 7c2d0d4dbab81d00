"""Independence of message types and instances."""
import copy
from harness.common import SPEC, cls_of, fill, params, required, short, value, wire
from harness.p02 import WITH

BOUNDS = 'every one of the 73 message types: every sequence of 2 (thorough: 3) out of 11 operations on ' \
         'an instance, made with or without defaults, with arbitrary contents (assignment, in-place growth of every list and object ' \
         'it holds, deletion, update, set_defaults, verification, to_dict/to_json/to_urlencoded, ' \
         'reading of JSON, weeding, clearing, changing a copy), with one instance created before and ' \
         'one after; afterwards the tables of all types, the default contents and the acceptance of ' \
         'enumerated members are compared with the specification'
OUTSIDE = 'mutable values that the caller itself puts in two messages; changing class attributes'
OPS = ['assign', 'grow', 'delete', 'update', 'set_defaults', 'verify', 'serialize', 'from_json', 'weed',
       'clear', 'copy']
PARAMS = {k: copy.copy(cls_of(k).c_param) for k in SPEC}
# two instances made by the factories as well
from oidcmsg import oauth2, oidc  # noqa


def tables(X, when):
    for k, s in SPEC.items():
        c = cls_of(k)
        X.check(c.c_default == s['default'], '%s: the default values are no longer those of the '
                                            'specification (%s)' % (short(k), when))
        X.check(c.c_allowed_values == s['allowed'], '%s: the allowed values are no longer those of '
                                                   'the specification (%s)' % (short(k), when))
        X.check(c.c_param == PARAMS[k] and list(c.c_param) == list(s['params']),
                '%s: the members are no longer those of the specification (%s)' % (short(k), when))
        X.check(all(c.c_param[n][1] == p[1] for n, p in s['params'].items()),
                '%s: which members are required has changed (%s)' % (short(k), when))


def grow(v, x):
    """change everything inside v in place"""
    if isinstance(v, list):
        for i in list(v):
            grow(i, x)
        v.append(x)
    elif isinstance(v, dict):
        for i in list(v.values()):
            grow(i, x)
        v['grown'] = x
    elif hasattr(v, '_dict'):
        for i in list(v.values()):
            grow(i, x)
        v['grown'] = x


def make(key):
    cls = cls_of(key)
    ps, al, dflt = params(key), SPEC[key]['allowed'], SPEC[key]['default']

    def run(X):
        X.clock(1700000000 * 1000000)
        import json
        before = cls()
        over = {n: [a[0]] if ps[n][0] == '[str]' else a[0] for n, a in al.items()}
        over.update(WITH.get(key.split(':')[1], {}))
        vals = fill(X, key, required(key), **over)
        other = cls(**fill(X, key, required(key), prefix='o_', **over))
        snap_other = copy.deepcopy(other._dict)
        m = cls(set_defaults=X.bool('with defaults') if dflt else True, **vals)
        ops = []
        for i in range(3 if X.tier == 'thorough' else 2):
            op = X.pick('op%d' % i, OPS)
            ops.append(op)
            x = X.str('x%d' % i, minlen=1, exclude=' ')
            if op == 'assign':
                for n in list(ps)[:3]:
                    if n not in al and n not in over:
                        m[n] = X.str('d%d' % i, 2, 1, 'a-z') if n == 'error_description' else value(
                            X, ps[n], 'a%d_%s' % (i, n))
                m['unknown'] = [x]
            elif op == 'grow':
                for v in list(m.values()):
                    grow(v, x)
            elif op == 'delete':
                for n in list(m.keys()):
                    del m[n]
            elif op == 'update':
                m.update({'unknown': {'k': x}, 'other': x})
                m.update(cls())
            elif op == 'set_defaults':
                m.set_defaults()
            elif op == 'verify':
                X.run(m.verify)
            elif op == 'serialize':
                X.run(lambda: (m.to_dict(), m.to_json(), m.to_urlencoded()))
            elif op == 'from_json':
                X.run(m.from_json, json.dumps({'unknown': [x], 'error': x}))
            elif op == 'weed':
                m.weed()
                m.rm_blanks()
            elif op == 'clear':
                m.clear()
            else:
                c = m.copy()
                old = copy.deepcopy(m._dict)
                for v in list(c.values()):
                    grow(v, x)
                c.clear()
                X.check(m._dict == old, '%s: changing a copy changes the original' % short(key))
        after = cls()
        X.check(before._dict == dflt, '%s: another instance, created earlier, has changed' % short(key))
        X.check(after._dict == dflt, '%s: a new instance does not start with the default values' % short(key))
        X.check(other._dict == snap_other, '%s: another instance has changed' % short(key))
        X.check(cls(set_defaults=False)._dict == {}, '%s: an instance without defaults is not empty' % short(key))
        after.set_defaults()
        X.check(after._dict == dflt, '%s: set_defaults gives something else' % short(key))
        tables(X, short(key) + ' used')
        # what is accepted is still the same
        for n, allowed in al.items() if len(set(ops)) == 1 else ():
            e = X.str('probe_' + n, minlen=1, exclude=' ')
            isl = ps[n][0] == '[str]'
            p = cls(**dict(fill(X, key, [r for r in required(key) if r != n], prefix='p_%s_' % n, **over),
                           **{n: [e] if isl else e}))
            o = X.run(p.verify)
            X.check(o.ok == (e in allowed), '%s: the values accepted for %s have changed' % (short(key), n))
            X.reach('enumeration')
        X.reach('done')

    return run


def pristine(X):
    """the tables as loaded"""
    tables(X, 'after loading')
    for k in SPEC:
        m = cls_of(k)()
        X.check(m._dict == SPEC[k]['default'], '%s: default contents' % short(k))


def oauth2_errors(X):
    """loading the OpenID messages leaves the OAuth2 ones alone"""
    e = X.str('error', minlen=1)
    for name in ('AuthorizationErrorResponse', 'TokenErrorResponse'):
        for mod in (oauth2, oidc):
            o = X.run(getattr(mod, name)(error=e).verify)
            al = SPEC['%s:%s' % (mod.__name__, name)]['allowed']['error']
            X.check(o.ok == (e in al), 'the error codes of %s.%s are not those of its specification' % (
                mod.__name__, name))


CASES = {short(k): make(k) for k in SPEC}
CASES.update({'tables': pristine, 'error codes': oauth2_errors})
EXPECT_REACHED = ['done', 'enumeration']
