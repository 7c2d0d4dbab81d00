"""Configured paths."""
from oidcmsg import add_base_path
from oidcmsg import proper_path

BOUNDS = 'every path of up to 7 characters of Unicode; base paths of up to 4 and configured paths of up to 3 characters, ' \
         'in configurations with named and unnamed entries at top level, in a section and two sections deep, each ' \
         'relative, absolute or missing'
OUTSIDE = 'configured paths that are empty; Windows path syntax'
EXPECT_REACHED = ['path', 'based', 'absolute', 'missing']
QUICK_BUDGET = 150


def normal(X):
    p = X.vec('path', 7)
    r = X.run(proper_path, p)
    X.note('path', r)
    X.check(r.ok, 'normalising a path fails')
    q = r.value
    X.check(q.startswith('./'), 'a normalised path does not start with ./')
    X.check(q.endswith('/'), 'a normalised path does not end with /')
    X.check(proper_path(q) == q, 'normalising twice is not the same as once')
    X.check(q.lstrip('./').rstrip('/') == p.lstrip('./').rstrip('/'), 'the rest of the path is not kept')
    X.reach('path')


def joined(base, p):
    """what a relative path is, based"""
    if base == '' or base.endswith('/'):
        return base + p
    return base + '/' + p


def entry(X, name):
    """a configured path and what to expect"""
    k = X.pick(name + ' is', ['relative', 'absolute', 'missing'])
    if k == 'missing':
        return k, None
    p = X.vec(name, 3, 1)
    X.assume(p.startswith('/') if k == 'absolute' else not p.startswith('/'))
    return k, p


def want(k, base, p):
    return p if k == 'absolute' else joined(base, p)


def put(conf, key, p):
    if p is not None:
        conf[key] = p


def verdict(X, k, conf, key, base, p):
    if k == 'missing':
        X.check(key not in conf, 'an entry appears that was not configured')
    else:
        X.note(key, conf[key])
        X.check(conf[key] == want(k, base, p), 'a relative path is not based' if k == 'relative' else
                'an absolute path is changed')
    X.reach({'relative': 'based'}.get(k, k))


def top(X):
    base = X.vec('base', 4)
    k1, p1 = entry(X, 'p1')
    k2, p2 = entry(X, 'p2')
    conf = {'other': 'rel/path'}
    put(conf, 'p1', p1)
    put(conf, 'p2', p2)
    paths = {'': ['p1']} if X.bool('list') else {'p1': None}
    r = X.run(add_base_path, conf, paths, base)
    X.check(r.ok, 'adding a base path fails')
    verdict(X, k1, conf, 'p1', base, p1)
    X.check(conf['other'] == 'rel/path', 'an entry that was not named is changed')
    X.check(conf.get('p2') == p2, 'an entry that was not named is changed')


def section(X):
    base = X.pick('base', ['/srv', 'x/', ''])
    deep = X.bool('deep')
    k1, p1 = entry(X, 'p1')
    k2, p2 = entry(X, 'p2')
    sec = {'other': 'rel/path'}
    put(sec, 'p1', p1)
    put(sec, 'p2', p2)
    conf = {'p1': 'top', 'sec': {'in': sec, 'other': 'y'} if deep else sec}
    paths = {'sec': {'in': ['p1', 'p2']} if deep else ['p1', 'p2'], 'absent': ['p1']}
    r = X.run(add_base_path, conf, paths, base)
    X.check(r.ok, 'adding a base path fails')
    verdict(X, k1, sec, 'p1', base, p1)
    verdict(X, k2, sec, 'p2', base, p2)
    X.check(sec['other'] == 'rel/path' and conf['p1'] == 'top' and 'absent' not in conf,
            'an entry that was not named is changed')
    X.check(conf['sec'] is sec or deep and conf['sec']['other'] == 'y', 'an entry that was not named is changed')


def mixed(X):
    """entries of the section itself and of one below it, all in one specification"""
    base = X.pick('base', ['/srv', 'x/', ''])
    k1, p1 = entry(X, 'p1')
    k2, p2 = entry(X, 'p2')
    conf = {'s': {}}
    put(conf['s'], 'p1', p1)
    conf['s']['t'] = {}
    put(conf['s']['t'], 'p2', p2)
    paths = {'s': {'': ['p1'], 't': ['p2']}} if X.bool('list') else {'s': {'p1': None, 't': {'p2': None}}}
    r = X.run(add_base_path, conf, paths, base)
    X.check(r.ok, 'adding a base path fails')
    verdict(X, k1, conf['s'], 'p1', base, p1)
    verdict(X, k2, conf['s']['t'], 'p2', base, p2)


CASES = {'normal': normal, 'top': top, 'section': section, 'mixed': mixed}
