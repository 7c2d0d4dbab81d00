"""Declared types."""
import json
from harness.common import SPEC, cls_of, params, short

BOUNDS = 'every member of the 73 message types declared as string, integer, boolean, list of strings ' \
         'or JSON object (plain and language-tagged); the value is null, a boolean, an arbitrary ' \
         'integer, an arbitrary string (up to 2 blanks inside), a fraction, an empty list, lists of up to 2 strings / ' \
         'integers / booleans / nulls / lists, an object, JSON text of a list / a number / an object; ' \
         'given to the constructor, in JSON text, as a dictionary, by item assignment and, when the ' \
         'member already has a value, by item assignment over it'
OUTSIDE = 'update(), which is documented to take values unchecked; form-encoded input, where values ' \
          'are text; members holding nested messages, objects kept as ' \
          'JSON text and time stamps (kept as seconds or text)'
SIMPLE = ('str', 'int', 'bool', '[str]')
SHAPES = ['null', 'true', 'false', 'int', 'str', 'float', '[]', '[null]', '[str]', '[str,str]',
          '[int]', '[str,int]', '[int,str]', '[true]', '[[str]]', '{}', '{str}', 'json list',
          'json number', 'json object']
BASIC = ['null', 'true', 'int', 'str', 'float', '[str]', '[int]', '[str,int]', '{str}']


def shape(X, s, spec):
    if s == 'null':
        return None
    if s == 'true':
        return True
    if s == 'false':
        return False
    if s == 'int':
        return X.int('i', -2 ** 40, 2 ** 40)
    if s == 'str':
        if spec[0] == 'dict':
            return X.str('s', alphabet='a-eg-mo-su-z', minlen=1)
        return X.str('s', alphabet='a-z0-9+:.-', minlen=1)
    if s == 'float':
        return 1.5
    if s == '[]':
        return []
    if s == '[null]':
        return [None]
    if s == '[str]':
        return [X.str('a', minlen=1, exclude=' ')]
    if s == '[str,str]':
        return [X.str('a', minlen=1), X.str('b', minlen=1)]
    if s == '[int]':
        return [X.int('i', -2 ** 40, 2 ** 40)]
    if s == '[str,int]':
        return [X.str('a', minlen=1), X.int('i', -2 ** 40, 2 ** 40)]
    if s == '[int,str]':
        return [X.int('i', -2 ** 40, 2 ** 40), X.str('a', minlen=1)]
    if s == '[true]':
        return [True]
    if s == '[[str]]':
        return [[X.str('a', minlen=1)]]
    if s == '{}':
        return {}
    if s == '{str}':
        return {'k': X.str('v')}
    if s == 'json list':
        return json.dumps([X.str('v')])
    if s == 'json number':
        return json.dumps(X.int('i', 0, 1000))
    return json.dumps({'k': X.str('v')})


def conforms(t, v):
    if v is None:
        return True
    if t == 'str':
        return isinstance(v, str)
    if t == 'int':
        return isinstance(v, int) and not isinstance(v, bool)
    if t == 'bool':
        return isinstance(v, bool)
    if t == '[str]':
        return isinstance(v, list) and all(isinstance(i, str) for i in v)
    return isinstance(v, dict)


GOOD = {'str': ('str', 'json list', 'json number', 'json object'), 'int': ('int',),
        'bool': ('true', 'false'), '[str]': ('[str]', '[str,str]'), 'dict': ('{str}', 'json object')}


def wanted(s):
    return (s[0] in SIMPLE and not s[3].startswith('time')) or s[3] == 'json_deserializer'


def make(key):
    cls = cls_of(key)
    ps = {n: s for n, s in params(key).items() if wanted(s)}

    def run(X):
        X.clock(1700000000 * 1000000)
        member = X.pick('member', list(ps))
        spec = ps[member]
        full = member in (per_class if X.tier == 'thorough' else first)[short(key)]
        s = X.pick('shape', SHAPES if full else BASIC + ['json list'] * (spec[0] == 'dict'))
        via = X.pick('via', ['constructor', 'json', 'dict', 'item', 'item again'] if full else [
            'constructor', 'item'])
        name = member
        if full and X.bool('tagged'):
            name = member + '#fr'
        v = shape(X, s, spec)
        if spec[0] == '[str]' and s.startswith('json'):
            return
        given = {name: v}
        m = cls(set_defaults=False)
        before = None
        if via == 'constructor':
            o = X.run(cls, **given)
            m = o.value if o.ok else None
        elif via == 'json':
            o = X.run(m.from_json, json.dumps(given))
        elif via == 'dict':
            o = X.run(m.from_dict, given)
        else:
            if via == 'item again':
                before = {'str': 'old', 'int': 1, 'bool': True, '[str]': ['old'],
                          'dict': {'o': 'old'}}[spec[0]]
                m.update({name: before})
            o = X.run(m.__setitem__, name, v)
        X.note('outcome', 'ok' if o.ok else 'refused')
        if m is not None:
            X.note('content', dict(m._dict))
            if name in m:
                X.check(conforms(spec[0], m[name]), '%s: %s holds a value that is not a %s' % (
                    short(key), member, spec[0]))
        if s in GOOD[spec[0]]:
            X.reach('good')
            X.check(o.ok and m is not None and name in m,
                    '%s: a value of the declared type is refused for %s' % (short(key), member))
            if not (spec[0] == 'dict' and s == 'json object'):
                X.check(m[name] == v or spec[2].startswith('sp'), '%s: the value of %s is not the one given' % (short(key), member))
        if s in ('true', 'false') and spec[0] in ('str', 'int'):
            X.check(not o.ok, '%s: a boolean is taken for %s' % (short(key), member))
        if not o.ok:
            X.reach('refused')
            if m is not None and via == 'item again':
                X.check(m.get(name) == before, '%s: a refused value changes %s' % (short(key), member))

    return run


# one member per declared type (thorough: per class and declared type) gets all the shapes
first, _seen = {}, set()
for k in SPEC:
    out = []
    for n, s in params(k).items():
        if s[:4] not in _seen:
            _seen.add(s[:4])
            out.append(n)
    first[short(k)] = out
per_class = {}
for k in SPEC:
    seen, out = set(), []
    for n, s in params(k).items():
        if s[:4] not in seen:
            seen.add(s[:4])
            out.append(n)
    per_class[short(k)] = out
CASES = {short(k): make(k) for k in SPEC if any(wanted(s) for s in params(k).values())}
EXPECT_REACHED = ['good', 'refused']
