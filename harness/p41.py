"""Members that hold objects: read as objects from every form, written as objects to every form."""
import copy
import json
from urllib.parse import parse_qs, urlencode

from harness.common import IA, SPEC, cls_of, params, required, short, wire
from oidcmsg.message import Message

BOUNDS = 'every member of every message type that holds a JSON object or a nested message (36 members, 19 types), ' \
         'plain and language-tagged; arbitrary string contents, plus integers, booleans, null, lists and nested ' \
         'objects in free-form objects; given as an object, as JSON text, as a message instance (to the constructor, ' \
         'by assignment, in a dictionary, in JSON text, in a form), written to a dictionary, to JSON, to a form and ' \
         'into a JWT; JSON texts of every other kind and arbitrary text where an object is due'
OUTSIDE = 'lists of messages in forms (JRD links, evidence: no form is defined for them); members whose JSON text ' \
          'form is refused with an error today (nested identity-assurance messages, _claim_names)'
TEXT = ('json_deserializer', 'claims_request_deser', 'claims_deser', 'address_deser', 'document_deser')
STRICT = ('json_deserializer', 'claims_request_deser')
OP = 'https://op.example.org'


def wanted(s):
    return s[0] not in ('str', 'int', 'bool', '[str]') and s[3] != ''


def content(X, s, n):
    if s[0] == 'dict':
        kind = X.pick('content', ['simple', 'rich', 'empty', 'looks like text'])
        if kind == 'rich':
            return {'a': X.str('a'), 'n': X.int('n', -2 ** 40, 2 ** 40), 'l': [X.str('l'), None, True, []],
                    'o': {'x': {'y': X.str('y')}}, 'e': None}
        if kind == 'empty':
            return {}
        if kind == 'looks like text':
            return {'k': '{"a": "b"}', 'q': X.pick('q', ['"x"', '[1]', 'null', '1'])}
    return wire(X, s, n)


def holds(v, s, key):
    if key.endswith(':VerifiedClaimsRequest'):      # holds what is requested, not claims
        return isinstance(v, Message)
    if s[0].startswith('['):
        return isinstance(v, list) and all(type(i).__name__ == s[0][1:-1] for i in v)
    if s[0] == 'dict':
        return isinstance(v, dict)
    if s[0] == 'Message':
        return isinstance(v, Message)
    return type(v).__name__ == s[0]


def make(key):
    cls = cls_of(key)
    ps = params(key)
    objs = [n for n in ps if wanted(ps[n])]

    def run(X):
        X.clock(1700000000 * 1000000)
        n = X.pick('member', objs)
        s = ps[n]
        text = s[3] in TEXT
        name = short(key) + ' ' + n
        d = {m: wire(X, ps[m], m) for m in required(key) if m != n}
        v = content(X, s, n)
        orig = copy.deepcopy(v)
        k = n + '#' + X.vec('tag', 3, 1, 'a-z') if X.bool('tagged') else n
        if k != n and n in required(key):
            return
        ways = ['constructor', 'item', 'dict', 'json']
        if text:
            ways += ['text to constructor', 'text to item', 'text in dict', 'text in json', 'form']
        via = X.pick('given', ways)
        if via.startswith('text'):
            v = json.dumps(v)
        if via.endswith('constructor'):
            o = X.run(lambda: cls(set_defaults=False, **{**d, k: v}))
        elif via.endswith('item'):
            m = cls(set_defaults=False, **d)
            o = X.run(m.__setitem__, k, v)
            o.value = m
        elif via.endswith('dict'):
            o = X.run(cls(set_defaults=False).from_dict, {**d, k: v})
        elif via.endswith('json'):
            o = X.run(cls(set_defaults=False).from_json, json.dumps({**d, k: v}))
        else:
            # what a peer sends: the object as JSON text in a form parameter
            o = X.run(cls(set_defaults=False).from_urlencoded, urlencode([(k, json.dumps(v))]))
        X.check(o.ok, '%s: an object is refused (%s)' % (name, via))
        m = o.value
        if via == 'form':
            for r in d:
                m[r] = d[r]
        X.check(k in m and holds(m[k], s, key), '%s: not held as an object of its type (%s)' % (name, via))
        w = X.run(m.to_dict)
        X.check(w.ok and k in w.value and isinstance(w.value[k], (dict, list)),
                '%s: not an object in the dictionary form' % name)
        X.check(w.value[k] == orig, '%s: the dictionary form does not show the object given (%s)' % (name, via))
        if via == 'constructor' or X.tier == 'thorough':
            w = X.run(m.to_json)
            X.check(w.ok, '%s: no JSON form' % name)
            back = json.loads(w.value)
            X.check(k in back and isinstance(back[k], (dict, list)), '%s: not an object in the JSON form' % name)
            X.check(back[k] == orig, '%s: the JSON form does not show the object given' % name)
            w = X.run(m.to_jwt, [], 'none')
            X.check(w.ok, '%s: no JWT form' % name)
            back = X.run(Message().from_jwt, w.value, X.keyjar([]))
            X.check(back.ok and isinstance(back.value[k], (dict, list)) and back.value[k] == orig,
                    '%s: the JWT form does not show the object given' % name)
            if not s[0].startswith('['):
                w = X.run(m.to_urlencoded)
                X.check(w.ok, '%s: no form' % name)
                got = parse_qs(w.value)
                X.check(k in got and len(got[k]) == 1, '%s: not in the form' % name)
                t = got[k][0]
                X.check(isinstance(t, str) and json.loads(t) == orig,
                        '%s: the form parameter is not the JSON text of the object given' % name)
        X.reach('object')

    return run


def refused(key):
    cls = cls_of(key)
    ps = params(key)
    objs = [n for n in ps if ps[n][3] in STRICT]

    def run(X):
        X.clock(1700000000 * 1000000)
        n = X.pick('member', objs)
        name = short(key) + ' ' + n
        d = {m: wire(X, ps[m], m) for m in required(key) if m != n}
        kind = X.pick('kind', ['text', 'array', 'number', 'string', 'true', 'array of object'])
        if kind == 'text':
            v = X.str('t', alphabet='a-eg-mo-su-z', minlen=1)    # not null / true / false / a number
        elif kind == 'array':
            v = json.dumps([X.str('a'), 1])
        elif kind == 'number':
            v = json.dumps(X.int('i', 0, 1000))
        elif kind == 'string':
            v = json.dumps(X.str('s'))
        elif kind == 'true':
            v = 'true'
        else:
            v = json.dumps([{'a': X.str('a')}])
        via = X.pick('given', ['constructor', 'item', 'dict', 'json', 'form'])
        m = cls(set_defaults=False)
        if via == 'constructor':
            o = X.run(lambda: cls(set_defaults=False, **{**d, n: v}))
        elif via == 'item':
            o = X.run(m.__setitem__, n, v)
        elif via == 'dict':
            o = X.run(m.from_dict, {**d, n: v})
        elif via == 'json':
            o = X.run(m.from_json, json.dumps({**d, n: v}))
        else:
            o = X.run(m.from_urlencoded, urlencode([(n, v)]))
        X.check(not o.ok, '%s: text that is no JSON object is taken (%s)' % (name, via))
        X.check(n not in m, '%s: text that is no JSON object stays (%s)' % (name, via))
        X.reach('refused')

    return run


CASES = {short(k): make(k) for k in SPEC if any(wanted(s) for s in params(k).values())}
CASES.update({short(k) + ' refuses': refused(k) for k in SPEC
              if any(s[3] in STRICT for s in params(k).values())})
EXPECT_REACHED = ['object', 'refused']
