"""Form input."""
from urllib.parse import urlencode
from harness.common import SPEC, cls_of, params, short

BOUNDS = 'every message type; any member declared as string or list of strings or integer sent once, ' \
         'or two or three times with arbitrary values, plain or with an arbitrary language tag; ' \
         'undeclared parameters of arbitrary (lower case, 4 characters) names sent once to three times; together with an ' \
         'arbitrary other parameter; any text without "=" of up to 6 characters'
OUTSIDE = 'percent-encoding (urllib); values that are empty (dropped by parse_qs); JSON-valued members'


def make(key):
    cls = cls_of(key)
    ps = {n: s for n, s in params(key).items() if s[0] in ('str', '[str]', 'int') and not s[3].startswith(
        'time')}

    def run(X):
        n = X.pick('member', list(ps))
        spec = ps[n]
        times = X.pick('times', [1, 2, 3] if n == list(ps)[0] else [1, 2])
        tag = X.pick('tag', ['', '#fr']) if X.tier == 'thorough' or n == list(ps)[0] else ''
        vals = [X.str('v%d' % i, minlen=1, exclude=' ' if spec[0] == '[str]' else '')
                for i in range(times)]
        if spec[0] == '[str]':
            vals[0] = vals[0] + ' ' + X.str('w', minlen=1, exclude=' ')
        name = n + tag
        pairs = [(name, v) for v in vals]
        pairs.insert(1, ('zz_other', X.str('other', minlen=1)))
        m = cls(set_defaults=False)
        o = X.run(m.from_urlencoded, urlencode(pairs))
        X.note('outcome', o)
        if spec[0] == '[str]':
            X.reach('list')
            X.check(o.ok, '%s: a list parameter is refused' % short(key))
            X.check(o.value[name] == ' '.join(vals).split(' '),
                    '%s: not all values of the list %s are kept' % (short(key), n))
        elif times == 1:
            X.reach('single')
            X.check(o.ok, '%s: a single parameter is refused' % short(key))
            X.check(o.value[name] == vals[0], '%s: the value of %s is not the one sent' % (short(key), n))
        else:
            X.reach('repeated')
            X.check(not o.ok, '%s: %s sent twice is accepted' % (short(key), n))
            return
        X.check(o.value['zz_other'] == pairs[1][1], '%s: an undeclared parameter is lost' % short(key))
        X.check(len(o.value) == 2, '%s: parameters that were not sent appear' % short(key))

    return run


def undeclared(X):
    cls = cls_of(X.pick('cls', ['oidcmsg.oauth2:AuthorizationRequest', 'oidcmsg.oidc:IdToken']))
    name = 'x' + X.str('name', 4, 1, 'a-z')
    times = X.pick('times', [1, 2, 3])
    vals = [X.str('v%d' % i, minlen=1) for i in range(times)]
    m = cls(set_defaults=False)
    o = X.run(m.from_urlencoded, urlencode([(name, v) for v in vals]))
    X.note('outcome', o)
    X.check(o.ok, 'an undeclared parameter is refused')
    X.check(o.value[name] == (vals[0] if times == 1 else vals), 'an undeclared parameter changes')
    X.check(len(o.value) == 1, 'something else appears')


def any_name(X):
    """a parameter of any name, with or without a tag, over the declared members"""
    cls = cls_of('oidcmsg.oauth2:AuthorizationRequest')
    ps = params('oidcmsg.oauth2:AuthorizationRequest')
    name = X.pick('base', ['scope', 'state', 'client_id', 'response_type', 'unknown']) + X.str('suffix', 4, 0, 'a-c#')
    v = X.str('v', minlen=1, exclude=' ')
    o = X.run(cls().from_urlencoded, urlencode([(name, v)]))
    X.check(o.ok, 'a single parameter is refused')
    base = name.split('#')[0]
    if base in ps and ps[base][0] == '[str]':
        X.reach('declared list')
        X.check(o.value[name] == [v], 'a tagged list parameter is not a list')
    else:
        X.check(o.value[name] == v, 'the value is not the one sent')
    X.check(list(o.value.keys()) == [name], 'another parameter appears')


def malformed(X):
    cls = cls_of(X.pick('cls', ['oidcmsg.message:Message', 'oidcmsg.oauth2:AuthorizationRequest']))
    t = X.str('text', 6, 0, exclude='=%+') if X.bool('any text') else X.pick('blank', ['a=', '&', 'a=&b=', 'a&b=', '=', '&&a='])
    o = X.run(cls(set_defaults=False).from_urlencoded, t)
    if t == '':
        X.check(o.ok and len(o.value) == 0, 'an empty text is not an empty message')
    else:
        X.check(not o.ok, 'text without any parameter is accepted')


CASES = {short(k): make(k) for k in SPEC if any(
    s[0] in ('str', '[str]', 'int') for s in params(k).values())}
CASES.update({'undeclared': undeclared, 'malformed': malformed, 'any name': any_name})
EXPECT_REACHED = ['single', 'repeated', 'list', 'declared list']
