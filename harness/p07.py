"""Incomplete messages are not form-encoded; request URLs."""
from harness.common import SPEC, cls_of, fill, params, required, short
from oidcmsg.exception import MissingRequiredAttribute

BOUNDS = 'every message type and required member, alone and with all optional string members and undeclared ' \
         'members present; locations are any text (up to 20 characters) and ' \
         'URLs with and without query'
OUTSIDE = 'required members with an empty value'


def make(key):
    cls = cls_of(key)
    req = required(key)

    def run(X):
        X.clock(1700000000 * 1000000)
        miss = X.pick('missing', ['nothing', 'all'] + req)
        vals = fill(X, key, [n for n in req if miss != 'all' and n != miss])
        if X.bool('with others'):
            vals.update({n: 'x' for n, s in params(key).items()
                         if s[0] == 'str' and not s[1] and not s[3].startswith(('time', 'date'))})
            vals.update({n: X.str(n, minlen=1) for n in ('request', 'request_uri', 'no_such_member')
                         if n not in params(key)})
        m = cls(set_defaults=False, **vals)
        m.lax = X.bool('lax')
        fn = X.pick('how', ['to_urlencoded', 'serialize', 'request'])
        o = X.run(*{'to_urlencoded': (m.to_urlencoded,), 'serialize': (m.serialize, 'urlencoded'),
                    'request': (m.request, 'https://example.com/a')}[fn])
        X.note('outcome', 'ok' if o.ok else o)
        if miss == 'nothing' or m.lax or not req:
            X.reach('encoded')
            X.check(o.ok, '%s: a %s message cannot be form-encoded' % (short(key), 'lax' if m.lax else 'complete'))
        else:
            X.reach('refused')
            X.check(o.is_exc(MissingRequiredAttribute),
                    '%s: an incomplete message is form-encoded' % short(key))
            X.check(str(o.exc.args[0]) in (req if miss == 'all' else [miss]),
                    '%s: the error does not name the missing member' % short(key))

    return run


def request(X):
    cls = cls_of('oidcmsg.oauth2:AuthorizationRequest')
    m = cls(response_type=['code'], client_id=X.str('client_id', minlen=1))
    if X.bool('state'):
        m['state'] = X.str('state_v', minlen=1)
    loc = X.str('location', 20)
    frag = X.bool('fragment')
    o = X.run(m.request, loc, fragment_enc=frag) if X.bool('kw') else X.run(m.request, loc, frag)
    X.check(o.ok, 'no request URL')
    enc = m.to_urlencoded()
    if frag:
        exp = loc + '#' + enc
    elif '?' in loc:
        exp = loc + '&' + enc
    else:
        exp = loc + '?' + enc
    X.check(o.value == exp, 'the request URL is not the location extended with the message')


def default(X):
    m = cls_of('oidcmsg.oauth2:AuthorizationRequest')(response_type=['code'], client_id=X.str('c', minlen=1))
    loc = X.url('https', 'example.com', '/' + X.str('p', 5, 0, 'a-z/'), X.str('q', 6, 1, 'a-z=') if X.bool('has_q') else '')
    o = X.run(m.request, loc)
    X.check(o.ok and o.value == loc + ('&' if '?' in loc else '?') + m.to_urlencoded(),
            'the request URL is not the location extended with the message')


CASES = {short(k): make(k) for k in SPEC}
CASES.update({'request': request, 'request url': default})
EXPECT_REACHED = ['encoded', 'refused']
