"""Form encoding round trips."""
import copy
from harness.common import SPEC, cls_of, params, required, short

BOUNDS = 'every message type that has string or list-of-string members: all of these at once, the ' \
         'required ones, and single optional ones; strings of arbitrary content and length (at least ' \
         'one character), lists of 1 to 3 items without blanks; language-tagged members and an ' \
         'undeclared string member and an undeclared list of two strings (with blanks)'
OUTSIDE = 'the percent-encoding itself is urllib\'s (urlencode and parse_qs are taken as inverse to ' \
          'each other, with parse_qs dropping empty values); members of other types'


def make(key):
    cls = cls_of(key)
    ps = {n: s for n, s in params(key).items() if s[0] in ('str', '[str]') and not s[3].startswith(
        'time')}
    others = [n for n in required(key) if n not in ps]

    def val(X, n, tag='', k=1):
        if ps[n][0] == 'str':
            return X.str(n + tag, minlen=1)
        return [X.str('%s%s_%d' % (n, tag, i), minlen=1, exclude=' ') for i in range(k)]

    def run(X):
        req = [n for n in required(key) if n in ps]
        which = X.pick('members', ['all', 'all, lists of 3', 'required', 'tagged'] + (
            [n for n in ps if n not in req] if X.tier == 'thorough' else []))
        if not which.startswith('all'):
            d = {n: val(X, n) for n in req}
        if which.startswith('all'):
            d = {n: val(X, n, '', 3 if which.endswith('3') else 1) for n in ps}
            d['no_such_member'] = X.str('extra', minlen=1)
            d['no_such_list'] = [X.str('extra0', minlen=1), X.str('extra1', minlen=1)]
        elif which == 'tagged':
            d.update({n + '#sv': val(X, n, '_sv', 2) for n in ps})
        elif which != 'required':
            d[which] = val(X, which, '', 2)
        m = cls(set_defaults=False, **d)
        m.lax = bool(others)
        before = copy.deepcopy(m._dict)
        w = X.run(m.to_urlencoded)
        X.check(w.ok, '%s: a message cannot be form-encoded' % short(key))
        X.check(m._dict == before, '%s: form-encoding changes the message' % short(key))
        if not d:
            X.check(w.value == '', '%s: an empty message has a form' % short(key))
            return
        back = X.run(cls(set_defaults=False).from_urlencoded, w.value)
        X.note('back', back)
        X.check(back.ok, '%s: the form-encoded message is not read back' % short(key))
        X.check(back.value == m, '%s: the form round trip changes the message' % short(key))
        X.check(back.value.serialize('urlencoded') == w.value if not others else True,
                '%s: encoding again gives another text' % short(key))
        X.reach('round trip')
        other = X.run(cls(set_defaults=False).deserialize, w.value, 'urlencoded')
        X.check(other.ok and other.value == m, '%s: deserialize differs from from_urlencoded' % short(key))

    return run


CASES = {short(k): make(k) for k in SPEC if any(s[0] in ('str', '[str]') for s in params(k).values())}
EXPECT_REACHED = ['round trip']
