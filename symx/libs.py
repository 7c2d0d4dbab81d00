"""Models of the standard library's URL functions and a few other C / foreign functions."""
import json
import re
import urllib.parse as up
import z3

from symx import core, quoting, rt, vec  # noqa
from symx.core import Cut, SymInt, SymStr, Unsupported, zi, zs
from symx.rt import MODELS, NATURAL, TYPE_MODELS, Doc, SymBytes, eq, mkdoc, model, to_str, tmodel

# ------------------------------------------------------------------ urlencode / parse_qs

_URLCH = None


def _urlre():
    global _URLCH
    if _URLCH is None:
        r = z3.Range
        _URLCH = z3.Star(z3.Union(r('a', 'z'), r('A', 'Z'), r('0', '9'), z3.Re('-'), z3.Re('_'),
                                  z3.Re('.'), z3.Re('~'), z3.Re('+'), z3.Re('%'), z3.Re('='),
                                  z3.Re('&')))
    return _URLCH


def _form_str(v):
    """the text urlencode() quotes for a key or value"""
    if isinstance(v, SymBytes):
        return v.s
    if isinstance(v, bytes):
        try:
            return v.decode('utf-8')
        except UnicodeDecodeError:
            raise Unsupported('urlencode of non utf-8 bytes')
    if isinstance(v, str):
        return v
    return rt.call(str, v)


@model(up.urlencode)
def _(query, doseq=False, **k):
    if not rt.deep_sym(query) and not isinstance(query, list):
        return NotImplemented
    if k:
        raise Unsupported('urlencode options')
    if not rt.deep_sym(query):
        q = query if isinstance(query, dict) else list(query)
        if not _any_instr(q):
            return NotImplemented
        query = q
    items = list(query.items()) if hasattr(query, 'items') else list(query)
    pairs = []
    for it in items:
        k_, v = it
        if doseq and not isinstance(v, (str, bytes)) and hasattr(type(v), '__iter__'):
            for x in v:
                pairs.append((_form_str(k_), _form_str(x)))
        else:
            pairs.append((_form_str(k_), _form_str(v)))
    return form_doc(pairs)


def _any_instr(q):
    items = q.items() if hasattr(q, 'items') else q
    for it in items:
        for x in it:
            if rt._formats_instrumented((x,)):
                return True
    return False


def form_doc(pairs):
    if not pairs:
        return ''
    e = core.ENGINE
    for old in e.docs:      # the same parameters in the same order give the same text
        if old.kind == 'form' and core.eqz([list(p) for p in old.payload],
                                           [list(p) for p in pairs]) is True:
            return old
    z = z3.String(e.fresh('form'))
    d = Doc.__new__(Doc, z)
    d.kind, d.payload, d.meta = 'form', pairs, ('doc',)
    e.assume(z3.And(z3.Length(z) >= 1, z3.Contains(z, z3.StringVal('='))))
    if 'no_url_chars' not in e.flags:
        e.assume(z3.InRe(z, _urlre()))
    e.docs.append(d)
    return d


def form_pairs(s, keep_blank=False, strict=False):
    """parse_qsl of a string"""
    e = core.ENGINE
    if isinstance(s, Doc) and s.kind == 'form':
        out = []
        for k, v in s.payload:
            if keep_blank or rt.call(bool, v):
                out.append((k, v))
        return out
    if isinstance(s, Doc):
        if s.kind != 'json' or keep_blank or strict:
            raise Unsupported('parse_qs of a %s document' % s.kind)
        if not any([rt.contains(x, '=') for x in _texts(s.payload)]):
            return []       # no '=' anywhere in the text
        return up.parse_qsl(json.dumps(_pinned(s.payload)))
    # raw text: split on '&' and the first '=', decode '+' ; '%' is outside the encoding
    m = rawform(s)
    if m is not None:
        return m(keep_blank, strict)
    e.stats.note('assumed: raw query text holds no percent escape')
    e.assume(z3.Not(z3.Contains(s.z, z3.StringVal('%'))))
    out = []
    for part in rt.split(s, '&'):
        if not part:
            continue
        if not rt.contains(part, '='):
            if strict:
                raise ValueError('bad query field')
            if not keep_blank:
                continue
            k, v = part, ''
        else:
            k, v = rt.split(part, '=', 1)
        if keep_blank or rt.call(bool, v):
            out.append((plus(k), plus(v)))
    return out


def _texts(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, dict):
        return [t for k, x in v.items() for t in [k] + _texts(x)]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in _texts(x)]
    return []


def _pinned(v):
    if isinstance(v, (SymStr, SymInt)):
        return core.concretise(v, 'form decoding of JSON text')
    if isinstance(v, dict):
        return {_pinned(k): _pinned(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_pinned(x) for x in v]
    return v


def rawform(s):
    return None


def plus(s):
    if isinstance(s, SymStr):
        e = core.ENGINE
        e.stats.note("assumed: raw query text holds no '+'")
        e.assume(z3.Not(z3.Contains(s.z, z3.StringVal('+'))))
        return s
    return s.replace('+', ' ')


def _as_text(qs):
    return qs.s if isinstance(qs, SymBytes) else qs


@model(up.parse_qsl)
def _(qs, keep_blank_values=False, strict_parsing=False, **k):
    if not isinstance(qs, (SymStr, SymBytes)):
        return NotImplemented
    return form_pairs(_as_text(qs), keep_blank_values, strict_parsing)


@model(up.parse_qs)
def _(qs, keep_blank_values=False, strict_parsing=False, **k):
    if not isinstance(qs, (SymStr, SymBytes)):
        return NotImplemented
    r = {}
    for k_, v in form_pairs(_as_text(qs), keep_blank_values, strict_parsing):
        kk = rt.find_key(r, k_)
        if kk is rt.MISSING:
            r[k_] = [v]
        else:
            r[kk].append(v)
    return r


# ------------------------------------------------------------------ urlparse


class SymUrl:
    """urlparse(...) of a symbolic string. Assumed: printable ASCII without blanks and brackets"""
    __sx_symbolic__ = True

    def __init__(self, s):
        r = z3.Range
        e = core.ENGINE
        e.stats.note('assumed: URL text is printable ASCII without blanks and brackets')
        e.assume(z3.InRe(s.z, z3.Star(z3.Union(r('!', 'Z'), z3.Re('\\'), r('^', '~')))))
        self.s = s
        self._f = {}

    def _scheme(self):
        """text before the first ':' if it is letter (letter|digit|+|-|.)*, lower-cased; else ''"""
        if 'scheme' in self._f:
            return
        e = core.ENGINE
        r = z3.Range
        z = self.s.z
        alpha = z3.Union(r('a', 'z'), r('A', 'Z'))
        body = z3.Union(alpha, r('0', '9'), z3.Re('+'), z3.Re('-'), z3.Re('.'))
        for name in ('https', 'http'):
            if e.branch(z3.PrefixOf(z3.StringVal(name + ':'), z)):
                self._f['scheme'] = name
                self._rest = SymStr(z3.SubString(z, len(name) + 1, z3.Length(z)))
                return
        allc = z3.Full(z3.ReSort(z3.StringSort()))
        if not e.branch(z3.InRe(z, z3.Concat(alpha, z3.Star(body), z3.Re(':'), allc))):
            self._f['scheme'] = ''
            self._rest = self.s
            return
        i = z3.IndexOf(z, z3.StringVal(':'), 0)
        head = z3.SubString(z, 0, i)
        self._rest = SymStr(z3.SubString(z, i + 1, z3.Length(z)))
        for name in ('https', 'http'):
            ci = z3.Concat(*[z3.Union(z3.Re(c), z3.Re(c.upper())) for c in name])
            if e.branch(z3.InRe(head, ci)):
                self._f['scheme'] = name
                return
        low = z3.Plus(z3.Union(r('a', 'z'), r('0', '9'), z3.Re('+'), z3.Re('-'), z3.Re('.')))
        if e.branch(z3.InRe(head, low)):
            self._f['scheme'] = SymStr(head)
            return
        # upper-case letters in another scheme name: an unknown lower-case text
        o = SymStr(z3.String(e.fresh('scheme')), meta=('opaque', 'scheme'))
        e.assume(z3.And(z3.InRe(o.z, low), o.z != z3.StringVal('https'),
                        o.z != z3.StringVal('http')))
        self._f['scheme'] = o

    def _split(self, z, ch):
        e = core.ENGINE
        if e.has_text(z, ch):
            i = z3.IndexOf(z, z3.StringVal(ch), 0)
            return z3.SubString(z, 0, i), SymStr(z3.SubString(z, i + 1, z3.Length(z)))
        return z, ''

    def _tail(self):
        if 'query' in self._f:
            return
        self._scheme()
        e = core.ENGINE
        rest = core.zs(self._rest) if isinstance(self._rest, str) else self._rest.z
        z, self._f['fragment'] = self._split(rest, '#')
        z, self._f['query'] = self._split(z, '?')
        self._before = z

    def _hier(self):
        if 'path' in self._f:
            return
        self._tail()
        e = core.ENGINE
        z = self._before
        e.assume(z3.Not(z3.Contains(z, z3.StringVal(';'))))
        self._f['params'] = ''
        if e.branch(z3.PrefixOf(z3.StringVal('//'), z)):
            z = z3.SubString(z, 2, z3.Length(z))
            if e.has_text(z, '/'):
                i = z3.IndexOf(z, z3.StringVal('/'), 0)
                self._f['netloc'] = SymStr(z3.SubString(z, 0, i))
                self._f['path'] = SymStr(z3.SubString(z, i, z3.Length(z)))
            else:
                self._f['netloc'] = SymStr(z)
                self._f['path'] = ''
        else:
            self._f['netloc'] = ''
            self._f['path'] = SymStr(z)

    def __getitem__(self, i):
        return getattr(self, ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')[i])

    def __getattr__(self, n):
        if n in ('scheme',):
            self._scheme()
        elif n in ('query', 'fragment'):
            self._tail()
        elif n in ('netloc', 'path', 'params'):
            self._hier()
        elif n.startswith('__'):
            raise AttributeError(n)
        else:
            raise Unsupported('urlparse field ' + n)
        return self._f[n]

    def __deepcopy__(self, m):
        return self


@model(up.urlparse, up.urlsplit)
def _(url, scheme='', allow_fragments=True):
    if not isinstance(url, SymStr):
        return NotImplemented
    if isinstance(url, rt.Doc) and url.kind == 'url':
        return up.ParseResult(*url.payload)
    return SymUrl(url)


# ------------------------------------------------------------------ regular expressions


def _to_z3re(pattern):
    """translate the sre parse tree of a pattern without groups semantics / lookaround"""
    import re._parser as sp
    import re._constants as sc
    if isinstance(pattern, re.Pattern):
        ascii_ = bool(pattern.flags & re.A)
        flags, pattern = pattern.flags, pattern.pattern
    else:
        ascii_, flags = False, 0
    tree = sp.parse(pattern)
    if (tree.state.flags | flags) & (re.I | re.M | re.S | re.X):
        raise Unsupported('regex flags')
    ascii_ = ascii_ or bool(tree.state.flags & re.A)

    def cls(items):
        alts, neg = [], False
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                alts.append((av, av))
            elif op is sc.RANGE:
                alts.append(av)
            elif op is sc.CATEGORY and av is sc.CATEGORY_DIGIT:
                alts += [(48, 57)] if ascii_ else uranges('d')
            elif op is sc.CATEGORY and av is sc.CATEGORY_WORD:
                alts += [(48, 57), (65, 90), (95, 95), (97, 122)] if ascii_ else uranges('w')
            elif op is sc.CATEGORY and av is sc.CATEGORY_SPACE:
                alts += [(9, 13), (32, 32)] if ascii_ else uranges('s')
            else:
                raise Unsupported('regex class')
        return alts, neg

    def lit(o):
        return core._esc(chr(o))

    def ranges(alts, neg):
        if neg:
            pts, cur = [], 0
            for a, b in sorted(alts):
                if a > cur:
                    pts.append((cur, a - 1))
                cur = max(cur, b + 1)
            pts.append((cur, 0x2ffff))
            alts = pts
        rs = [z3.Range(lit(a), lit(b)) for a, b in alts]
        return rs[0] if len(rs) == 1 else z3.Union(*rs)

    def seq(t, last):
        out = []
        t = list(t)
        for n, (op, av) in enumerate(t):
            end = last and n == len(t) - 1
            if op is sc.LITERAL:
                out.append(z3.Re(lit(av)))
            elif op is sc.NOT_LITERAL:
                out.append(ranges([(av, av)], True))
            elif op is sc.ANY:
                out.append(ranges([(10, 10)], True))
            elif op is sc.IN:
                out.append(ranges(*cls(av)))
            elif op is sc.SUBPATTERN:
                out.append(seq(av[3], False))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                r = seq(sub, False)
                if hi is sc.MAXREPEAT:
                    out.append(z3.Star(r) if lo == 0 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(
                        r)) if lo > 1 else z3.Plus(r))
                else:
                    out.append(z3.Loop(r, lo, hi))
            elif op is sc.BRANCH:
                out.append(z3.Union(*[seq(b, False) for b in av[1]]))
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and n == 0:
                continue
            elif op is sc.AT and av is sc.AT_END and end:
                out.append(z3.Option(z3.Re('\\u{a}')))
                anchored[0] = True
            elif op is sc.AT and av is sc.AT_END_STRING and end:
                anchored[0] = True
            else:
                raise Unsupported('regex %s' % op)
        if not out:
            return z3.Re('')
        return out[0] if len(out) == 1 else z3.Concat(*out)

    anchored = [False]
    r = seq(tree, True)
    return r, anchored[0]


uranges = vec.uranges


def re_of(pattern, ascii_=False):
    return _to_z3re(re.compile(pattern, re.A) if ascii_ else pattern)[0]


def _fixed_groups(pattern):
    """[(position, length) or None] of the groups that are at a fixed place"""
    import re._parser as sp
    import re._constants as sc
    tree = sp.parse(pattern)
    out = [None] * tree.state.groups

    def walk(t, pos):
        for op, av in t:
            if op is sc.AT:
                continue
            w = sp.SubPattern(tree.state, [(op, av)]).getwidth()
            if op is sc.SUBPATTERN:
                if av[0] is not None and pos is not None and w[0] == w[1]:
                    out[av[0]] = (pos, w[0])
                walk(av[3], pos)
            pos = pos + w[0] if pos is not None and w[0] == w[1] else None
    walk(tree, 0)
    return out


class SymMatch:
    __sx_symbolic__ = True

    def __init__(self, s, groups=None):
        self.s, self._g = s, groups

    def group(self, *a):
        if not a or a == (0,):
            if self._g is not None and self._g[0] is not None:
                return self._g[0]
            return self.s
        if self._g is None or any(self._g[i] is None for i in a):
            raise Unsupported('regex groups')
        r = tuple(self._g[i] for i in a)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        if self._g is None or any(g is None for g in self._g[1:]):
            raise Unsupported('regex groups')
        return tuple(self._g[1:])

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self.group(i)


def _match(pat, s, full):
    if isinstance(s, vec.SymVec):
        return vec.rematch(pat, s, 'fullmatch' if full else 'match')
    if not vec.fits(pat, s):
        return None
    allc = z3.Full(z3.ReSort(z3.StringSort()))
    r, anch = _to_z3re(pat)
    if full:
        z = r
    else:
        z = r if anch else z3.Concat(r, allc)
    if rt.in_re(s, z):
        g = _fixed_groups(pat.pattern if isinstance(pat, re.Pattern) else pat)
        return SymMatch(s, [s if full else None] + [
            SymStr(z3.SubString(s.z, x[0], x[1])) if x else None for x in g[1:]])
    return None


@tmodel(re.Pattern, 'match')
def _(p, s, *a):
    if not isinstance(s, SymStr) or a:
        return NotImplemented
    return _match(p, s, False)


@tmodel(re.Pattern, 'fullmatch')
def _(p, s, *a):
    if not isinstance(s, SymStr) or a:
        return NotImplemented
    return _match(p, s, True)


@tmodel(re.Pattern, 'search')
def _(p, s, *a):
    if not isinstance(s, SymStr) or a:
        return NotImplemented
    if isinstance(s, vec.SymVec):
        return vec.rematch(p, s, 'search')
    if not vec.fits(p, s):
        return None
    allc = z3.Full(z3.ReSort(z3.StringSort()))
    if p.pattern.startswith('^'):
        return _match(p, s, False)
    r, anch = _to_z3re(p)
    z = z3.Concat(allc, r) if anch else z3.Concat(allc, r, allc)
    return SymMatch(s, None) if rt.in_re(s, z) else None


@model(re.match)
def _(pat, s, flags=0):
    if not isinstance(s, SymStr) or flags:
        return NotImplemented
    return _match(pat, s, False)


@model(re.fullmatch)
def _(pat, s, flags=0):
    if not isinstance(s, SymStr) or flags:
        return NotImplemented
    return _match(pat, s, True)


@model(re.search)
def _(pat, s, flags=0):
    if not isinstance(s, SymStr) or flags:
        return NotImplemented
    return TYPE_MODELS[(re.Pattern, 'search')](re.compile(pat), s)


# ------------------------------------------------------------------ paths

import os.path as _osp  # noqa


@model(_osp.join)
def _(a, *p):
    if not rt.deep_sym(a) and not rt.deep_sym(p):
        return NotImplemented
    path = a
    for b in p:
        if rt.call(b.startswith, '/'):
            path = b
        elif not path or rt.call(path.endswith, '/'):
            path = path + b
        else:
            path = rt.concat([path, '/', b])
    return path


# ------------------------------------------------------------------ cryptojwt helpers

from cryptojwt.utils import as_bytes, as_unicode  # noqa


@model(as_unicode)
def _(x):
    if isinstance(x, SymBytes):
        return x.s
    if isinstance(x, SymStr):
        return x
    return NotImplemented


@model(as_bytes)
def _(x):
    if isinstance(x, SymStr):
        return SymBytes(x)
    if isinstance(x, SymBytes):
        return x
    return NotImplemented


def check_left_hash():
    from cryptojwt.jws.utils import left_hash
    @model(left_hash)
    def _(msg, func='HS256'):
        if not rt.deep_sym(msg) and not rt.deep_sym(func):
            return NotImplemented
        e = core.ENGINE
        for f in ('HS256', 'HS384', 'HS512'):
            if e.branch(zs(func) == z3.StringVal(f)):
                m = zs(_as_text(msg))
                # an injective stand-in: the message wrapped in marks that occur in no other text
                return SymStr(z3.Concat(z3.StringVal('\\u{1}' + f[2]), m, z3.StringVal('\\u{2}')))
        return None


check_left_hash()
