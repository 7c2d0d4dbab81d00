"""quote / unquote of symbolic text: exact character by character where the text is bounded, an injective function
with the shape of its result where it is not."""
import urllib.parse as up
import z3

from symx import core, vec
from symx.core import SymStr, Unsupported
from symx.rt import model

ALWAYS = frozenset(map(ord, 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'))
HEX = [(48, 57), (65, 70), (97, 102)]


def safe_codes(safe):
    if isinstance(safe, (bytes, bytearray)):
        return frozenset(b for b in safe if b < 128) | ALWAYS
    if isinstance(safe, SymStr):
        raise Unsupported('quote with a symbolic set of safe characters')
    return frozenset(ord(c) for c in safe if ord(c) < 128) | ALWAYS


def hexunit(d):
    """character code of a digit"""
    if isinstance(d, int):
        return ord('%X' % d)
    r = z3.If(d < 10, 48 + d, 55 + d)
    core.ENGINE.keep.append(r)
    core.ENGINE.hexdigit[r.get_id()] = d
    return r


def nibbles(u, *widths):
    """u as digits of the given numbers of bits, most significant first (fresh variables, so all stays linear)"""
    e = core.ENGINE
    out, total = [], 0
    for w in widths:
        d = z3.Int(e.fresh('nib'))
        e.assume(z3.And(d >= 0, d < 2 ** w))
        total = total * 2 ** w + d
        out.append(d)
    e.assume(total == u)
    return out


def esc(hi, lo):
    return [37, hexunit(hi), hexunit(lo)]


def quote_units(us, safe, plus):
    rs, out = vec.runs(safe), []
    for u in us:
        if isinstance(u, int):
            c = chr(u)
            q = '+' if plus and u == 32 else up.quote(c, ''.join(map(chr, safe)))
            out += [ord(x) for x in q]
        elif vec.fork(vec.uin(u, rs)):
            out.append(u)
        elif plus and vec.fork(u == 32):
            out.append(43)
        elif vec.fork(u < 0x80):
            a, b = nibbles(u, 3, 4)
            out += esc(a, b)
        elif vec.fork(u < 0x800):
            a, b, c, d = nibbles(u, 1, 4, 2, 4)
            out += esc(12 + a, b) + esc(8 + c, d)
        elif vec.fork(u < 0x10000):
            a, b, c, d, f = nibbles(u, 4, 2, 4, 2, 4)
            out += esc(14, a) + esc(8 + b, c) + esc(8 + d, f)
        else:
            a, b, c, d, f, g, h = nibbles(u, 3, 2, 4, 2, 4, 2, 4)
            out += esc(15, a) + esc(8 + b, c) + esc(8 + d, f) + esc(8 + g, h)
    return out


def hexval(u):
    if isinstance(u, int):
        return int(chr(u), 16)
    d = core.ENGINE.hexdigit.get(u.get_id())
    if d is not None:
        return d
    return z3.If(u <= 57, u - 48, z3.If(u <= 70, u - 55, u - 87))


def hexlike(u):
    if not isinstance(u, int) and u.get_id() in core.ENGINE.hexdigit:
        return True
    return vec.fork(vec.uin(u, HEX))


def unquote_units(us, plus):
    if plus:
        us = [(32 if u == 43 else u) if isinstance(u, int) else 32 if vec.fork(u == 43) else u for u in us]
    n, i, items = len(us), 0, []        # items: (is it an escaped byte or ASCII, unit)
    while i < n:
        u = us[i]
        if vec.fork(vec.ueq(u, 37)) and i + 2 < n and hexlike(us[i + 1]) and \
                hexlike(us[i + 2]):
            items.append((True, hexval(us[i + 1]) * 16 + hexval(us[i + 2])))
            i += 3
        else:
            items.append((False, u))
            i += 1
    out, i = [], 0

    def simp(b):
        return b if isinstance(b, int) else z3.simplify(b)

    def cont(j, lo=0x80, hi=0xbf):
        if j >= len(items) or not items[j][0]:
            return False
        b = items[j][1]
        return (lo <= b <= hi) if isinstance(b, int) else vec.fork(z3.And(b >= lo, b <= hi))
    while i < len(items):
        escaped, b = items[i]
        if not escaped or vec.fork(b < 0x80):
            out.append(simp(b))
            i += 1
        elif vec.fork(b < 0xe0):
            if not vec.fork(b >= 0xc2) or not cont(i + 1):
                raise Unsupported('percent escapes that are not UTF-8')
            out.append(simp((b - 0xc0) * 64 + items[i + 1][1] - 0x80))
            i += 2
        elif vec.fork(b < 0xf0):
            lo, hi = (0xa0, 0xbf) if vec.fork(b == 0xe0) else (0x80, 0x9f) if vec.fork(b == 0xed) else (0x80, 0xbf)
            if not cont(i + 1, lo, hi) or not cont(i + 2):
                raise Unsupported('percent escapes that are not UTF-8')
            out.append(simp((b - 0xe0) * 4096 + (items[i + 1][1] - 0x80) * 64 + items[i + 2][1] - 0x80))
            i += 3
        else:
            lo, hi = (0x90, 0xbf) if vec.fork(b == 0xf0) else (0x80, 0x8f) if vec.fork(b == 0xf4) else (0x80, 0xbf)
            if not vec.fork(b <= 0xf4) or not cont(i + 1, lo, hi) or not cont(i + 2) or not cont(i + 3):
                raise Unsupported('percent escapes that are not UTF-8')
            out.append(simp((b - 0xf0) * 262144 + (items[i + 1][1] - 0x80) * 4096 +
                            (items[i + 2][1] - 0x80) * 64 + items[i + 3][1] - 0x80))
            i += 4
    return out


def units_of(s):
    """the text as a vector (its length is decided first); None if it is not bounded"""
    us = vec.vunits(s)
    if us is not None:
        return us
    if s.maxlen is None and s.z.decl().kind() != z3.Z3_OP_SEQ_CONCAT and core.ENGINE.maxlens.get(
            s.z.get_id()) is None:
        return None
    try:
        cs = s.chars()
    except Unsupported:
        return None
    out = []
    for c in cs:
        if isinstance(c, SymStr):
            u = z3.StrToCode(c.z)
            core.ENGINE.keep.append(u)
            core.ENGINE.assume(z3.And(u >= 0, u <= vec.MAXCODE, z3.Not(z3.And(u >= 0xd800, u <= 0xdfff))))
            out.append(u)
        else:
            out.append(ord(c))
    return out


def text(us):
    return vec.mk(us)


def shape(codes):
    return z3.Union(*[z3.Range(chr(a), chr(b)) for a, b in vec.runs(codes)])


def abstract(s, safe, plus):
    """an unbounded text: some text of the right shape, different for different texts"""
    e = core.ENGINE
    q = SymStr(z3.String(e.fresh('quoted')), None, meta=('quoted', s, safe, plus))
    plain = z3.Star(shape(safe))
    coded = z3.Star(shape(safe | {43, 37}))
    e.assume(z3.Or(z3.And(z3.InRe(s.z, plain), q.z == s.z),
                   z3.And(z3.Not(z3.InRe(s.z, plain)), z3.InRe(q.z, coded), z3.Not(z3.InRe(q.z, plain)),
                          z3.Length(q.z) >= z3.Length(s.z))))
    # no escape ends like this
    e.assume(z3.SuffixOf(z3.StringVal('.lock'), q.z) == z3.SuffixOf(z3.StringVal('.lock'), s.z))
    for o, osafe, oplus, oq in e.quoted:
        if osafe == safe and oplus == plus:
            e.assume((o.z == s.z) == (oq.z == q.z))
    e.quoted.append((s, safe, plus, q))
    return q


def quote(s, safe, plus):
    us = units_of(s)
    if us is not None:
        r = text(quote_units(us, safe, plus))
        if isinstance(r, SymStr):
            r.meta = ('quoted', s, safe, plus)
        return r
    for o, osafe, oplus, oq in core.ENGINE.quoted:
        if o is s and osafe == safe and oplus == plus:
            return oq
    return abstract(s, safe, plus)


def inverse(safe, qplus, plus):
    """does unquoting give back what was quoted?"""
    if 37 in safe:
        return False
    if qplus:
        return plus and 43 not in safe
    return not plus or 43 not in safe


def unquote(s, plus):
    if s.meta and s.meta[0] == 'quoted' and inverse(s.meta[2], s.meta[3], plus):
        return s.meta[1]
    us = units_of(s)
    if us is not None:
        return text(unquote_units(us, plus))
    e = core.ENGINE
    for o, osafe, oplus, oq in e.quoted:
        if oq.z.eq(s.z) and inverse(osafe, oplus, plus):
            return o
    marks = z3.Or(z3.Contains(s.z, '%'), z3.Contains(s.z, '+')) if plus else z3.Contains(s.z, '%')
    if not e.branch(marks):
        return s
    for o, osafe, oplus, oq in e.quoted:
        if inverse(osafe, oplus, plus) and e.branch(oq.z == s.z):
            return o
    raise Unsupported('unquoting an unbounded text')


@model(up.quote_plus)
def _(string, safe='', encoding=None, errors=None):
    return quote(string, safe_codes(safe), True) if isinstance(string, SymStr) else NotImplemented


@model(up.quote)
def _(string, safe='/', encoding=None, errors=None):
    return quote(string, safe_codes(safe), False) if isinstance(string, SymStr) else NotImplemented


@model(up.unquote_plus)
def _(string, encoding='utf-8', errors='replace'):
    return unquote(string, True) if isinstance(string, SymStr) else NotImplemented


@model(up.unquote)
def _(string, encoding='utf-8', errors='replace'):
    return unquote(string, False) if isinstance(string, SymStr) else NotImplemented
