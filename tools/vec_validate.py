#!/usr/bin/env python3-vt
"""Cross-check of symx/vec.py against CPython: symbolic vectors pinned to random texts must give the same results.
Not part of any check; run by hand after changes of the engine."""
import os
import random
import re
import sys
import time
import urllib.parse as up
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import z3  # noqa
from symx import core, rt, vec, libs, tm  # noqa
from symx.core import Engine, SymStr  # noqa

PATS = [r'(\d+)-(\w*)', r'^a*b?c{1,2}$', r'(?P<x>[a-c]+?)(b|c)*', r'(a|ab)(c|bcd)', r'\s*(\d\d?):(\d\d?)', r'[^,]*,',
        r'a(?!b)', r'(?=a).', r'^[a-z]+(-[a-z]+)*$', r'(a?)(a?)b', r'.*?c', r'x|y|', r'[0-9]{4}(-[0-9]{2})?\Z']
ALPH = 'aab bc-,:01239_+\n\u0663 \u2003x'
OPS = [('find', 1), ('rfind', 1), ('split', 1), ('rsplit', 1), ('partition', 1), ('rpartition', 1), ('startswith', 1),
       ('endswith', 1), ('replace', 2), ('count', 1), ('strip', 0), ('lstrip', 0), ('rstrip', 0), ('isdigit', 0),
       ('isspace', 0), ('isalnum', 0), ('isdecimal', 0), ('split', 0), ('strip', 1), ('removeprefix', 1),
       ('removesuffix', 1), ('find2', 1), ('isalpha', 0)]


def force(v, e):
    if isinstance(v, vec.SymVec):
        return ''.join(chr(force(core.SymInt(u), e)) if not isinstance(u, int) else chr(u) for u in v.units)
    if isinstance(v, core.SymInt):
        return e.get_model().eval(v.z, model_completion=True).as_long()
    if isinstance(v, (list, tuple)):
        return type(v)(force(i, e) for i in v)
    return v


def run(e, text, f):
    e.begin([], None)
    core.set_engine(e)
    us = []
    for i, c in enumerate(text):
        u = z3.Int('u%d' % i)
        e.assume(u == ord(c))
        us.append(u)
    s = vec.SymVec(us) if us else ''
    try:
        return force(f(s), e)
    except core.Unsupported as exc:
        return str(exc)
    except (ValueError, IndexError) as exc:
        return type(exc).__name__


def native(text, f):
    try:
        return f(text)
    except (ValueError, IndexError) as exc:
        return type(exc).__name__


def main(n=4000, seed=1):
    rnd = random.Random(seed)
    e = Engine()
    bad = 0
    for k in range(n):
        text = ''.join(rnd.choice(ALPH) for _ in range(rnd.randint(1, 7)))
        w = rnd.randint(0, 6)
        if w == 0:
            name, na = rnd.choice(OPS)
            args = [''.join(rnd.choice(ALPH) for _ in range(rnd.randint(1, 2))) for _ in range(na)]
            if name == 'find2':
                f = lambda s: rt.call(s.find, args[0], 1, 4)
                d = ('find2', args)
            else:
                f = lambda s: rt.call(getattr(s, name), *args)
                d = (name, args)
            g = (lambda s: s.find(args[0], 1, 4)) if name == 'find2' else lambda s: getattr(s, name)(*args)
        elif w == 1:
            d = 'int'
            text = ''.join(rnd.choice('0123_ +-\u06631 ') for _ in range(rnd.randint(1, 5)))
            f, g = (lambda s: rt.call(int, s)), int
        elif w == 2:
            d = 'slice'
            a, b, c = rnd.randint(-4, 4), rnd.randint(-5, 8), rnd.choice([1, 1, -1, 2])
            f = lambda s: rt.getitem(s, slice(a, b, c))
            g = lambda s: s[a:b:c]
        elif w == 6:
            qs = [('quote', lambda t: up.quote(t)), ('quote_plus', lambda t: up.quote_plus(t)),
                  ('quote safe', lambda t: up.quote(t, safe='+,')), ('unquote', lambda t: up.unquote(t)),
                  ('unquote_plus', lambda t: up.unquote_plus(t))]
            d, g = rnd.choice(qs)
            al = '%%2+0aFz \u00e9\u20ac\U0001f600/' if d.startswith('un') else 'a/ +\u00e9\u20ac\U0001f600%~.'
            text = ''.join(rnd.choice(al) for _ in range(rnd.randint(1, 5)))
            if d.startswith('un') and rnd.random() < .6:
                text = up.quote(text)
            f = {'quote': lambda s: rt.call(up.quote, s), 'quote_plus': lambda s: rt.call(up.quote_plus, s),
                 'quote safe': lambda s: rt.call(up.quote, s, safe='+,'), 'unquote': lambda s: rt.call(up.unquote, s),
                 'unquote_plus': lambda s: rt.call(up.unquote_plus, s)}[d]
        elif w == 3:
            d = 'cmp'
            o = ''.join(rnd.choice(ALPH) for _ in range(rnd.randint(0, 4)))
            f = lambda s: [rt.lt(s, o), rt.le(s, o), rt.gt(s, o), rt.ge(s, o), rt.eq(s, o), rt.contains(s, o)]
            g = lambda s: [s < o, s <= o, s > o, s >= o, s == o, o in s]
        else:
            p = rnd.choice(PATS)
            how = rnd.choice(['match', 'fullmatch', 'search'])
            d = (p, how)

            def f(s, how=how, p=p):
                m = rt.call(getattr(re, how), p, s)
                return None if m is None else [m.span(0), m.groups(), m.group(0), m.groupdict()]

            g = f if False else (lambda s, how=how, p=p: (lambda m: None if m is None else [
                m.span(0), m.groups(), m.group(0), m.groupdict()])(getattr(re, how)(p, s)))
        a, b = run(e, text, f), native(text, g)
        if isinstance(a, list) and a and isinstance(a[-1], dict):
            a[-1] = {k: force(v, e) for k, v in a[-1].items()}
        if a != b and not (a == 'percent escapes that are not UTF-8' and '\ufffd' in b):
            bad += 1
            print('DIFFERS', d, repr(text), a, b)
            if bad > 10:
                break
    for k in range(300):
        text = rnd.choice(['2021-02-%d%d', '%d%d21-1-3', '2020-%d%d-29'])
        text = text % (rnd.randint(0, 3), rnd.randint(0, 9))
        f = lambda s: rt.call(time.strptime, s, '%Y-%m-%d')[:3]
        g = lambda s: tuple(time.strptime(s, '%Y-%m-%d')[:3])
        a, b = run(e, text, f), native(text, g)
        if a != b:
            bad += 1
            print('DIFFERS strptime', text, a, b)
    print('%d compared, %d differ' % (n + 300, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 4000))
