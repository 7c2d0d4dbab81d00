"""Key conversion."""
import os

from oidcmsg.storage.converter import JSON
from oidcmsg.storage.converter import PassThru
from oidcmsg.storage.converter import QPKey

BOUNDS = 'every key of up to 3 characters of Unicode (quick: 2), every text of that length followed by ".lock", ' \
         'eleven beginnings and seven ends of longer keys (URLs, URNs, escapes) around any character, and any two ' \
         'keys of up to 2 characters; values: any JSON structure of the shapes text, number, boolean, null, list ' \
         'and dictionary of texts with arbitrary contents'
OUTSIDE = 'lone surrogates and characters above U+2FFFF; file name lengths (a key of more than 255 characters of file ' \
          'name is refused by the file system); the empty key, whose file name is empty'
EXPECT_REACHED = ['converted', 'reserved', 'two', 'value']
QUICK_BUDGET = 200


def look(X, key, o):
    X.check(o.ok, 'a key has no file name')
    name = o.value
    X.check(isinstance(name, str), 'a file name is not text')
    if key != '':
        X.check(name != '', 'a key has an empty file name')
    X.check('/' not in name and '\\' not in name, 'a file name has a path separator')
    X.check('\0' not in name, 'a file name has a character that file names cannot have')
    X.check(name != '.' and name != '..', 'a file name is a directory')
    X.check(not name.endswith('.lock'), 'a file name is that of a lock')
    back = X.run(QPKey().deserialize, name)
    X.check(back.ok and back.value == key, 'a file name does not convert back to its key')
    X.check(QPKey().serialize(key) == name, 'a key has different file names')
    return name


def convert(X):
    key = X.vec('key', 3 if X.tier == 'thorough' else 2)
    name = look(X, key, X.run(QPKey().serialize, key))
    X.note('name', name)
    X.reach('converted')


def dots(X):
    key = X.vec('key', 4, alphabet='./a %')
    name = look(X, key, X.run(QPKey().serialize, key))
    X.note('name', name)
    X.reach('reserved')


def lock(X):
    key = X.vec('key', 2 if X.tier == 'thorough' else 1) + X.pick('end', ['.lock', '.lock.', 'lock', '.loc', '%2Elock'])
    name = look(X, key, X.run(QPKey().serialize, key))
    X.note('name', name)
    X.reach('reserved')


STARTS = ['http', 'https://a.b/', 'http://a:80', '/', 'a ', 'urn:x:', '%2F', 'a%', '~', '.', '+']
ENDS = ['', '/', '/x', 'a/../b', '#f', '?q=1', ' ']


def longer(X):
    """keys like those in use"""
    key = X.pick('start', STARTS) + X.vec('key', 1) + X.pick('end', ENDS)
    name = look(X, key, X.run(QPKey().serialize, key))
    X.note('name', name)
    X.reach('converted')


def two(X):
    n = 2 if X.tier == 'thorough' else 1
    e = X.pick('end', ['', '.lock', '%2Elock', '%2E'])
    f = X.pick('other end', ['', '.lock', '%2Elock', '%2E'])
    a = X.vec('a', n) + e
    b = X.vec('b', n) + f
    x, y = X.run(QPKey().serialize, a), X.run(QPKey().serialize, b)
    X.check(x.ok and y.ok, 'a key has no file name')
    X.check((x.value == y.value) == (a == b), 'different keys have the same file name')
    X.reach('two')


def value(X):
    conv = JSON() if X.bool('json') else PassThru()
    k = X.pick('shape', ['text', 'number', 'bool', 'null', 'list', 'dict', 'nested'])
    if k == 'text':
        v = X.str('v')
    elif k == 'number':
        v = X.int('n')
    elif k == 'bool':
        v = X.bool('b')
    elif k == 'null':
        v = None
    elif k == 'list':
        v = [X.str('a'), X.str('b')]
    elif k == 'dict':
        v = {X.str('k'): X.str('a')}
    else:
        v = {'k': [{X.str('k'): X.str('a')}, X.int('n')]}
    s = X.run(conv.serialize, v)
    X.check(s.ok, 'a value is not serialised')
    if isinstance(conv, JSON):
        X.check(isinstance(s.value, str), 'a serialised value is not text')
    d = X.run(conv.deserialize, s.value)
    X.check(d.ok and type(d.value) is type(v) and d.value == v, 'a serialised value is not what it was')
    X.reach('value')


def inside(X):
    """the file of a key lies in the directory of the store"""
    key = X.vec('key', 3, alphabet='./a~')
    X.assume(key != '')
    path = os.path.join('/store/dir', QPKey().serialize(key))
    X.note('path', path)
    X.check(path.startswith('/store/dir/'), 'the file of a key is outside the store')
    rest = path[len('/store/dir/'):]
    X.check(rest != '' and '/' not in rest and rest != '..' and rest != '.', 'the file of a key is outside the store')
    X.reach('converted')


CASES = {'convert': convert, 'dots': dots, 'lock': lock, 'longer': longer, 'two': two, 'value': value, 'inside': inside}
