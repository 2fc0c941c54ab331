"""C11: typed values survive packing and unpacking, everything else is refused.

For every katcp type: an enumerated set of values is packed, compared with the
documented wire form and unpacked again; and all byte strings up to a length over
an alphabet chosen for the type are unpacked and compared with a reference reader.
"""
import itertools
import json
import re
import struct
from fractions import Fraction
from .. import env
LEVEL = 'exploration'
K = env.load()
from .. import rig  # noqa
from katcp import Sensor, Message  # noqa
from katcp.core import FailReply  # noqa
from katcp import kattypes as kt  # noqa

FREE = object()
MAJORS = (4, 5)


def err(x):
    return isinstance(x, Exception)


def attempt(fn, *a, **k):
    """-> value, or the exception."""
    try:
        return fn(*a, **k)
    except Exception as e:
        return e


# ---------------------------------------------------------------- reference readers
# Each returns a value, ValueError (the text has to be refused) or FREE.
LOOSE = re.compile(br'[_\s]')
FLOAT = re.compile(br'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')
WORDS = re.compile(br'^[+-]?(inf|infinity|nan)$', re.I)


def r_int(lo=None, hi=None):
    def read(b, major):
        if re.match(br'^[+-]?[0-9]+\Z', b):
            v = int(b.decode())
            return ValueError if (lo is not None and v < lo) or (hi is not None and v > hi) else v
        return FREE if LOOSE.search(b) and not re.search(br'[^0-9+\-_\s]', b) else ValueError
    return read


def as_float(b):
    if FLOAT.match(b) and b[-1:] != b'\n':
        return float(b.decode())
    if WORDS.match(b) or LOOSE.search(b):
        return FREE
    return ValueError


def r_float(lo=None, hi=None):
    def read(b, major):
        v = as_float(b)
        if v is FREE or v is ValueError:
            return v
        return ValueError if (lo is not None and v < lo) or (hi is not None and v > hi) else v
    return read


def r_bool(b, major):
    return {b'0': False, b'1': True}.get(b, ValueError)


def text(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return ValueError


def r_str(b, major):
    return text(b)


def r_discrete(values, ci=False):
    def read(b, major):
        t = text(b)
        if t is ValueError:
            return t
        ok = t.lower() in [v.lower() for v in values] if ci else t in values
        return t if ok else ValueError
    return read


def r_lru(b, major):
    return {b'nominal': 0, b'error': 1}.get(b, ValueError)


def r_address(b, major):
    if any(c >= 128 for c in bytearray(b)):
        return ValueError
    if b[-1:] == b'\n' or b'[' in b[1:] or b.count(b']') > 1 or (b']' in b and b[:1] != b'['):
        return FREE
    if b[:1] == b'[':
        m = re.match(br'^\[([^\[\]]*)\](?::([0-9]+))?\Z', b)
    else:
        m = re.match(br'^([^:]*)(?::([0-9]+))?\Z', b)
    if m is None:
        return ValueError
    return m.group(1).decode(), (None if m.group(2) is None else int(m.group(2)))


def r_timestamp(b, major):
    v = as_float(b)
    if v is FREE or v is ValueError:
        return v
    return v / 1000. if major < 5 else v


def r_strict(b, major):
    if re.match(br'^[0-9]+(\.[0-9]+)?\Z', b):
        return float(b.decode())
    if LOOSE.search(b) or re.match(br'^[+-]', b):
        v = as_float(b)
        if v is FREE:
            return FREE
        if v is not ValueError and v < 0:
            return ValueError
        return FREE
    return ValueError


def r_now(b, major):
    return kt.TimestampOrNow.NOW if b == b'now' else r_timestamp(b, major)


def r_struct(fmt):
    def read(b, major):
        try:
            return struct.unpack(fmt, b)
        except struct.error:
            return ValueError
    return read


def r_regex(rx):
    def read(b, major):
        t = text(b)
        if t is ValueError or not re.match(rx, t):
            return ValueError
        return t
    return read


def r_multi(values, ci=False, all_kw='all', sep=','):
    def read(b, major):
        t = text(b)
        if t is ValueError:
            return t
        if t == all_kw and all_kw:
            return sorted(values, key=str.lower)
        parts = [p.strip() for p in t.split(sep)]
        low = [v.lower() for v in values]
        for p in parts:
            if not (p.lower() in low if ci else p in values):
                return ValueError
        return sorted(parts, key=str.lower)
    return read


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield b''.join(t)


def bs(*chars):
    return [c if isinstance(c, bytes) else c.encode() for c in chars]


# type factory, reader, alphabet, length quick, length thorough
def readers():
    D = ('on', 'Off', u'\u00e9')
    M = ('a', 'B', 'c')
    num = bs(*'01.-+ea') + [b'_', b' ', b'\xff']
    yield 'Int', kt.Int, {}, r_int(), bs(*'019-+.x_ ') + [b'\xc3'], 4, 5
    yield 'Int 0..10', kt.Int, dict(min=0, max=10), r_int(0, 10), bs(*'01-'), 4, 6
    yield 'Int >=-1', kt.Int, dict(min=-1), r_int(-1), bs(*'01-'), 4, 6
    yield 'Int <=1', kt.Int, dict(max=1), r_int(None, 1), bs(*'01-'), 4, 6
    yield 'Float', kt.Float, {}, r_float(), num, 4, 5
    yield 'Float 0..1.5', kt.Float, dict(min=0., max=1.5), r_float(0., 1.5), bs(*'015.-e'), 4, 6
    yield 'Float >=0', kt.Float, dict(min=0), r_float(0), bs(*'01.-'), 4, 6
    yield 'Float <=0', kt.Float, dict(max=0), r_float(None, 0), bs(*'01.-'), 4, 6
    yield 'Bool', kt.Bool, {}, r_bool, bs(*'01tT ') + [b'\xff', b'true'], 3, 4
    yield 'Str', kt.Str, {}, r_str, bs('a', ' ', '\n', '\0', '\\') + [b'\xc3', b'\xa9', b'\xe2\x82',
                                                                     b'\xac', b'\xff'], 4, 5
    yield 'Discrete', kt.Discrete, dict(values=D), r_discrete(D), \
        bs('o', 'n', 'O', 'f', 'on', 'Off', ' ') + [b'\xc3', b'\xa9'], 4, 5
    yield 'Discrete ci', kt.Discrete, dict(values=D, case_insensitive=True), \
        r_discrete(D, True), bs('o', 'n', 'O', 'N', 'f', 'F', ' ') + [b'\xc3', b'\xa9', b'\x89'], 4, 5
    yield 'Discrete one ci', kt.Discrete, dict(values=('On',), case_insensitive=True), \
        r_discrete(('On',), True), bs('o', 'n', 'O', 'N', ' '), 4, 5
    yield 'Lru', kt.Lru, {}, r_lru, bs('nominal', 'error', 'n', '0', '1', ' '), 3, 4
    yield 'Address', kt.Address, {}, r_address, bs(*'a1.:[]- ') + [b'\xff', b'\n'], 4, 6
    yield 'Timestamp', kt.Timestamp, {}, r_timestamp, num, 4, 5
    yield 'TimestampOrNow', kt.TimestampOrNow, {}, r_now, bs('1', '.', 'n', 'now', 'e', ' '), 4, 5
    yield 'StrictTimestamp', kt.StrictTimestamp, {}, r_strict, num, 4, 5
    yield 'Struct', kt.Struct, dict(fmt='>hB'), r_struct('>hB'), bs('a', '\0') + [b'\xff', b'\x80'], 4, 6
    yield 'Regex', kt.Regex, dict(regex='[ab]+[0-9]$'), r_regex('[ab]+[0-9]$'), \
        bs(*'ab1 c') + [b'\xff'], 4, 6
    yield 'DiscreteMulti', kt.DiscreteMulti, dict(values=M), r_multi(M), \
        bs('a', 'B', 'b', 'c', ',', ' ', 'all'), 4, 6
    yield 'DiscreteMulti ci', kt.DiscreteMulti, dict(values=M, case_insensitive=True), \
        r_multi(M, True), bs('a', 'A', 'B', 'b', ',', 'all', 'ALL'), 4, 6
    yield 'DiscreteMulti sep', kt.DiscreteMulti, dict(values=M, all_keyword=None, separator=';'), \
        r_multi(M, False, None, ';'), bs('a', 'B', ',', ';', 'all'), 4, 6


def same(a, b, tol=0.):
    if isinstance(a, float) and isinstance(b, float):
        if a == b:
            return tol or str(a)[:1] == str(b)[:1]      # -0.0 is not 0.0
        return abs(a - b) <= tol
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def tolerance(name, major, v):
    if name.startswith('Timestamp') and isinstance(v, float):
        return (0.5e-6 if major >= 5 else 0.5e-3) * 1.001 + abs(v) * 3e-16
    return 0.


def finite(v):
    return not isinstance(v, float) or v - v == 0


def check_text(rep, name, typ, read, b, major):
    want, got = read(b, major), attempt(typ.unpack, b, major)
    key = '%s major %d unpack %r' % (name, major, b)
    if err(got):
        if not isinstance(got, ValueError):
            rep.violation(key, '%s: raised %r, not ValueError' % (key, got), dict(case=key))
            return 'bad'
        if want is not ValueError and want is not FREE:
            rep.violation(key, '%s: refused (%s), should be %r' % (key, got, want), dict(case=key))
            return 'bad'
        return 'refused'
    if want is ValueError:
        rep.violation(key, '%s: accepted as %r' % (key, got), dict(case=key))
        return 'bad'
    if want is not FREE and not same(want, got, 1e-15 * abs(want) if isinstance(want, float)
                                     and name.startswith('Timestamp') else 0.):
        rep.violation(key, '%s: read as %r, should be %r' % (key, got, want), dict(case=key))
        return 'bad'
    if not finite(got):
        return 'value'
    packed = attempt(typ.pack, got, major=major)
    again = packed if err(packed) else attempt(typ.unpack, packed, major)
    if err(again) or not same(got, again, tolerance(name, major, got)):
        rep.violation(key, '%s: %r packs to %r which is read as %r' % (key, got, packed, again),
                      dict(case=key))
        return 'bad'
    return 'value'


# ---------------------------------------------------------------- values to wire form
def num_floats():
    for d in range(1, 10):
        for k in range(-30, 31):
            yield float('%de%d' % (d, k))
    for d in range(1, 1000, 37):
        yield d / 1000.
        yield -d / 7.
    for s in ('0.0', '-0.0', '5e-324', '2.2250738585072014e-308', '1.7976931348623157e308',
              '123456789.12345679', '9007199254740993', '1e16', '1e17', '0.1', '0.0001', '0.00001'):
        yield float(s)


class F2(float):
    """A float with its own notation."""
    def __repr__(self):
        return 'F2(%s)' % float.__repr__(self)
    __str__ = __repr__


def packs():
    """(name, type, value, major, wire form or reader of it, expected unpacked value)"""
    ints = list(range(-12, 13)) + [10 ** k + d for k in range(2, 40, 3) for d in (-1, 0, 1)]
    ints += [-i for i in ints if i > 100] + [2 ** 31, 2 ** 63, 2 ** 64 + 1]
    for i in ints:
        yield 'Int', kt.Int(), i, 5, str(i).encode(), i
    for b in (True, False):
        yield 'Bool', kt.Bool(), b, 5, b'1' if b else b'0', b
    for f in num_floats():
        yield 'Float', kt.Float(), f, 5, repr(f).encode(), f
    for i in list(range(-12, 13)) + [10 ** 15, 2 ** 53]:
        yield 'Float', kt.Float(), i, 5, repr(float(i)).encode(), float(i)
    for q in (Fraction(1, 2), Fraction(-1, 3), Fraction(7), Fraction(10 ** 20, 3)):
        yield 'Float', kt.Float(), q, 5, repr(float(q)).encode(), float(q)
    for f in (0.5, -3.25, 1e300):
        yield 'Float', kt.Float(), F2(f), 5, repr(f).encode(), f
    chars = ['a', ' ', ',', '\n', '\0', '\\', '\t', u'\u00e9', u'\u20ac', u'\U0001f600', '0']
    for n in range(4):
        for t in itertools.product(chars, repeat=n):
            s = ''.join(t)
            yield 'Str', kt.Str(), s, 5, s.encode('utf-8'), s
            if n < 2:
                yield 'Str', kt.Str(), s.encode('utf-8'), 5, s.encode('utf-8'), s
    D = ('on', 'Off', u'\u00e9', '', 'a b')
    for v in D:
        yield 'Discrete', kt.Discrete(D), v, 5, v.encode('utf-8'), v
    for v in ('on', 'ON', 'oFf'):
        yield 'Discrete ci', kt.Discrete(('on', 'OFF'), case_insensitive=True), v, 5, v.encode(), v
    for v, w in ((kt.Lru.LRU_NOMINAL, b'nominal'), (kt.Lru.LRU_ERROR, b'error')):
        yield 'Lru', kt.Lru(), v, 5, w, v
    for h in ('127.0.0.1', 'host', '', 'a-b.c', '::1', '::FFFF:204.152.189.116', 'fe80::1%eth0', ':'):
        for p in (None, 0, 1, 80, 65535):
            w = ('[%s]' % h if ':' in h else h) + ('' if p is None else ':%d' % p)
            yield 'Address', kt.Address(), (h, p), 5, w.encode(), (h, p)
    # whole milliseconds and microseconds
    for base in (0, 1234567890000, 1500000000000):
        for ms in range(0, 3000):
            v = (base + ms) / 1000.
            for cls in (kt.Timestamp, kt.TimestampOrNow) if ms < 300 else (kt.Timestamp,):
                yield 'Timestamp', cls(), v, 4, b'%d' % (base + ms), v
                yield 'Timestamp', cls(), v, 5, \
                    b'%d.%03d000' % ((base + ms) // 1000, (base + ms) % 1000), v
    for us in range(0, 3000):
        for base in (0, 1234567890000000):
            yield 'Timestamp', kt.Timestamp(), (base + us) / 1e6, 5, \
                b'%d.%06d' % ((base + us) // 1000000, (base + us) % 1000000), (base + us) / 1e6
    for v in (-1.5, -0.001, -1234.567):
        yield 'Timestamp', kt.Timestamp(), v, 5, ('%.6f' % v).encode(), v
        yield 'Timestamp', kt.Timestamp(), v, 4, b'%d' % round(v * 1000), v
    for m in MAJORS:
        yield 'TimestampOrNow', kt.TimestampOrNow(), kt.TimestampOrNow.NOW, m, b'now', \
            kt.TimestampOrNow.NOW
        for i in (0, 1, 1234567890):
            yield 'Timestamp', kt.Timestamp(), i, m, \
                b'%d' % (i * 1000) if m < 5 else b'%d.000000' % i, float(i)
    for f in num_floats():
        if f >= 0 and str(f)[0] != '-':
            yield 'StrictTimestamp', kt.StrictTimestamp(), f, 5, \
                re.compile(br'^[0-9]+(\.[0-9]+)?\Z'), f
    for i in (0, 3, 10 ** 17):
        yield 'StrictTimestamp', kt.StrictTimestamp(), i, 5, re.compile(br'^[0-9]+(\.[0-9]+)?\Z'), \
            float(i)
    for t in itertools.product((0, -1, 32767, -32768), (0, 255)):
        yield 'Struct', kt.Struct('>hB'), t, 5, struct.pack('>hB', *t), t
    for s in ('a1', 'ab0', 'bba9'):
        yield 'Regex', kt.Regex('[ab]+[0-9]$'), s, 5, s.encode(), s
    M = ('a', 'B', 'c d', 'E')
    for n in range(1, 5):
        for t in itertools.permutations(M, n):
            w = ','.join(sorted(t, key=str.lower))
            yield 'DiscreteMulti', kt.DiscreteMulti(M), list(t), 5, w.encode(), \
                sorted(t, key=str.lower)
            yield 'DiscreteMulti', kt.DiscreteMulti(M, separator=';', all_keyword=None), list(t), 5, \
                w.replace(',', ';').encode(), sorted(t, key=str.lower)
    for t in (['A'], ['b', 'A']):
        yield 'DiscreteMulti ci', kt.DiscreteMulti(M, case_insensitive=True), t, 5, \
            ','.join(sorted(t, key=str.lower)).encode(), sorted(t, key=str.lower)


def check_pack(rep, name, typ, v, major, wire, back):
    key = '%s major %d pack %r' % (name, major, v)
    got = attempt(typ.pack, v, major=major)
    ok = not err(got) and isinstance(got, bytes) and (
        wire.match(got) if hasattr(wire, 'match') else got == wire)
    if not ok:
        rep.violation(key, '%s: gives %r, should be %r' % (key, got, getattr(wire, 'pattern', wire)),
                      dict(case=key))
        return
    again = attempt(typ.unpack, got, major)
    if err(again) or not same(again, back, tolerance(name, major, back)):
        rep.violation(key, '%s: %r is read back as %r, should be %r' % (key, got, again, back),
                      dict(case=key))


# ---------------------------------------------------------------- what has to be refused
def refusals():
    for v in (-1, 11, 100):
        yield kt.Int(min=0, max=10), v
    yield kt.Int(min=0), -1
    yield kt.Int(max=0), 1
    for v in (-0.001, 1.5001, float('inf'), -float('inf'), 2):
        yield kt.Float(min=0., max=1.5), v
    for v in ('x', None.__class__, [1.0], {}, b'1.0', 1j):
        yield kt.Float(), v
    for v in ('ON', 'x', '', b'on', 'on ', 1):
        yield kt.Discrete(('on', 'off')), v
    for v in ('x', '', 'onn'):
        yield kt.Discrete(('on', 'off'), case_insensitive=True), v
    for v in (2, -1, 'nominal', b'nominal', None.__class__):
        yield kt.Lru(), v
    for v in ('host', ('a',), ('a', 1, 2), 5):
        yield kt.Address(), v
    for v in ('x', b'y'):
        yield kt.Timestamp(), v
        yield kt.TimestampOrNow(), v
    for v in (-1, -0.5, float('inf'), float('nan')):
        yield kt.StrictTimestamp(), v
    for v in ((1,), (1, 2, 3), (70000, 1), ('a', 1), (1, 256), (1, -1)):
        yield kt.Struct('>hB'), v
    for v in ('1a', '', 'a', 'a1x', ' a1'):
        yield kt.Regex('[ab]+[0-9]$'), v
    for v in (['x'], ['a', 'x'], 'ax', ['A']):
        yield kt.DiscreteMulti(('a', 'b')), v


def values_section(rep):
    n = 0
    for name, typ, v, major, wire, back in packs():
        check_pack(rep, name, typ, v, major, wire, back)
        n += 1
    rep.count(n)
    rep.outcome('values', n)
    r = 0
    for typ, v in refusals():
        for major in MAJORS:
            got = attempt(typ.pack, v, major=major)
            key = '%s major %d pack %r' % (typ.name, major, v)
            if not isinstance(got, ValueError):
                rep.violation(key, '%s: gives %r, should be refused with ValueError' % (key, got),
                              dict(case=key))
            r += 1
    rep.count(r)
    rep.outcome('illegal values refused', r)


# defaults: value to pack / unpack is absent
def defaults_section(rep):
    n = 0
    cases = [(kt.Int, {}, 3, b'3', 0, b'0'), (kt.Int, dict(min=1, max=5), 3, b'3', None, None),
             (kt.Float, {}, 1.5, b'1.5', 0.0, b'0.0'),
             (kt.Bool, {}, True, b'1', False, b'0'), (kt.Str, {}, 'x', b'x', '', b''),
             (kt.Discrete, dict(values=['x', '']), 'x', b'x', '', b''),
             (kt.Lru, {}, 1, b'error', 0, b'nominal'),
             (kt.Address, {}, ('h', 1), b'h:1', ('', None), b''),
             (kt.Timestamp, {}, 2.5, {4: b'2500', 5: b'2.500000'}, 0.0, {4: b'0', 5: b'0.000000'}),
             (kt.TimestampOrNow, {}, kt.TimestampOrNow.NOW, b'now', 0, {4: b'0', 5: b'0.000000'}),
             (kt.StrictTimestamp, {}, 2.5, b'2.5', 0.0, b'0.0'),
             (kt.Struct, dict(fmt='>B'), (7,), b'\x07', (0,), b'\0'),
             (kt.Regex, dict(regex='[xy]*$'), 'x', b'x', '', b''),
             (kt.DiscreteMulti, dict(values=['x', 'y']), ['y', 'x'], b'x,y', None, None)]
    for cls, kw, d1, w1, d2, w2 in cases:
        for d, w in ((None, None), (d1, w1), (d2, w2)):
            for optional in (False, True):
                for major in MAJORS:
                    opts = dict(kw)
                    if d is not None:
                        opts['default'] = d
                    if optional:
                        opts['optional'] = True
                    typ = cls(**opts)
                    wire = w.get(major) if isinstance(w, dict) else w
                    key = '%s default=%r optional=%r major %d' % (cls.name, d, optional, major)
                    got = attempt(typ.unpack, None, major)
                    if d is not None:
                        ok = not err(got) and got == d
                    elif optional:
                        ok = got is None
                    else:
                        ok = isinstance(got, ValueError)
                    if not ok:
                        rep.violation(key, '%s: an absent value is read as %r' % (key, got),
                                      dict(case=key))
                    got = attempt(typ.pack, None, major=major)
                    ok = got == wire if d is not None else isinstance(got, ValueError)
                    if not ok:
                        rep.violation(key, '%s: an absent value is packed as %r' % (key, got),
                                      dict(case=key))
                    n += 2
    # an illegal default is refused like an illegal value
    for typ in (kt.Int(min=0, default=-1), kt.Discrete(['a'], default='b'),
                kt.Float(max=1., default=2.)):
        for major in MAJORS:
            a, b = attempt(typ.unpack, None, major), attempt(typ.pack, None, major=major)
            if not isinstance(a, ValueError) or not isinstance(b, ValueError):
                key = 'illegal default of %s' % typ.name
                rep.violation(key, '%s: %r, %r' % (key, a, b), dict(case=key))
            n += 2
    # the wrapper that request handlers use
    for major in MAJORS:
        for typ, good, wire, bad, badwire in (
                (kt.Int(max=5), 5, b'5', 6, b'6'),
                (kt.Timestamp(), 2.5, b'2500' if major < 5 else b'2.500000', None, b'x'),
                (kt.Discrete(['a']), 'a', b'a', 'b', b'b')):
            p = kt.Parameter(1, 'par', typ, major)
            got = [attempt(p.pack, good), attempt(p.unpack, wire)]
            key = 'Parameter %s major %d' % (typ.name, major)
            if got != [wire, good]:
                rep.violation(key, '%s: %r packs to %r, %r is read as %r'
                              % (key, good, got[0], wire, got[1]), dict(case=key))
            a, b = attempt(p.pack, bad), attempt(p.unpack, badwire)
            if not isinstance(a, ValueError) or not isinstance(b, FailReply):
                rep.violation(key, '%s: %r packs to %r, %r is read as %r' % (key, bad, a, badwire, b),
                              dict(case=key))
            n += 4
    # lists of types
    types = (kt.Int(), kt.Int(default=7), kt.Str(multiple=True, default='z'))
    for k in range(5):
        for vals in itertools.product((1, 2), repeat=k):
            args = list(vals[:2]) + ['s%d' % v for v in vals[2:]]
            full = args + [None, 7, 'z'][len(args):]
            if None in full:
                want = ValueError
            else:
                want = [str(x).encode() for x in full]
            got = attempt(kt.pack_types, types, args, 5)
            key = 'pack_types %r' % (args,)
            if (want is ValueError) != isinstance(got, ValueError) or (
                    want is not ValueError and got != want):
                rep.violation(key, '%s: %r, should be %r' % (key, got, want), dict(case=key))
            n += 1
            raw = [str(x).encode() for x in args]
            got = attempt(kt.unpack_types, types, raw, ['a', 'b', 'c'], 5)
            key = 'unpack_types %r' % (raw,)
            if (want is ValueError) != isinstance(got, FailReply) or (
                    want is not ValueError and got != full):
                rep.violation(key, '%s: %r, should be %r' % (key, got, full), dict(case=key))
            n += 1
    for m in MAJORS:
        got = attempt(kt.pack_types, (kt.Timestamp(), kt.Timestamp(multiple=True)), [1., 2., 3.5], m)
        want = [b'1000', b'2000', b'3500'] if m < 5 else [b'1.000000', b'2.000000', b'3.500000']
        if got != want:
            rep.violation('pack_types timestamps', 'major %d: %r' % (m, got), dict(case='timestamps'))
        got = attempt(kt.unpack_types, (kt.Timestamp(), kt.Timestamp(multiple=True)), want,
                      ['a', 'b'], m)
        if got != [1., 2., 3.5]:
            rep.violation('unpack_types timestamps', 'major %d: %r' % (m, got),
                          dict(case='timestamps'))
    for types, args in (((), [1]), ((kt.Int(),), [1, 2])):
        got = attempt(kt.pack_types, types, args, 5)
        if not isinstance(got, ValueError):
            rep.violation('pack_types too many', '%r' % (got,), dict(case='too many'))
        got = attempt(kt.unpack_types, types, [b'1'] * len(args), [], 5)
        if not isinstance(got, FailReply):
            rep.violation('unpack_types too many', '%r' % (got,), dict(case='too many'))
    rep.count(n)
    rep.outcome('absent values, defaults, parameter lists', n)


# ---------------------------------------------------------------- sensors
def sensors_section(rep):
    n = 0
    S = Sensor
    kinds = [(S.INTEGER, 'integer', [None, [], [-5, 5], [0, 0]], [-5, 0, 3, 10 ** 20]),
             (S.FLOAT, 'float', [None, [-1.5, 2.0], [0.1, 1e300]], [0.0, -0.0, 0.1, 1e-7, 1e22, -2.5]),
             (S.BOOLEAN, 'boolean', [None], [True, False]),
             (S.LRU, 'lru', [None], [S.LRU_NOMINAL, S.LRU_ERROR]),
             (S.DISCRETE, 'discrete', [['a', 'b c', u'\u00e9', '']], ['a', 'b c', u'\u00e9', '']),
             (S.STRING, 'string', [None], ['', 'x', u'\u20ac \n\\', 'a b']),
             (S.TIMESTAMP, 'timestamp', [None], [0.0, 1.001, 1234567890.123, 1234567890.001]),
             (S.ADDRESS, 'address', [None], [('h', None), ('1.2.3.4', 80), ('::1', 5), ('::1', None)])]
    stamps = [0.0, 1.001, 1234567890.001, 1234567890.999, 2.5]
    for stype, tname, paramss, values in kinds:
        if attempt(S.parse_type, tname) != stype:
            rep.violation('parse_type ' + tname, 'parse_type(%r) is %r'
                          % (tname, attempt(S.parse_type, tname)), dict(case=tname))
        for params in paramss:
            a = attempt(S, stype, 'a', 'desc', '', params)
            b = attempt(S, stype, 'b', 'desc', '', params)
            key = 'sensor %s %r' % (tname, params)
            if err(a) or err(b):
                rep.violation(key, '%s: cannot be made: %r' % (key, a), dict(case=key))
                continue
            for major in MAJORS:
                back = attempt(S.parse_params, stype, a.formatted_params, major)
                if err(back) or list(back) != list(params or []):
                    rep.violation(key, '%s: its parameters %r are read back as %r'
                                  % (key, a.formatted_params, back), dict(case=key))
                for v in values:
                    for status in sorted(S.STATUSES):
                        for ts in stamps if status in (0, 1) else stamps[:1]:
                            a.set(ts, status, v)
                            f = attempt(a.read_formatted, major)
                            r = f if err(f) else attempt(b.set_formatted, *f, major=major)
                            got = r if err(r) else b.read()
                            tol = tolerance('Timestamp', major, ts)
                            if err(got) or not (
                                    same(got[0], ts, tol) and got[1] == status and
                                    same(got[2], v, tolerance('Timestamp', major, v)
                                         if tname == 'timestamp' else 0.)):
                                rep.violation(key, '%s major %d: (%r, %r, %r) is sent as %r and read '
                                              'as %r' % (key, major, ts, status, v, f, got),
                                              dict(case=key))
                            n += 1
    # default values
    for args, want in (((S.INTEGER, None, None), 0), ((S.INTEGER, [3, 9], None), 3),
                       ((S.INTEGER, [-3, 9], None), 0), ((S.INTEGER, [3, 9], 5), 5),
                       ((S.FLOAT, [-9., -1.], None), -9.), ((S.FLOAT, [-9., 1.], None), 0.),
                       ((S.DISCRETE, ['x', 'y'], None), 'x'), ((S.DISCRETE, ['x', 'y'], 'y'), 'y'),
                       ((S.BOOLEAN, None, None), False), ((S.STRING, None, None), ''),
                       ((S.INTEGER, [3, 9], 0), 0), ((S.BOOLEAN, None, True), True),
                       ((int, None, None), 0), ((float, None, None), 0.), ((str, None, 'q'), 'q'),
                       ((bool, None, True), True)):
        s = attempt(S, args[0], 'a', 'd', '', args[1], args[2])
        if err(s) or s.value() != want or s.status() != S.UNKNOWN:
            key = 'sensor default %r' % (args,)
            rep.violation(key, '%s: starts as %r' % (key, s if err(s) else s.read()), dict(case=key))
        n += 1
    # set_value checks the value
    for s, good, bad in ((S.discrete('a', 'd', '', ['x', 'y']), 'y', 'z'),):
        s.set_value(good, S.WARN, 5.0)
        r = attempt(s.set_value, bad, S.WARN, 6.0)
        if not isinstance(r, ValueError) or tuple(s.read()) != (5.0, S.WARN, good):
            rep.violation('set_value', 'an illegal value gave %r and the reading %r' % (r, s.read()),
                          dict(case='set_value'))
        n += 1
    rep.count(n)
    rep.outcome('values', n)


def texts_section(rep, which, depth):
    for i, (name, cls, kw, read, alpha, lq, lt) in enumerate(readers()):
        if i != which:
            continue
        typ = cls(**kw)
        n = lt if depth else lq
        counts = {'value': 0, 'refused': 0, 'bad': 0}
        seen = set()
        majors = MAJORS if name.startswith('Timestamp') else (5,)
        for b in words(alpha, n):
            if b in seen:
                continue
            seen.add(b)
            for major in majors:
                counts[check_text(rep, name, typ, read, b, major)] += 1
        for c in range(256):
            for pre in (b'', b'1', b'a'):
                for major in majors:
                    check_text(rep, name, typ, read, pre + bytes(bytearray([c])), major)
        rep.count(sum(counts.values()))
        rep.outcome('accepted texts', counts['value'])
        rep.outcome('%s: texts read' % name, counts['value'])
        rep.outcome('%s: texts refused' % name, counts['refused'])


class Sec(object):
    """What a section reports to."""

    def __init__(self, cx):
        self.cx = cx
        self.violation = cx.rep.violation
        self.sample = cx.rep.sample

    def count(self, n):
        self.cx.count(evaluations=n)

    def outcome(self, what, n):
        self.cx.count(**{what: n})


def run(tier, rep):
    deep = tier == 'thorough'
    jobs = [(values_section,), (defaults_section,), (sensors_section,)]
    jobs += [(texts_section, i, deep) for i in range(len(list(readers())))]

    def task(job):
        def go(cx):
            job[0](Sec(cx), *job[1:])
        return go
    ex = rig.parallel(rep, [task(j) for j in jobs], batch=1)
    n = ex.extra.pop('evaluations')
    acc = ex.extra.pop('accepted texts')
    vals = ex.extra.pop('values')
    rep.sample({'type': 'Timestamp', 'major': 4, 'text': '1001', 'value': 1.001, 'packs to': '1001'})
    rep.sample({'type': 'Address', 'text': '[::1]:5', 'value': ['::1', 5]})
    rep.set(evaluations=n, distinct_nontrivial=acc + vals, exhaustive=True, sections=ex.extra,
            rule='all byte strings up to the length bound over an alphabet per type (non-trivial: those '
                 'that are read as a value, which then has to survive packing), and the values of a grid '
                 'per type (all distinct)')


def replay(obj, rep):
    run('quick', rep)
