"""C01: every message survives serialisation and parsing unchanged.

Exhaustive enumeration of message values over a byte alphabet that contains
every special byte, every escape letter, ordinary and non-ASCII bytes, against a
reference encoder/decoder written from the documented escape table.
"""
import itertools
import json

from .. import env, guard
LEVEL = 'exploration'
K = env.load(virtual=False)
from katcp.core import Message, MessageParser, KatcpSyntaxError  # noqa

SPECIAL = [b'\\', b' ', b'\0', b'\n', b'\r', b'\x1b', b'\t']
LETTERS = [b'_', b'0', b'n', b'r', b'e', b't', b'@']
PLAIN = [b'a', b'?', b'[', b'\x80', b'\xff']
ALPHA = SPECIAL + LETTERS + PLAIN
ESC = {0x5c: b'\\\\', 0x20: b'\\_', 0: b'\\0', 0x0a: b'\\n', 0x0d: b'\\r', 0x1b: b'\\e',
       0x09: b'\\t'}
UNESC = {ord('\\'): b'\\', ord('_'): b' ', ord('0'): b'\0', ord('n'): b'\n', ord('r'): b'\r',
         ord('e'): b'\x1b', ord('t'): b'\t', ord('@'): b''}
TYPES = [(Message.REQUEST, b'?'), (Message.REPLY, b'!'), (Message.INFORM, b'#')]
parser = MessageParser()


def ref_decode(line):
    """Independent reading of a serialised message -> (type, name, mid, args)."""
    fields = line.split(b' ')
    head, args = fields[0], []
    for f in fields[1:]:
        out, i = b'', 0
        while i < len(f):
            if f[i] == 0x5c:
                out += UNESC[f[i + 1]]
                i += 2
            else:
                out += f[i:i + 1]
                i += 1
        args.append(out)
    mid = None
    name = head[1:]
    if name.endswith(b']'):
        name, mid = name[:-1].split(b'[')
    return head[:1], name, mid, args


def check_one(rep, mtype, sym, name, mid, args, given=None):
    """args: the byte strings expected after the trip; given: what the caller passes."""
    case = {'type': mtype, 'name': name, 'mid': repr(mid), 'args': [list(bytearray(a)) for a in args],
            'given': repr(given)}
    key = 'msg:%s%s%r%r' % (sym.decode(), name, mid, given if given is not None else args)
    key = key if len(key) < 200 else '%s... (%d)' % (key[:200], len(key))
    try:
        m = Message(mtype, name, list(args) if given is None else given, mid)
        wire = bytes(m)
        back = parser.parse(wire)
    except Exception as e:
        rep.violation(key, 'exception %r for %r' % (e, case), case)
        return None
    want_mid = None if mid is None else (mid if isinstance(mid, bytes) else str(mid).encode())
    probs = []
    for b in wire:
        if b in (0x0a, 0x0d, 0, 0x1b, 0x09):
            probs.append('raw special byte %r on the wire' % b)
            break
    if wire.count(b' ') != len(args):
        probs.append('%d argument separators for %d arguments' % (wire.count(b' '), len(args)))
    else:
        try:
            rd = ref_decode(wire)
            if rd != (sym, name.encode(), want_mid, list(args)):
                probs.append('wire form means %r' % (rd,))
        except Exception as e:
            probs.append('wire form unreadable (%r)' % e)
    if (back.mtype, back.name, back.mid, [bytes(a) for a in back.arguments]) != (
            mtype, name, want_mid, list(args)):
        probs.append('parsed back as %r mid=%r args=%r' % (back, back.mid, back.arguments))
    if not (back == m) or back != m:
        probs.append('parsed message does not compare equal to the original')
    if bytes(back) != wire:
        probs.append('re-serialisation differs')
    c = m.copy()
    if not (c == m) or bytes(c) != wire:
        probs.append('copy() is not an equal message: %r' % bytes(c))
    else:
        c.arguments.append(b'x')
        if bytes(m) != wire:
            probs.append('copy() shares its argument list')
    if probs:
        rep.violation(key, '%r -> wire %r: %s' % (case, wire, '; '.join(probs)), case)
    return wire


def typed_values(thorough):
    """(given value, expected bytes)"""
    ints = sorted(set([0, 1, -1, 9, 10, 255, 2**31, -2**31, 2**63, -2**63, 10**25] +
                      list(range(-300, 300))))
    out = [(i, str(i).encode()) for i in ints]
    out += [(True, b'1'), (False, b'0')]
    for f in [0.0, -0.0, 1.0, 0.1, 1e300, 5e-324, 1e22, 1e21, 123456789.123456789, float('inf'),
              float('-inf'), 1 / 3.0, 2.5e-7]:
        out.append((f, repr(f).encode()))
    for s in [u'', u' ', u'a b', u'\u00e9', u'\U0001f600', u'\\', u'\x00', u'\u2028', u'\x85']:
        out.append((s, s.encode('utf-8')))
    return out


def run(tier, rep):
    thorough = tier == 'thorough'
    n = 0
    wires = set()
    mids = [None, b'0', b'1', 1, '7', 2147483647, b'2147483648', b'007']
    names = ['a', 'Z', 'a-b', 'a1-', 'sensor-value', 'x--y', 'n0']

    def go(*a, **k):
        n_ = check_one(rep, *a, **k)
        if n_ is not None:
            wires.add(n_)
    guard.note_progress('c01')
    # 1. head variations x a few argument lists
    arglists = [[], [b''], [b'', b''], [b'a'], [b' '], [b'a', b''], [b'', b'a'], [b'\\@'], [b'@'],
                [b'\n', b'\r\n'], [b'[1]']]
    for (mt, sym), name, mid, al in itertools.product(TYPES, names, mids, arglists):
        go(mt, sym, name, mid, al)
        n += 1
    # 2. all single arguments up to length L over the alphabet
    L = 4 if thorough else 3
    for ln in range(L + 1):
        for tup in itertools.product(ALPHA, repeat=ln):
            go(Message.REQUEST, b'?', 'a', None, [b''.join(tup)])
            n += 1
        guard.note_progress('c01 len %d' % ln)
    # 3. every byte value, and every pair of byte values
    for x in range(256):
        go(Message.INFORM, b'#', 'a', b'3', [bytes([x])])
        n += 1
    rng = range(256) if thorough else [0, 7, 9, 10, 11, 12, 13, 27, 28, 31, 32, 33, 47, 48, 64, 91, 92,
                                       93, 95, 101, 110, 114, 116, 127, 128, 133, 160, 194, 255]
    for x in rng:
        for y in rng:
            go(Message.REPLY, b'!', 'a', None, [bytes([x, y])])
            n += 1
    guard.note_progress('c01 pairs')
    # 4. all argument lists of up to 3 arguments of length <= 1
    one = [b''] + ALPHA
    for k in (2, 3):
        for tup in itertools.product(one, repeat=k):
            go(Message.REPLY, b'!', 'a', b'12', list(tup))
            n += 1
    # 4b. long arguments: runs of every special byte, special bytes far inside, many arguments
    runs = list(range(4, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2100]
    if thorough:
        runs += [4095, 4096, 4097, 65535, 65536, 65537, 200000]
    for c in ALPHA:
        for k in runs:
            for arg in (c * k, (c + b'a') * k, b'a' * k + c, c + b'a' * k, b'a' * k + c + b'b' * k):
                go(Message.REQUEST, b'?', 'a', None, [arg])
                n += 1
    guard.note_progress('c01 long')
    for k in runs[:-3]:
        for arg in (b'', b' ', b'a', b'\\'):
            go(Message.INFORM, b'#', 'a' * k, b'1' * min(k, 40), [arg] * k)
            n += 1
    # 4c. messages are equal exactly if they are the same; they share nothing
    vals = [(mt, nm, mid, al) for mt, _ in TYPES for nm in ('a', 'b') for mid in (None, b'1', b'2')
            for al in ([], [b''], [b'a'], [b'a', b''], [b'', b'a'], [b'b'])]
    msgs = [Message(mt, nm, list(al), mid) for mt, nm, mid, al in vals]
    for i, a in enumerate(msgs):
        for j, b in enumerate(msgs):
            if (a == b) != (i == j) or (a != b) != (i != j):
                rep.violation('equality:%r:%r' % (vals[i], vals[j]), 'a == b gives %r, a != b %r for %r and %r'
                              % (a == b, a != b, a, b), {'a': repr(vals[i]), 'b': repr(vals[j])})
            n += 1
    for fac in (Message.request, Message.reply, Message.inform,
                lambda x: Message(Message.REQUEST, x)):
        a, b = fac('a'), fac('a')
        a.arguments.append(b'x')
        if b.arguments or fac('a').arguments:
            rep.violation('shared arguments', 'messages made without arguments share their list', {})
        n += 1
    # 5. typed values given to the constructor and the factory methods
    for v, want in typed_values(thorough):
        for (mt, sym) in TYPES:
            go(mt, sym, 'a', None, [want], given=[v])
            n += 1
        for fac, mt in ((Message.request, 0), (Message.reply, 1), (Message.inform, 2)):
            m = fac('a', v, b'z', mid=5)
            if (m.mtype, m.arguments, m.mid) != (mt, [want, b'z'], b'5'):
                rep.violation('factory:%r' % (v,), 'factory built %r' % m, {'value': repr(v)})
            req = Message.request('q-r', mid=9)
            for f2, mt2 in ((Message.reply_to_request, 1), (Message.reply_inform, 2)):
                m = f2(req, v)
                if (m.mtype, m.name, m.arguments, m.mid) != (mt2, 'q-r', [want], b'9'):
                    rep.violation('factory2:%r' % (v,), 'factory built %r mid %r' % (m, m.mid),
                                  {'value': repr(v)})
            n += 3
    # 6. values that no message may carry are refused at construction
    for bad in ['', '1a', '-a', 'a b', 'a_b', 'a.b', 'a\n', 'a[1]', '?a']:
        try:
            Message(Message.REQUEST, bad)
        except KatcpSyntaxError:
            pass
        else:
            rep.violation('badname:%r' % bad, 'illegal name accepted', {'name': bad})
        n += 1
    for bad in ['', 'a', '-1', -1, b'x', b'', '1 ', b'1\n', 1.5]:
        try:
            Message(Message.REQUEST, 'a', [], bad)
        except KatcpSyntaxError:
            pass
        else:
            rep.violation('badmid:%r' % (bad,), 'illegal message id accepted', {'mid': repr(bad)})
        n += 1
    for (mt, sym), mid, args in [(TYPES[0], b'1', [b'a b', b'']), (TYPES[1], None, [b'ok']),
                                 (TYPES[2], b'9', [b'\\', b'\n'])]:
        rep.sample({'message': repr((sym, 'a', mid, args)),
                    'wire': repr(bytes(Message(mt, 'a', args, mid)))})
    rep.set(evaluations=n, distinct_nontrivial=len(wires), exhaustive=True,
            rule='every message value over the stated alphabet and bounds; distinct = distinct wire '
                 'forms produced', max_argument_length=L, alphabet=len(ALPHA))
    rep.assumptions.append('argument bytes outside the 19-byte alphabet are covered up to length 1 '
                           '(quick) / 2 (thorough)')


def replay(obj, rep):
    args = [bytes(bytearray(a)) for a in obj.get('args', [])]
    mid = eval(obj.get('mid', 'None'))
    sym = dict(TYPES)[obj['type']]
    given = eval(obj.get('given', 'None'))
    check_one(rep, obj['type'], sym, obj['name'], mid, args, given)
    rep.set(evaluations=1, distinct_nontrivial=1, rule='replay')
