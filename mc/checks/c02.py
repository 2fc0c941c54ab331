"""C02: the parser accepts exactly the KATCP line grammar, and is total.

Every line up to a length bound over an alphabet of all syntactically relevant
bytes is given to the real parser and to a hand-written character automaton for
the grammar; they must agree on acceptance and on the parsed value, and the only
exception may be KatcpSyntaxError.
"""
import itertools

from .. import env, guard
LEVEL = 'exploration'
K = env.load(virtual=False)
from katcp.core import Message, MessageParser, KatcpSyntaxError  # noqa

parser = MessageParser()
UN = {0x5c: b'\\', 0x5f: b' ', 0x30: b'\0', 0x6e: b'\n', 0x72: b'\r', 0x65: b'\x1b', 0x74: b'\t',
      0x40: b''}
BAD = (0x00, 0x0a, 0x0d, 0x1b)


def is_alpha(c):
    return 0x41 <= c <= 0x5a or 0x61 <= c <= 0x7a


def is_digit(c):
    return 0x30 <= c <= 0x39


def ref_parse(line):
    """None if the line is malformed, else (type, name, mid, args)."""
    n = len(line)
    if n == 0 or line[0] not in b'?!#':
        return None
    i = 1
    if i >= n or not is_alpha(line[i]):
        return None
    while i < n and (is_alpha(line[i]) or is_digit(line[i]) or line[i] == 0x2d):
        i += 1
    name = line[1:i]
    mid = None
    if i < n and line[i] == 0x5b:
        j = i + 1
        while j < n and is_digit(line[j]):
            j += 1
        if j == i + 1 or j >= n or line[j] != 0x5d:
            return None
        mid = line[i + 1:j]
        i = j + 1
    args = []
    while i < n:
        if line[i] not in (0x20, 0x09):
            return None
        while i < n and line[i] in (0x20, 0x09):
            i += 1
        if i >= n:
            break               # trailing white space is not an argument
        out = bytearray()
        while i < n and line[i] not in (0x20, 0x09):
            c = line[i]
            if c in BAD:
                return None
            if c == 0x5c:
                if i + 1 >= n or line[i + 1] not in UN:
                    return None
                out += UN[line[i + 1]]
                i += 2
            else:
                out.append(c)
                i += 1
        args.append(bytes(out))
    return line[0], name, mid, args


SYM = {Message.REQUEST: 0x3f, Message.REPLY: 0x21, Message.INFORM: 0x23}


def check_line(rep, line):
    want = ref_parse(line)
    try:
        m = parser.parse(line)
        got = (SYM[m.mtype], m.name.encode(), m.mid, list(m.arguments))
    except KatcpSyntaxError:
        got = None
    except Exception as e:
        got = ('exception', type(e).__name__, str(e)[:80])
    if got != want:
        rep.violation('line:%r' % (line[:100],), 'line %r: parser says %r, grammar says %r' % (
            line, got, want), {'line': list(bytearray(line))})
    return want is not None


def run(tier, rep):
    thorough = tier == 'thorough'
    A = [b'?', b'!', b'#', b'a', b'1', b'-', b'[', b']', b'\\', b'_', b'@', b'n', b' ', b'\t',
         b'\0', b'\x1b', b'\x80', b'\xff', b'\n', b'\r']
    TAIL = [b'a', b'1', b'-', b'[', b']', b'\\', b'_', b'@', b' ', b'\t', b'\0', b'\x1b', b'\xff', b'.', b'\n']
    ARG = [b'a', b'\\', b'_', b'@', b' ', b'n', b'\t', b'\xff', b'0', b'[', b'x', b'\r', b'\n']
    MID = [b'[', b']', b'1', b'0', b'a', b' ', b'\n']
    n = acc = 0

    def block(prefixes, alpha, length):
        nonlocal n, acc
        for p in prefixes:
            for ln in range(length + 1):
                for t in itertools.product(alpha, repeat=ln):
                    n += 1
                    if check_line(rep, p + b''.join(t)):
                        acc += 1
                    if len(rep.violations) > 20:
                        return
                guard.note_progress('c02 %r' % p)
    block([b''], A, 5 if thorough else 4)
    block([b'?a', b'#aB-9', b'!a-'], TAIL, 5 if thorough else 4)
    block([b'?a ', b'?a[12] x', b'#a \\'], ARG, 6 if thorough else 4)
    block([b'!a', b'?a1['], MID, 7 if thorough else 5)
    for x in range(256):
        for tmpl in (b'%s', b'?%s', b'?a%s', b'?a[%s]', b'?a[1]%s', b'?a %s', b'?a \\%s', b'?a %sb c',
                     b'%sa', b'?a%sb', b'?a b%s c', b'!ok%s ok'):
            n += 1
            if check_line(rep, tmpl % bytes([x])):
                acc += 1
    # long lines: something illegal or special far inside, long runs, many arguments
    for k in list(range(5, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4097]:
        for piece in (b'a', b'\\_', b'\\\\', b'\\@', b'\\n', b' ', b'\t', b' a', b' \\@', b'[', b'1', b'-'):
            for tmpl in (b'?a %s', b'?a %s\\q', b'?a \\q%s', b'?a %s\\', b'?a %s x', b'?a[%s]', b'?a[1%s] x',
                         b'?a%s', b'?a%s 1', b'#a b%sc', b'!a %s\0', b'%s?a', b'?%s', b'?a %s\n', b'?a%s\n', b'?a[%s]\n'):
                n += 1
                if check_line(rep, tmpl % (piece * k)):
                    acc += 1
        guard.note_progress('c02 long')
    for bad in (u'?a', None, 5, bytearray(b'?a') if False else u'#b'):
        try:
            parser.parse(bad)
        except (TypeError, ValueError):
            pass
        else:
            rep.violation('type:%r' % (bad,), 'non-bytes line accepted', {'line': repr(bad)})
    for ln in (b'?a[1] b\\_c', b'?a[', b'#x \\', b'!ok  a\t\tb '):
        rep.sample({'line': repr(ln), 'grammar': repr(ref_parse(ln))})
    rep.set(evaluations=n, distinct_nontrivial=acc, exhaustive=True,
            rule='every line over the alphabets up to the length bounds; non-trivial = accepted by the '
                 'grammar (the rest must be rejected with KatcpSyntaxError)')


def replay(obj, rep):
    check_line(rep, bytes(bytearray(obj['line'])))
    rep.set(evaluations=1, distinct_nontrivial=1, rule='replay')
