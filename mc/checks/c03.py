"""C03: message framing is independent of how the byte stream is cut up.

A real server (and a real client) on virtual sockets receives every byte stream
made of up to three lines from a small alphabet, delivered in every segmentation
with up to k cuts and byte by byte; what it acts on must equal a reference
framing of the whole stream.
"""
import itertools

from .. import env, sim, guard
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import DeviceServer, DeviceClient, Message  # noqa
from katcp.core import MessageParser, KatcpSyntaxError  # noqa
from .c02 import ref_parse  # noqa

GOOD = [b'?echo[1] a', b'?echo[22] b\\_c \\@', b'?echo', b'#note x', b'!rep y', b'?nope z',
        b'?echo[3] \xff']
BAD = [b'garbage', b'?echo[x] y', b'?echo \\q', b'\xff\xfe', b'?', b'?echo[4', b'?\xc3(']
TERM = [b'\n', b'\r\n', b'\r', b'\n\n', b'\r\r\n']


def make_server_class(log):
    class S(DeviceServer):
        def setup_sensors(self):
            pass

        def request_echo(self, req, msg):
            """echo"""
            log.append(('req', bytes(msg)))
            return req.make_reply('ok', *msg.arguments)

        def inform_note(self, req, msg):
            """note"""
            log.append(('inf', bytes(msg)))

        def reply_rep(self, req, msg):
            """rep"""
            log.append(('rep', bytes(msg)))
    return S


def make_client_class(log):
    class C(DeviceClient):
        def unhandled_request(self, msg):
            log.append(('req', bytes(msg)))

        def unhandled_inform(self, msg):
            log.append(('inf', bytes(msg)))

        def unhandled_reply(self, msg):
            log.append(('rep', bytes(msg)))
    return C


def ref_lines(stream):
    """Complete lines of the stream; empty lines are not messages."""
    out, cur = [], bytearray()
    for b in stream:
        if b in (0x0a, 0x0d):
            if cur:
                out.append(bytes(cur))
            cur = bytearray()
        else:
            cur.append(b)
    return out


def canon(line):
    r = ref_parse(line)
    if r is None:
        return None
    typ, name, mid, args = r
    return bytes(Message({0x3f: 0, 0x21: 1, 0x23: 2}[typ], name.decode(), args, mid))


def expect_server(stream):
    acted, replies = [], []
    for ln in ref_lines(stream):
        r = ref_parse(ln)
        if r is None:
            replies.append(('log-error',))
            continue
        typ, name, mid, args = r
        m = canon(ln)
        mids = b'' if mid is None else b'[' + mid + b']'
        if typ == 0x3f:
            if name == b'echo':
                acted.append(('req', m))
                replies.append(('line', bytes(Message(1, 'echo', [b'ok'] + args, mid))))
            else:
                replies.append(('prefix', b'!' + name + mids + b' invalid'))
        elif typ == 0x23 and name == b'note':
            acted.append(('inf', m))
        elif typ == 0x21 and name == b'rep':
            acted.append(('rep', m))
    return acted, replies


def match(replies, lines):
    if len(replies) != len(lines):
        return False
    for r, ln in zip(replies, lines):
        if r[0] == 'line' and ln != r[1]:
            return False
        if r[0] == 'prefix' and not ln.startswith(r[1]):
            return False
        if r[0] == 'log-error' and not ln.startswith(b'#log error '):
            return False
    return True


class ServerRig(object):
    def __init__(self):
        sim.reset()
        self.log = []
        self.loop = sim.VLoop(make_current=True)
        self.srv = rig.start_async_server(make_server_class(self.log), self.loop)

    def run(self, stream, cuts, drain):
        guard.note_progress('c03 server')
        del self.log[:]
        sim.W.steps = 0
        p = rig.connect(self.srv, self.loop)
        for c in rig.chunks(stream, cuts):
            p.send(c)
            if drain:
                self.loop.drain()
        self.loop.drain()
        alive = not p.eof()
        lines = p.lines()
        # the connection must still work
        p.send(b'\n?echo[99] alive\n')
        self.loop.drain()
        tail = p.lines()
        acted = list(self.log)
        p.close()
        self.loop.drain()
        return acted, lines, alive, tail


class ClientRig(object):
    def __init__(self):
        sim.reset()
        sim.W.net.manual_ports.add(4000)
        self.log = []
        self.loop = sim.VLoop(make_current=True)
        self.cl = make_client_class(self.log)('127.0.0.1', 4000)
        self.cl.auto_reconnect_delay = 0.001
        rig.start_client(self.cl, self.loop)

    def run(self, stream, cuts, drain):
        guard.note_progress('c03 client')
        while not sim.W.net.pending_connects:
            self.loop.advance(0.01)
        p = rig.accept_client(self.loop)
        del self.log[:]
        sim.W.steps = 0
        for c in rig.chunks(stream, cuts):
            p.send(c)
            if drain:
                self.loop.drain()
        self.loop.drain()
        alive = not p.eof()
        p.send(b'\n#last 99\n')
        self.loop.drain()
        acted = list(self.log)
        p.close()
        self.loop.drain()
        return acted, alive


def check_server(rep, rig_, stream, cuts, drain):
    acted, lines, alive, tail = rig_.run(stream, cuts, drain)
    partial = stream.replace(b'\r', b'\n').split(b'\n')[-1]
    w_acted, w_replies = expect_server(stream)
    full_a, full_r = expect_server(stream + b'\n?echo[99] alive\n')
    probs = []
    if not alive:
        probs.append('connection closed')
    if not match(w_replies, lines):
        probs.append('wire output %r, expected %r' % (lines, w_replies))
    if acted != full_a:
        probs.append('handlers saw %r, expected %r' % (acted, full_a))
    if not match(full_r[len(w_replies):], tail):
        probs.append('after the stream: %r, expected %r' % (tail, full_r[len(w_replies):]))
    if probs:
        rep.violation('server:%r' % (stream,), 'stream %r cut at %r drain=%r: %s' % (
            stream, cuts, drain, '; '.join(probs)),
            {'side': 'server', 'stream': list(bytearray(stream)), 'cuts': list(cuts), 'drain': drain})
        return False
    return True


def expect_client(stream):
    out = []
    for ln in ref_lines(stream):
        r = ref_parse(ln)
        if r is None:
            continue
        out.append(({0x3f: 'req', 0x21: 'rep', 0x23: 'inf'}[r[0]], canon(ln)))
    return out


def check_client(rep, rig_, stream, cuts, drain):
    acted, alive = rig_.run(stream, cuts, drain)
    want = expect_client(stream + b'\n#last 99\n')
    if acted != want or not alive:
        rep.violation('client:%r' % (stream,), 'stream %r cut at %r drain=%r: client saw %r alive=%r, '
                      'expected %r' % (stream, cuts, drain, acted, alive, want),
                      {'side': 'client', 'stream': list(bytearray(stream)), 'cuts': list(cuts),
                       'drain': drain})
        return False
    return True


def overlong(rep, over, prefix, cuts_at, drain):
    """A line longer than MAX_MSG_SIZE (exactly that length is left open) closes that connection only, and nothing is acted on twice."""
    sim.reset()
    log = []
    loop = sim.VLoop(make_current=True)
    cls = make_server_class(log)
    s = cls('127.0.0.1', 0)
    s.set_concurrency_options(thread_safe=False, handler_thread=False)
    s.set_ioloop(loop)
    s._server.MAX_MSG_SIZE = 256
    s.start()
    loop.drain()
    p = rig.connect(s, loop)
    q = rig.connect(s, loop)
    line = b'?echo[7] ' + b'x' * over
    data = prefix + line
    for c in rig.chunks(data, cuts_at):
        p.send(c)
        if drain:
            loop.drain()
    loop.drain()
    n_before = [x for x in log]
    want = [('req', m) for m in ref_lines(prefix)]
    probs = []
    too_long = len(line) > 256
    if too_long:
        if not p.eof():
            probs.append('connection left open after %d bytes without terminator' % len(line))
        # requests already processed must not be executed again; those still in the
        # buffer when the connection is closed may be dropped (in order)
        if n_before != want[:len(n_before)]:
            probs.append('handlers saw %r, expected a prefix of %r' % (n_before, want))
        if drain and len(cuts_at) and n_before != want:
            probs.append('handlers saw %r, expected %r' % (n_before, want))
    else:
        p.send(b'\n')
        loop.drain()
        if p.eof() or log != want + [('req', line)]:
            probs.append('line of %d bytes (limit 256) not handled: %r' % (len(line), log))
    del log[:]
    q.send(b'?echo[1] still\n')
    loop.drain()
    if b'!echo[1] ok still' not in q.lines():
        probs.append('another connection stopped being served')
    if probs:
        rep.violation('overlong:%r:%d' % (prefix, over), 'prefix %r + line of %d bytes cut %r drain=%r: %s' % (
            prefix, len(line), cuts_at, drain, '; '.join(probs)),
            {'side': 'overlong', 'over': over, 'prefix': list(bytearray(prefix)),
             'cuts': list(cuts_at), 'drain': drain})


def run(tier, rep):
    thorough = tier == 'thorough'
    lines_alpha = GOOD + BAD
    streams = []
    for a in lines_alpha:
        for t in TERM:
            streams.append((a + t, 3))
            streams.append((t + a, 2))
    core = [b'?echo[1] a', b'?echo', b'#note x', b'garbage', b'\xff\xfe', b'?echo \\q', b'']
    for a, b in itertools.product(lines_alpha, repeat=2):
        streams.append((a + b'\n' + b + b'\n', 1))
    for a, b in itertools.product(core, repeat=2):
        for t1, t2 in itertools.product(TERM[:3], [b'\n', b'\r', b'']):
            streams.append((a + t1 + b + t2, 2))
    for a, b, c in itertools.product(core, repeat=3):
        streams.append((a + b'\n' + b + b'\r' + c + b'\n', 2 if thorough else 1))
    seen = set()
    todo = []
    for stream, k in streams:
        if stream not in seen:
            seen.add(stream)
            todo.append((stream, k + (1 if thorough else 0)))

    def stream_task(stream, k):
        def task(ex):
            rep = ex.rep
            for make, chk in ((ServerRig, check_server), (ClientRig, check_client)):
                rg = make()
                segs = [tuple(range(1, len(stream)))] + list(rig.compositions(len(stream), k))
                if len(segs) > 160 and not thorough:
                    segs = [tuple(range(1, len(stream)))] + list(
                        rig.compositions(len(stream), k - 1))
                for cuts in segs:
                    ok = True
                    for drain in ((True, False) if len(cuts) <= 1 or thorough else (True,)):
                        ex.count(deliveries=1)
                        ok = ok and chk(rep, rg, stream, cuts, drain)
                    if not ok:
                        break
                ex.count(segmentations=len(segs))
        return task

    def overlong_task(prefix, over):
        def task(ex):
            L = len(prefix) + 9 + over
            cutsets = [()] + ([(len(prefix),)] if prefix else []) + [(len(prefix) + 5,), (L - 1,)]
            for cuts in cutsets:
                for drain in (True, False):
                    guard.note_progress('overlong')
                    overlong(ex.rep, over, prefix, cuts, drain)
                    ex.count(deliveries=1, overlong_cases=1)
        return task
    tasks = [stream_task(*x) for x in todo]
    for prefix in (b'', b'?echo[5] p\n', b'?echo[5] p\n?echo[6] q\n'):
        for over in (200, 240, 245, 249, 260, 300, 600, 2000):
            tasks.append(overlong_task(prefix, over))
    ex = rig.parallel(rep, tasks)
    rep.sample({'stream': repr(streams[0][0]), 'cuts': [1, 4],
                'expected': repr(expect_server(streams[0][0]))})
    rep.sample({'stream': '3 lines with CR/LF mixes', 'distinct_streams': len(seen)})
    rep.set(states=len(seen), transitions=ex.extra.get('segmentations', 0),
            traces_validated_against_impl=ex.extra.get('deliveries', 0),
            exhaustive=True, overlong_cases=ex.extra.get('overlong_cases', 0),
            rule='states = distinct byte streams; transitions = distinct (stream, segmentation) deliveries; '
                 'every one is executed on the real server and the real client')
    rep.assumptions.append('segmentations: all with at most 1-3 cuts (2-4 thorough) plus byte-by-byte')


def replay(obj, rep):
    if obj['side'] == 'overlong':
        overlong(rep, obj['over'], bytes(bytearray(obj['prefix'])), tuple(obj['cuts']), obj['drain'])
    elif obj['side'] == 'server':
        check_server(rep, ServerRig(), bytes(bytearray(obj['stream'])), tuple(obj['cuts']), obj['drain'])
    else:
        check_client(rep, ClientRig(), bytes(bytearray(obj['stream'])), tuple(obj['cuts']), obj['drain'])
    rep.set(states=1, transitions=1, traces_validated_against_impl=1)
