"""C04: every request gets exactly one reply, last, with its own name and id.

A real DeviceServer with handlers of every permitted behaviour (returning,
failing, raising, AsyncReply, futures resolved now / later / by another thread,
concurrent replies, malformed return values, unknown requests) is driven through
all interleavings of request arrival, completion of the pending work and
connection loss, in each of the three concurrency configurations.
"""
import itertools

from .. import env, sim, guard, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from concurrent.futures import Future as CFuture  # noqa
from tornado.concurrent import Future as TFuture  # noqa
from tornado import gen  # noqa
from katcp import DeviceServer, Message, Sensor, FailReply, AsyncReply, ProtocolFlags  # noqa
from katcp.kattypes import concurrent_reply, request, return_reply, Str  # noqa

BIN = b'\xff\x00 \n\\\x1b\xc3('


class Rec(object):
    def __init__(self):
        self.pending = []       # [label, thunk] of work to complete later
        self.log = []


# kind -> (expected informs, expected first reply args or predicate)
KINDS = {
    'ok': ([], [b'ok', b'x']),
    'bin': ([[BIN]], [b'ok', BIN]),
    'inf2': ([[b'1'], [b'2']], [b'ok', b'2']),
    'replynow': ([[b'a']], [b'ok', b'now']),
    'replymsg': ([], [b'ok', b'msg']),
    'failreply': ([[b'f']], [b'fail', b'because']),
    'raise': ([], [b'fail', None]),
    'none': ([], [b'fail', None]),
    'wrongname': ([], [b'fail', None]),
    'wrongtype': ([], [b'fail', None]),
    'async': ([[b'w']], [b'ok', b'late']),
    'twice': ([], [b'ok', b'first']),
    'fut-now': ([], [b'ok', b'fut']),
    'fut-later': ([[b'p'], [b'q']], [b'ok', b'fut']),
    'fut-fail': ([], [b'fail', b'futfail']),
    'fut-exc': ([], [b'fail', None]),
    'fut-async': ([[b'i']], [b'ok', b'viareq']),
    'tfut-later': ([], [b'ok', b'tfut']),
    'co': ([[b'c1'], [b'c2']], [b'ok', b'co']),
    'co-fail': ([[b'c1']], [b'fail', b'cofail']),
    'conc': ([[b'k']], [b'ok', b'conc']),
    'conc-fail': ([], [b'fail', b'cf']),
    'conc-exc': ([], [b'fail', None]),
    'dec-conc': ([], [b'ok', b'dc', b'1']),
    'thread': ([[b't']], [b'ok', b'thr']),
    'unknown': ([], [b'invalid', None]),
}
LATER = ['async', 'fut-later', 'fut-fail', 'fut-exc', 'fut-async', 'tfut-later', 'co', 'co-fail',
         'conc', 'conc-fail', 'conc-exc', 'dec-conc', 'twice']
CONCURRENT = set(['async', 'conc', 'conc-fail', 'conc-exc', 'dec-conc', 'thread', 'twice'])
SYNC = [k for k in KINDS if k not in LATER and k != 'thread']


def make_class(rec, proto=5):
    class S(DeviceServer):
        PROTOCOL_INFO = ProtocolFlags(proto, 0, set([ProtocolFlags.MULTI_CLIENT] + (
            [ProtocolFlags.MESSAGE_IDS] if proto == 5 else [])))

        def setup_sensors(self):
            self.add_sensor(Sensor.integer('an.int', 'An int.', 'count', [-5, 5], default=3))
            self.add_sensor(Sensor.string('a.str', 'A str.', '', default=BIN.decode('latin1')))

        def request_ok(self, req, msg):
            """ok"""
            rec.log.append(bytes(msg))
            return req.make_reply('ok', 'x')

        def request_bin(self, req, msg):
            """bin"""
            req.inform(BIN)
            return req.make_reply('ok', BIN)

        def request_inf2(self, req, msg):
            """inf2"""
            req.inform(1)
            req.inform(2)
            return req.make_reply('ok', '2')

        def request_replynow(self, req, msg):
            """replynow"""
            req.inform('a')
            req.reply('ok', 'now')
            for f, a in ((req.reply, ('again',)), (req.inform, ('again',)),
                         (req.reply_with_message, (req.make_reply('ok', 'again'),))):
                try:
                    f(*a)
                except RuntimeError:
                    pass
                else:
                    rec.log.append('no error from %s after the reply' % f.__name__)
            raise AsyncReply

        def request_replymsg(self, req, msg):
            """replymsg"""
            m = req.make_reply('ok', 'msg')
            m.mid = b'12345'
            req.reply_with_message(m)
            raise AsyncReply

        def request_failreply(self, req, msg):
            """failreply"""
            req.inform('f')
            raise FailReply('because')

        def request_raise(self, req, msg):
            """raise"""
            raise ValueError(u'oops \u20ac')

        def request_none(self, req, msg):
            """none"""
            return None

        def request_wrongname(self, req, msg):
            """wrongname"""
            return Message.reply('other', 'ok')

        def request_wrongtype(self, req, msg):
            """wrongtype"""
            return Message.inform(msg.name, 'ok')

        def request_async(self, req, msg):
            """async"""
            def done():
                req.inform('w')
                req.reply('ok', 'late')
            rec.pending.append(('async', done))
            raise AsyncReply

        def request_twice(self, req, msg):
            """twice"""
            def a():
                try:
                    req.reply('ok', 'first')
                except RuntimeError:
                    pass

            rec.pending.append(('twice-a', a))
            rec.pending.append(('twice-b', a))
            raise AsyncReply

        def request_fut_now(self, req, msg):
            """fut-now"""
            f = CFuture()
            f.set_result(req.make_reply('ok', 'fut'))
            return f

        def request_fut_later(self, req, msg):
            """fut-later"""
            f = CFuture()
            req.inform('p')

            def done():
                req.inform('q')
                f.set_result(req.make_reply('ok', 'fut'))
            rec.pending.append(('fut-later', done))
            return f

        def request_tfut_later(self, req, msg):
            """tfut-later"""
            f = TFuture()
            rec.pending.append(('tfut', lambda: f.set_result(req.make_reply('ok', 'tfut'))))
            return f

        def request_fut_fail(self, req, msg):
            """fut-fail"""
            f = CFuture()
            rec.pending.append(('fut-fail', lambda: f.set_exception(FailReply('futfail'))))
            return f

        def request_fut_exc(self, req, msg):
            """fut-exc"""
            f = CFuture()
            rec.pending.append(('fut-exc', lambda: f.set_exception(KeyError('k'))))
            return f

        def request_fut_async(self, req, msg):
            """fut-async"""
            f = CFuture()

            def done():
                req.inform('i')
                req.reply('ok', 'viareq')
                f.set_exception(AsyncReply())
            rec.pending.append(('fut-async', done))
            return f

        @gen.coroutine
        def _co(self, req, fail):
            f = TFuture()
            req.inform('c1')
            rec.pending.append(('co', lambda: f.set_result(None)))
            yield f
            if fail:
                raise FailReply('cofail')
            yield gen.moment
            req.inform('c2')
            raise gen.Return(req.make_reply('ok', 'co'))

        def _loopwise(self, fn):
            if not rec.threaded:
                return fn()
            f = CFuture()
            self.ioloop.add_callback(lambda: gen.chain_future(fn(), f))
            return f

        def request_co(self, req, msg):
            """co"""
            return self._loopwise(lambda: self._co(req, False))

        def request_co_fail(self, req, msg):
            """co-fail"""
            return self._loopwise(lambda: self._co(req, True))

        @concurrent_reply
        def request_conc(self, req, msg):
            """conc"""
            f = CFuture()

            def done():
                req.inform('k')
                f.set_result(req.make_reply('ok', 'conc'))
            rec.pending.append(('conc', done))
            return f

        @concurrent_reply
        def request_conc_fail(self, req, msg):
            """conc-fail"""
            f = CFuture()
            rec.pending.append(('conc-fail', lambda: f.set_exception(FailReply('cf'))))
            return f

        @concurrent_reply
        def request_conc_exc(self, req, msg):
            """conc-exc"""
            f = CFuture()
            rec.pending.append(('conc-exc', lambda: f.set_exception(IOError('x'))))
            return f

        @request(Str())
        @return_reply(Str(), Str())
        @concurrent_reply
        def request_dec_conc(self, req, s):
            """dec-conc"""
            @gen.coroutine
            def co():
                f = TFuture()
                rec.pending.append(('dec-conc', lambda: f.set_result(None)))
                yield f
                raise gen.Return(('ok', 'dc', s))
            return self._loopwise(co)

        def request_thread(self, req, msg):
            """thread"""
            def work():
                req.inform('t')
                req.reply('ok', 'thr')
            sim.VThreadAPI(target=work).start()
            raise AsyncReply
    rec.threaded = False
    return S


def line_of(kind, mid):
    m = b'' if mid is None else b'[%d]' % mid
    args = b' 1' if kind == 'dec-conc' else b''
    return b'?%s%s%s\n' % (kind.encode(), m, args)


PARSER = katcp.MessageParser()


def check_conn(sent, lines, closed):
    """sent: [(kind, mid)], lines: bytes lines received. Returns problems."""
    probs = []
    msgs = []
    for ln in lines:
        try:
            msgs.append(PARSER.parse(ln))
        except Exception as e:
            probs.append('unparsable line %r (%s)' % (ln, e))
    got = {}
    for m in msgs:
        if m.mtype == Message.INFORM and m.name in ('version-connect', 'version', 'build-state',
                                                    'disconnect'):
            continue
        mid = None if m.mid is None else int(m.mid)
        got.setdefault((m.name, mid), []).append(m)
    want = {}
    for kind, mid in sent:
        want.setdefault((kind, mid), []).append(kind)
    for k in got:
        if k not in want:
            probs.append('unsolicited message(s) %r for name/id %r' % (
                [bytes(x) for x in got[k]], k))
    for (kind, mid), ks in want.items():
        ms = got.get((kind, mid), [])
        n = len(ks)
        informs, reply = KINDS[kind]
        reps = [i for i, m in enumerate(ms) if m.mtype == Message.REPLY]
        if len(reps) > n or (len(reps) != n and not closed):
            probs.append('%d replies to %d request(s) %s id %r: %r' % (
                len(reps), n, kind, mid, [bytes(m) for m in ms]))
        for m in ms:
            if m.mtype == Message.REPLY:
                a = m.arguments
                if a[:1] != reply[:1] or len(a) < len(reply) or any(
                        w is not None and w != g for w, g in zip(reply, a)):
                    probs.append('reply to %s is %r' % (kind, bytes(m)))
            elif m.mtype != Message.INFORM:
                probs.append('unexpected message %r' % bytes(m))
        if n == 1 and not closed:
            infs = [m.arguments for m in ms if m.mtype == Message.INFORM]
            if infs != informs:
                probs.append('informs of %s: %r, expected %r' % (kind, infs, informs))
            if reps and reps[0] != len(ms) - 1:
                probs.append('informs after the reply of %s: %r' % (kind, [bytes(m) for m in ms]))
    return probs


def drive_async(conns, proto=5, thread_safe=False, allow_close=False, nodrain=True, ordering=None):
    """Body for the event-loop configurations: conns = list of request lists."""
    def body(ch):
        sim.reset()
        rec = Rec()
        loop = sim.VLoop(make_current=True)
        srv = rig.start_async_server(make_class(rec, proto), loop, thread_safe=thread_safe)
        peers = [rig.connect(srv, loop) for _ in conns]
        todo = [list(c) for c in conns]
        closed = [False] * len(conns)
        trace = []
        n = 0
        states = []
        while True:
            acts = [('send', i) for i, t in enumerate(todo) if t and not closed[i]]
            acts += [('do', x) for x in rec.pending]
            if not acts:
                loop.drain()
                if rec.pending:
                    continue
                break
            a = acts[ch.choose(len(acts), 0, 'act')]
            if a[0] == 'send':
                kind, mid = todo[a[1]].pop(0)
                peers[a[1]].send(line_of(kind, mid))
                trace.append('conn%d: %s' % (a[1], line_of(kind, mid)))
            else:
                rec.pending.remove(a[1])
                trace.append('complete %s' % a[1][0])
                a[1][1]()
            if allow_close and not any(closed):
                c = ch.choose(1 + len(conns), 1, 'close')
                if c:
                    closed[c - 1] = True
                    peers[c - 1].close()
                    trace.append('close conn%d' % (c - 1))
            if not nodrain or ch.choose(2, 1, 'nodrain') == 0:
                loop.drain()
            n += 1
            states.append(tuple(trace))
        loop.drain()
        for i, t in enumerate(conns):
            if not closed[i]:
                peers[i].send(b'?watchdog[77]\n')
        loop.drain()
        probs = []
        out = []
        for i, reqs in enumerate(conns):
            if closed[i]:
                continue
            lines = peers[i].lines()
            if b'!watchdog[77] ok' not in lines:
                probs.append('connection %d no longer served' % i)
            lines = [ln for ln in lines if b'watchdog' not in ln]
            out.append(tuple(lines))
            probs += ['conn %d: %s' % (i, p) for p in check_conn(reqs, lines, False)]
            if ordering:
                probs += ['conn %d: %s' % (i, p) for p in ordering(reqs, lines)]
        probs += [x for x in rec.log if isinstance(x, str)]
        if sim.W.loop_errors:
            probs.append('errors escaped into the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'outcome': tuple(o.split(b'Traceback')[0] for c in out for o in c), 'probs': probs,
                'steps': n, 'trace': ' | '.join(map(str, trace)), 'states': states}
    return body


def drive_threads(conns, handler_thread, proto=5, ordering=None, preempt=True):
    """Body for thread configurations: server's own ioloop thread, maybe handler thread."""
    def body(ch):
        sim.reset()
        rec = Rec()
        sched = sim.Scheduler(ch)
        res = {}

        def main():
            sched.preempt = False
            cls = make_class(rec, proto)
            rec.threaded = handler_thread
            srv = cls('127.0.0.1', 0)
            srv.set_concurrency_options(thread_safe=True, handler_thread=handler_thread)
            srv.start(5)
            peers = [sim.Peer.to_listener(srv.bind_address[1]) for _ in conns]
            sim.vsleep(0.01)
            for p in peers:
                p.lines()
            sched.preempt = True
            left = [0]

            def total():
                return sum(bytes(b''.join(p.sock.rx)).count(b'\n!') + p.buf.count(b'\n!')
                           for p in peers)
            for reqs, p in zip(conns, peers):
                for kind, mid in reqs:
                    p.send(line_of(kind, mid))
            # complete pending work as it appears, from this (foreign) thread
            end = sim.W.now + 20
            want = sum(len(c) for c in conns)
            while sim.W.now < end:
                sim._block(lambda: bool(rec.pending), 5, 'pending')
                if not rec.pending:
                    break
                rec.pending.pop(0)[1]()
            sched.preempt = False
            res['out'] = [p.lines() for p in peers]
            for p in peers:
                p.send(b'?watchdog[77]\n')
            sim.vsleep(1)
            res['wd'] = [p.lines() for p in peers]
            srv.stop()
            srv.join(5)
        sched.run(main)
        probs = []
        if sched.deadlocked:
            probs.append('deadlock: %r' % (sched.deadlocked,))
        for n, e in sched.uncaught:
            if n != 'main':
                probs.append('thread %s died with %r' % (n, e[1]))
        for i, reqs in enumerate(conns):
            lines = res.get('out', [[]] * 9)[i]
            probs += ['conn %d: %s' % (i, p) for p in check_conn(reqs, lines, False)]
            if b'!watchdog[77] ok' not in res.get('wd', [[]] * 9)[i]:
                probs.append('connection %d no longer served' % i)
            if ordering:
                probs += ['conn %d: %s' % (i, p) for p in ordering(reqs, lines)]
        probs += [x for x in rec.log if isinstance(x, str)]
        return {'outcome': tuple(ln.split(b'Traceback')[0] for c in res.get('out', []) for ln in c),
                'probs': probs, 'steps': sched.npoints}
    return body


def drive_many(n, handler_thread, per=2):
    """Many clients have requests waiting for the handler thread at the same time."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        res = {}

        class S(DeviceServer):
            PROTOCOL_INFO = ProtocolFlags(5, 0, set([ProtocolFlags.MULTI_CLIENT,
                                                     ProtocolFlags.MESSAGE_IDS]))

            def setup_sensors(self):
                pass

            def request_hold(self, req, msg):
                """Takes a while."""
                sim.vsleep(0.01)
                return req.make_reply('ok', *msg.arguments)

        def main():
            sched.preempt = False
            srv = S('127.0.0.1', 0)
            srv.set_concurrency_options(thread_safe=True, handler_thread=handler_thread)
            srv.start(5)
            peers = [sim.Peer.to_listener(srv.bind_address[1]) for _ in range(n)]
            sim.vsleep(0.5)
            for i, p in enumerate(peers):
                p.lines()
                p.send(b''.join(b'?hold[%d] %d\n' % (k + 1, i) for k in range(per)))
            sim.vsleep(n * per * 0.01 + 5)
            res['out'] = [p.lines() for p in peers]
            srv.stop()
            srv.join(5)
        sched.run(main)
        probs = []
        full = 0
        if sched.deadlocked or sched.uncaught:
            probs.append('deadlock %r or uncaught %r' % (sched.deadlocked, sched.uncaught))
        for i, lines in enumerate(res.get('out', ())):
            for k in range(per):
                mine = [ln for ln in lines if ln.startswith(b'!hold[%d] ' % (k + 1))]
                if len(mine) != 1:
                    probs.append('request %d of client %d of %d got %d replies' % (k + 1, i, n, len(mine)))
                elif mine[0] != b'!hold[%d] ok %d' % (k + 1, i):
                    full += 1
                    if n <= 64 or not mine[0].startswith(b'!hold[%d] fail ' % (k + 1)):
                        probs.append('client %d of %d got %r' % (i, n, mine[0]))
            if len(lines) != per:
                probs.append('client %d of %d got %r' % (i, n, lines[:4]))
        return {'probs': probs[:3], 'outcome': (n, full), 'steps': n * per,
                'trace': '%d clients, handler thread: %r' % (n, handler_thread)}
    return body


def builtins(rep, proto, shard):
    """Every built-in request with every argument list of a small alphabet."""
    sim.reset()
    rec = Rec()
    loop = sim.VLoop(make_current=True)
    cls = make_class(rec, proto)
    srv = rig.start_async_server(cls, loop)
    p = rig.connect(srv, loop)
    alpha = [b'', b'an.int', b'nope', b'/an/', b'/(/', b'\xff\xfe', b'1', b'-1', b'event', b'period',
             b'x,y', b'an.int,a.str', b'none', b'differential', b'\xe2\x82\xac', b'off', b'0.5']
    names = [n for n in sorted(cls._request_handlers) if n not in ('halt', 'restart') and (
        n in dir(DeviceServer) or n.replace('-', '_') in
        [x[len('request_'):] for x in dir(DeviceServer) if x.startswith('request_')])]
    n = 0
    for name in names[shard::3]:
        for k in range(0, 4):
            if k == 3 and name != 'sensor-sampling':
                continue
            for args in itertools.product(alpha, repeat=k):
                if k == 3 and args[0] not in (b'an.int', b'an.int,a.str'):
                    continue
                guard.note_progress('builtin')
                sim.W.steps = 0
                mid = (n % 7) or None
                m = Message.request(name, *args, mid=mid)
                p.send(bytes(m) + b'\n')
                loop.drain()
                n += 1
                lines = [PARSER.parse(x) for x in p.lines()]
                lines = [x for x in lines if x.name != 'sensor-status']
                b = bytes(m)
                reps = [x for x in lines if x.mtype == Message.REPLY]
                bad = None
                wmid = None if mid is None else b'%d' % mid
                if len(reps) != 1 or lines[-1].mtype != Message.REPLY:
                    bad = 'got %r' % [bytes(x) for x in lines]
                elif any(x.name != name or x.mid != wmid for x in lines):
                    bad = 'wrong name or id in %r' % [bytes(x) for x in lines]
                elif reps[0].arguments[:1] not in ([b'ok'], [b'fail'], [b'invalid']):
                    bad = 'reply %r' % bytes(reps[0])
                if bad:
                    rep.violation('builtin:%s:%r' % (name, args), 'request %r: %s' % (b, bad),
                                  {'scenario': 'builtin', 'proto': proto, 'shard': shard})
                    p.close()
                    p = rig.connect(srv, loop)
    return n


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    mids = [None, 5, 6, 7]
    allk = [k for k in KINDS if k != 'thread']
    for k in allk:
        for proto in (5, 4):
            out.append(('single:%s:v%d' % (k, proto), drive_async([[(k, 3 if proto == 5 else None)]],
                                                                  proto, allow_close=True), 2))
    for a, b in itertools.product(allk, repeat=2):
        if a in SYNC and b in SYNC and not thorough:
            continue
        out.append(('pair:%s,%s' % (a, b), drive_async([[(a, 5), (b, 6)]]), 2 if thorough else 1))
        out.append(('two-conn:%s,%s' % (a, b), drive_async([[(a, 5)], [(b, 5)]], thread_safe=True,
                                                           allow_close=True), 2 if thorough else 1))
    trip = ['ok', 'inf2', 'fut-later', 'co-fail', 'conc', 'async', 'raise']
    for t in itertools.product(trip, repeat=3):
        if thorough or len(set(t)) == 3:
            out.append(('triple:%s,%s,%s' % t, drive_async([[(k, 5 + i) for i, k in enumerate(t)]],
                                                           nodrain=thorough), 1))
    for h in (False, True):
        for n in (2, 3, 7, 40, 64, 299, 301, 320):
            out.append(('many%d:%d' % (h, n), drive_many(n, h), 0))
        for k in KINDS:
            out.append(('thread%d:%s' % (h, k), drive_threads([[(k, 4), ('inf2', None)]], h),
                        2 if thorough else 1))
        for a, b in [('thread', 'thread'), ('thread', 'fut-later'), ('conc', 'async'),
                     ('inf2', 'bin'), ('co', 'fut-now')]:
            out.append(('thread%d-two:%s,%s' % (h, a, b), drive_threads([[(a, 4)], [(b, 4)]], h),
                        2 if thorough else 1))
    return out


def run(tier, rep):
    tasks = [lambda ex, p=p, k=k: ex.count(builtin_requests=builtins(ex.rep, p, k))
             for p in (5, 4) for k in range(3)]
    tasks += rig.scenario_tasks(scenarios(tier), key=lambda p: 'reply-contract')
    ex = rig.parallel(rep, tasks)
    rep.sample({'scenario': 'pair:fut-later,conc', 'events': ['send 1', 'send 2', 'complete conc',
                                                              'complete fut-later']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    if obj['scenario'] == 'builtin':
        builtins(rep, obj['proto'], obj['shard'])
    for name, body, bound in scenarios('thorough'):
        if name == obj['scenario']:
            r = explore.replay(body, obj['choices'])
            for p in r['probs']:
                rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
    rep.set(states=1, transitions=1, traces_validated_against_impl=1)
