"""C14: life cycle of the client connection.

A real client on a virtual network: connection attempts are accepted, refused or
left pending, the server closes or resets, the user disconnects, stops and
restarts, time passes, and the event loop may be caught in the middle of its
work.  All sequences of such events up to a depth are executed; the sequence of
notify_connected() calls, the sockets and the state reported by the client are
compared with what is true.
"""
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import client as kc  # noqa
from katcp import Message  # noqa
from katcp.core import KatcpClientDisconnected  # noqa

PORT = 7147
GREET = b'#version-connect katcp-protocol 5.0-MI\n'
DELAY = 0.5


def make(kind, auto, notes, raising):
    base = {'device': kc.DeviceClient, 'async': kc.AsyncClient}[kind]

    class C(base):
        def notify_connected(self, connected):
            notes.append((connected, self.is_connected(), sim.W.now))
            if raising == 'both' or (raising == 'true' and connected):
                raise RuntimeError('user error')
    c = C('127.0.0.1', PORT, auto_reconnect=auto)
    assert c.auto_reconnect_delay == DELAY
    return c


class Run(object):
    def __init__(self, ch, kind, auto, raising, ops, depth, partial, requests):
        sim.reset()
        sim.W.net.manual_connect = True
        self.ch, self.ops, self.depth, self.partial = ch, ops, depth, partial
        self.kind, self.auto, self.raising = kind, auto, raising
        self.loop = sim.VLoop(make_current=True)
        self.notes, self.trace, self.probs, self.states = [], [], [], []
        self.c = make(kind, auto, self.notes, raising)
        self.c.set_ioloop(self.loop)
        self.attempts = []           # every client socket that ever tried to connect
        self.peer = None             # harness end of the current connection
        self.stopped_at = None
        self.give_up_ok = False
        self.waits = []
        self.requests = requests
        self.reqs = []
        self.start()
        self.drain()

    def start(self):
        self.c.start()
        self.stopped_at = None
        self.gave_up = False
        self.first = True
        self.notes_run = len(self.notes)
        self.watch()

    def watch(self):
        net = sim.W.net
        for s in list(net.pending_connects):
            if s not in self.attempts:
                self.attempts.append(s)
                if self.stopped_at is not None and sim.W.now >= self.stopped_at and self.settled:
                    self.bad('a connection attempt was made after stop()')
    settled = False

    def bad(self, p):
        self.probs.append(p)

    def live(self):
        return [s for s in self.attempts if not s.closed and (s.connecting or s.peer is not None)]

    def enabled(self):
        out = []
        pend = sim.W.net.pending_connects
        for o in self.ops:
            if o in ('accept', 'refuse', 'accept-close', 'accept-greet') and not pend:
                continue
            if o in ('close', 'reset', 'data', 'data-close', 'v4') and (
                    self.peer is None or self.peer.sock.closed or self.peer.sock.peer.closed):
                continue
            # started again only once the old run has been torn down completely
            if o == 'start' and (self.stopped_at is None or not self.settled or
                                 self.c.running() or not self.is_stopped()):
                continue
            if o == 'stop' and self.stopped_at is not None:
                continue
            if o == 'request' and not self.c.running():
                continue
            if o == 'disconnect' and self.stopped_at is not None:
                continue
            out.append(o)
        return out

    def is_stopped(self):
        f = self.c.until_stopped()
        return f.done()

    def do(self, o):
        net, c = sim.W.net, self.c
        if isinstance(o, float):
            self.loop.advance(o)
        elif o.startswith('accept'):
            self.peer = sim.Peer.accept_pending(net.pending_connects[0])
            if o == 'accept-greet':
                self.peer.send(GREET)
            if o == 'accept-close':
                self.peer.close()
        elif o == 'refuse':
            sim.refuse_pending(net.pending_connects[0])
        elif o == 'close':
            self.peer.close()
        elif o == 'reset':
            self.peer.reset()
        elif o == 'data':
            self.peer.send(GREET)
        elif o == 'data-close':
            self.peer.send(GREET)
            self.peer.close()
        elif o == 'disconnect':
            c.disconnect()
        elif o == 'stop':
            self.stopped_at = sim.W.now
            c.stop()
        elif o == 'start':
            self.start()
        elif o == 'request':
            f = c.future_request(Message.request('foo'), timeout=0.3)
            self.reqs.append(f)
        elif o == 'until':
            n = len(self.notes) - bool(c.is_connected())
            self.waits.append((c.until_connected(), None, n))
        elif o == 'until-t':
            n = len(self.notes) - bool(c.is_connected())
            self.waits.append((c.until_connected(timeout=0.3), sim.W.now + 0.3, n))

    def check(self, quiet):
        """Invariants; quiet: the loop has nothing left to do now."""
        c, notes = self.c, self.notes
        for i, (flag, isc, _) in enumerate(notes):
            if flag != (i % 2 == 0):
                return self.bad('notify_connected sequence %r' % ([n[0] for n in notes],))
            if isc != flag:
                return self.bad('is_connected() is %r within notify_connected(%r)' % (isc, flag))
        if len(self.live()) > 1:
            return self.bad('%d connections at the same time' % len(self.live()))
        if not quiet:
            return
        last = notes[-1][0] if notes else False
        if c.is_connected() != last:
            return self.bad('is_connected() is %r, last told %r' % (c.is_connected(), last))
        up = [s for s in self.live() if s.peer is not None and not s.connecting]
        really = bool(up) and not up[0].rx_eof and not up[0].err
        if c.is_connected() != really:
            return self.bad('is_connected() is %r, connection is %s' % (
                c.is_connected(), 'up' if really else 'down'))
        if not really:
            try:
                c.send_message(Message.inform('x'))
                self.bad('send_message while not connected raises nothing')
            except KatcpClientDisconnected:
                pass
        for f in self.reqs:
            if f.done():
                f.result()
            elif not really:
                return self.bad('a request is still pending although there is no connection')
        if really and self.raising in ('true', 'both'):
            return self.bad('connected although notify_connected(True) failed')
        for w in list(self.waits):
            f, deadline, n = w
            if not f.done():
                if really:
                    return self.bad('until_connected still pending while connected')
                if deadline is not None and sim.W.now >= deadline + 1e-6:
                    return self.bad('until_connected still pending after its time-out')
                continue
            self.waits.remove(w)
            if f.exception() is None:
                if not any(x[0] for x in notes[n:]) and not really:
                    return self.bad('until_connected resolved though never connected')
            elif not isinstance(f.exception(), kc.tornado.gen.TimeoutError):
                return self.bad('until_connected failed with %r' % (f.exception(),))
            elif deadline is None or sim.W.now < deadline - 1e-6:
                return self.bad('until_connected failed with a time-out')

    def go(self):
        for d in range(self.depth):
            en = self.enabled()
            if not en:
                break
            n = len(en)
            o = en[self.ch.choose(n, 0, 'op')]
            self.trace.append(o)
            self.settled = False
            self.do(o)
            self.watch()
            # how much of the pending work is done before the next event?
            k = self.ch.choose(1 + len(self.partial), [0] + [1] * len(self.partial),
                               'steps') if self.partial else 0
            if k and d + 1 < self.depth:
                k = self.partial[k - 1]
                self.trace.append('(%d steps)' % k)
                for _ in range(k):
                    if not self.loop.step():
                        break
                    self.watch()
                self.check(False)
            else:
                self.drain()
                self.check(True)
                if not self.auto and self.stopped_at is None and self.c.running() and (
                        not self.live() and not sim.W.net.pending_connects and
                        any(n[0] for n in self.notes[self.notes_run:])):
                    self.bad('without auto_reconnect still running after connection loss')
            self.states.append((tuple(n[0] for n in self.notes[-2:]), self.c.is_connected(),
                                self.c.running(), len(self.live()), self.stopped_at is None,
                                len(sim.W.net.pending_connects)))
            if self.probs:
                return
        self.final()

    def drain(self):
        self.loop.drain()
        self.watch()
        self.settled = True

    def final(self):
        c, net = self.c, sim.W.net
        self.drain()
        self.check(True)
        if self.probs:
            return
        if self.stopped_at is not None or not self.auto:
            if self.stopped_at is None:
                if c.is_connected():
                    self.peer.close()
                    self.drain()
                elif net.pending_connects:
                    return
                # failed first attempt or connection lost: must have ended
                if not self.is_stopped():
                    self.bad('without auto_reconnect did not end after failure')
                return
            self.trace.append('final stop check')
            n0 = len(self.attempts)
            # attempts under way are decided by the network: accepted
            for s in list(net.pending_connects):
                self.peer = sim.Peer.accept_pending(s)
                self.drain()
            self.loop.advance(DELAY * 3)
            self.watch()
            if len(self.attempts) != n0:
                self.bad('a connection attempt was made after stop()')
            if self.live():
                self.bad('stopped, but there is still a connection')
            if c.is_connected() or c.running():
                self.bad('stopped, but connected=%r running=%r' % (c.is_connected(), c.running()))
            if self.notes and self.notes[-1][0]:
                self.bad('stopped, but notify_connected(False) was not called')
            if not self.is_stopped():
                self.bad('until_stopped() still pending %r s after stop()' % (DELAY * 3))
            if self.loop.next_deadline() is not None:
                self.bad('a timer is left behind after stop')
            self.check(True)
            return
        # running with auto_reconnect: must come up as soon as the server lets it
        self.trace.append('final liveness')
        if self.raising != 'none' and self.raising != 'false':
            return
        if not c.is_connected():
            if not net.pending_connects:
                self.loop.advance(DELAY * 1.5)
                self.watch()
            if not net.pending_connects:
                return self.bad('no reconnection attempt within %r s' % (DELAY * 1.5))
            if len(net.pending_connects) > 1:
                return self.bad('several reconnection attempts at once')
            self.peer = sim.Peer.accept_pending(net.pending_connects[0])
            self.drain()
            self.check(True)
            if not c.is_connected():
                return self.bad('connection accepted but client not connected')
        # the connection must actually be in use
        self.peer.lines()
        self.peer.send(GREET + b'?help\n')
        self.drain()
        c.send_message(Message.request('ping'))
        self.drain()
        if b'?ping' not in self.peer.lines():
            self.bad('message was not sent on the connection')
        if not c._received_protocol_info.is_set() if False else c.protocol_flags is None:
            self.bad('messages of the server are not read after reconnection')

    def result(self):
        errs = [e for e in sim.W.loop_errors
                if not (e[1] == 'KatcpClientError' and 'Failed to connect' in e[2])]
        if errs and not self.probs:
            self.probs.append('error in event loop: %r' % (errs[0],))
        return {'probs': self.probs, 'outcome': repr((self.notes, len(self.attempts)))[:200],
                'steps': sim.W.steps if hasattr(sim.W, 'steps') else len(self.trace),
                'trace': repr((self.trace, self.notes)), 'states': self.states}


def drive(kind, ops, depth, auto=True, raising='none', partial=(), requests=False):
    def body(ch):
        r = Run(ch, kind, auto, raising, ops, depth, partial, requests)
        r.go()
        return r.result()
    return body


def first(body, i):
    from .c15 import _Forced
    return lambda ch: body(_Forced(ch, i))


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    out = []

    def add(name, bound, *a, **kw):
        for i in range(len(a[1])):
            out.append(('%s/%d' % (name, i), first(drive(*a, **kw), i), bound))
    net = ['accept', 'refuse', 'accept-close', 'close', 'reset']
    P = (0, 1, 2, 3, 5)
    for kind in ('async', 'device'):
        ops = net + ['disconnect', 'stop', 'start', 0.25, 0.5]
        add('%s' % kind, 0, kind, ops, 5 + d)
        add('%s partial' % kind, 2 if not th else 3, kind, net + ['disconnect', 'stop', 0.5], 4 + d,
            partial=P)
        add('%s restart partial' % kind, 2, kind, ['accept', 'stop', 'start', 0.5, 'reset'], 5 + d,
            partial=P)
        for r in ('true', 'both', 'false'):
            add('%s raising %s' % (kind, r), 1, kind, ['accept', 'close', 'disconnect', 'stop', 0.5],
                5 + d, raising=r, partial=(1, 2, 3))
        add('%s no reconnect' % kind, 1, kind, net + ['disconnect', 'stop', 0.5], 4 + d, auto=False,
            partial=P)
        add('%s data' % kind, 1, kind, ['accept', 'accept-greet', 'data', 'data-close', 'reset',
                                        'stop', 0.5], 4 + d, partial=P)
    add('requests', 1, 'async', ['accept', 'close', 'reset', 'disconnect', 'request', 'stop', 0.5],
        5 + d, partial=(1, 2, 3), requests=True)
    add('until', 1, 'async', ['accept', 'close', 'until', 'until-t', 'stop', 0.25, 0.5],
        5 + d, partial=(1, 2))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:50]),
                      batch=1)
    rep.sample({'scenario': 'async', 'events': ['accept', 'reset', 0.5, 'refuse', 'stop']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
