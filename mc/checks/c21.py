"""C21: life cycle of the connections of a server.

A real server on a virtual network and clock; all sequences (up to a depth) of
clients connecting, sending, closing, resetting or not reading, of server-side
disconnection, mass informs, slow handlers, stop, halt and restart, with a bounded
number of points where the next event comes while the event loop still has work.
"""
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, ProtocolFlags, DeviceServer  # noqa
from katcp.core import AsyncReply  # noqa
from katcp.kattypes import request, return_reply, Str  # noqa
import tornado.concurrent  # noqa
import tornado.gen  # noqa

PARSER = katcp.MessageParser()
_F = ProtocolFlags


class Run(object):
    def __init__(self, ch, ops, depth, proto=5, thread_safe=False, partial=(), n=2, slow_connect=None):
        sim.reset()
        self.ch, self.ops, self.depth, self.partial = ch, ops, depth, partial
        self.loop = sim.VLoop(make_current=True)
        self.log, self.trace, self.probs, self.states = [], [], [], []
        self.conns = []             # ClientConnection objects in order of on_client_connect
        self.futs = []
        self.n = n
        self.proto = proto
        run = self

        class S(DeviceServer):
            VERSION_INFO = ('dev', 1, 0)
            BUILD_INFO = ('dev', 1, 0, '')
            PROTOCOL_INFO = _F(proto, 0, set([_F.MULTI_CLIENT] + (
                [_F.MESSAGE_IDS] if proto >= 5 else [])))

            def setup_sensors(self):
                self.add_sensor(Sensor.integer('a', default=0))

            def on_client_connect(self, conn):
                run.conns.append(conn)
                run.log.append(('connect', run.ident(conn)))
                f = DeviceServer.on_client_connect(self, conn)
                if slow_connect == 'raise':
                    raise RuntimeError('cannot take this client')
                if slow_connect:
                    f = tornado.concurrent.Future()
                    run.futs.append(f)
                return f

            def on_client_disconnect(self, conn, msg, valid):
                run.log.append(('disconnect', run.ident(conn), valid))
                return DeviceServer.on_client_disconnect(self, conn, msg, valid)

            def request_quick(self, req, msg):
                """quick"""
                run.log.append(('msg', run.ident(req.client_connection)))
                return req.make_reply('ok')

            def request_slow(self, req, msg):
                """slow"""
                run.log.append(('msg', run.ident(req.client_connection)))
                f = tornado.concurrent.Future()
                run.futs.append(f)

                @tornado.gen.coroutine
                def co():
                    yield f
                    raise tornado.gen.Return(req.make_reply('ok'))
                return co()

            def request_kick(self, req, msg):
                """disconnects the client"""
                run.log.append(('msg', run.ident(req.client_connection)))
                req.client_connection.disconnect('kicked')
                raise AsyncReply()
        self.ts = thread_safe
        self.s = rig.start_async_server(S, self.loop, thread_safe=thread_safe)
        self.port = self.s.bind_address[1]
        self.peers = [None] * n     # dict per client: peer, lines, server-side disconnect asked
        self.gens = []              # all connections ever made
        self.stopped = None
        self.stop_time = None
        self.informs = 0

    def ident(self, conn):
        return [i for i, c in enumerate(self.conns) if c is conn][0]

    def bad(self, p):
        self.probs.append(p)

    def enabled(self):
        out = []
        for o in self.ops:
            what = o[0]
            if what in ('connect', 'send', 'close', 'reset', 'kick', 'stall', 'unstall'):
                g = self.peers[o[1]]
                if what == 'connect':
                    if self.stopped is not None or self.port not in sim.W.net.listeners or (
                            g is not None and not g['gone'] and not g['peer'].eof()):
                        continue
                elif g is None or g['gone'] or g['peer'].eof():
                    continue
                elif what == 'kick' and (self.conn(g) is None or g['kicked'] > 1):
                    continue
                elif what == 'stall' and g['stalled'] or what == 'unstall' and not g['stalled']:
                    continue
            if what == 'stop' and self.stopped is not None:
                continue
            if what == 'start' and (self.stopped is None or not self.stopped.done()):
                continue
            if what == 'resolve' and not any(not f.done() for f in self.futs):
                continue
            if what == 'mass' and self.stopped is not None:
                continue
            out.append(o)
        return out

    def conn(self, g):
        """The server-side connection object of a client, if it was announced."""
        for i, c in enumerate(self.conns):
            if c.address == g['addr'] and g['known'] is None:
                if not any(x['known'] == i for x in self.gens):
                    g['known'] = i
        return None if g['known'] is None else self.conns[g['known']]

    def do(self, o):
        what = o[0]
        if what == 'connect':
            p = sim.Peer.to_listener(self.port)
            g = {'peer': p, 'addr': '%s:%d' % p.sock.getsockname(), 'gone': False, 'kicked': 0,
                 'lines': [], 'stalled': False, 'known': None, 'mass': self.informs,
                 'closed_by': None, 'sent': 0, 'must': [], 'kick_time': None, 'expect': False}
            self.peers[o[1]] = g
            self.gens.append(g)
        elif what in ('send', 'close', 'reset', 'kick', 'stall', 'unstall'):
            g = self.peers[o[1]]
            if what == 'send':
                g['peer'].send(o[2])
                g['sent'] += o[2].count(b'\n')
                if b'?kick' in o[2]:
                    g['kicked'] += 1
                if b'?halt' in o[2]:
                    self.halted = True
                    self.stops += 1
            elif what in ('close', 'reset'):
                getattr(g['peer'], what)()
                g['gone'] = True
                g['closed_by'] = 'client'
            elif what == 'kick':
                g['kicked'] += 1
                if g['kick_time'] is None:
                    g['kick_time'] = sim.W.now
                self.conn(g).disconnect('kicked')
            else:
                g['stalled'] = what == 'stall'
                if what == 'unstall' and g['kick_time'] is not None and not self.stopping() and \
                        sim.W.now < g['kick_time'] + 0.9:
                    g['expect'] = True
                if g['peer'].sock.peer is not None:
                    g['peer'].sock.peer.tx_limit = 0 if g['stalled'] else None
        elif what == 'mass':
            self.informs += 1
            down = set(e[1] for e in self.log if e[0] == 'disconnect')
            for g in self.gens:
                if not g['gone'] and self.conn(g) is not None and g['known'] not in down:
                    g['must'].append(self.informs)
            self.s.mass_inform(Message.inform('news', str(self.informs)))
        elif what == 'resolve':
            [f for f in self.futs if not f.done()][0].set_result(None)
        elif what == 'stop':
            self.stop_time = sim.W.now
            self.stops += 1
            self.stopped = self.s.stop(timeout=None)
        elif what == 'start':
            for g in self.gens:
                g['kicked'] = True
            self.restarted = True
            self.stops = 0
            self.s.start()
            self.stopped = None
            self.halted = False
        elif what == 'time':
            self.loop.advance(o[1])
    halted = restarted = False
    stops = 0

    def collect(self):
        for g in self.gens:
            if not g['gone']:
                g['lines'] += g['peer'].lines()

    def check_log(self):
        seen = {}
        for ev in self.log:
            k = ev[1]
            st = seen.get(k)
            if ev[0] == 'connect':
                if st is not None:
                    return self.bad('on_client_connect called twice')
                seen[k] = 'up'
            elif ev[0] == 'msg':
                if st is None:
                    return self.bad('message handled before on_client_connect')
            else:
                if st is None:
                    return self.bad('on_client_disconnect without on_client_connect')
                if st == 'down':
                    return self.bad('on_client_disconnect called twice for a connection')
                seen[k] = 'down'

    def check_quiet(self):
        """The loop is idle."""
        self.collect()
        down = set(e[1] for e in self.log if e[0] == 'disconnect')
        for g in self.gens:
            c = self.conn(g)
            if c is None:
                if not self.stopping() and not g['kicked']:
                    return self.bad('a connection was not announced to on_client_connect')
                continue
            k = g['known']
            if g['gone'] and k not in down and all(f.done() for f in self.futs):
                return self.bad('a lost connection was not reported to on_client_disconnect')
            if k in down and not g['gone'] and not g['peer'].eof() and not g['stalled']:
                return self.bad('a disconnected client still has its connection')
            if not g['gone'] and g['peer'].eof() and k not in down:
                return self.bad('connection closed without on_client_disconnect')
            ln = g['lines']
            if ln:
                want = [b'#version-connect'] * 3 if self.proto >= 5 else [b'#version ', b'#build-state']
                for w, got in zip(want, ln):
                    if not got.startswith(w):
                        return self.bad('first lines on a connection are %r' % (ln[:3],))
            if not g['gone'] and g['peer'].eof() and not g['stalled'] and \
                    not g.get('was_stalled'):
                if len(ln) < 2 or not ln[-1].startswith(b'#disconnect '):
                    return self.bad('closed by the server, last line is %r' % (ln[-1:],))
            d = [x for x in ln if x.startswith(b'#disconnect')]
            if len(d) > 1 or (d and not (g['kicked'] or self.stopping())):
                return self.bad('disconnect informs %r' % (d,))
            m = [int(x.split()[1]) for x in ln if x.startswith(b'#news')]
            if m != sorted(set(m)) or (m and m[0] <= g['mass']):
                return self.bad('mass informs received %r, connected after %d' % (m, g['mass']))
            if m and m != list(range(m[0], m[-1] + 1)):
                return self.bad('mass informs with gaps: %r' % (m,))
            if not set(g['must']) <= set(m) and not g['gone'] and not g['peer'].eof() and \
                    not g['stalled']:
                return self.bad('mass informs received %r of %r' % (m, g['must']))
            if g['stalled'] and g['kick_time'] is not None and not self.stopping() and \
                    not g['gone'] and g['peer'].eof() and sim.W.now < g['kick_time'] + 0.9:
                return self.bad('disconnected before it had time to read the reason')
            if g['expect'] and g['peer'].eof() and not ln[-1].startswith(b'#disconnect '):
                return self.bad('a client that read again in time was not told of the '
                                'disconnection: %r' % (ln[-1:],))
            n = len([e for e in self.log if e[0] == 'msg' and e[1] == k])
            if n > g['sent']:
                return self.bad('%d messages handled, %d sent' % (n, g['sent']))
        alive = set(g['addr'] for g in self.gens if not g['gone'] and not g['peer'].eof() and
                    not g['stalled'])
        stalled = set(g['addr'] for g in self.gens if g['stalled'])
        if not self.stopping():
            reg = set(c.address for i, c in enumerate(self.conns) if i not in down)
            if all(f.done() for f in self.futs) and (
                    not alive <= reg or not reg <= alive | stalled):
                return self.bad('live connections %r, announced %r' % (alive, reg))
            lst = self.client_list()
            if lst is not None and lst != reg:
                return self.bad('client-list %r, connected %r' % (lst, reg))
    probe = None

    def stopping(self):
        return self.stopped is not None or self.halted

    def client_list(self):
        """Ask through one of the idle clients what the server thinks."""
        if self.proto < 5 and False:
            return None
        for g in self.gens:
            if g['gone'] or g['peer'].eof() or g['stalled'] or g['kicked'] or \
                    any(not f.done() for f in self.futs):
                continue
            g['peer'].send(b'?client-list\n')
            self.loop.drain()
            ln = g['peer'].lines()
            g['lines'] += [x for x in ln if b'client-list' not in x]
            if not ln or not ln[-1].startswith(b'!client-list ok'):
                self.bad('client-list answered %r' % (ln,))
                return None
            out = [x.split()[1].decode() for x in ln if x.startswith(b'#client-list')]
            if len(out) != len(set(out)) or ln[-1] != b'!client-list ok %d' % len(out):
                self.bad('client-list answered %r' % (ln,))
            return set(out)
        return None

    def go(self):
        for d in range(self.depth):
            en = self.enabled()
            if not en:
                break
            o = en[self.ch.choose(len(en), 0, 'op')]
            self.trace.append(o)
            for g in self.gens:
                if g['stalled']:
                    g['was_stalled'] = True
            self.do(o)
            k = self.ch.choose(1 + len(self.partial), [0] + [1] * len(self.partial), 'steps') \
                if self.partial else 0
            if k and d + 1 < self.depth:
                k = self.partial[k - 1]
                self.trace.append('(%d steps)' % k)
                for _ in range(k):
                    if not self.loop.step():
                        break
                self.check_log()
            else:
                self.loop.drain()
                self.check_log()
                self.check_quiet()
            self.states.append((len(self.gens), len(self.log), tuple(e[0] for e in self.log[-2:]),
                                self.stopped is None, self.s.running()))
            if self.probs:
                return
        self.final()

    def final(self):
        self.loop.drain()
        self.check_log()
        self.check_quiet()
        if self.probs:
            return
        # stalled clients are given up after DISCONNECT_TIMEOUT once they are to be closed
        self.loop.advance(1.5)
        down = set(e[1] for e in self.log if e[0] == 'disconnect')
        for g in self.gens:
            if g['kicked'] and self.conn(g) is not None and not g['gone'] and not g['peer'].eof() and \
                    g['known'] in down:
                return self.bad('a client that does not read is not closed after 1.5 s')
        if not self.stopping():
            self.trace.append('final stop')
            self.do(('stop',))
        self.loop.advance(0.01)
        n_stalled = len([g for g in self.gens if not g['gone'] and not g['peer'].eof()])
        if n_stalled:
            self.loop.advance(1.1 * n_stalled)
        for g in self.gens:
            if not g['gone']:
                g['lines'] += g['peer'].lines()
            if not g['gone'] and not g['peer'].eof():
                return self.bad('stopped, but a client is still connected')
        self.check_log()
        down = set(e[1] for e in self.log if e[0] == 'disconnect')
        if len(down) != len(self.conns):
            return self.bad('stopped, %d of %d connections were reported disconnected' % (
                len(down), len(self.conns)))
        if self.s.running():
            return self.bad('stopped, but running() is True')
        if self.stopped is not None and not self.stopped.done():
            return self.bad('stopped, but the future of stop() is pending')
        if self.port in sim.W.net.listeners:
            return self.bad('stopped, but the port is still listened on')
        for f in self.futs:
            if not f.done():
                f.set_result(None)
        self.loop.advance(3)
        if self.loop.next_deadline() is not None:
            return self.bad('stopped, but a timer is left')
        # and it can be started again on the same port
        self.s.start()
        self.loop.drain()
        p = sim.Peer.to_listener(self.port)
        p.send(b'?watchdog\n')
        self.loop.drain()
        for f in self.futs:
            if not f.done():
                f.set_result(None)
        self.loop.drain()
        ln = p.lines()
        if b'!watchdog ok' not in ln and not self.slow:
            return self.bad('after a restart the server answers %r' % (ln,))
    slow = False

    def result(self):
        if sim.W.loop_errors and not self.probs:
            self.probs.append('error in event loop: %r' % (sim.W.loop_errors[0],))
        return {'probs': self.probs, 'outcome': repr(self.log)[:150], 'steps': len(self.trace),
                'trace': repr((self.trace, self.log, [g['lines'][3:] for g in self.gens])),
                'states': self.states}


def drive(ops, depth, **kw):
    def body(ch):
        r = Run(ch, ops, depth, **kw)
        r.slow = kw.get('slow_connect') == 'raise'
        r.go()
        return r.result()
    return body


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    from .c14 import first
    out = []

    def add(name, bound, ops, depth, **kw):
        for i in range(len(ops)):
            out.append(('%s/%d' % (name, i), first(drive(ops, depth, **kw), i), bound))
    P = (0, 1, 2, 3)
    C = [('connect', 0), ('connect', 1)]
    q, sl, kk = b'?quick\n', b'?slow\n', b'?kick\n?quick\n'
    for ts in (False, True):
        t = ':ts' if ts else ''
        add('basic' + t, 0, C + [('close', 0), ('reset', 0), ('kick', 0), ('send', 0, q), ('mass',),
                                 ('stop',), ('close', 1)], 5 + d, thread_safe=ts)
        add('basic partial' + t, 2 if th else 1, C + [('close', 0), ('reset', 0), ('kick', 0), ('mass',),
                                        ('stop',), ('start',)], 5 if not th else 6, thread_safe=ts, partial=P)
        add('slow' + t, 1, [('connect', 0), ('send', 0, sl), ('send', 0, sl + q), ('send', 0, kk),
                            ('close', 0), ('kick', 0), ('resolve',), ('stop',)], 4 + d,
            thread_safe=ts, partial=P, n=1)
        add('stall' + t, 1 if th else 0, C + [('stall', 0), ('unstall', 0), ('kick', 0), ('mass',),
                                ('close', 0), ('stop',), ('time', 0.6)], 6 + d, thread_safe=ts,
            partial=(0, 2) if th else ())
        add('connecting' + t, 1, C + [('resolve',), ('send', 0, q), ('close', 0), ('reset', 0), ('kick', 0), ('stop',)],
            5 + d, thread_safe=ts, partial=(0, 1, 2), slow_connect='future')
        add('halt' + t, 1, C + [('send', 0, b'?halt\n'), ('send', 1, b'?quick\n?halt\n'),
                                ('close', 0), ('mass',)], 4 + d, thread_safe=ts, partial=P)
    add('v4', 0, C + [('close', 0), ('kick', 0), ('mass',), ('stop',)], 5, proto=4)
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:50]),
                      batch=1)
    rep.sample({'scenario': 'basic', 'events': [['connect', 0], ['kick', 0], ['mass']]})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
