"""C24: what a monitoring client shows converges to what the device has.

The real DeviceServer and the real KATCPClientResource, with nothing scripted in
between, on one simulated network.  All histories, up to a depth, of sensor
updates (in the event loop or from another thread), sensors coming, going and being
replaced, connections cut, the server stopped and started, strategies, waits and
requests on the client, with a bounded number of operations that start before the
previous one has been digested.  Judged are the calls of listeners and the outcome
of waits and requests on the way, and the complete picture of the device after
every history.
"""
import errno
import random

from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig, explore  # noqa
import katcp  # noqa
from katcp import Message, Sensor, DeviceServer, ProtocolFlags  # noqa
from katcp.resource_client import KATCPClientResource  # noqa
from tornado import gen  # noqa

PORT = 4444
PF = ProtocolFlags
PROTO = {
    '4': PF(4, 0, set([PF.MULTI_CLIENT])),
    '5': PF(5, 0, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS])),
    '51': PF(5, 1, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS, PF.REQUEST_TIMEOUT_HINTS,
                        PF.BULK_SET_SENSOR_SAMPLING])),
}
ST = {'n': Sensor.NOMINAL, 'w': Sensor.WARN, 'e': Sensor.ERROR, 'u': Sensor.UNKNOWN}


class Obs(Sensor):
    """Knows its observers, through the public interface."""

    def attach(self, o):
        self.seen = getattr(self, 'seen', [])
        self.seen.append(o)
        Sensor.attach(self, o)

    def detach(self, o):
        if o in getattr(self, 'seen', []):
            self.seen.remove(o)
        Sensor.detach(self, o)


# name -> (type, description, units, parameters, first value) in two versions
SENSORS = {
    'a.x': [(Sensor.INTEGER, 'An int', 'count', [-9999, 9999], 0),
            (Sensor.INTEGER, 'Another int', '', [0, 10], 0)],
    'b-y': [(Sensor.STRING, 'A \\ str\n', '', None, 'x y'),
            (Sensor.DISCRETE, 'Now discrete', '', ['', 'two words'], '')],
}


def esc(name):
    return name.replace('.', '_').replace('-', '_')


def make_sensor(name, version):
    t, d, u, p, v = SENSORS[name][version]
    s = Obs(t, name, d, u, p, default=v, initial_status=Sensor.NOMINAL)
    s.set(sim.W.now, Sensor.NOMINAL, v)
    return s


def make_class(proto):
    class S(DeviceServer):
        VERSION_INFO = ('dev', 1, 0)
        BUILD_INFO = ('dev', 1, 0, '')
        PROTOCOL_INFO = PROTO[proto]

        def setup_sensors(self):
            pass

        def request_echo(self, req, msg):
            """Echo."""
            req.inform('first')
            return req.make_reply('ok', *msg.arguments)

        def request_slow(self, req, msg):
            """Takes 1 s."""
            @gen.coroutine
            def go():
                yield gen.sleep(1)
                raise gen.Return(req.make_reply('ok', *msg.arguments))
            return go()
    return S


def cut():
    """The network breaks all connections."""
    for s in list(sim.W.socks.values()):
        if s.connected and not s.closed and not s.listening:
            s.err = errno.ECONNRESET
            s.rx_eof = True
            s.rx.clear()


class Sys(object):
    def __init__(self, proto, sensors, strategies, listen, thread_safe=False):
        sim.reset()
        random.seed(0)
        self.loop = loop = sim.VLoop(make_current=True)
        self.proto = proto
        self.probs, self.trace = [], []
        self.sensors = {}
        self.log = {}               # name -> readings the sensor has had
        self.known = {}             # name -> version
        self.srv = make_class(proto)('127.0.0.1', PORT)
        self.srv.set_concurrency_options(thread_safe=thread_safe, handler_thread=False)
        self.srv.set_ioloop(loop)
        self.up = False
        self.count = 0
        self._disturbed = True      # something is going on besides updates
        self.heard = {}
        self.waits = []
        self.asked = []
        self.excused = set()        # requests that may fail
        self.want = {}
        self.old = []
        for n in sensors:
            self.add(n, 0)
        self.start()
        self.res = KATCPClientResource(dict(name='dev', address=('127.0.0.1', PORT), controlled=True))
        self.res.set_ioloop(loop)
        self.res.start()
        for n in listen:
            self.listen(n)
        for n, s in strategies.items():
            self.strategy(n, s)
        self.settle()

    @property
    def disturbed(self):
        return self._disturbed

    @disturbed.setter
    def disturbed(self, on):
        self._disturbed = on
        if on:
            self.excused.update(id(a[2]) for a in self.asked)

    # -- the device
    def add(self, name, version):
        s = self.sensors[name] = make_sensor(name, version)
        self.known[name] = version
        self.log.setdefault(name, []).append(tuple(s.read()))
        self.srv.add_sensor(s)

    def start(self):
        self.srv.start()
        self.up = True

    def changed(self):
        if self.up:
            self.srv.mass_inform(Message.inform('interface-changed'))

    # -- the client
    def proxy(self, name):
        return dict.get(self.res.sensor, esc(name))

    def listen(self, name):
        got = self.heard.setdefault(name, [])

        def fn(sensor, reading):
            if sensor.name != name:
                self.probs.append('a listener for %s is called for %s' % (name, sensor.name))
            got.append((reading.timestamp, reading.status, reading.value))
        self.res.set_sensor_listener(name, fn)

    def strategy(self, name, s):
        self.want[name] = s
        self.asked.append((sim.W.now, None, self.res.set_sampling_strategy(name, s)))

    def settle(self):
        self.loop.drain()
        for _ in range(40):
            if self.res.synced and not sim.W.net.pending_connects and not self.busy():
                break
            self.loop.advance(1.0)
        self.loop.advance(0.01)
        self.disturbed = False

    def busy(self):
        return [a for a in self.asked if not a[2].done()]

    def reading(self, r):
        """As it looks to the client."""
        return (r[0], Sensor.STATUSES[r[1]], r[2])

    def apply(self, o):
        k = o[0]
        if k == 'set':
            s = self.sensors.get(o[1])
            if s is None:
                return
            v = o[2][1]
            if SENSORS[o[1]][self.known[o[1]]][0] == Sensor.DISCRETE:
                v = ['', 'two words'][len(v) % 2]
            self.count += 1
            r = (round(sim.W.now * 8 + self.count) / 8.0, ST[o[2][0]], v)
            self.log[o[1]].append(r)
            if o[3]:
                sim.W.ident = 4711
            try:
                s.set(*r)
            finally:
                sim.W.ident = None
        elif k == 'add':
            if o[1] not in self.sensors:
                self.disturbed = True
                self.add(o[1], o[2])
                self.changed()
        elif k in ('remove', 'replace'):
            if o[1] in self.sensors:
                self.disturbed = True
                self.srv.remove_sensor(o[1])
                self.old.append(self.sensors.pop(o[1]))
                v = self.known.pop(o[1])
                if k == 'replace':
                    self.add(o[1], 1 - v)
                self.changed()
        elif k == 'cut':
            self.disturbed = True
            cut()
        elif k == 'stop':
            if self.up:
                self.disturbed = True
                self.up = False
                self.srv.stop()
        elif k == 'start':
            if not self.up:
                self.disturbed = True
                self.loop.drain()
                self.start()
        elif k == 'strategy':
            if self.proxy(o[1]) is not None:
                self.disturbed = True
                self.strategy(o[1], o[2])
        elif k == 'ask':
            name, args = o[1], o[2]
            r = dict.get(self.res.req, name)
            if r is not None:
                f = r(*args)
                self.asked.append((sim.W.now, (name, args), f))
                if self.disturbed:
                    self.excused.add(id(f))
        elif k == 'wait':
            p = self.proxy(o[1])
            if p is not None:
                self.waits.append((sim.W.now, o[2], o[1], len(self.log[o[1]]), p.wait(o[2], timeout=o[3]), o[3]))
        elif k == 'time':
            self.loop.advance(o[1])

    def check(self, digested):
        res = self.res
        if (res.state == 'synced') != res.synced or res.is_connected() == (res.state == 'disconnected'):
            self.probs.append('state %r, synced %r' % (res.state, res.synced))
        for n, got in self.heard.items():
            ok = [self.reading(r) for r in self.log.get(n, ())]
            pos = -1
            for g in got:
                if g not in ok:
                    self.probs.append('%s: the listener heard %r, which never was' % (n, g))
                    break
                p = ok.index(g)
                if p < pos:
                    self.probs.append('%s: the listener heard %r out of order: %r' % (n, g, got[-4:]))
                    break
                pos = p
        for t0, args, f in self.asked:
            if f.done() and args is not None:
                try:
                    r = f.result()
                except Exception as e:
                    self.probs.append('a request raised %r' % (e,))
                    continue
                if r.succeeded and (tuple(x.decode() for x in r.reply.arguments[1:]) != tuple(args[1])):
                    self.probs.append('%r was answered %r' % (args, r))
                if not r.succeeded and id(f) not in self.excused:
                    self.probs.append('%r failed without reason: %r' % (args, r))
                if r.succeeded and args[0] == 'echo' and [m.arguments for m in r.informs] != [[b'first']]:
                    self.probs.append('%r got the informs %r' % (args, r.informs))
        self.asked = [a for a in self.asked if not a[2].done()]
        keep = []
        for w in self.waits:
            t0, value, n, pos, f, to = w
            if not f.done():
                if sim.W.now > t0 + to + 1e-6:
                    self.probs.append('a wait goes on after its time-out')
                keep.append(w)
                continue
            had = [r[2] for r in self.log[n][:]]
            try:
                ok = f.result()
            except Exception as e:
                ok = False
                if sim.W.now < t0 + to - 1e-6:
                    self.probs.append('a wait ended early with %r' % (e,))
            if ok and value not in had:
                self.probs.append('waiting for %r succeeded, values were %r' % (value, had))
        self.waits = keep
        if digested and not self.disturbed and res.synced:
            self.same('at rest')

    def same(self, when):
        res = self.res
        names = dict((esc(n), n) for n in self.sensors)
        if set(res.sensor) != set(names):
            self.probs.append('%s: the client has the sensors %r, the device %r' % (
                when, sorted(res.sensor), sorted(names)))
            return
        for n, s in self.sensors.items():
            p = self.proxy(n)
            t, d, u, par, v = SENSORS[n][self.known[n]]
            if (p.name, p.description, p.units, p.type) != (n, d, u, s.type):
                self.probs.append('%s: sensor %s is described as %r' % (
                    when, n, (p.name, p.description, p.units, p.type)))
            w = self.want.get(n, 'none')
            if ' '.join(str(x) for x in p.sampling_strategy) != w:
                self.probs.append('%s: %s is sampled with %r, should be %r' % (
                    when, n, p.sampling_strategy, w))
            if w in ('event', 'auto'):
                r = p.reading
                have = (r.timestamp, r.status, r.value)
                cur = self.reading(s.read())
                if w == 'event':
                    # an update that changes nothing but the time is no event
                    if have[1:] != cur[1:]:
                        self.probs.append('%s: %s shows %r, the device has %r' % (when, n, have, cur))
                elif have != cur:
                    self.probs.append('%s: %s shows %r, the device has %r' % (when, n, have, cur))
                if n in self.heard and (self.heard[n][-1:] != [have]):
                    self.probs.append('%s: the listener of %s last heard %r, the sensor shows %r' % (
                        when, n, self.heard[n][-1:], have))
            obs = len(getattr(s, 'seen', []))
            if obs != int(w in ('event', 'auto', 'event-rate 1 3')):
                self.probs.append('%s: %s has %d observers at the device (strategy %s)' % (when, n, obs, w))
        want = set(['halt', 'help', 'log_level', 'restart', 'client_list', 'sensor_list', 'sensor_value',
                    'sensor_sampling', 'sensor_sampling_clear', 'watchdog', 'echo', 'slow'])
        if self.proto != '4':
            want.add('version_list')
        if self.proto == '51':
            want.add('request_timeout_hint')
        if set(res.req) != want:
            self.probs.append('%s: the client has the requests %r' % (when, sorted(res.req)))

    def finish(self):
        self.loop.drain()
        if not self.up:
            self.start()
        self.loop.drain()
        for _ in range(60):
            self.loop.advance(1.0)
            if self.res.synced and not self.busy() and not self.waits:
                break
        if not self.res.synced:
            self.probs.append('the client never gets synced: %s' % self.res.state)
        self.loop.advance(12.0)
        self.disturbed = False
        if self.busy():
            self.probs.append('requests never end')
        self.check(False)
        if self.waits:
            self.probs.append('waits never end')
        if not self.probs:
            self.same('finally')
        # and now it still works
        if not self.probs:
            for n in sorted(self.sensors):
                self.apply(('set', n, ('w', 7 if n == 'a.x' else 'last'), 0))
            self.loop.drain()
            self.check(True)
        if sim.W.loop_errors:
            self.probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        if not self.probs:
            self.res.stop()
            self.loop.drain()
            self.loop.advance(10)
            for s in list(self.sensors.values()) + self.old:
                if getattr(s, 'seen', []):
                    self.probs.append('the client has left, but %s is still observed' % s.name)


def drive(proto, ops, depth, sensors=('a.x',), strategies=None, listen=('a.x',), thread_safe=False, first=None,
          bites=(1, 3, 6, 12)):
    strategies = {'a.x': 'event'} if strategies is None else strategies

    def body(ch):
        s = Sys(proto, sensors, strategies, listen, thread_safe)
        s.check(True)
        states = []
        for i in range(depth):
            if s.probs:
                break
            o = ops[first if i == 0 and first is not None else ch.choose(len(ops), 0, 'op')]
            s.trace.append(o)
            n = len(s.heard.get('a.x', ()))
            calm = not s.disturbed
            s.apply(o)
            k = ch.choose(1 + len(bites), 1, 'partial')
            if k:
                s.trace.append('(%d steps)' % bites[k - 1])
                for _ in range(bites[k - 1]):
                    s.loop.step()
                s.disturbed = True
                s.check(False)
                continue
            if s.disturbed and s.up:
                s.settle()
                if not s.res.synced:
                    s.probs.append('not synced after the event: %s' % s.res.state)
            else:
                s.loop.drain()
            if calm and o[0] == 'set' and o[1] == 'a.x' and s.up and s.want.get("a.x") == "auto" and \
                    'a.x' in s.heard and 'a.x' in s.sensors and len(s.heard['a.x']) != n + 1:
                s.probs.append('an update of a.x was heard %d times' % (len(s.heard['a.x']) - n))
            s.check(s.up)
            states.append((s.res.state, tuple(sorted(s.known.items())), s.up, tuple(sorted(s.want.items())),
                           tuple((n, tuple(x.read())[1:]) for n, x in sorted(s.sensors.items())),
                           tuple(sorted((n, tuple(x.reading)[-2:]) for n, x in s.res.sensor.items())),
                           len(s.busy()), len(s.waits), len(s.res.req)))
        if not s.probs:
            s.finish()
        return {'probs': s.probs[:4], 'trace': ' | '.join(str(x) for x in s.trace), 'steps': len(s.trace),
                'states': states, 'outcome': (tuple(states[-1:]), tuple(len(x) for x in s.heard.values()))}
    return body


# -- every type of sensor ---------------------------------------------------------

TYPES = {
    'integer': (Sensor.INTEGER, [None, [-5, 5], [1, 10 ** 12]], [0, 3, -3, 10 ** 12, -10 ** 20]),
    'float': (Sensor.FLOAT, [None, [-1.5, 1e9]], [0.0, -0.25, 1e-300, 1e300, float('inf'), 0.1, 123456.789]),
    'boolean': (Sensor.BOOLEAN, [None], [True, False]),
    'lru': (Sensor.LRU, [None], [Sensor.LRU_NOMINAL, Sensor.LRU_ERROR]),
    'discrete': (Sensor.DISCRETE, [['', 'a', 'A b', '\u20ac\\_']], ['', 'a', 'A b', '\u20ac\\_']),
    'string': (Sensor.STRING, [None], ['', ' ', 'a b', '\u20ac', '\\_\n\r\t\0\x1b', 'x' * 3000]),
    'timestamp': (Sensor.TIMESTAMP, [None], [0.0, 1.5, 1234567890.125]),
    'address': (Sensor.ADDRESS, [None], [('1.2.3.4', None), ('host', 80), ('::1', 5000), ('::', None), ('', 0)]),
}


def types(proto, kind):
    """A sensor of every type, parameters and value arrives unchanged at the client."""
    def body(ch):
        stype, params, values = TYPES[kind]
        par = params[ch.choose(len(params), 0, 'params')]
        how = ('event', 'poll')[ch.choose(2, 0, 'how')]
        sim.reset()
        random.seed(0)
        loop = sim.VLoop(make_current=True)
        srv = make_class(proto)('127.0.0.1', PORT)
        srv.set_concurrency_options(thread_safe=False, handler_thread=False)
        srv.set_ioloop(loop)
        units = '' if kind == 'timestamp' else 'm s\\'
        s = Sensor(stype, 'x', 'Some \\ \n text', units, par)
        srv.add_sensor(s)
        srv.start()
        res = KATCPClientResource(dict(name='dev', address=('127.0.0.1', PORT), controlled=True))
        res.set_ioloop(loop)
        res.start()
        loop.advance(5)
        probs = []
        if not res.synced:
            return {'probs': ['not synced'], 'steps': 0, 'outcome': None}
        p = res.sensor.x
        want_units = units if kind != 'timestamp' else p.units
        if (p.name, p.description, p.units, p.type) != ('x', s.description, want_units, kind):
            probs.append('described as %r' % ((p.name, p.description, p.units, p.type),))
        if how == 'event':
            res.set_sampling_strategy('x', 'event')
            loop.drain()
        n = 0
        for v in values:
            for st in sorted(Sensor.STATUSES):
                n += 1
                s.set(sim.W.now + n * 0.125, st, v)
                if how == 'poll':
                    f = p.get_reading()
                loop.drain()
                if how == 'poll' and not f.done():
                    probs.append('no answer to a poll')
                    break
                r = f.result() if how == 'poll' else p.reading
                want = (sim.W.now + n * 0.125, Sensor.STATUSES[st], v)
                got = (r.timestamp, r.status, r.value)
                if n == 1 and how == 'event' and st == Sensor.UNKNOWN:
                    got, want = got[1:], want[1:]       # no event when only the time is new
                if got != want or type(got[-1]) is not type(v):
                    probs.append('%s: the device has %r, the client shows %r' % (how, want, got))
                if probs:
                    break
            if probs:
                break
        if sim.W.loop_errors:
            probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'probs': probs[:3], 'steps': n, 'outcome': (kind, par and tuple(par), how, n),
                'trace': '%s %r %s' % (kind, par, how)}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    out = []

    def add(name, bound, ops, *a, **kw):
        for i in range(len(ops)):
            out.append(('%s/%d' % (name, i), drive(*a[:1], ops=ops, first=i, *a[1:], **kw), bound))
    vals = [('set', 'a.x', ('n', 1), 0), ('set', 'a.x', ('w', 1), 1)]
    net = [('cut',), ('stop',), ('start',), ('time', 0.3)]
    iface = [('add', 'b-y', 0), ('remove', 'b-y'), ('replace', 'a.x'), ('remove', 'a.x'), ('add', 'a.x', 0)]
    ask = [('ask', 'echo', ('u', 'a b')), ('ask', 'slow', ('z',)), ('wait', 'a.x', 1, 5.0)]
    for proto in ('5', '4', '51'):
        few = {'bites': (1, 3, 8) if th else (2, 7) if proto == '5' else (3,)}
        for st in ('event', 'auto'):
            add('net v%s %s' % (proto, st), 1, vals + net, proto, depth=3 + d, strategies={'a.x': st}, **few)
        add('interface v%s' % proto, 1, vals[:1] + iface + [('cut',)], proto, depth=3 + d, **few)
        add('ask v%s' % proto, 1, vals + ask + [('cut',), ('time', 2.5)], proto, depth=3 + d, **few)
        add('strategies v%s' % proto, 1, vals + [('strategy', 'a.x', 'none'), ('strategy', 'a.x', 'auto'),
                                                 ('strategy', 'a.x', 'event'), ('cut',),
                                                 ('strategy', 'a.x', 'period 1.0')], proto, depth=3 + d, **few)
    add('net long', 1, vals + net, '5', depth=4 + d, bites=(3,))
    add('two sensors', 1, [('set', 'a.x', ('n', 1), 0), ('set', 'b-y', ('e', '\u20ac \\'), 0),
                           ('set', 'b-y', ('n', ''), 1), ('replace', 'b-y'), ('cut',), ('remove', 'b-y'),
                           ('add', 'b-y', 1)], '5', depth=3 + d, sensors=('a.x', 'b-y'),
        strategies={'a.x': 'event', 'b-y': 'event'}, listen=('a.x', 'b-y'), bites=(1, 3, 8))
    add('not there yet', 1, [('add', 'b-y', 0), ('set', 'b-y', ('n', 'q'), 0), ('remove', 'b-y'), ('cut',),
                             ('replace', 'b-y')], '5', depth=4 + d, strategies={'a.x': 'event', 'b-y': 'auto'},
        listen=('b-y',), bites=(3,))
    add('queued', 1, vals + [('cut',), ('replace', 'a.x'), ('stop',), ('start',)], '5', depth=3 + d,
        thread_safe=True, bites=(1, 3, 8))
    for proto in ('5', '4', '51'):
        for kind in sorted(TYPES):
            out.append(('types v%s %s' % (proto, kind), types(proto, kind), 0))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(' (')[0][:60]), batch=1)
    rep.sample({'scenario': 'net', 'operations': ['set a.x 1', 'stop', 'set a.x 1 warn', 'start']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
