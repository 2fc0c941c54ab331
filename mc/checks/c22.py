"""C22: the requests that describe a server tell the truth.

?help, ?sensor-list, ?sensor-value, ?client-list, ?version-list and
?request-timeout-hint are asked after every step of all bounded histories of
registering and removing sensors, setting values and clients coming and going;
for all bounded combinations of handler classes, decorators and protocol
versions; and while other threads change what is being described (all schedules
with a bounded number of pre-emptions).
"""
import itertools
import re
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, ProtocolFlags, DeviceServer, AsyncReply  # noqa
from katcp.kattypes import (request, return_reply, Int, Str, minimum_katcp_version,  # noqa
                            has_katcp_protocol_flags, request_timeout_hint)

PARSER = katcp.MessageParser()
PF = ProtocolFlags
V = {
    '4': PF(4, 0, set([PF.MULTI_CLIENT])),
    '5.0': PF(5, 0, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS])),
    '5.1': PF(5, 1, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS, PF.REQUEST_TIMEOUT_HINTS,
                         PF.BULK_SET_SENSOR_SAMPLING])),
    '4.2': PF(4, 2, set([PF.MULTI_CLIENT])),
    '5.1-': PF(5, 1, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS])),
}

# name -> (constructor, description, units, type, parameters on the wire)
SENSORS = {
    'a': (lambda: Sensor.integer('a', 'An int', 'm', [-3, 7]), b'An int', b'm', b'integer', [b'-3', b'7']),
    'a.b': (lambda: Sensor.float('a.b', 'A float', '', [0.5, 2.5]), b'A float', b'', b'float',
            [b'0.5', b'2.5']),
    'a-B': (lambda: Sensor.boolean('a-B', 'yes or no', ''), b'yes or no', b'', b'boolean', []),
    'disc': (lambda: Sensor.discrete('disc', 'one of', 'x y', ['on', 'off', 'a b']), b'one of', b'x y',
             b'discrete', [b'on', b'off', b'a b']),
    'str': (lambda: Sensor.string('str', '', 'u'), b'', b'u', b'string', []),
    'ts': (lambda: Sensor.timestamp('ts', 'when\nand why'), b'when\nand why', b'', b'timestamp', []),
    'addr': (lambda: Sensor.address('addr', 'where'), b'where', b'', b'address', []),
    'lru': (lambda: Sensor.lru('lru', 'old'), b'old', b'', b'lru', []),
    'bare': (lambda: Sensor.integer('bare', 'no range'), b'no range', b'', b'integer', []),
}
# readings: (time, status, value) and how the status / value look on the wire (v4, v5)
READINGS = {
    'a': [(2, 7, (b'7', b'7')), (1, -3, (b'-3', b'-3'))],
    'a.b': [(1, 0.5, (b'0.5', b'0.5')), (3, 2.25, (b'2.25', b'2.25'))],
    'a-B': [(1, True, (b'1', b'1')), (4, False, (b'0', b'0'))],
    'disc': [(1, 'a b', (b'a b', b'a b')), (6, 'off', (b'off', b'off'))],
    'str': [(1, 'x y\n', (b'x y\n', b'x y\n')), (5, '', (b'', b''))],
    'ts': [(1, 1.5, (b'1500', b'1.500000')), (2, 1234567.001, (b'1234567001', b'1234567.001000'))],
    'addr': [(1, ('1.2.3.4', 80), (b'1.2.3.4:80', b'1.2.3.4:80')),
             (1, ('::1', None), (b'[::1]', b'[::1]'))],
    'lru': [(1, Sensor.LRU_NOMINAL, (b'nominal', b'nominal')), (3, Sensor.LRU_ERROR, (b'error', b'error'))],
    'bare': [(1, 10 ** 12, (b'1000000000000', b'1000000000000')), (0, 0, (b'0', b'0'))],
}
STAT = {0: b'unknown', 1: b'nominal', 2: b'warn', 3: b'error', 4: b'failure', 5: b'unreachable',
        6: b'inactive'}
TIMES = [1001.001, 4000000000.25, 0.0]


def wire_time(t, v4):
    return b'%d' % round(t * 1000) if v4 else ('%.6f' % t).encode()


FILTERS = [None, 'a', 'a.b', 'a.', 'zz', '', '/a/', '/^a$/', r'/\./', '/B|o/', '/zz/', '//', '/a', 'a/', '/./',
           '/[/']


def match(f, name):
    """None: unknown name is an error."""
    if f is None:
        return True
    if len(f) > 1 and f[0] == f[-1] == '/':
        return bool(re.search(f[1:-1], name))
    return f == name


def ask(loop, p, req, *args, **kw):
    """Returns (reply arguments, list of inform arguments) after checking the format."""
    mid = kw.get('mid')
    m = Message.request(req, *args, **({'mid': mid} if mid else {}))
    p.send(bytes(m) + b'\n')
    loop.drain()
    ms = [PARSER.parse(x) for x in p.lines()]
    rep = [x for x in ms if x.mtype == Message.REPLY]
    if len(rep) != 1 or ms[-1] is not rep[0] or rep[0].name != req or (rep[0].mid or None) != (
            mid and mid.encode()):
        raise Bad('?%s %r answered with %r' % (req, args, [bytes(x) for x in ms]))
    inf = []
    for x in ms[:-1]:
        if x.name != req or (x.mid or None) != (mid and mid.encode()):
            raise Bad('?%s %r: unrelated %r' % (req, args, bytes(x)))
        inf.append(x.arguments)
    a = rep[0].arguments
    if a[0] == b'ok' and (len(a) < 2 or a[1] != b'%d' % len(inf)) and req not in (
            'watchdog', 'halt', 'log-level', 'sensor-sampling', 'sensor-sampling-clear', 'foo', 'bar'):
        raise Bad('?%s %r: %r after %d informs' % (req, args, a, len(inf)))
    return a, inf


class Bad(Exception):
    pass


# -- histories --------------------------------------------------------------------

def history(version, names, ops, depth, thread_safe):
    v4 = version == '4'

    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs, trace, states = [], [], []

        class D(DeviceServer):
            PROTOCOL_INFO = V[version]
            VERSION_INFO = ('dev', 1, 2)
            BUILD_INFO = ('bld', 3, 4, 'rc5')

            def setup_sensors(self):
                pass
        srv = rig.start_async_server(D, loop, thread_safe)
        reg = {}            # name -> (sensor, (time, status, wire value))
        extra = {}
        p = rig.connect(srv, loop)
        others = []

        def check():
            mid = None if v4 else '7'
            for f in FILTERS:
                args = () if f is None else (f,)
                try:
                    match(f, '')
                    want = sorted(n for n in reg if match(f, n))
                    err = f is not None and not (len(f) > 1 and f[0] == f[-1] == '/') and not want
                except re.error:
                    want, err = [], True
                a, inf = ask(loop, p, 'sensor-list', *args, mid=mid)
                if (a[0] == b'fail') != err or (not err and a[0] != b'ok'):
                    raise Bad('?sensor-list %r: %r' % (f, a))
                exp = [[n.encode()] + list(SENSORS[n][1:4]) + SENSORS[n][4] for n in want]
                if [x for x in inf] != exp:
                    raise Bad('?sensor-list %r informs %r, expected %r' % (f, inf, exp))
                a, inf = ask(loop, p, 'sensor-value', *args, mid=mid)
                if (a[0] == b'fail') != err or (not err and a[0] != b'ok'):
                    raise Bad('?sensor-value %r: %r' % (f, a))
                exp = [[wire_time(reg[n][1][0], v4), b'1', n.encode(), STAT[reg[n][1][1]],
                        reg[n][1][2][not v4]] for n in want]
                if inf != exp:
                    raise Bad('?sensor-value %r informs %r, expected %r' % (f, inf, exp))
            a, inf = ask(loop, p, 'client-list', mid=mid)
            got = sorted(x[0] for x in inf)
            exp = sorted(('%s:%d' % q.sock.getsockname()[:2]).encode() for q in [p] + others)
            if got != exp or a[0] != b'ok':
                raise Bad('?client-list %r, expected %r' % (got, exp))
            if v4:
                return
            a, inf = ask(loop, p, 'version-list', mid=mid)
            lib = katcp.__version__.encode()
            exp = [[b'katcp-protocol', str(V[version]).encode()],
                   [b'katcp-library', b'katcp-python-' + lib, lib],
                   [b'katcp-device', b'dev-1.2', b'bld-3.4rc5']]
            exp += [[k.encode()] + [x.encode() for x in extra[k] if x is not None] for k in sorted(extra)]
            if inf != exp:
                raise Bad('?version-list %r, expected %r' % (inf, exp))
            q = rig.connect(srv, loop, greet=False)
            loop.drain()
            greet = [PARSER.parse(x) for x in q.lines()]
            if [m.arguments for m in greet] != [exp[0], exp[1][:2], exp[2]] or set(
                    m.name for m in greet) != set(['version-connect']):
                raise Bad('connection informs %r do not agree with ?version-list' % (
                    [bytes(m) for m in greet],))
            q.close()
            loop.drain()

        def enabled(o):
            if o[0] == 'remove' or o[0] == 'set':
                return o[1] in reg
            if o[0] == 'disconnect':
                return bool(others)
            return True
        try:
            for _ in range(depth):
                en = [o for o in ops if enabled(o)]
                o = en[ch.choose(len(en), 0, 'op')]
                trace.append(o)
                k = o[0]
                if k == 'add':
                    s = SENSORS[o[1]][0]()
                    s.set(77.5, *READINGS[o[1]][0][:2])
                    reg[o[1]] = (s, (77.5, READINGS[o[1]][0][0], READINGS[o[1]][0][2]))
                    srv.add_sensor(s)
                elif k == 'remove':
                    s = reg.pop(o[1])[0]
                    srv.remove_sensor(s if o[2] else o[1])
                elif k == 'set':
                    r = READINGS[o[1]][o[2]]
                    t = TIMES[(o[2] + len(trace)) % len(TIMES)]
                    reg[o[1]][0].set(t, r[0], r[1])
                    reg[o[1]] = (reg[o[1]][0], (t, r[0], r[2]))
                elif k == 'connect':
                    others.append(rig.connect(srv, loop))
                elif k == 'disconnect':
                    others.pop(o[1] if len(others) > 1 else 0).close()
                    loop.drain()
                elif k == 'version':
                    extra[o[1]] = o[2]
                    srv.extra_versions[o[1]] = o[2]
                if (sorted(reg) != sorted(s.name for s in srv.get_sensors()) or
                        not all(srv.has_sensor(n) and srv.get_sensor(n) is reg[n][0] for n in reg)):
                    raise Bad('get_sensors() differs from the sensors registered')
                check()
                states.append((tuple(sorted((n, r[1][0]) for n, r in reg.items())), len(others)))
        except Bad as e:
            probs.append(str(e))
        if sim.W.loop_errors and not probs:
            probs.append('error in event loop: %r' % (sim.W.loop_errors[0],))
        return {'probs': probs, 'outcome': repr(states[-1:]), 'steps': len(trace) * 35,
                'trace': repr(trace), 'states': states}
    return body


# -- handler classes ----------------------------------------------------------------

def plain(tag):
    def request_foo(self, req, msg):
        return req.make_reply('ok', tag)
    request_foo.__doc__ = 'Foo %s.\n\n    More.\n    ' % tag
    return request_foo


def typed(tag, outer=None, inner=None):
    def request_foo(self, req):
        return ('ok', tag)
    request_foo.__doc__ = ' Foo %s.' % tag
    h = request_foo
    if inner:
        h = inner(h)
    h = request()(return_reply(Str())(h))
    if outer:
        h = outer(h)
    return h


HINTS = has_katcp_protocol_flags([PF.REQUEST_TIMEOUT_HINTS])
BOTH = has_katcp_protocol_flags([PF.REQUEST_TIMEOUT_HINTS, PF.MESSAGE_IDS])
# (make handler, condition(protocol), timeout hint)
HANDLERS = {
    'none': (lambda t: None, lambda v: False, 0),
    'absent': None,
    'plain': (lambda t: plain(t), lambda v: True, 0),
    'typed': (lambda t: typed(t), lambda v: True, 0),
    'v5 in': (lambda t: typed(t, inner=minimum_katcp_version(5)), lambda v: v[0] == '5', 0),
    'v5 out': (lambda t: typed(t, outer=minimum_katcp_version(5, 0)), lambda v: v[0] == '5', 0),
    'v5.1': (lambda t: minimum_katcp_version(5, 1)(plain(t)), lambda v: v[:3] == '5.1', 0),
    'v4.1': (lambda t: minimum_katcp_version(4, 1)(plain(t)), lambda v: v != '4', 0),
    'v4': (lambda t: minimum_katcp_version(4)(plain(t)), lambda v: True, 0),
    'flag': (lambda t: HINTS(plain(t)), lambda v: v == '5.1', 0),
    'flags': (lambda t: typed(t, inner=BOTH), lambda v: v == '5.1', 0),
    'both': (lambda t: typed(t, inner=HINTS, outer=minimum_katcp_version(5, 1)), lambda v: v == '5.1', 0),
    'hint': (lambda t: request_timeout_hint(12.5)(plain(t)), lambda v: True, 12.5),
    'hint in': (lambda t: typed(t, inner=request_timeout_hint(0.25)), lambda v: True, 0.25),
    'hint none': (lambda t: typed(t, outer=request_timeout_hint(None)), lambda v: True, 0),
}
ALWAYS = {'halt', 'help', 'log-level', 'restart', 'client-list', 'sensor-list', 'sensor-value',
          'sensor-sampling', 'sensor-sampling-clear', 'watchdog'}


def classes(version, sub_version, kinds, shape):
    """Base class / mixin / subclass each with its own request_foo (and bar in the mixin)."""
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs = []
        ks = [kinds[ch.choose(len(kinds), 0, 'handler')]
              if i != 1 or shape != 'no mixin' else 'absent' for i in range(3)]
        hs = [HANDLERS[k] for k in ks]

        def ns(i, **kw):
            if hs[i] is not None:
                kw['request_foo'] = hs[i][0]('h%d' % i)
            return kw

        def setup(self):
            pass

        def request_bar(self, req, msg):
            """Bar."""
            return req.make_reply('ok', 'bar')
        B = type(DeviceServer)('B', (DeviceServer,), ns(0, PROTOCOL_INFO=V[version], setup_sensors=setup))
        M = type('M', (object,), ns(1, request_bar=request_bar))
        bases = {'mixin first': (M, B), 'mixin last': (B, M), 'no mixin': (B,)}[shape]
        C = type(DeviceServer)('C', bases, ns(2, PROTOCOL_INFO=V[sub_version]))
        order = {'mixin first': [2, 1, 0], 'mixin last': [2, 0, 1], 'no mixin': [2, 0]}[shape]
        try:
            for cls, ver, order_, bar in ((C, sub_version, order, shape != 'no mixin'),
                                          (B, version, [0], False)):
                srv = rig.start_async_server(cls, loop)
                p = rig.connect(srv, loop)
                want = set(ALWAYS)
                if ver[0] != '4':
                    want.add('version-list')
                if ver == '5.1':
                    want.add('request-timeout-hint')
                if bar:
                    want.add('bar')
                foo = None
                for i in order_:
                    if hs[i] is not None:
                        if hs[i][1](ver):
                            foo = i
                        break
                if foo is not None:
                    want.add('foo')
                a, inf = ask(loop, p, 'help')
                got = [x[0].decode() for x in inf]
                if len(set(got)) != len(got) or set(got) != want:
                    raise Bad('?help lists %r, expected %r' % (sorted(got), sorted(want)))
                docs = dict((x[0].decode(), x[1].strip()) for x in inf)
                if foo is not None and b'Foo h%d.' % foo not in docs['foo'] or not all(docs.values()):
                    raise Bad('?help describes foo as %r' % (docs.get('foo'),))
                for r in sorted(want | set(['foo', 'bar', 'version-list', 'request-timeout-hint'])):
                    a, inf = ask(loop, p, 'help', r)
                    if r not in want:
                        if a[0] != b'fail':
                            raise Bad('?help %s of an unknown request: %r' % (r, a))
                    elif a != [b'ok', b'1'] or inf[0][0].decode() != r or inf[0][1].strip() != docs[r]:
                        raise Bad('?help %s: %r %r' % (r, a, inf))
                    if r in ('halt', 'restart', 'sensor-sampling'):
                        continue
                    a, inf = ask(loop, p, r)
                    if (a[0] == b'invalid') != (r not in want):
                        raise Bad('?%s: %r, but help lists %r' % (r, a, r in want))
                    if r == 'foo' and foo is not None and a != [b'ok', b'h%d' % foo]:
                        raise Bad('?foo: %r' % (a,))
                if ver == '5.1':
                    hint = hs[foo][2] if foo is not None else 0
                    a, inf = ask(loop, p, 'request-timeout-hint')
                    hints = dict((x[0].decode(), float(x[1])) for x in inf)
                    if hints != ({'foo': hint} if hint else {}):
                        raise Bad('?request-timeout-hint: %r' % (inf,))
                    for r in ('foo', 'help'):
                        a, inf = ask(loop, p, 'request-timeout-hint', r)
                        if r not in want:
                            if a[0] != b'fail':
                                raise Bad('?request-timeout-hint %s: %r' % (r, a))
                        elif [(x[0].decode(), float(x[1])) for x in inf] != [
                                (r, hint if r == 'foo' else 0)]:
                            raise Bad('?request-timeout-hint %s: %r' % (r, inf))
                srv.stop()
                loop.drain()
        except Bad as e:
            probs.append(str(e))
        return {'probs': probs, 'outcome': repr((ks, shape)), 'steps': 30, 'trace': repr(ks),
                'states': [(tuple(ks), version, sub_version, shape)]}
    return body


# -- threads ----------------------------------------------------------------------------

def threads(conc, req, event):
    """What is described changes while the request is being answered."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        probs, seen = [], []

        def main():
            sched.preempt = False

            class D(DeviceServer):
                PROTOCOL_INFO = V['5.1']

                def setup_sensors(self):
                    for n in ('a', 'a.b', 'disc'):
                        self.add_sensor(SENSORS[n][0]())
            srv = D('127.0.0.1', 0)
            srv.set_concurrency_options(*conc)
            srv.start(5)
            port = srv.bind_address[1]
            p = sim.Peer.to_listener(port)
            p2 = sim.Peer.to_listener(port)
            p3 = sim.Peer.to_listener(port)
            sim.vsleep(0.01)
            p.lines()
            addr = lambda q: '%s:%d' % q.sock.getsockname()[:2]     # noqa
            if req == 'client-list':
                stay, may = set([addr(p), addr(p2)]), set([addr(p3)])
            else:
                stay, may = set(['a', 'disc']), set(['a.b', 'bare', 'str'])
            sched.preempt = True
            p.send(b'?%s[3]\n' % req.encode())

            def change():
                if event == 'connect':
                    q = sim.Peer.to_listener(port)
                    may.add(addr(q))
                    q.send(b'?watchdog\n')
                elif event == 'disconnect':
                    p3.close()
                elif event == 'reset':
                    p3.reset()
                elif event == 'add':
                    srv.add_sensor(SENSORS['bare'][0]())
                    srv.add_sensor(SENSORS['str'][0]())
                elif event == 'remove':
                    srv.remove_sensor('a.b')
                elif event == 'replace':
                    srv.remove_sensor('a.b')
                    srv.add_sensor(SENSORS['a.b'][0]())
            t = sim.VThreadAPI(target=change, name='user')
            t.start()
            t.join(5)
            sim._block(lambda: b'!' in bytes(b''.join(p.sock.rx)), 1, 'reply')
            sched.preempt = False
            sim.vsleep(0.1)
            ms = [PARSER.parse(x) for x in p.lines()]
            inf = [m for m in ms if m.mtype == Message.INFORM and m.name == req]
            rep = [m for m in ms if m.mtype == Message.REPLY]
            col = 2 if req == 'sensor-value' else 0
            names = [m.arguments[col].decode() for m in inf]
            seen.append(tuple(names))
            if len(rep) != 1 or rep[0].arguments != [b'ok', b'%d' % len(inf)]:
                probs.append('reply to ?%s: %r after %d informs' % (
                    req, [bytes(m) for m in rep], len(inf)))
            elif len(set(names)) != len(names):
                probs.append('duplicates: %r' % (names,))
            elif not stay <= set(names) or not set(names) <= stay | may:
                probs.append('?%s lists %r; always there: %r, possible: %r' % (
                    req, names, sorted(stay), sorted(may)))
            srv.stop()
            srv.join(5)
        sched.run(main)
        for n, e in sched.uncaught:
            probs.append('thread %s died with %r' % (n, e[1]))
        if sched.deadlocked:
            probs.append('deadlock %r' % (sched.deadlocked,))
        return {'probs': probs, 'outcome': repr(seen), 'steps': sched.npoints, 'trace': repr(seen)}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    out = []
    from .c15 import _Forced

    def add(name, bound, body, n):
        for i in range(n):
            out.append(('%s/%d' % (name, i), (lambda b, i: lambda ch: b(_Forced(ch, i)))(body, i), bound))
    for v in ('4', '5.0', '5.1'):
        for ts in (False, True):
            names = ('a', 'a.b', 'a-B', 'disc', 'str')
            ops = [('add', n) for n in names] + [('remove', 'a', 0), ('remove', 'a.b', 1),
                                                 ('set', 'a', 1), ('set', 'disc', 1)]
            add('history %s %d' % (v, ts), 0, history(v, names, ops, 3 + d, ts), 5)
            names = ('ts', 'addr', 'lru', 'bare', 'str')
            ops = [('add', n) for n in names] + [('set', n, 1) for n in names] + [('remove', 'bare', 1)]
            add('history 2 %s %d' % (v, ts), 0, history(v, names, ops, 3 + d, ts), 5)
            ops = [('connect',), ('disconnect', 0), ('disconnect', 1), ('version', 'x', ('1', None)),
                   ('version', 'a', ('2', 'b')), ('version', 'x', ('3', '')), ('add', 'a')]
            add('clients %s %d' % (v, ts), 0, history(v, (), ops, 4 + d, ts), 5)
    kinds = sorted(HANDLERS)
    few = ['absent', 'none', 'plain', 'v5 in', 'both', 'hint']
    pairs = list(itertools.product(('4', '5.0', '5.1', '5.1-'), repeat=2)) + \
        [('4.2', '5.0'), ('5.0', '4.2'), ('4.2', '4'), ('4', '4.2')]
    for v, sv in pairs:
        for shape in ('mixin first', 'mixin last', 'no mixin'):
            ks = kinds if th or ((v, sv) in (('4', '5.1'), ('5.1', '5.0')) and shape != 'mixin last') else few
            if not th and '4.2' in (v, sv):
                ks = ['absent', 'none', 'plain', 'v4.1']
            body = classes(v, sv, ks, shape)
            add('classes %s %s %s' % (v, sv, shape), 0, body, len(ks))
    for conc in ((True, True), (True, False)):
        for ev in ('connect', 'disconnect', 'reset'):
            out.append(('threads %r client-list %s' % (conc, ev), threads(conc, 'client-list', ev),
                        2 if th else 1))
        for req in ('sensor-list', 'sensor-value'):
            for ev in ('add', 'remove', 'replace'):
                out.append(('threads %r %s %s' % (conc, req, ev), threads(conc, req, ev), 2 if th else 1))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'history 5.0 0', 'operations': ['add a', 'set a', 'remove a'],
                'asked after each': '?sensor-list / ?sensor-value with %d filters' % len(FILTERS)})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
