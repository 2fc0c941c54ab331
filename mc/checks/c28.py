"""C28: fake clients behave like real clients of a server with the same sensors and requests.

Every handler style x argument list x message-id mode is run through a fake client
and through the real client connected to a real server with the same handlers, and
the answers are compared. All bounded histories of adding and redefining sensors
and handlers, starting, stopping, requests and lookups on fake inspecting clients,
resources and containers are compared with what was configured.
"""
import itertools
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from tornado import gen  # noqa
from katcp import DeviceServer, FailReply, ProtocolFlags, Sensor, fake_clients  # noqa
from katcp.inspecting_client import InspectingClientAsync  # noqa
from katcp.kattypes import Bool, Float, Int, Str, request, return_reply  # noqa
from katcp.resource_client import KATCPClientResource, KATCPClientResourceContainer  # noqa


class Handlers(object):
    """Request handlers in all styles; used by the real server and the fake."""

    def request_echo(self, req, msg):
        """Echo."""
        return req.make_reply('ok', *msg.arguments)

    def request_refuse(self, req, msg):
        """Refuse."""
        req.inform('about', 'to fail')
        return req.make_reply('fail', 'because of it')

    def request_raise_fail(self, req, msg):
        """FailReply."""
        req.inform('x')
        raise FailReply('no way')

    def request_raise(self, req, msg):
        """Raise."""
        raise RuntimeError('oops')

    def request_mixed(self, req, msg):
        """All types of values."""
        req.inform(1, 'two words', b'\xff', 2.5)
        req.inform()
        return req.make_reply('ok', 1, 'two words', b'\xff', '')

    @request(Int(min=0), Str(default='z'))
    @return_reply(Int(), Str())
    def request_typed(self, req, a, s):
        """Types."""
        req.inform(a, s)
        if a == 7:
            return ('fail', 'seven')
        return ('ok', a + 1, s)

    @request(Float(), Bool(optional=True), include_msg=True)
    @return_reply(Float(), Bool())
    def request_with_msg(self, req, msg, f, b):
        """Types and message."""
        return ('ok', f / 2, b is None)

    @return_reply(Int())
    def request_half(self, req, msg):
        """Only typed reply."""
        return ('ok', 'not an int')

    @request(Int())
    @return_reply(Int())
    @gen.coroutine
    def request_slow(self, req, a):
        """Coroutine."""
        req.inform('one')
        yield gen.sleep(1)
        req.inform('two')
        if a == 7:
            raise FailReply('late no')
        if a == 8:
            raise RuntimeError('late oops')
        raise gen.Return(('ok', a))


NAMES = ['echo', 'refuse', 'raise-fail', 'raise', 'mixed', 'typed', 'with-msg', 'half', 'slow']
ARGS = [()] + [(a,) for a in (1, 7, 8, -1, 2.5, 'x', b'3', '', 'a b')] + [
    (1, 'w'), (1, 0), (1, ''), (1, 'a b', 3), ('é', 'ü')]
MIDS = [{}, {'mid': '77'}, {'use_mid': False}, {'use_mid': True}]


def server_class(sensors=()):
    d = {'VERSION_INFO': ('dev', 1, 0), 'BUILD_INFO': ('dev', 1, 0, ''),
         'PROTOCOL_INFO': ProtocolFlags(5, 0, set([ProtocolFlags.MULTI_CLIENT,
                                                   ProtocolFlags.MESSAGE_IDS])),
         'setup_sensors': lambda self: [self.add_sensor(s) for s in sensors] and None}
    d.update((k, v) for k, v in Handlers.__dict__.items() if k.startswith('request_'))
    return type(DeviceServer)('Srv', (DeviceServer,), d)


def ask(loop, c, name, args, kw, via):
    """The outcome of a request as something that can be compared."""
    try:
        if via == 'resource':
            f = getattr(c.req, name.replace('-', '_'))(*args, timeout=5, **kw)
        else:
            f = c.simple_request(name, *args, timeout=5, **kw)
    except Exception as e:
        return ('raised', type(e).__name__)
    loop.advance(2.)
    if not f.done():
        return ('pending',)
    if f.exception():
        return ('raised', type(f.exception()).__name__)
    r = f.result()
    if via == 'resource':
        ok = bool(r)
        reply, informs = r.reply, r.informs
        if ok != reply.reply_ok() or r.succeeded != ok:
            return ('wrong success', ok)
    else:
        reply, informs = r
    rargs = list(reply.arguments)
    if rargs[0] != b'ok' and b'Traceback' in rargs[1]:
        rargs[1:] = [b'Traceback', [x for x in (b'oops', b'late') if x in rargs[1]]]
    return (reply.mtype, reply.name, reply.mid, rargs,
            [(i.mtype, i.name, i.mid, i.arguments) for i in informs])


def requests_body(name):
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        via = ('inspecting', 'resource')[ch.choose(2, 0, 'via')]
        srv = rig.start_async_server(server_class(), loop)
        probs, states = [], []
        if via == 'inspecting':
            real = InspectingClientAsync('127.0.0.1', srv.bind_address[1], ioloop=loop)
            fake, man = fake_clients.fake_inspecting_client_factory(
                InspectingClientAsync, {}, 'host', 1, ioloop=loop)
            real.connect()
            fake.connect()
        else:
            spec = dict(name='dev', address=('127.0.0.1', srv.bind_address[1]), controlled=True)
            real = KATCPClientResource(dict(spec))
            fake, man = fake_clients.fake_KATCP_client_resource_factory(
                KATCPClientResource, {}, dict(spec, address=('host', 1)))
            for c in (real, fake):
                c.set_ioloop(loop)
                c.start()
        loop.drain()
        man.add_request_handlers_object(Handlers())
        loop.advance(3.)
        a1 = ARGS[ch.choose(len(ARGS), 0, 'args')]
        k1 = MIDS[ch.choose(len(MIDS), 0, 'mid')]
        todo = [(name, a1, k1), ('echo', (5,), {})]
        for n, a, k in todo:
            r = ask(loop, real, n, a, k, via)
            f = ask(loop, fake, n, a, k, via)
            states.append(repr(r))
            if 'mid' not in k:
                # Both count their message ids, but not from the same number
                for o in (r, f):
                    if len(o) == 5 and any(i[2] != o[2] for i in o[4]):
                        probs.append('an inform has another message id than the reply: %r' % (o,))
                had = [o[2] is not None for o in (r, f) if len(o) == 5]
                r, f = [(o[:2] + (None,) + (o[3], [i[:2] + i[3:] for i in o[4]])
                         if len(o) == 5 else o) for o in (r, f)]
                if len(had) == 2 and had[0] != had[1]:
                    probs.append('?%s %r %r: message id with real client %r, with fake %r' % (
                        n, a, k, had[0], had[1]))
            if r != f:
                probs.append('?%s %r %r: real client gets %r, fake one %r' % (n, a, k, r, f))
        if sim.W.loop_errors:
            probs.append('error in the loop: %r' % (sim.W.loop_errors[:1],))
        return dict(probs=probs, trace='?%s %r %r via %s' % (name, a1, k1, via), states=states)
    return body


# type: parameters of the real sensor, parameters of the fake one in several notations
TYPES = [('integer', None, [()]), ('integer', [-3, 10], [(-3, 10), ('-3', '10'), (b'-3', b'10')]),
         ('float', None, [()]), ('float', [-0.5, 2.0], [(-0.5, 2.0), ('-0.5', '2.0'), (b'-0.5', b'2.0')]),
         ('boolean', None, [()]), ('string', None, [()]), ('timestamp', None, [()]),
         ('address', None, [()]), ('lru', None, [()]),
         ('discrete', ['one', 'two words'], [('one', 'two words'), (b'one', b'two words')])]
DESCS = [('A thing', 'm/s'), ('', ''), ('Ünits', 'Å')]


def view(loop, c, name):
    f = c.future_get_sensor(name)
    loop.advance(2.)
    if not f.done():
        return 'pending'
    s = f.result()
    return s and (s.name, s.description, s.units, s.type, s.params)


def sensors_body(ti):
    stype, params, notations = TYPES[ti]

    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        desc, units = DESCS[ch.choose(len(DESCS), 0, 'description')]
        fp = notations[ch.choose(len(notations), 0, 'notation')]
        asbytes = ch.choose(2, 0, 'bytes')
        early = ch.choose(2, 0, 'before connecting')
        rs = Sensor(Sensor.parse_type(stype), 'a.sens', desc,
                    '' if stype == 'timestamp' else units, params)
        units = rs.units
        srv = rig.start_async_server(server_class([rs]), loop)
        real = InspectingClientAsync('127.0.0.1', srv.bind_address[1], ioloop=loop)
        fake, man = fake_clients.fake_inspecting_client_factory(
            InspectingClientAsync, {}, 'host', 1, ioloop=loop)
        probs = []
        info = (desc, units, stype) + tuple(fp)
        if asbytes:
            info = tuple(x.encode('utf-8') if isinstance(x, str) and x != stype else x for x in info)
        try:
            if early:
                man.add_sensors({'a.sens': info})
            real.connect()
            fake.connect()
            loop.drain()
            if not early:
                man.add_sensors({'a.sens': info})
        except Exception as e:
            probs.append('add_sensors(%r) raised %r' % (info, e))
        loop.advance(5.)
        for n in ('a.sens', 'other'):
            for _ in range(2):
                r, f = view(loop, real, n), view(loop, fake, n)
                if r != f:
                    probs.append('sensor %s: real %r, fake %r' % (n, r, f))
        for req, args in (('sensor-list', ()), ('sensor-list', ('a.sens',)), ('sensor-list', ('zz',)),
                          ('help', ('sensor-list',)), ('help', ('zz',))):
            r, f = [ask(loop, c, req, args, {}, 'inspecting') for c in (real, fake)]
            r, f = [o[3:4] + ([i[3] for i in o[4]],) if len(o) == 5 else o for o in (r, f)]
            if req == 'help':
                r, f = r[0], f[0]
                if r[0] == f[0] == b'fail':
                    continue
            if r != f and not (r[0][0] == f[0][0] == b'fail'):
                probs.append('?%s %r: real %r, fake %r' % (req, args, r, f))
        if sorted(fake.sensors) != ['a.sens'] or sorted(real.sensors) != ['a.sens']:
            probs.append('sensors %r and %r' % (sorted(real.sensors), sorted(fake.sensors)))
        if sim.W.loop_errors:
            probs.append('error in the loop: %r' % (sim.W.loop_errors[:1],))
        return dict(probs=probs, trace='%r %s' % (info, 'early' if early else ''),
                    states=[repr((stype, desc, fp))])
    return body


S_OLD, S_NEW = ('old', 'm', 'integer', 0, 9), ('new', 's', 'float')


def handler(tag):
    def h(req, msg):
        req.inform(tag)
        return req.make_reply('ok', tag, *msg.arguments)
    h.__doc__ = 'Handler %s.' % tag
    return h


OPS = [('sensor', 'a.b', S_OLD), ('sensor', 'a.b', S_NEW), ('sensor', 'c', S_OLD),
       ('handler', 'do', 'h1'), ('handler', 'do', 'h2'), ('handler', 'go-on', 'h3'),
       ('advance', 0.0), ('ask', 'do'), ('bad sensor',), ('undocumented',)]


def history_body(kind, depth, first):
    """Histories of a fake client; `kind` is the class it belongs to."""
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs, trace = [], []
        spec = dict(name='dev', address=('host', 1), controlled=True)
        if kind == 'inspecting':
            c, man = fake_clients.fake_inspecting_client_factory(
                InspectingClientAsync, {}, 'host', 1, ioloop=loop)
            add_s, add_h = man.add_sensors, man.add_request_handlers_dict
            c.connect()
        elif kind == 'resource':
            c, man = fake_clients.fake_KATCP_client_resource_factory(
                KATCPClientResource, {}, spec)
            c.set_ioloop(loop)
            try:
                man.add_sensors({'x': S_OLD})
                probs.append('a resource that was not started can be managed')
            except RuntimeError:
                pass
            c.start()
            add_s, add_h = man.add_sensors, man.add_request_handlers_dict
        else:
            top, man = fake_clients.fake_KATCP_client_resource_container_factory(
                KATCPClientResourceContainer, {},
                dict(name='top', clients={'my-dev': dict(spec), 'b': dict(spec, name='b')}))
            top.set_ioloop(loop)
            top.start()
            c = top.children['my_dev']

            def add_s(d):
                man.add_sensors('my_dev', d)

            def add_h(d):
                man.add_request_handlers_dict('my_dev', d)
        loop.drain()
        sens, reqs = {}, {}
        base = {'help': None, 'sensor-list': None}

        def ask_do(name):
            """A request that has a handler is answered by the current one."""
            if kind != 'inspecting' and name.replace('-', '_') not in c.req:
                return
            if kind == 'inspecting':
                f = c.simple_request(name, 5)
            else:
                f = getattr(c.req, name.replace('-', '_'))(5)
            loop.drain()
            if not f.done() or f.exception():
                probs.append('?%s: %r' % (name, f.done() and f.exception()))
                return
            reply, informs = f.result() if kind == 'inspecting' else (
                f.result().reply, f.result().informs)
            want = [b'ok', reqs[name].encode(), b'5'] if name in reqs else None
            if want and (reply.arguments != want or
                         [i.arguments for i in informs] != [[reqs[name].encode()]]):
                probs.append('?%s was answered by %s %r, the handler is %s' % (
                    name, reply, informs, reqs[name]))

        for n in range(depth):
            op = OPS[first if n == 0 else ch.choose(len(OPS), 0, 'op')]
            trace.append(' '.join(str(x) for x in op))
            if op[0] == 'sensor':
                add_s({op[1]: op[2]})
                sens[op[1]] = op[2]
            elif op[0] == 'handler':
                add_h({op[1]: handler(op[2])})
                reqs[op[1]] = op[2]
            elif op[0] == 'bad sensor':
                for bad in (('d', 'u', 'nosuchtype'), ('d', 'u', 'integer', 'x')):
                    try:
                        add_s({'bad': bad})
                        probs.append('add_sensors accepted %r' % (bad,))
                    except Exception:
                        pass
            elif op[0] == 'undocumented':
                try:
                    add_h({'bad': lambda req, msg: req.make_reply('ok')})
                    probs.append('an undocumented handler was accepted')
                except AssertionError:
                    pass
            elif op[0] == 'ask':
                ask_do(op[1])
            if op[0] == 'advance' or (n + 1 < depth and ch.choose(2, 1, 'drain')):
                trace.append('.')
                loop.drain()
        loop.advance(5.)
        synced = c.synced if kind == 'inspecting' else c.is_connected() and c.synced
        if not synced:
            probs.append('not synced at the end')
        allr = dict(base)
        allr.update(reqs)
        if kind == 'inspecting':
            if set(c.sensors) != set(sens) or set(c.requests) != set(allr):
                probs.append('sensors %r requests %r, should be %r %r' % (
                    sorted(c.sensors), sorted(c.requests), sorted(sens), sorted(allr)))
            for s in list(sens) + ['zz']:
                v = view(loop, c, s)
                i = sens.get(s)
                want = i and (s, i[0], i[1], i[2], list(i[3:]))
                if (v and (v[0], v[1], v[2], v[3], list(v[4] or []))) != want:
                    probs.append('sensor %s is %r, should be %r' % (s, v, want))
            for r in reqs:
                f = c.future_get_request(r)
                loop.drain()
                if not f.done() or f.result().description != 'Handler %s.' % reqs[r]:
                    probs.append('request %s: %r' % (r, f.done() and f.result()))
        else:
            def esc(x):
                return x.replace('.', '_').replace('-', '_')
            pre = '' if kind == 'resource' else 'my_dev_'
            for what, holder, want, p in (
                    ('sensors', c.sensor, sens, ''), ('requests', c.req, allr, '')) + (() if not pre else (
                        ('container sensors', top.sensor, sens, pre),
                        ('container requests', top.req, list(allr) + ['b_' + x for x in base], pre))):
                got = set(dict.keys(holder))
                w = set((x if x.startswith('b_') else p + esc(x)).replace('-', '_') for x in want)
                if got != w:
                    probs.append('%s %r, should be %r' % (what, sorted(got), sorted(w)))
                    continue
                if what == 'sensors':
                    for s, i in sens.items():
                        o = holder[esc(s)]
                        if (o.description, o.units, o.type) != i[:3]:
                            probs.append('sensor %s is %r' % (s, (o.description, o.units, o.type)))
                if what == 'requests':
                    for r, h in reqs.items():
                        if holder[esc(r)].description != 'Handler %s.' % h:
                            probs.append('request %s: %r' % (r, holder[esc(r)].description))
        for r in sorted(reqs):
            ask_do(r)
        if sim.W.loop_errors:
            probs.append('error in the loop: %r' % (sim.W.loop_errors[:1],))
        return dict(probs=probs, trace='; '.join(trace), states=[repr((sens, reqs))])
    return body


def scenarios(tier):
    d = 1 if tier == 'thorough' else 0
    out = [('request %s' % n, requests_body(n), 0) for n in NAMES]
    out += [('sensor %s' % '-'.join(str(x) for x in TYPES[i][:2]), sensors_body(i), 0)
            for i in range(len(TYPES))]
    for kind, depth in (('inspecting', 3 + d), ('resource', 3 + d), ('container', 2 + d)):
        for i, op in enumerate(OPS):
            out.append(('%s: %s' % (kind, ' '.join(str(x) for x in op)),
                        history_body(kind, depth, i), 2))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'request slow', 'events': ['?slow 7'], 'outcome': 'fail late no'})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
