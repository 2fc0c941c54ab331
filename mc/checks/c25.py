"""C25: calls from other threads are carried out once, in the event loop, and answered.

IOLoopThreadWrapper, the wrappers of resources, containers and groups, the
thread-safe methods of clients and sync_with_ioloop: real code, event loop and
callers in virtual threads, all schedules with a bounded number of pre-emptions,
all combinations of what is called and how long it takes with the time-outs.
"""
import concurrent.futures
from .. import env, sim
LEVEL = 'model_checking'
K = env.load(instrument=['ioloop_manager'])
from .. import rig  # noqa
from .c17 import Device, esc, PARSER  # noqa
from .c20 import Threads, settle, alive, finish, Dev  # noqa
import katcp  # noqa
from tornado import gen  # noqa
from tornado.concurrent import Future as TFuture  # noqa
from katcp import Message, resource  # noqa
from katcp.client import make_threadsafe, make_threadsafe_blocking  # noqa
from katcp.ioloop_manager import IOLoopManager, IOLoopThreadWrapper, ThreadSafeMethodAttrWrapper  # noqa
from katcp.resource_client import (KATCPClientResourceContainer,  # noqa
                                   ThreadSafeKATCPClientResourceWrapper)

PORT = 4500
get_ident = sim.get_ident
CTimeout = concurrent.futures.TimeoutError


class Boom(Exception):
    pass


class Target(object):
    """Things to call. Everything called is logged with the thread it runs in."""
    plain = 17

    def __init__(self, loop):
        self.loop = loop
        self.log = []
        self.open = []

    def _note(self, what, a, kw):
        self.log.append((what, a, tuple(sorted(kw.items())), get_ident()))

    def value(self, *a, **kw):
        self._note('value', a, kw)
        return ('value', a)

    def none(self, *a, **kw):
        self._note('none', a, kw)

    def boom(self, *a, **kw):
        self._note('boom', a, kw)
        raise Boom(a)

    def timeout(self, *a, **kw):
        self._note('timeout', a, kw)
        raise gen.TimeoutError(a)

    def future(self, *a, **kw):
        """Resolves later."""
        self._note('future', a, kw)
        f = TFuture()
        self.loop.call_later(0.5, lambda: f.set_result(('future', a)))
        return f

    def done(self, *a, **kw):
        self._note('done', a, kw)
        f = TFuture()
        f.set_result(('done', a))
        return f

    def failing(self, *a, **kw):
        self._note('failing', a, kw)
        f = TFuture()
        self.loop.call_later(0.5, lambda: f.set_exception(Boom(a)))
        return f

    @gen.coroutine
    def coro(self, *a, **kw):
        self._note('coro', a, kw)
        yield gen.moment
        yield gen.sleep(0.5)
        raise gen.Return(('coro', a))

    @gen.coroutine
    def corofail(self, *a, **kw):
        self._note('corofail', a, kw)
        yield gen.moment
        raise Boom(a)

    def never(self, *a, **kw):
        self._note('never', a, kw)
        self.open.append(TFuture())
        return self.open[-1]

    def loopident(self):
        return get_ident()


# what -> (how long it takes, how it ends)
ENDS = {'value': (0, 'ok'), 'none': (0, 'none'), 'boom': (0, Boom), 'timeout': (0, gen.TimeoutError),
        'future': (0.5, 'ok'), 'done': (0, 'ok'), 'failing': (0.5, Boom), 'coro': (0.5, 'ok'),
        'corofail': (0, Boom), 'never': (None, None)}


class Client(katcp.CallbackClient):
    """A client with thread-safe methods of its own."""
    target = None


def _add(name):
    def meth(self, *a, **kw):
        return getattr(self.target, name)(*a, **kw)
    meth.__name__ = name
    return meth


for _n in ENDS:
    setattr(Client, _n, make_threadsafe_blocking(_add(_n)))
    setattr(Client, 'cast_' + _n, make_threadsafe(_add(_n)))


def calls(kind, scripts, default=None):
    """scripts: thread -> [(what, timeout)]; kind: how the calls are made."""
    def body(ch):
        sim.reset()
        sim.W.net.manual_ports.add(PORT)
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs, states = [], []
        ths = Threads()

        def main():
            if kind == 'client':
                c = Client('127.0.0.1', PORT)
                c.start(5)
                loop, mgr = c.ioloop, c
                t = c.target = Target(loop)
            else:
                mgr = IOLoopManager()
                loop = mgr.get_ioloop()
                mgr.start(5)
                t = Target(loop)
                w = IOLoopThreadWrapper(loop)
                if default is not None:
                    w.default_timeout = default
                if kind == 'attr':
                    c = ThreadSafeMethodAttrWrapper(t, w)
            who = []
            loop.add_callback(lambda: who.append(get_ident()))
            settle(sched)
            n_calls = {}

            def op(name, i, what, timeout):
                kw = {} if timeout is None else {'timeout': timeout}

                def f():
                    t0 = sim.W.now
                    try:
                        if kind == 'call':
                            r = w.call_in_ioloop(getattr(t, what), (name, i), {}, **kw)
                        elif kind == 'decorate':
                            r = w.decorate_callable(getattr(t, what))(name, i, **kw)
                        else:
                            r = getattr(c, what)(name, i, **kw)
                        res = ('ok', r)
                    except Exception as e:
                        res = (type(e), e)
                    n_calls[(name, i)] = (what, timeout, res, sim.W.now - t0)
                return f
            sched.preempt = True
            for name in sorted(scripts):
                ths.spawn(name, [(x[0], op(name, i, *x)) for i, x in enumerate(scripts[name])])
            left = ths.join(30)
            sched.preempt = False
            if left:
                probs.append('threads %r never return from their calls' % (left,))
                return
            for (name, i), (what, timeout, res, dt) in sorted(n_calls.items()):
                takes, end = ENDS[what]
                lim = timeout or (default if kind in ('call', 'decorate', 'attr') else 5) or None
                mine = [e for e in t.log if e[1] == (name, i)]
                label = '%s(timeout=%r) of thread %s' % (what, timeout, name)
                if len(mine) != 1 or mine[0][0] != what:
                    probs.append('%s was executed %d times' % (label, len(mine)))
                    continue
                want_kw = () if timeout is None or kind in ('call', 'client') else (('timeout', timeout),)
                if mine[0][2] != want_kw:
                    probs.append('%s was called with %r' % (label, mine[0][2]))
                if mine[0][3] != who[0]:
                    probs.append('%s was not executed in the thread of the event loop' % label)
                if lim is not None and (takes is None or takes > lim):
                    if res[0] is not CTimeout:
                        probs.append('%s should time out: %r' % (label, res))
                    if abs(dt - lim) > 1e-6:
                        probs.append('%s took %s s to time out' % (label, dt))
                    continue
                if dt > takes + 1e-6:
                    probs.append('%s returned after %s s' % (label, dt))
                want = ('ok', (what, (name, i))) if end == 'ok' else ('ok', None) if end == 'none' else None
                if want is None:
                    if res[0] is not end or res[1].args != ((name, i),):
                        probs.append('%s should raise %s: %r' % (label, end.__name__, res))
                elif res != want:
                    probs.append('%s gave %r' % (label, res))
            # the calls of one thread are executed in order
            for name in scripts:
                order = [e[1][1] for e in t.log if e[1][0] == name]
                if order != sorted(order):
                    probs.append('calls of thread %s executed in order %r' % (name, order))
            if len(t.log) != sum(len(s) for s in scripts.values()):
                probs.append('%d calls were executed' % len(t.log))
            # from the event loop itself
            inside = []

            def fromloop():
                try:
                    if kind == 'call':
                        inside.append(w.call_in_ioloop(t.value, ('in', 0), {}))
                    elif kind == 'decorate':
                        inside.append(w.decorate_callable(t.value)('in', 0))
                    else:
                        inside.append(c.value('in', 0))
                except Exception as e:
                    inside.append(e)
            loop.add_callback(fromloop)
            settle(sched)
            n_in = len([e for e in t.log if e[1] == ('in', 0)])
            if kind == 'client':
                if inside != [('value', ('in', 0))] or n_in != 1:
                    probs.append('called from the event loop: %r' % (inside,))
            elif len(inside) != 1 or not isinstance(inside[0], RuntimeError) or n_in:
                probs.append('called from the event loop: %r' % (inside,))
            if kind == 'attr' and (c.plain != 17 or isinstance(c, IOLoopThreadWrapper)):
                probs.append('plain attribute gives %r' % (c.plain,))
            for f in t.open:
                if not f.done():
                    loop.add_callback(f.set_result, None)
            settle(sched, 1.)
            mgr.stop()
            mgr.join(5)
            states.append(repr(sorted((k, v[0], v[1], v[2][0]) for k, v in n_calls.items())))
        sched.run(main)
        finish(sched, probs, ths.results, ())
        return {'probs': probs, 'outcome': repr(states), 'steps': sched.npoints, 'trace': repr(scripts),
                'states': states}
    return body


def casts(scripts):
    """make_threadsafe: nothing is returned, but everything is executed once and in order."""
    def body(ch):
        sim.reset()
        sim.W.net.manual_ports.add(PORT)
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs = []
        ths = Threads()

        def main():
            c = Client('127.0.0.1', PORT)
            c.start(5)
            t = c.target = Target(c.ioloop)
            who = []
            c.ioloop.add_callback(lambda: who.append(get_ident()))
            settle(sched)

            def op(name, i, what):
                return lambda: getattr(c, 'cast_' + what)(name, i)
            sched.preempt = True
            for name in sorted(scripts):
                ths.spawn(name, [(x, op(name, i, x)) for i, x in enumerate(scripts[name])])
            left = ths.join(30)
            sched.preempt = False
            settle(sched, 1.)
            if left:
                probs.append('threads %r never return' % (left,))
            for name in scripts:
                got = [(e[0], e[1][1]) for e in t.log if e[1][0] == name]
                if got != [(x, i) for i, x in enumerate(scripts[name])]:
                    probs.append('calls of thread %s: %r executed' % (name, got))
            if [e for e in t.log if e[3] != who[0]]:
                probs.append('not executed in the thread of the event loop')
            c.ioloop.add_callback(lambda: c.cast_value('in', 0))
            settle(sched)
            if len([e for e in t.log if e[1] == ('in', 0)]) != 1:
                probs.append('call from the event loop not executed once')
            c.stop()
            c.join(5)
            sim.W.loop_errors[:] = [e for e in sim.W.loop_errors if 'Boom' not in repr(e)]
        sched.run(main)
        finish(sched, probs, ths.results, ())
        return {'probs': probs, 'outcome': repr(scripts), 'steps': sched.npoints, 'trace': repr(scripts),
                'states': [repr(scripts)]}
    return body


def sync(scripts, busy=0.):
    """sync_with_ioloop() returns once everything queued before has been done."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs, out = [], []
        ths = Threads()

        def main():
            srv = Dev('127.0.0.1', PORT)
            srv.start(5)
            done = []

            def op(name, i, timeout):
                def f():
                    t0 = sim.W.now
                    srv.ioloop.add_callback(done.append, (name, i))
                    try:
                        r = srv.sync_with_ioloop(timeout) if timeout else srv.sync_with_ioloop()
                        if r is not None:
                            probs.append('returned %r' % (r,))
                        if (name, i) not in done:
                            probs.append('returned before the event loop has done what was queued')
                        out.append((name, i, 'ok'))
                        if timeout and sim.W.now - t0 > timeout + 1e-6:
                            probs.append('took %s s' % (sim.W.now - t0))
                    except CTimeout:
                        out.append((name, i, 'timeout'))
                        if not timeout or abs(sim.W.now - t0 - timeout) > 1e-6 or not busy:
                            probs.append('timed out after %s s' % (sim.W.now - t0))
                return f
            if busy:
                srv.ioloop.add_callback(sim.vsleep, busy)
            sched.preempt = True
            for name in sorted(scripts):
                ths.spawn(name, [('sync', op(name, i, x)) for i, x in enumerate(scripts[name])])
            left = ths.join(30)
            sched.preempt = False
            if left:
                probs.append('threads %r never return' % (left,))
            got = []

            def inside():
                f = srv.sync_with_ioloop()
                got.append(f.done())
                f.add_done_callback(lambda f: got.append(f.result()))
            srv.ioloop.add_callback(inside)
            settle(sched)
            if got != [False, None]:
                probs.append('from the event loop: %r' % (got,))
            srv.stop()
            srv.join(5)
        sched.run(main)
        finish(sched, probs, ths.results, ())
        return {'probs': probs, 'outcome': repr(sorted(out)), 'steps': sched.npoints, 'trace': repr(scripts),
                'states': [repr(sorted(out))]}
    return body


# -- resources ---------------------------------------------------------------------

INT = ['-9999', '9999']
SENS = {'a.x': [('first', '', 'integer', INT)], 'b-y': [('bee', '', 'integer', INT)],
        'agg_z': [('sum', '', 'integer', INT)]}
REQS = {'do-it': [('?do-it one', 2.5)], 'more': [('?more', None)]}
HAS = [(('a.x', 'b-y'), ('do-it',)), (('a.x', 'agg_z'), ('do-it', 'more'))]


def res(scripts, lose=False):
    """A container in its own event loop, used from other threads through the wrapper."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs = []
        ths = Threads()
        devs = [Device(SENS, REQS, *h) for h in HAS]
        peers = [None, None]
        calls = []
        state = {'quit': False, 'hold': False}
        senders = set()
        for i in range(2):
            sim.W.net.manual_ports.add(PORT + i)

        def serve():
            while not state['quit']:
                sim._block(lambda: state['quit'] or sim.W.net.pending_connects or
                           any(p is not None and p.sock.rx for p in peers), None, 'serve')
                for s in list(sim.W.net.pending_connects):
                    i = s.target[1] - PORT
                    peers[i] = sim.Peer.accept_pending(s)
                    peers[i].send(b'#version-connect katcp-protocol 5.0-IM\n')
                for i, p in enumerate(peers):
                    if p is None:
                        continue
                    for line in p.lines():
                        m = PARSER.parse(line)
                        calls.append((i, m.name, tuple(m.arguments)))
                        p.send(b''.join(bytes(x) + b'\n' for x in devs[i].answer(m)))

        def main():
            mgr = IOLoopManager()
            loop = mgr.get_ioloop()
            mgr.start(5)
            who, made = [], []
            loop.add_callback(lambda: who.append(get_ident()))
            spec = {'name': 'all', 'groups': {'g': ['dev-1', 'dev.2']},
                    'clients': {'dev-1': {'address': ('127.0.0.1', PORT), 'controlled': True},
                                'dev.2': {'address': ('127.0.0.1', PORT + 1), 'controlled': True}}}

            def make():
                c = KATCPClientResourceContainer(spec)
                c.set_ioloop(loop)
                c.start()
                made.append(c)
            loop.add_callback(make)
            st = sim.VThreadAPI(target=serve, name='devices')
            st.start()
            settle(sched, 2.)
            c = made[0]
            orig = sim.FakeSocket.send

            def send(self, data, *flags):
                senders.add(get_ident())
                return orig(self, data, *flags)
            w = ThreadSafeKATCPClientResourceWrapper(c, IOLoopThreadWrapper(loop))
            settle(sched)
            before = len(calls)
            expect = []

            def count(dev, name, *args):
                expect.append((dev, name) + args)

            def want(what, got, exp):
                if got != exp:
                    probs.append('%s gives %r, should be %r' % (what, got, exp))

            def op(o):
                k = o[0]
                if k == 'req':
                    def f():
                        count(0, 'do-it', (o[1],))
                        r = w.req.dev_1_do_it(o[1]) if o[2] else w.children['dev_1'].req['do_it'](o[1])
                        want('request', (r.succeeded, r.reply.arguments, [str(i) for i in r.informs]),
                             (True, [b'ok', o[1]], ['#do-it[%s] working' % ensure(r.reply.mid).decode()]))
                elif k == 'group':
                    def f():
                        count(0, 'do-it', (o[1],))
                        count(1, 'do-it', (o[1],))
                        g = w.groups.g
                        r = g.req.do_it(o[1])
                        want('group request', (bool(r), sorted((k, v.succeeded) for k, v in r.items())),
                             (True, [('dev-1', True), ('dev.2', True)]))
                        want('group', ([x.name for x in g], g[1].name, len(g)),
                             (['dev-1', 'dev.2'], 'dev.2', 2))
                elif k == 'more':
                    def f():
                        count(1, 'more', ())
                        r = w.groups['g'].req['more']()
                        want('group request', (bool(r), r['dev-1'], r['dev.2'].succeeded), (False, None, True))
                elif k == 'poll':
                    def f():
                        count(1, 'sensor-value', (b'a.x',))
                        want('poll', w.sensor.dev_2_a_x.get_value(), devs[1].value['a.x'])
                elif k == 'strategy':
                    def f():
                        count(0, 'sensor-sampling', (b'b-y', b'event'))
                        s = w.sensor['dev_1_b_y']
                        s.set_sampling_strategy('event')
                        want('strategy', tuple(s.sampling_strategy), ('event',))
                        want('value', s.value, 1)
                elif k == 'all':
                    def f():
                        count(1, 'sensor-sampling', (b'agg_z', b'event'))
                        want('strategies', w.set_sampling_strategies('agg', 'event'), {'dev.2': {'agg_z': 'event'}})
                elif k == 'wait':
                    def f():
                        count(1, 'sensor-sampling', (b'a.x', b'auto'))
                        s = w.children.dev_2.sensors.a_x
                        s.set_strategy('auto')
                        want('wait', w.children.dev_2.wait('a.x', 1), True)
                        want('wait of sensor', s.wait(1), True)
                elif k == 'missing':
                    def f():
                        for g, e in ((lambda: w.children.dev_1.wait('nope', 1), resource.KATCPSensorError),
                                     (lambda: w.sensor.dev_1_a_x.wait(1), resource.KATCPSensorError),
                                     (lambda: w.sensor['dev_1_nope'], KeyError),
                                     (lambda: w.req.dev_1_nope, AttributeError),
                                     (lambda: w.until_not_synced(timeout=0.25), (gen.TimeoutError, CTimeout))):
                            try:
                                x = g()
                                probs.append('no error: %r' % (x,))
                            except e:
                                pass
                elif k == 'look':
                    def f():
                        want('sensors', (sorted(w.sensor), len(w.sensor), 'dev_1_a_x' in w.sensor,
                                         'nope' in w.sensor, sorted(dir(w.sensors))),
                             (['agg_z', 'dev_1_a_x', 'dev_1_b_y', 'dev_2_a_x'], 4, True, False,
                              ['agg_z', 'dev_1_a_x', 'dev_1_b_y', 'dev_2_a_x']))
                        want('requests', sorted(x for x in w.req if 'do_it' in x or 'more' in x),
                             ['dev_1_do_it', 'dev_2_do_it', 'dev_2_more'])
                        want('children', sorted((k, v.name, v.synced) for k, v in w.children.items()),
                             [('dev_1', 'dev-1', True), ('dev_2', 'dev.2', True)])
                        want('rest', (w.name, w.is_connected(), w.children['dev_1'].parent.name,
                                      sorted(w.groups), list(w.children.dev_1.children)),
                             ('all', True, 'all', ['g'], []))
                        w.until_synced()
                        want('list', sorted(x.name for x in w.list_sensors('dev_1')),
                             ['dev-1.a.x', 'dev-1.b-y'])
                elif k == 'listen':
                    def f():
                        heard = []
                        s = w.sensor.agg_z
                        s.register_listener(lambda sensor, r: heard.append((get_ident(), r.value)), True)
                        s.set_value(o[1])
                        want('heard', heard[-1:], [(who[0], o[1])])
                return f
            sim.FakeSocket.send = send
            try:
                sched.preempt = True
                for name in sorted(scripts):
                    ths.spawn(name, [(o[0], op(o)) for o in scripts[name]])
                left = ths.join(40)
                sched.preempt = False
            finally:
                sim.FakeSocket.send = orig
            if left:
                probs.append('threads %r never return' % (left,))
            want('messages to the devices', sorted(calls[before:]), sorted(expect))
            if senders - set(who):
                probs.append('messages were sent outside of the event loop')
            loop.add_callback(c.stop)
            settle(sched)
            mgr.stop()
            mgr.join(5)
            state['quit'] = True
        sched.run(main)
        finish(sched, probs, ths.results, ())
        return {'probs': probs, 'outcome': repr(scripts), 'steps': sched.npoints, 'trace': repr(scripts),
                'states': [repr((scripts, len(calls)))]}
    return body


# -- others --------------------------------------------------------------------------

def computed():
    """Attributes that cannot be read yet do not disturb enable_thread_safety()."""
    names = ['callback_request_x', 'disconnect_x', 'request_x', 'send_message_x', 'aa', 'zz']

    def body(ch):
        sim.reset()
        sim.W.net.manual_ports.add(PORT)
        i = ch.choose(len(names), 0, 'name')
        settable = ch.choose(2, 0, 'settable')
        probs = []

        def get(self):
            return self._later

        def put(self, x):
            self._later = x
        cls = type('C', (katcp.AsyncClient,), {names[i]: property(get, put) if settable else property(get)})
        loop = sim.VLoop(make_current=True)
        c = cls('127.0.0.1', PORT)
        c.set_ioloop(loop)
        try:
            c.enable_thread_safety()
        except Exception as e:
            probs.append('enable_thread_safety() raises %r' % (e,))
        if hasattr(c, names[i]):
            probs.append('enable_thread_safety() sets %s' % names[i])
        c._later = 5
        if getattr(c, names[i]) != 5:
            probs.append('%s is %r' % (names[i], getattr(c, names[i])))
        return {'probs': probs, 'outcome': names[i], 'steps': 1, 'trace': names[i], 'states': [(i, settable)]}
    return body


class Failed(Exception):
    pass


REPLIES = [b'ok', b'ok 1 x', b'fail', b'fail no\\_way', b'invalid what', b'', b'okay', b'OK']


def checked():
    """request_check() returns what blocking_request() returns, or raises."""
    def body(ch):
        sim.reset()
        sim.W.net.manual_ports.add(PORT)
        reply = REPLIES[ch.choose(len(REPLIES), 0, 'reply')]
        mid = [None, '7'][ch.choose(2, 0, 'mid')]
        timeout = [None, 0.5][ch.choose(2, 0, 'timeout')]
        silent = ch.choose(2, 0, 'silent')
        sched = sim.Scheduler(ch)
        sched.preempt = False
        probs, out = [], []

        def main():
            c = katcp.BlockingClient('127.0.0.1', PORT, timeout=3.)
            c.start(5)
            settle(sched)
            p = sim.Peer.accept_pending(sim.W.net.pending_connects[0])
            p.send(b'#version-connect katcp-protocol 5.0-MI\n')
            settle(sched)
            got = []

            def ask():
                kw = {}
                if mid:
                    kw['mid'] = mid
                if timeout:
                    kw['timeout'] = timeout
                t0 = sim.W.now
                try:
                    got.append(katcp.client.request_check(c, Failed, 'foo', 'a b', 3, **kw))
                except Exception as e:
                    got.append(e)
                out.append(sim.W.now - t0)
            t = sim.VThreadAPI(target=ask, name='ask')
            t.start()
            settle(sched)
            lines = p.lines()
            m = PARSER.parse(lines[0]) if len(lines) == 1 else None
            if m is None or m.name != 'foo' or m.arguments != [b'a b', b'3'] or m.mid is None:
                probs.append('sent %r' % (lines,))
            elif mid and m.mid != b'7' and m.mid != '7':
                probs.append('the message id is %r' % (m.mid,))
            else:
                x = ensure(m.mid)
                if not silent:
                    p.send(b'#foo[%s] one\n!foo[%s] %s\n' % (x, x, reply))
                t.join(20)
                end = 0 if not silent else (timeout or 3.)
                if not got or abs(out[0] - end - 0.01) > 0.02:
                    probs.append('%r after %r s' % (got, out))
                elif not silent and reply.startswith(b'ok') and not reply.startswith(b'oka'):
                    if not isinstance(got[0], tuple) or bytes(got[0][0]) != b'!foo[%s] %s' % (x, reply) or \
                            [bytes(i) for i in got[0][1]] != [b'#foo[%s] one' % x]:
                        probs.append('returned %r' % (got[0],))
                elif not isinstance(got[0], Failed):
                    probs.append('should have raised: %r' % (got[0],))
                elif not silent and (reply.split()[0] if reply else b'').decode() not in str(got[0]):
                    probs.append('raised %s' % (got[0],))
            c.stop()
            c.join(5)
        sched.run(main)
        finish(sched, probs, {}, ())
        return {'probs': probs, 'outcome': repr(out), 'steps': 1, 'trace': (reply, mid, timeout, silent),
                'states': [(reply, mid, timeout, silent)]}
    return body


def ensure(x):
    return x if isinstance(x, bytes) else x.encode()


def scenarios(tier):
    T = 1 if tier == 'thorough' else 0
    out = []
    whats = sorted(ENDS)
    for kind in ('call', 'decorate', 'attr', 'client'):
        for what in whats:
            for timeout in (None, 0.25, 1.):
                if ENDS[what][0] is None and timeout is None and kind != 'client':
                    continue
                out.append(('calls %s: %s %s' % (kind, what, timeout),
                            calls(kind, {'a': [(what, timeout), ('value', None)]}), 1 + T))
        for x, y in (('value', 'boom'), ('future', 'value'), ('failing', 'future'), ('coro', 'corofail'),
                     ('done', 'coro')):
            out.append(('pairs %s: %s %s' % (kind, x, y),
                        calls(kind, {'a': [(x, None), (y, 0.25)], 'b': [(y, None), (x, None)]}), 1 + T))
            out.append(('two %s: %s %s' % (kind, x, y), calls(kind, {'a': [(x, None)], 'b': [(y, None)]}), 2 + T))
        out.append(('late %s' % kind, calls(kind, {'a': [('future', 0.25), ('coro', None), ('future', 0.25)],
                                                   'b': [('never', 0.75), ('value', None)]}), 1 + T))
    for what in ('future', 'never', 'value'):
        out.append(('default: %s' % what, calls('call', {'a': [(what, None), ('value', None)]}, default=0.25), 1))
        out.append(('default 2: %s' % what, calls('attr', {'a': [(what, 1.), ('value', None)]}, default=0.25), 1))
    out.append(('casts', casts({'a': ['value', 'none', 'coro'], 'b': ['value', 'future']}), 2))
    out.append(('casts boom', casts({'a': ['boom', 'value'], 'b': ['value']}), 1 + T))
    out.append(('sync', sync({'a': [None, 1.], 'b': [None]}), 2 + T))
    out.append(('sync busy', sync({'a': [0.5, None], 'b': [None]}, busy=1.), 2 + T))
    b = [('req', b'x', 1), ('req', b'y', 0), ('group', b'z'), ('more',), ('poll',), ('strategy',), ('all',), ('wait',),
         ('missing',), ('look',), ('listen', 4)]
    for i, o in enumerate(b):
        out.append(('resource: %s' % o[0], res({'a': [o]}), 1 + T))
        for p in b[i:] if T else b[i:i + 2]:
            out.append(('resources: %s %s' % (o[0], p[0]), res({'a': [o], 'b': [p]}), 1))
    out.append(('computed attributes', computed(), 0))
    out.append(('request_check', checked(), 0))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:80]), batch=1)
    rep.sample({'scenario': 'calls attr', 'events': ['thread a calls a coroutine', 'the loop executes it']})
    ex.finish()


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj.get('scenario'):
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
    run('quick', rep)
