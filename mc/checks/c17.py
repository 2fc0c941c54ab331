"""C17: a resource client keeps its sensors, requests, strategies and listeners in step with a device.

The real KATCPClientResource (on a real inspecting client) against a scripted
device. All histories, up to a depth, of setting and dropping strategies (on the
resource or the sensor object), registering listeners, updates, changes of the
interface, loss of the connection and time, with a bounded number of answers of
the device held back past the next event, failed, or cut off, are compared with a
model.
"""
import random
from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, resource  # noqa
from katcp.resource_client import KATCPClientResource, monitor_resource_sync_state  # noqa

PARSER = katcp.MessageParser()
PORT = 4300
SENS = {'a.q.x': [('first', '', 'integer', ['-9999', '9999']), ('second', 'm', 'integer', ['-9999', '9999'])],
        'b-y': [('bee', '', 'integer', ['-9999', '9999']), ('buzz', '', 'integer', ['0', '9999'])]}
REQS = {'do-it': [('?do-it one', 7.5), ('?do-it two', 2.5)], 'ex-cl': [('?ex-cl', None)]}
BASE = {'help': ('get help', None), 'sensor-list': ('list', None), 'sensor-sampling': ('sample', None),
        'request-timeout-hint': ('hints', None), 'sensor-value': ('poll', None)}


def esc(name):
    return name.replace('.', '_').replace('-', '_')


def norm(s):
    out = []
    for p in (s.split(' ') if isinstance(s, str) else s):
        try:
            out.append(str(float(p)))
        except ValueError:
            out.append(str(p))
    return tuple(out)


class Device(object):
    """What the device has and how it answers; strategies belong to a connection."""

    def __init__(self, sens=SENS, reqs=REQS, s=('a.q.x', 'b-y'), r=('do-it',)):
        self.SENS, self.REQS = sens, reqs
        self.s = dict((n, 0) for n in s)
        self.r = dict((n, 0) for n in r)
        self.value = dict((n, 1) for n in sens)
        self.strat = {}
        self.count = 0
        self.sent = []          # (name, timestamp, value) of every update sent

    def requests(self):
        d = dict(BASE)
        for n, v in self.r.items():
            d[n] = self.REQS[n][v]
        return d

    def update(self, name, m=None):
        self.count += 1
        self.sent.append((name, float(self.count), self.value[name]))
        args = [str(self.count), '1', name, 'nominal', str(self.value[name])]
        if m is not None:
            return Message.reply_inform(m, *args)
        return Message.inform('sensor-status', *args)

    def answer(self, m):
        name = m.arguments[0].decode() if m.arguments else None
        ok = Message.reply_to_request
        if m.name in ('help', 'request-timeout-hint'):
            d = self.requests()
            k = 0 if m.name == 'help' else 1
            rows = [[n, str(d[n][k])] for n in sorted(d) if d[n][k] and name in (None, n)]
        elif m.name == 'sensor-list':
            rows = [[n] + list(self.SENS[n][v][:3]) + list(self.SENS[n][v][3]) for n, v in sorted(self.s.items())
                    if name in (None, n)]
        elif m.name == 'sensor-sampling':
            if name not in self.s:
                return [ok(m, 'fail', 'Unknown sensor name.')]
            st = tuple(a.decode() for a in m.arguments[1:])
            self.strat[name] = st
            return ([] if st == ('none',) else [self.update(name)]) + [ok(m, 'ok', name, *st)]
        elif m.name == 'sensor-value':
            if name not in self.s:
                return [ok(m, 'fail', 'Unknown sensor name.')]
            return [self.update(name, m), ok(m, 'ok', 1)]
        elif m.name in self.r:
            return [Message.reply_inform(m, 'working'), ok(m, 'ok', *m.arguments)]
        else:
            return [ok(m, 'invalid', 'unknown request')]
        if name is not None and not rows:
            return [ok(m, 'fail', 'Unknown name.')]
        return [Message.reply_inform(m, *r) for r in rows] + [ok(m, 'ok', len(rows))]


def allowed(spec, reqs):
    al = set(esc(x) for x in spec.get('always_allowed_requests', ()))
    ex = set(esc(x) for x in spec.get('always_excluded_requests', ()))
    names = set(esc(x) for x in reqs)
    return set(x for x in names if x not in ex and (spec.get('controlled') or x in al))


def drive(ops, depth, answers, start=(), spec=None, faulty=('sensor-sampling', 'sensor-list'), early=False, first=None):
    """early: begin before the connection is made, or even before start()."""
    rspec = dict(name='dev', address=('127.0.0.1', PORT), controlled=True)
    rspec.update(spec or {})

    def body(ch):
        sim.reset()
        random.seed(0)
        sim.W.net.manual_ports.add(PORT)
        loop = sim.VLoop(make_current=True)
        dev = Device()
        res = KATCPClientResource(rspec)
        res.set_ioloop(loop)
        probs, trace, states = [], [], []
        st = {'peer': None, 'held': [], 'quiet': False, 'up': not early, 'started': False, 'alive': False, 'disturbed': False,
              'lost': False}
        want = {}           # strategies to be kept
        dropped = set()     # the device may have one or not
        heard = {}          # (listener, sensor) -> updates
        must = []
        regs = []           # (listener, sensor)
        done = []           # futures that have to complete
        sync = []
        monitor_resource_sync_state(res, sync.append)

        def start_up():
            if not st['started']:
                st['started'] = True
                res.start()

        def bad(p):
            probs.append(p)

        def listener(i, name):
            key = (i, name)
            if key not in heard:
                heard[key] = []

            def fn(sensor, reading):
                if sensor.name != name:
                    bad('a listener for %s is called for %s' % (name, sensor.name))
                heard[key].append((sensor.name, reading.timestamp, reading.value))
            return fns.setdefault(key, fn)
        fns = {}

        def known(name):
            return dict.get(res.sensor, esc(name))

        def give(m, how):
            peer = st['peer']
            if how == 'fail':
                st['disturbed'] = True
                peer.send(bytes(Message.reply_to_request(m, 'fail', 'no way')) + b'\n')
                return
            n = len(dev.sent)
            out = dev.answer(m)
            hear(n)
            peer.send(b''.join(bytes(x) + b'\n' for x in out))

        def hear(n):
            """Updates after the n-th have to reach the listeners registered by now."""
            for u in dev.sent[n:]:
                if res.synced and known(u[0]) is not None and known(u[0]).description == SENS[
                        u[0]][dev.s[u[0]]][0]:
                    for key in regs:
                        if key[1] == u[0]:
                            must.append((key, u))

        def pump():
            for _ in range(300):
                loop.drain()
                did = False
                if sim.W.net.pending_connects and st['up']:
                    s = sim.W.net.pending_connects[0]
                    st['peer'] = sim.Peer.accept_pending(s)
                    st['peer'].send(b'#version-connect katcp-protocol 5.1-IMT\n')
                    st['alive'] = True
                    dev.strat = {}
                    dropped.clear()
                    st['held'][:] = []
                    did = True
                elif st['alive']:
                    for line in st['peer'].lines():
                        m = PARSER.parse(line)
                        did = True
                        how = 'answer'
                        if st['quiet'] and answers and m.name in faulty:
                            how = (['answer'] + answers)[ch.choose(1 + len(answers), 1, m.name)]
                        if how != 'answer':
                            trace.append('(%s %s)' % (how, m))
                        if how == 'hold':
                            st['held'].append(m)
                        elif how == 'lose':
                            lose(True)
                            break
                        else:
                            give(m, how)
                if not did:
                    return
            bad('the client never comes to rest')

        def lose(answering=False):
            if st['alive']:
                st['peer'].close()
                st['alive'] = False
                st['lost'] = True
                if st['held'] or answering:
                    st['disturbed'] = True
                st['held'][:] = []
                dev.strat = {}
                del must[:]

        def release():
            held, st['held'][:] = list(st['held']), []
            for m in held:
                give(m, 'answer')

        def apply(o):
            changed = False
            k = o[0]
            if k == 'set':
                name, s = o[2], o[3]
                if o[1] == 's':
                    obj = known(name)
                    if obj is None:
                        return
                    want[name] = norm(s)
                    done.append(obj.set_sampling_strategy(s))
                else:
                    want[name] = norm(s)
                    done.append(res.set_sampling_strategy(esc(name) if o[1] == 'e' else name, s))
                dropped.discard(name)
            elif k == 'setall':
                for name in SENS:
                    if known(name) is not None:
                        want[name] = norm(o[1])
                        dropped.discard(name)
                done.append(res.set_sampling_strategies('', o[1]))
            elif k == 'drop':
                name = o[2]
                if o[1] == 's':
                    obj = known(name)
                    if obj is None:
                        return
                    obj.drop_sampling_strategy()
                else:
                    res.drop_sampling_strategy(esc(name) if o[1] == 'e' else name)
                if want.pop(name, None):
                    dropped.add(name)
            elif k == 'listen':
                key = (o[1], o[2])
                done.append(res.set_sensor_listener(o[2], listener(*key)))
                if key not in regs:
                    regs.append(key)
            elif k == 'push':
                name = o[1]
                dev.value[name] += 1
                if name in dev.s and dev.strat.get(name, ('none',))[0] == 'event' and st['alive']:
                    n = len(dev.sent)
                    msg = dev.update(name)
                    hear(n)
                    st['peer'].send(bytes(msg) + b'\n')
            elif k == 'sens':
                if dev.s.get(o[1]) != o[2]:
                    dev.strat.pop(o[1], None)
                    dropped.discard(o[1])
                if o[2] is None:
                    dev.s.pop(o[1], None)
                else:
                    dev.s[o[1]] = o[2]
                changed = True
            elif k == 'swap':
                # replaced by an equal one: its strategy is gone
                if o[1] in dev.s:
                    dev.strat.pop(o[1], None)
                    dropped.discard(o[1])
                changed = True
            elif k == 'req':
                if o[2] is None:
                    dev.r.pop(o[1], None)
                else:
                    dev.r[o[1]] = o[2]
                changed = True
            elif k == 'lose':
                lose()
            elif k == 'down':
                st['up'] = False
                lose()
            elif k == 'up':
                start_up()
                st['up'] = True
            elif k == 'time':
                for _ in range(int(o[1])):
                    loop.advance(1.)
                    release()
                    pump()
            elif k == 'poll':
                obj = known(o[1])
                if obj is not None:
                    done.append(obj.get_reading())
            if changed and st['alive']:
                st['peer'].send(b'#interface-changed\n')

        def idle():
            return st['alive'] and not st['held'] and not sim.W.net.pending_connects

        def check():
            s = res.state
            if res.is_connected() != (s != 'disconnected') or res.synced != (s == 'synced'):
                bad('state %r, is_connected() %r, synced %r' % (s, res.is_connected(), res.synced))
            if not st['alive'] and s == 'synced':
                bad('the state is %r without a connection' % s)
            if [x for x in zip(sync, sync[1:]) if x[0] == x[1]] or sync[0] or sync[-1] != res.synced:
                bad('the monitor says %r in state %s' % (sync, s))
            for key, u in must:
                if u not in heard[key]:
                    bad('listener %s of %s missed the update %r, heard %r' % (key + (u, heard[key][-3:])))
                    break
            del must[:]
            for key, got in heard.items():
                ts = [u[1] for u in got]
                if ts != sorted(set(ts)) or not set(got) <= set(dev.sent):
                    bad('listener %s of %s heard %r' % (key + (got,)))
            if idle() and not st['disturbed'] and s != 'synced':
                bad('not synced although nothing is outstanding: %s' % s)
            if s == 'synced' and idle() and not st['disturbed']:
                full()

        def full():
            if set(res.sensor) != set(esc(n) for n in dev.s):
                bad('the resource has sensors %r, the device %r' % (sorted(res.sensor), sorted(dev.s)))
            if set(res.req) != allowed(rspec, dev.requests()):
                bad('the resource has requests %r, should be %r'
                    % (sorted(res.req), sorted(allowed(rspec, dev.requests()))))
            for n, v in dev.s.items():
                obj = known(n)
                if obj is None:
                    return
                if (obj.name, obj.description, obj.units) != (n,) + SENS[n][v][:2]:
                    bad('sensor %s is described as %r' % (n, (obj.name, obj.description, obj.units)))
                if obj.sampling_strategy != want.get(n, ('none',)):
                    bad('sensor %s has strategy %r, should be %r'
                        % (n, obj.sampling_strategy, want.get(n, ('none',))))
                got = dev.strat.get(n, ('none',))
                if got != want.get(n, ('none',)) and n not in dropped:
                    bad('the device samples %s with %r, should be %r' % (n, got, want.get(n, ('none',))))
                if got[0] == 'event':
                    if obj.value != dev.value[n]:
                        bad('sensor %s shows %r, the device has %r' % (n, obj.value, dev.value[n]))
            for n, v in dev.r.items():
                obj = dict.get(res.req, esc(n))
                if obj is not None and (obj.name, obj.description, obj.timeout_hint) != (n,) + REQS[n][v]:
                    bad('request %s is described as %r'
                        % (n, (obj.name, obj.description, obj.timeout_hint)))

        def settle():
            st['quiet'] = False
            st['up'] = True
            start_up()
            for k in range(120):
                release()
                pump()
                if k > 1 and res.synced and idle():
                    break
                loop.advance(0.01 if k == 0 else 1.)
                pump()
            if not res.synced:
                bad('the resource never gets synced, state %s' % res.state)

        if early != 'start':
            start_up()
            pump()
        for o in start:
            apply(o)
            release()
            pump()
        for i in range(depth):
            o = ops[ch.choose(len(ops), 0, 'op') if i or first is None else first]
            st['quiet'] = True
            trace.append(o)
            held_before = bool(st['held'])
            st['lost'] = False
            apply(o)
            if held_before:
                loop.drain()
                release()
            pump()
            check()
            if probs:
                break
            states.append((res.state, tuple(sorted(dev.s.items())), tuple(sorted(want.items())),
                           tuple(sorted(dev.strat.items())), bool(st['held']), len(regs)))
        if not probs:
            settle()
            st['disturbed'] = False
            del must[:]
            # a strategy may have been refused: a new connection brings it back
            lose()
            pump()
            check()
            settle()
            check()
            if not probs:
                for n in sorted(dev.s):
                    last = len(dev.sent)
                    apply(('push', n))
                    pump()
                    check()
                    if dev.strat.get(n, ('none',))[0] == 'event' and len(dev.sent) != last + 1:
                        bad('harness: push of %s' % n)
                    for key in regs:
                        if key[1] == n and dev.strat.get(n, ('none',))[0] == 'event':
                            obj = known(n)
                            if not heard[key] or heard[key][-1] != dev.sent[-1]:
                                bad('listener %s of %s heard %r last, sent was %r'
                                    % (key + (heard[key][-1:], dev.sent[-1])))
                            if (obj.reading.timestamp, obj.value) != dev.sent[-1][1:]:
                                bad('sensor %s does not show %r' % (n, dev.sent[-1]))
                    f = known(n).get_reading() if known(n) is not None else None
                    pump()
                    if f is None or not f.done() or f.exception() or f.result().value != dev.value[n]:
                        bad('polling %s gives %r' % (n, f))
                loop.advance(30.)
                pump()
                for f in done:
                    if not f.done():
                        bad('a call is never answered')
                        break
            if not probs:
                res.stop()
                loop.drain()
                loop.advance(1.)
                if st['alive'] and not st['peer'].eof() or not res.until_stopped().done():
                    bad('not stopped after stop()')
        for f in done:
            if f.done():
                f.exception()
        if sim.W.loop_errors:
            bad('error in the event loop: %r' % (sim.W.loop_errors[0],))
        return {'probs': probs, 'trace': trace, 'states': states, 'steps': len(trace),
                'outcome': repr((trace[-1:], states[-1:]))}
    return body


E1 = ('set', 'r', 'a.q.x', 'event')
P1 = ('set', 's', 'a.q.x', 'period 2')
E2 = ('set', 'e', 'b-y', ('event',))
P2 = ('set', 's', 'b-y', ['event-rate', 1, 2.5])
N1 = ('set', 'r', 'a.q.x', 'none')
GONE, BACK, OTHER = ('sens', 'a.q.x', None), ('sens', 'a.q.x', 0), ('sens', 'a.q.x', 1)
LOSE, TIME = ('lose',), ('time', 1.)


def scenarios(tier):
    T = tier == 'thorough'
    d = 1 if T else 0
    A = ['hold', 'fail', 'lose']
    one = [E1, P1, N1, ('drop', 'r', 'a.q.x'), ('drop', 's', 'a.q.x'), GONE, BACK, OTHER, LOSE, TIME]
    two = [E1, P1, E2, P2, ('drop', 'e', 'b-y'), ('swap', 'b-y'), OTHER, LOSE, TIME]
    lis = [('listen', 1, 'a.q.x'), ('listen', 2, 'a.q.x'), ('listen', 1, 'b-y'), E1, E2, ('push', 'a.q.x'),
           ('push', 'b-y'), GONE, OTHER, LOSE, TIME]
    req = [('req', 'do-it', 1), ('req', 'do-it', None), ('req', 'ex-cl', 0), ('req', 'do-it', 0), OTHER,
           LOSE, TIME]
    tab = [('one sensor', one, 3 + d, ['hold'], 1, {}),
           ('one sensor faults', one, 2 + d, A, 2, {}),
           ('one sensor deep', one, 4 + d, [], 0, {}),
           ('two sensors', two, 3 + d, ['hold', 'lose'], 1, {}),
           ('two sensors set', two, 2 + d, ['hold', 'lose'], 2, {'start': (E1, E2)}),
           ('before the connection', two + [GONE, ('up',)], 3 + d, ['hold'], 1, {'early': True}),
           ('before the start', [E1, E2, N1, ('drop', 'r', 'a.q.x'), ('drop', 'e', 'b-y'), ('listen', 1, 'a.q.x'),
                                 ('up',), GONE, TIME], 4 + d, [], 0, {'early': 'start'}),
           ('all', [('setall', 'event'), ('setall', 'none'), P1, ('drop', 'r', 'a.q.x'), GONE, BACK,
                    LOSE, TIME], 3 + d, ['hold', 'lose'], 1, {}),
           ('listeners', lis, 3 + d, ['hold'], 1, {}),
           ('listeners deep', lis[:1] + lis[3:4] + lis[5:6] + lis[7:] + [BACK], 4 + d, ['lose'], 1,
            {'start': (E1,)}),
           ('listeners early', lis + [('up',)], 3 + d, [], 0, {'early': True}),
           ('poll', [('poll', 'a.q.x'), ('push', 'a.q.x'), ('listen', 1, 'a.q.x'), E1, OTHER, LOSE, TIME],
            3 + d, A, 1, {'faulty': ('sensor-value', 'sensor-sampling')})]
    for i, spec in enumerate((dict(controlled=True, always_excluded_requests=['ex-cl', 'sensor_value']),
                              dict(controlled=False, always_allowed_requests=['do_it', 'ex-cl'],
                                   always_excluded_requests=['ex_cl']),
                              dict(controlled=False))):
        tab.append(('requests %d' % i, req, 3 + d, A if i == 0 else [], 1,
                    {'spec': spec, 'faulty': ('help', 'sensor-list')}))
    return [('%s:%s' % (name, ' '.join(str(x) for x in op)), drive(ops, depth, ans, first=i, **kw), bound)
            for name, ops, depth, ans, bound, kw in tab for i, op in enumerate(ops)]


def run(tier, rep):
    tasks = rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:80])
    ex = rig.parallel(rep, tasks, batch=1)
    rep.sample({'history': ['set a.q.x event', 'a.q.x disappears', 'connection lost', 'a.q.x is back'],
                'outcome': 'sampled with event again'})
    ex.finish()


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj.get('scenario'):
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
    run('quick', rep)
