"""C08: a cancelled, replaced or disconnected sampling strategy leaves nothing behind.

All sequences of setting / replacing / clearing strategies by two clients on two
sensors, sensor updates (from the event loop or another thread), client loss and
sensor removal, with every placement of a bounded number of "the loop has only
run part of its pending work" points.  After each history the system is probed:
who gets updates, who still observes which sensor, which timers are left.
"""
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load(instrument=['sampling'])
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, ProtocolFlags, DeviceServer  # noqa
from katcp.core import Reading  # noqa

PARSER = katcp.MessageParser()
_F = ProtocolFlags
OBSERVING = ('auto', 'event', 'event-rate', 'differential', 'differential-rate')
SPECS = {'auto': b'auto', 'event': b'event', 'period': b'period 10', 'none': b'none',
         'event-rate': b'event-rate 1 5', 'differential': b'differential 2',
         'differential-rate': b'differential-rate 2 1 5'}


class Obs(Sensor):
    """Sensor that knows (through its public interface) who observes it."""

    def __init__(self, name):
        Sensor.__init__(self, Sensor.INTEGER, name, default=0, initial_status=Sensor.NOMINAL)
        self.seen = set()

    def attach(self, o):
        self.seen.add(o)
        Sensor.attach(self, o)

    def detach(self, o):
        self.seen.discard(o)
        Sensor.detach(self, o)


def make_class(sensors, bulk):
    class S(DeviceServer):
        VERSION_INFO = ('dev', 1, 0)
        BUILD_INFO = ('dev', 1, 0, '')
        PROTOCOL_INFO = _F(5, 1 if bulk else 0, set([_F.MULTI_CLIENT, _F.MESSAGE_IDS] + (
            [_F.BULK_SET_SENSOR_SAMPLING] if bulk else [])))

        def setup_sensors(self):
            for s in sensors:
                self.add_sensor(s)
    return S


def drive(ops, depth, bulk=False, thread_safe=False, n_clients=2):
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        sensors = dict((n, Obs(n)) for n in 'ab')
        srv = rig.start_async_server(make_class(sensors.values(), bulk), loop,
                                     thread_safe=thread_safe)
        peers = [rig.connect(srv, loop) for _ in range(n_clients)]
        base = loop.next_deadline()
        active = dict(((c, n), 'none') for c in range(n_clients) for n in 'ab')
        asked = [[] for _ in peers]     # requests not yet answered, per client
        quiet = [set('ab') for _ in peers]    # sensors that must not be reported now
        alive = [True] * n_clients
        old = []                        # removed sensor objects
        trace, probs, states = [], [], []
        val = [0]
        reports = []

        def collect():
            for c, p in enumerate(peers):
                for ln in p.lines():
                    m = PARSER.parse(ln)
                    if m.mtype == Message.REPLY:
                        if not asked[c]:
                            probs.append('stray reply %r' % ln)
                            continue
                        names, spec = asked[c].pop(0)
                        if m.arguments[0] == b'ok':
                            for n in names:
                                active[c, n] = spec
                        for n in names:
                            later = any(n in q[0] and q[1] != 'none' for q in asked[c])
                            if active[c, n] == 'none' and not later:
                                quiet[c].add(n)
                    elif m.name == 'sensor-status':
                        n = m.arguments[2].decode()
                        reports.append((c, n, int(m.arguments[4])))
                        if n in quiet[c]:
                            probs.append('client %d got %r after its strategy was removed' % (c, ln))
                    elif m.name not in ('interface-changed', 'disconnect'):
                        probs.append('unexpected %r' % ln)

        def request(c, names, spec, line):
            asked[c].append((names, spec))
            if spec != 'none':
                for n in names:
                    quiet[c].discard(n)
            peers[c].send(line)

        for _ in range(depth):
            cand = [o for o in ops if
                    (o[0] not in ('sample', 'bulk', 'clear', 'close', 'reset') or alive[o[1]]) and
                    (o[0] not in ('remove',) or o[1] in sensors) and
                    (o[0] not in ('set', 'setq', 'set-cb') or o[1] in sensors) and
                    (o[0] != 'add' or o[1] not in sensors)]
            op = cand[ch.choose(len(cand), 0, 'op')]
            trace.append(' '.join(str(x) for x in op))
            k = op[0]
            if k == 'sample':
                request(op[1], [op[2]], op[3], b'?sensor-sampling %s %s\n' % (
                    op[2].encode(), SPECS[op[3]]))
            elif k == 'bulk':
                names = op[2].split(',')
                request(op[1], names, op[3], b'?sensor-sampling %s %s\n' % (
                    op[2].encode(), SPECS[op[3]]))
            elif k == 'clear':
                request(op[1], list('ab'), 'none', b'?sensor-sampling-clear\n')
            elif k in ('close', 'reset'):
                alive[op[1]] = False
                if k == 'close':
                    peers[op[1]].close()
                else:
                    peers[op[1]].reset()
                for n in 'ab':
                    active[op[1], n] = 'none'
                asked[op[1]] = []
            elif k in ('set', 'setq', 'set-cb'):
                val[0] += 5
                s = sensors[op[1]]
                if k == 'set-cb':
                    loop.add_callback(s.set, sim.W.now, Sensor.NOMINAL, val[0])
                else:
                    sim.W.ident = 4711 if k == 'setq' else None
                    try:
                        s.set(sim.W.now, Sensor.NOMINAL, val[0])
                    finally:
                        sim.W.ident = None
            elif k == 'remove':
                s = sensors.pop(op[1])
                old.append(s)
                srv.remove_sensor(s if op[2] else op[1])
                for c in range(n_clients):
                    # requests on their way may still succeed or fail
                    asked[c] = [(q[0], 'none' if op[1] in q[0] else q[1]) if q[0] == [op[1]] else q
                                for q in asked[c]]
            elif k == 'add':
                sensors[op[1]] = Obs(op[1])
                srv.add_sensor(sensors[op[1]])
            elif k == 'time':
                loop.advance(op[1])
            steps = ch.choose(5, 1, 'partial')
            if steps:
                steps = (0, 1, 2, 4)[steps - 1]
                trace.append('(%d steps)' % steps)
                for _ in range(steps):
                    loop.step()
                collect()
            else:
                loop.drain()
                collect()
                if k == 'remove':
                    for c in range(n_clients):
                        active[c, op[1]] = 'none'
                if base is None and not any(asked) and loop.next_deadline() is not None and \
                        not [v for v in active.values() if v == 'period' or '-rate' in v]:
                    probs.append('a timer is left although no strategy needs one')
            states.append((tuple(sorted(active.items())), tuple(alive), tuple(sorted(sensors)),
                           len(old), tuple(len(a) for a in asked), tuple(sorted(quiet[0])), steps))
            if probs:
                break
        if not probs:
            loop.drain()
            collect()
            for c in range(n_clients):
                if alive[c] and asked[c]:
                    probs.append('requests of client %d not answered' % c)
        if not probs:
            # strategies on removed sensors are gone
            for s in old:
                if s.seen:
                    probs.append('removed sensor %s still has %d observers' % (s.name, len(s.seen)))
                n0 = len(reports)
                s.set(sim.W.now, Sensor.WARN, 12345)
                loop.drain()
                collect()
                if len(reports) != n0:
                    probs.append('update of a removed sensor was reported')
            if any(s.name in sensors for s in old):
                gone = set(s.name for s in old)
            else:
                gone = set()
            # what each client is told about its strategies is what it gets
            for c in range(n_clients):
                if not alive[c]:
                    continue
                for n in sorted(sensors):
                    asked[c].append(([n], active[c, n]))
                    peers[c].send(b'?sensor-sampling %s\n' % n.encode())
                    loop.drain()
                    lines = peers[c].lines()
                    asked[c].pop()
                    want = b'!sensor-sampling ok %s %s' % (n.encode(), SPECS[active[c, n]])
                    if n in gone:
                        if len(lines) == 1 and lines[0].startswith(b'!sensor-sampling ok '):
                            rest = lines[0].split(b' ', 3)[3]
                            active[c, n] = [q for q in SPECS if SPECS[q] == rest][0]
                    elif lines != [want]:
                        probs.append('client %d: %r, expected %r' % (c, lines, want))
        if not probs:
            loop.advance(1.5)       # past all minimum periods
            collect()
            for n in sorted(sensors):
                want_obs = sum(1 for c in range(n_clients) if active[c, n] in OBSERVING)
                if len(sensors[n].seen) != want_obs:
                    probs.append('sensor %s has %d observers, expected %d' % (
                        n, len(sensors[n].seen), want_obs))
                del reports[:]
                val[0] += 5
                sensors[n].set(sim.W.now, Sensor.NOMINAL, val[0])
                loop.drain()
                loop.advance(1.5)
                collect()
                for c in range(n_clients):
                    a = active[c, n] if alive[c] else 'none'
                    k = [r for r in reports if r == (c, n, val[0])]
                    lo, hi = {'none': (0, 0), 'period': (0, 1), 'event-rate': (1, 2),
                              'differential-rate': (1, 2)}.get(a, (1, 1))
                    if not lo <= len(k) <= hi:
                        probs.append('update of %s was reported %d times to client %d (%s)' % (
                            n, len(k), c, a))
            # periodic reports
            del reports[:]
            loop.advance(9.99)
            t0 = sim.W.now
            collect()
            for c in range(n_clients):
                for n in sorted(sensors):
                    k = [r for r in reports if r[:2] == (c, n)]
                    a = active[c, n] if alive[c] else 'none'
                    lo, hi = {'period': (0, 1), 'event-rate': (1, 2),
                              'differential-rate': (1, 2)}.get(a, (0, 0))
                    if not lo <= len(k) <= hi:
                        probs.append('client %d sensor %s (%s): %d reports in 10 s' % (
                            c, n, a, len(k)))
            if not any(v != 'none' for k2, v in active.items() if k2[1] in sensors):
                if loop.next_deadline() is not None and base is None:
                    probs.append('timers left although no strategy is active')
            # finally everybody leaves
            for p in peers:
                p.close()
            loop.drain()
            for s in list(sensors.values()) + old:
                if s.seen:
                    probs.append('sensor %s still observed after all clients left' % s.name)
            if base is None and loop.next_deadline() is not None:
                probs.append('timers left after all clients left')
        if sim.W.loop_errors:
            probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'probs': probs, 'trace': ' | '.join(trace), 'steps': len(trace), 'states': states,
                'outcome': (tuple(trace[-2:]), tuple(sorted(active.items())))}
    return body


def drive_threads(what, kind, handler_thread, before=None, sets=1):
    """Server with its own threads; a user thread updates the sensor meanwhile."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        probs = []
        out = []

        def main():
            sched.preempt = False
            sensor = Obs('a')
            srv = make_class([sensor], False)('127.0.0.1', 0)
            srv.set_concurrency_options(thread_safe=True, handler_thread=handler_thread)
            srv.start(5)
            loop = srv.ioloop
            peer = sim.Peer.to_listener(srv.bind_address[1])
            sim.vsleep(0.01)
            peer.lines()
            base = loop.next_deadline()
            if before:
                peer.send(b'?sensor-sampling a %s\n' % SPECS[before])
                sim.vsleep(0.01)
                peer.lines()
            sched.preempt = True

            def update():
                for i in range(sets):
                    sensor.set(sim.W.now, Sensor.NOMINAL, 5 * (i + 1))
            t = sim.VThreadAPI(target=update, name='user')
            t.start()
            if what in ('lost', 'reset'):
                peer.send(b'?sensor-sampling a %s\n' % SPECS[kind])
                sim.point('send')
                if what == 'lost':
                    peer.close()
                else:
                    peer.reset()
            elif what == 'none':
                peer.send(b'?sensor-sampling a none\n')
            elif what == 'clear':
                peer.send(b'?sensor-sampling-clear\n')
            elif what == 'remove':
                srv.remove_sensor(sensor)
            t.join(5)
            sim.vsleep(0.05)
            sched.preempt = False
            lines = [PARSER.parse(ln) for ln in peer.lines()]
            sensor.set(sim.W.now, Sensor.WARN, 99)
            sim.vsleep(12)
            late = [PARSER.parse(ln) for ln in peer.lines()]
            if what in ('none', 'clear'):
                ri = [i for i, m in enumerate(lines) if m.mtype == Message.REPLY]
                if len(ri) != 1:
                    probs.append('replies: %r' % [bytes(m) for m in lines])
                else:
                    late = lines[ri[0] + 1:] + late
            late = [bytes(m) for m in late if m.name == 'sensor-status']
            if late and what in ('none', 'clear', 'remove'):
                probs.append('updates after the strategy was removed: %r' % (late,))
            if sensor.seen:
                probs.append('the sensor still has %d observers' % len(sensor.seen))
            if base is None and loop.next_deadline() is not None:
                probs.append('a timer is left')
            out.extend(bytes(m) for m in lines)
            srv.stop()
            srv.join(5)
        sched.run(main)
        if sched.deadlocked:
            probs.append('deadlock: %r' % (sched.deadlocked,))
        for n, e in sched.uncaught:
            if n != 'main':
                probs.append('thread %s died with %r' % (n, e[1]))
        if sim.W.loop_errors:
            probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'probs': probs, 'outcome': tuple(out), 'steps': sched.npoints,
                'trace': '%s %s' % (what, kind)}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    b = 2
    out = []

    def add(name, ops, depth, bound=b, **kw):
        for i in range(len(ops)):
            out.append(('%s/%d' % (name, i), first(drive(ops, depth, **kw), i), bound))

    def sample(c, n, *ks):
        return [('sample', c, n, k) for k in ks]
    for k in ('auto', 'event', 'period', 'event-rate', 'differential-rate', 'differential'):
        add('one %s' % k, sample(0, 'a', k, 'none') + [
            ('setq', 'a'), ('clear', 0), ('close', 0)] + ([('set', 'a'), ('set-cb', 'a')]
                                                       if th else []), 4, n_clients=1, bound=2 if th else 1)
        add('lost %s' % k, sample(0, 'a', k) + [('setq', 'a'), ('close', 0), ('reset', 0),
                                                ('time', 1.0)],
            3 + d, n_clients=1, bound=3 if th else 2)
    add('replace', sample(0, 'a', 'auto', 'period', 'event-rate', 'event', 'none') + [('setq', 'a')],
        3 + d, n_clients=1)
    add('remove', sample(0, 'a', 'auto', 'period') + sample(0, 'b', 'event') + [
        ('remove', 'a', True), ('remove', 'a', False), ('add', 'a'), ('setq', 'a')], 4,
        n_clients=1, bound=2 if th else 1)
    add('two clients', sample(0, 'a', 'auto', 'none') + sample(1, 'a', 'event', 'period') + [
        ('close', 0), ('setq', 'a'), ('remove', 'a', True), ('clear', 1)], 4,
        bound=2 if th else 1)
    add('two sensors', sample(0, 'a', 'auto') + sample(0, 'b', 'event-rate', 'none') + [
        ('clear', 0), ('set', 'b'), ('close', 0)], 4, n_clients=1, bound=2 if th else 1)
    add('bulk', [('bulk', 0, 'a,b', 'auto'), ('bulk', 0, 'a,a', 'period'),
                 ('bulk', 0, 'b,a,b', 'event-rate'), ('bulk', 0, 'a,b', 'none'),
                 ('setq', 'a'), ('close', 0)], 3 + d, bulk=True, n_clients=1)
    add('thread-safe', sample(0, 'a', 'auto', 'period', 'none') + [
        ('setq', 'a'), ('close', 0), ('clear', 0)], 3 + d, thread_safe=True, n_clients=1)
    for h in (True, False):
        for k in ('auto', 'period', 'event-rate') + (('event', 'differential-rate') if th else ()):
            for what in ('lost', 'reset'):
                for bf in (None, 'auto'):
                    out.append(('threads%d:%s:%s:%s' % (h, what, k, bf),
                                drive_threads(what, k, h, bf), 2 if th else 1))
            for what in ('none', 'clear', 'remove'):
                out.append(('threads%d:%s:%s' % (h, what, k), drive_threads(what, k, h, k, 2),
                            2 if th else 1))
    return out


def first(body, i):
    from .c15 import _Forced
    return lambda ch: body(_Forced(ch, i))


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:40]),
                      batch=1)
    rep.sample({'scenario': 'lost auto', 'events': ['sample 0 a auto', '(1 steps)', 'close 0']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
