"""C10: a sensor reading is never torn.

Writer and reader threads (and a server answering sensor-value requests) share a
sensor; the code of katcp.core / katcp.resource carries scheduling points before
every statement and attribute access, and all schedules with a bounded number of
pre-emptions are executed.  Every reading seen anywhere must be one of the
readings that were set, and a reader never sees them go back in time.
"""
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load(instrument=['core', 'resource'])
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, ProtocolFlags, DeviceServer  # noqa
from katcp import resource  # noqa

PARSER = katcp.MessageParser()
READINGS = [(100.0, Sensor.NOMINAL, 1), (200.0, Sensor.WARN, 2), (300.0, Sensor.ERROR, 3)]


class Manager(object):
    """Stands in for a sensor manager of a KATCPSensor."""
    resource_name = 'res'

    def time(self):
        return sim.W.now

    def get_sampling_strategy(self, name):
        return ('auto',)


class KSensor(resource.KATCPSensor):
    pass


def make(kind):
    if kind == 'sensor':
        s = Sensor.integer('a', default=0, initial_status=Sensor.UNKNOWN)
        s.set(50.0, Sensor.UNKNOWN, 0)
        return s
    s = KSensor(dict(name='a', sensor_type=Sensor.INTEGER, description='d', units='', params=[]),
                Manager())
    s.set(50.0, Sensor.UNKNOWN, 0)
    return s


ALL = [(50.0, Sensor.UNKNOWN, 0)] + READINGS
STATUS_OF = dict((v, k) for k, v in Sensor.STATUSES.items())
FMT = dict((('%.6f' % t).encode(), i) for i, (t, _, _) in enumerate(ALL))


def index(reading):
    """Position in ALL of a (timestamp, status, value) reading, or None if it is torn."""
    t = tuple(reading)
    if isinstance(t[1], str):           # KATCPSensor reports the name of the status
        t = (t[0], STATUS_OF.get(t[1]), t[2])
    return ALL.index(t) if t in ALL else None


def index_formatted(ts, st, v):
    i = FMT.get(ts)
    if i is None or Sensor.STATUSES_RAW[ALL[i][1]] != st or b'%d' % ALL[i][2] != v:
        return None
    return i


def write(sensor, how, r):
    if how == 'set':
        sensor.set(*r)
    elif how == 'set_value':
        sensor.set_value(r[2], r[1], r[0])
    else:
        sensor.set_formatted(('%.6f' % r[0]).encode(), Sensor.STATUSES_RAW[r[1]], b'%d' % r[2], 5)


def read(sensor, how):
    """Returns (index or None if torn, what was seen)."""
    if how == 'read':
        r = sensor.read()
        return index(r), tuple(r)
    if how == 'attr':
        r = sensor.read()
        t = (r.timestamp, r.status, r.value)
        return index(t), t
    if how == 'formatted':
        r = sensor.read_formatted()
        return index_formatted(*r), r
    if how == 'reading':
        r = sensor.reading
        t = (r.timestamp, r.status, r.value)
        return index(t), t
    if how == 'value':
        v = sensor.value() if callable(sensor.value) else sensor.value
        hits = [i for i, r in enumerate(ALL) if r[2] == v]
        return (hits[0] if hits else None), v
    if how == 'status':
        v = sensor.status() if callable(sensor.status) else sensor.status
        hits = [i for i, r in enumerate(ALL) if r[1] == STATUS_OF.get(v, v)]
        return (hits[0] if hits else None), v


def drive(kind, writer, readers, n_writes=2, n_reads=2, observer=False,
          writers=1):
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        probs = []
        seen = []

        def main():
            sched.preempt = False
            s = make(kind)
            told = []

            class O(object):
                def update(self, sensor, reading):
                    told.append(index(reading))
            if observer and kind == 'sensor':
                s.attach(O())
            if observer and kind != 'sensor':
                def listener(sensor, r):
                    told.append(index((r.timestamp, r.status, r.value)))
                s.register_listener(listener, reading=True)
                s.register_listener(lambda rt, t, st, v: told.append(index((t, st, v))))
            sched.preempt = True

            def w(n=0):
                for r in READINGS[n:n_writes:writers]:
                    write(s, writer, r)

            def rd(how):
                last = -1
                for _ in range(n_reads):
                    i, what = read(s, how)
                    seen.append((how, i))
                    if i is None:
                        probs.append('%s returned %r, which was never set' % (how, what))
                    elif i < last and writers == 1:
                        probs.append('%s went back in time: %r' % (how, seen))
                    else:
                        last = i
            ths = [sim.VThreadAPI(target=w, args=(n,), name='writer %d' % n)
                   for n in range(writers)]
            ths += [sim.VThreadAPI(target=rd, args=(h,), name='reader %s' % h) for h in readers]
            for t in ths:
                t.start()
            for t in ths:
                t.join(5)
            sched.preempt = False
            for h in readers:
                i, what = read(s, h)
                if i not in (list(range(1, n_writes + 1)) if writers > 1 else [n_writes]):
                    probs.append('finally %s returns %r' % (h, what))
            if observer:
                want = list(range(1, n_writes + 1))
                if kind != 'sensor':
                    want = [i for i in want for _ in (0, 1)]
                if (told if writers == 1 else sorted(told, key=repr)) != want:
                    probs.append('observers were told %r, expected %r' % (told, want))
        sched.run(main)
        for n, e in sched.uncaught:
            probs.append('thread %s died with %r' % (n, e[1]))
        if sched.deadlocked:
            probs.append('deadlock %r' % (sched.deadlocked,))
        return {'probs': probs, 'outcome': tuple(seen), 'steps': sched.npoints, 'trace': repr(seen),
                'states': [tuple(seen)]}
    return body


def drive_server(handler_thread, req, thread_safe=True):
    """A user thread updates the sensor while clients ask for its value."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        probs = []
        seen = []

        def main():
            sched.preempt = False
            s = make('sensor')

            class S(DeviceServer):
                PROTOCOL_INFO = ProtocolFlags(5, 0, set([ProtocolFlags.MULTI_CLIENT,
                                                         ProtocolFlags.MESSAGE_IDS]))

                def setup_sensors(self):
                    self.add_sensor(s)
            srv = S('127.0.0.1', 0)
            srv.set_concurrency_options(thread_safe=thread_safe, handler_thread=handler_thread)
            srv.start(5)
            p = sim.Peer.to_listener(srv.bind_address[1])
            sim.vsleep(0.01)
            p.lines()
            sched.preempt = True

            def w():
                for r in READINGS[:2]:
                    s.set(*r)
            t = sim.VThreadAPI(target=w, name='writer')
            p.send(req)
            t.start()
            t.join(5)
            sim._block(lambda: b'!' in bytes(b''.join(p.sock.rx)), 1, 'reply')
            sched.preempt = False
            sim.vsleep(0.1)
            for ln in p.lines():
                m = PARSER.parse(ln)
                if m.mtype == Message.INFORM:
                    ts, n, name, st, v = m.arguments
                    i = index_formatted(ts, st, v)
                    seen.append(i)
                    if i is None:
                        probs.append('%r reports a reading that was never set' % ln)
            srv.stop()
            srv.join(5)
        sched.run(main)
        for n, e in sched.uncaught:
            probs.append('thread %s died with %r' % (n, e[1]))
        if sched.deadlocked:
            probs.append('deadlock %r' % (sched.deadlocked,))
        if not seen:
            probs.append('no reading was reported')
        return {'probs': probs, 'outcome': tuple(seen), 'steps': sched.npoints, 'trace': repr(seen)}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for kind, hows in (('sensor', ('read', 'attr', 'formatted', 'value', 'status')),
                       ('ksensor', ('reading', 'value', 'status'))):
        for w in ('set', 'set_value', 'set_formatted'):
            for h in hows:
                out.append(('%s:%s:%s' % (kind, w, h), drive(kind, w, [h], n_writes=3 if th else 2,
                                                             n_reads=3 if th else 2), 3))
            for h2 in (hows[0], hows[-1]):
                out.append(('%s:%s:%s+%s' % (kind, w, hows[0], h2), drive(kind, w, [hows[0], h2]),
                            3 if th else 2))
            out.append(('%s:%s:observed' % (kind, w), drive(kind, w, [hows[0]], observer=True,
                                                            n_writes=3), 3 if th else 2))
            out.append(('%s:%s:two writers' % (kind, w),
                        drive(kind, w, [hows[0]], observer=True, n_writes=3 if th else 2, n_reads=1,
                              writers=2), 3 if th else 2))
    for h in (False, True):
        for req in (b'?sensor-value a\n', b'?sensor-value /a/\n', b'?sensor-sampling a event\n'):
            out.append(('server%d:%s' % (h, req.decode().strip()), drive_server(h, req),
                        2 if th else 1))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: 'torn-reading'), batch=1)
    rep.sample({'scenario': 'sensor:set:read', 'schedules': 'all with <= 3 pre-emptions'})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
