"""C09: sensor updates made in other threads are never lost on the way to clients.

A user thread updates a sensor while clients set up or hold strategies on a
server running its own threads.  All schedules with a bounded number of
pre-emptions (also inside the sampling code) are executed; once the system is
idle every client must know the current reading, and unconditional strategies
must have reported every update made after they were confirmed.
"""
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load(instrument=['sampling'])
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor  # noqa
from .c08 import make_class, SPECS, PARSER  # noqa

MINP = {'event-rate': 1.0, 'differential-rate': 1.0}


def drive(kinds, values, handler_thread, held=False, status=False, pause=0):
    """kinds: one strategy per client; values: successive values set by the user thread."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        probs = []
        out = []

        def main():
            sched.preempt = False
            sensor = Sensor.integer('a', default=0, initial_status=Sensor.NOMINAL)
            srv = make_class([sensor], False)('127.0.0.1', 0)
            srv.set_concurrency_options(thread_safe=True, handler_thread=handler_thread)
            srv.start(5)
            peers = [sim.Peer.to_listener(srv.bind_address[1]) for _ in kinds]
            sim.vsleep(0.01)
            for p in peers:
                p.lines()
            got = [[] for _ in kinds]
            confirmed = [None] * len(kinds)     # number of updates begun when the reply came
            begun = [0]

            def collect():
                for c, p in enumerate(peers):
                    for ln in p.lines():
                        m = PARSER.parse(ln)
                        if m.mtype == Message.REPLY:
                            confirmed[c] = begun[0]
                            if m.arguments[0] != b'ok':
                                probs.append('reply %r' % ln)
                        elif m.name == 'sensor-status':
                            got[c].append((m.arguments[3], int(m.arguments[4])))
                        else:
                            probs.append('unexpected %r' % ln)
            if held:
                for p, k in zip(peers, kinds):
                    p.send(b'?sensor-sampling a %s\n' % SPECS[k])
                sim.vsleep(0.01)
                collect()
                if pause:
                    sim.vsleep(pause)
                    collect()
            sched.preempt = True

            def update():
                for v in values:
                    begun[0] += 1
                    st = Sensor.WARN if status and begun[0] % 2 else Sensor.NOMINAL
                    sensor.set(sim.W.now, st, v)
            t = sim.VThreadAPI(target=update, name='user')
            t.start()
            if not held:
                for p, k in zip(peers, kinds):
                    p.send(b'?sensor-sampling a %s\n' % SPECS[k])
                sim._block(lambda: all(b'!' in bytes(b''.join(p.sock.rx)) for p in peers), 1, 'reply')
                collect()
            t.join(5)
            sim.vsleep(0.01)
            sched.preempt = False
            collect()
            sim.vsleep(max([MINP.get(k, 0) for k in kinds]) + 0.01)
            collect()
            _, st, v = sensor.read_formatted()
            for c, k in enumerate(kinds):
                if k == 'period':
                    sim.vsleep(10)
                    collect()
                if not got[c]:
                    probs.append('client %d (%s) was told nothing' % (c, k))
                elif got[c][-1] != (st, int(v)) and not (
                        k.startswith('differential') and got[c][-1][0] == st and
                        abs(got[c][-1][1] - int(v)) <= 2):
                    probs.append('client %d (%s) was last told %r but the sensor is %r' % (
                        c, k, got[c][-1], (st, v)))
                if k == 'auto' and confirmed[c] is not None:
                    rest = list(values[confirmed[c]:])
                    for g in got[c]:
                        if rest and g[1] == rest[0]:
                            rest.pop(0)
                    if rest:
                        probs.append('client %d (auto) missed %r: %r' % (c, rest, got[c]))
            out.extend(tuple(g) for g in got)
            srv.stop()
            srv.join(5)
        sched.run(main)
        if sched.deadlocked:
            probs.append('deadlock: %r' % (sched.deadlocked,))
        for n, e in sched.uncaught:
            if n != 'main':
                probs.append('thread %s died with %r' % (n, e[1]))
        if sim.W.loop_errors:
            probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'probs': probs, 'outcome': tuple(out), 'steps': sched.npoints,
                'trace': 'clients told %r' % (out,), 'states': [tuple(out)]}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    out = []

    def add(name, bound, *a, **kw):
        out.append((name, drive(*a, **kw), bound))
    ks = ('auto', 'event', 'event-rate', 'differential', 'differential-rate', 'period')
    for h in (False, True):
        for k in ks:
            add('start%d:%s' % (h, k), 2 if th or not h else 1, [k], (5, 10), h)
            add('start-status%d:%s' % (h, k), 2 if th else 1, [k], (5, 5, 1), h, status=True)
            add('held%d:%s' % (h, k), 3 if th else 2, [k], (5, 10, 20), h, held=True)
            add('back%d:%s' % (h, k), 3 if th else 2, [k], (5, 0), h, held=True, pause=2.0)
    for a, b in (('auto', 'event'), ('event', 'event-rate'), ('auto', 'auto'),
                 ('differential', 'period')):
        add('two:%s,%s' % (a, b), 2 if th else 1, [a, b], (5, 10), True)
        add('two-held:%s,%s' % (a, b), 2 if th else 1, [a, b], (5, 10), True, held=True)
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: 'lost-update'), batch=1)
    rep.sample({'scenario': 'start1:event', 'schedules': 'all with <= 2 pre-emptions'})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
