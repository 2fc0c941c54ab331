"""C07: sampling strategies send exactly the updates they promise.

A real server on a virtual clock; a client sets a strategy and every sequence of
sensor updates, passing of time and re-configuration up to a depth is executed.
After every event the #sensor-status informs received are compared with a
reference model (auto, event, differential, period: exact; event-rate and
differential-rate: minimum / maximum separation, freshness, no spurious updates).
"""
import itertools

from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, ProtocolFlags, DeviceServer  # noqa

PARSER = katcp.MessageParser()
EPS = 1e-6
STATUS = {'n': Sensor.NOMINAL, 'w': Sensor.WARN, 'e': Sensor.ERROR}
RAW = {'n': b'nominal', 'w': b'warn', 'e': b'error'}
_F = ProtocolFlags
PROTO = {
    '5': _F(5, 0, set([_F.MULTI_CLIENT, _F.MESSAGE_IDS])),
    '51': _F(5, 1, set([_F.MULTI_CLIENT, _F.MESSAGE_IDS, _F.BULK_SET_SENSOR_SAMPLING])),
    '4': _F(4, 0, set([_F.MULTI_CLIENT])),
}


def make_class(proto, sensors):
    class S(DeviceServer):
        VERSION_INFO = ('dev', 1, 0)
        BUILD_INFO = ('dev', 1, 0, '')
        PROTOCOL_INFO = PROTO[proto]

        def setup_sensors(self):
            for s in sensors:
                self.add_sensor(s)
    return S


def make_sensor(kind, name='s'):
    if kind == 'int':
        return Sensor.integer(name, default=0, initial_status=Sensor.NOMINAL)
    if kind == 'float':
        return Sensor.float(name, default=0.0, initial_status=Sensor.NOMINAL)
    if kind == 'bool':
        return Sensor.boolean(name, default=False, initial_status=Sensor.NOMINAL)
    if kind == 'str':
        return Sensor.string(name, default='x', initial_status=Sensor.NOMINAL)
    if kind == 'disc':
        return Sensor.discrete(name, params=['a', 'b'], default='a', initial_status=Sensor.NOMINAL)
    if kind == 'time':
        return Sensor.timestamp(name, default=0.0, initial_status=Sensor.NOMINAL)
    raise KeyError(kind)


def wire_value(kind, v, v4=False):
    if kind == 'int':
        return b'%d' % v
    if kind == 'float':
        return repr(v).encode()
    if kind == 'bool':
        return b'1' if v else b'0'
    if kind == 'time':
        return (('%d' % round(v * 1000)) if v4 else '%.6f' % v).encode()
    return v.encode()


def changed(spec, a, b):
    """Does reading b differ enough from reading a to be reported by the strategy?"""
    if spec[0] in ('differential', 'differential-rate'):
        if b[2] == a[2] or (b[2] != b[2] and a[2] != a[2]):
            return a[1] != b[1]
        return a[1] != b[1] or not abs(b[2] - a[2]) <= spec[1]
    return a[1:] != b[1:]


class Model(object):
    """Expected updates of one strategy (or limits on them)."""

    def __init__(self, spec):
        self.spec = spec
        self.last = None        # (time, reading) last sent
        self.next = None
        self.dirty = False      # a reportable change has happened since the last update
        self.late = None

    def rate(self):
        s = self.spec
        if s[0] == 'event-rate':
            return s[1], s[2]
        if s[0] == 'differential-rate':
            return s[2], s[3]

    def start(self, now, cur):
        if self.spec[0] == 'none':
            return []
        self.last = (now, cur)
        if self.spec[0] == 'period':
            self.next = now + self.spec[1]
        return [cur]

    def on_set(self, now, cur):
        """Expected immediate updates; None = decided by limits()."""
        k = self.spec[0]
        if k == 'auto':
            self.last = (now, cur)
            return [cur]
        if k in ('event', 'differential'):
            if cur[2] != cur[2] and self.last[1][2] != self.last[1][2] and \
                    cur[1] == self.last[1][1]:
                return 'any'        # from NaN to NaN: not specified
            if changed(self.spec, self.last[1], cur):
                self.last = (now, cur)
                return [cur]
            return []
        if k in ('event-rate', 'differential-rate'):
            if changed(self.spec, self.last[1], cur) or cur[2] != cur[2]:
                self.dirty = True       # (from NaN to NaN: not specified)
            return None
        return []

    def on_time(self, now, cur):
        """Expected updates now that the clock shows ``now``."""
        if self.spec[0] == 'period':
            if self.next is not None and now >= self.next - EPS:
                self.next += self.spec[1]
                self.last = (now, cur)
                return [cur]
            return []
        if self.rate():
            return None
        return []

    def limits(self, now, cur, sent, trace):
        """Judge the updates of a rate-limited strategy; returns problems."""
        s, l = self.rate()
        out = []
        for t, r in sent:
            gap = t - self.last[0]
            if gap < s - EPS:
                out.append('two updates %.3f s apart (minimum %.3f)' % (gap, s))
            if not self.dirty and gap < l - EPS:
                out.append('update without a change after %.3f s' % gap)
            if r != cur:
                out.append('update %r is not the current reading %r' % (r, cur))
            self.last = (t, r)
            self.dirty = False
        if now - self.last[0] >= l + EPS:
            out.append('no update for %.3f s (maximum %.3f)' % (now - self.last[0], l))
        if now - self.last[0] >= s - EPS and changed(self.spec, self.last[1], cur):
            out.append('reading %r not reported %.3f s after the last update %r' % (
                cur, now - self.last[0], self.last[1]))
        return out


def spec_args(spec, proto):
    out = [spec[0].encode()]
    for i, p in enumerate(spec[1:]):
        if proto == '4' and spec[0] == 'period':
            out.append(b'%d' % round(p * 1000))
        else:
            out.append(('%g' % p).encode())
    return out


def drive(kind, specs, values, depth, proto='5', times=(0.5, 1.0, 3.0), late=(), reconf=1,
          queued=False):
    """specs[0] is set first; further specs may replace it (at most reconf times)."""
    v4 = proto == '4'

    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        sensor = make_sensor(kind)
        srv = rig.start_async_server(make_class(proto, [sensor]), loop)
        peer = rig.connect(srv, loop)
        trace, probs, states = [], [], []
        cur = [(sim.W.now, 'n', sensor.value())]
        seq = [0]
        setlog = [cur[0]]
        sensor.set(cur[0][0], STATUS['n'], cur[0][2])
        got = []                # (time, reading) in order
        replies = []

        def collect():
            for ln in peer.lines():
                m = PARSER.parse(ln)
                if m.mtype == Message.REPLY:
                    replies.append((m, len(got)))
                elif m.name == 'sensor-status':
                    ts, n, name, st, val = m.arguments
                    hits = [r for r in setlog if fmt_ts(r[0]) == ts]
                    if n != b'1' or name != b's':
                        probs.append('malformed inform %r' % ln)
                    elif not hits:
                        probs.append('inform with an unknown time stamp: %r' % ln)
                    else:
                        r = hits[-1]
                        if (RAW[r[1]], wire_value(kind, r[2], v4)) != (st, val):
                            probs.append('inform %r does not match the reading %r' % (ln, r))
                        got.append((sim.W.now, r))
                else:
                    probs.append('unexpected %r' % ln)

        def fmt_ts(t):
            return (b'%d' % round(t * 1000)) if v4 else ('%.6f' % t).encode()

        model = [None]

        def expect(want, what):
            new, got[:] = list(got), []
            if model[0] is None:
                if new:
                    probs.append('updates without a strategy: %r' % (new,))
                return
            if want is None:
                probs.extend(model[0].limits(sim.W.now, cur[0], new, trace))
            elif want == 'any':
                if len(new) > 1 or any(r is not cur[0] for _, r in new):
                    probs.append('after %s: sent %r' % (what, new))
                if new:
                    model[0].last = new[-1]
            elif [r for _, r in new] != want:
                probs.append('after %s: sent %r, expected %r' % (
                    what, [r for _, r in new], want))

        def sample(spec):
            args = spec_args(spec, proto)
            peer.send(b'?sensor-sampling s ' + b' '.join(args) + b'\n')
            loop.drain()
            collect()
            if len(replies) != 1:
                probs.append('%d replies to ?sensor-sampling' % len(replies))
                return
            m, before = replies.pop()
            want = [b'ok', b's'] + args
            if m.arguments[:3] != want[:3] or len(m.arguments) != len(want) or \
                    any(float(a) != float(b) for a, b in zip(m.arguments[3:], want[3:])):
                probs.append('reply %r, expected %r' % (m.arguments, want))
            model[0] = Model(spec)
            if before != (0 if spec[0] == 'none' else 1):
                probs.append('%d updates before the reply' % before)
            expect(model[0].start(sim.W.now, cur[0]), 'setting %r' % (spec,))

        trace.append('sample %r' % (specs[0],))
        sample(specs[0])
        nre = 0
        ops = [('set', v) for v in values] + [('time', t) for t in times] + \
              [('late', t) for t in late]
        for _ in range(depth):
            if probs:
                break
            o = list(ops)
            if nre < reconf:
                o += [('spec', s) for s in specs[1:]]
            op = o[ch.choose(len(o), 0, 'op')]
            trace.append('%s %r' % op)
            if op[0] == 'set':
                seq[0] += 1
                st, v = op[1]
                r = (sim.W.now + seq[0] * 0.0625, st, v)
                setlog.append(r)
                cur[0] = r
                if queued:
                    sim.W.ident = 4711
                try:
                    sensor.set(r[0], STATUS[st], v)
                finally:
                    sim.W.ident = None
                loop.drain()
                collect()
                expect(model[0].on_set(sim.W.now, r), 'update %r' % (r,))
            elif op[0] == 'time':
                end = sim.W.now + op[1]
                while True:
                    nd = loop.next_deadline()
                    stop = nd is None or nd > end
                    # visit every instant at which the model expects something, too
                    t = end if stop else max(nd, sim.W.now)
                    sim.W.now = t
                    loop.drain()
                    collect()
                    expect(model[0].on_time(t, cur[0]), 'time %r' % (t - 1000000.0,))
                    if stop or probs:
                        break
                if not probs and model[0].next is not None and sim.W.now > model[0].next + EPS:
                    probs.append('periodic update is overdue')
            elif op[0] == 'late':
                # the loop is held up for op[1] seconds
                sim.W.now += op[1]
                loop.drain()
                collect()
                new, got[:] = list(got), []
                m = model[0]
                if m.next is not None:
                    if m.next <= sim.W.now + EPS:
                        if not 1 <= len(new) <= 2:
                            probs.append('%d updates after a delay' % len(new))
                        # the next one is due within a period, on the original
                        # schedule if that was not missed altogether
                        nd = loop.next_deadline()
                        if sim.W.now < m.next + m.spec[1] - EPS and (
                                nd is None or abs(nd - m.next - m.spec[1]) > EPS):
                            probs.append('a delay of less than a period shifts the schedule')
                        elif nd is None or nd - sim.W.now > m.spec[1] + EPS or \
                                nd - sim.W.now <= 0:
                            probs.append('next update %r s after a delay' % (
                                nd and nd - sim.W.now))
                        else:
                            m.next = nd
                    elif new:
                        probs.append('early periodic update')
                elif m.rate():
                    probs.extend(m.limits(sim.W.now, cur[0], new, trace))
                elif new:
                    probs.append('unexpected updates %r' % (new,))
            else:
                nre += 1
                sample(op[1])
            states.append((model[0].spec, cur[0][1:], model[0].dirty,
                           model[0].last and round(sim.W.now - model[0].last[0], 3),
                           model[0].next and round(model[0].next - sim.W.now, 3)))
        if sim.W.loop_errors:
            probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'probs': probs, 'trace': ' | '.join(trace), 'steps': len(trace), 'states': states,
                'outcome': tuple(trace[-1:]) + (len(setlog), nre, model[0] and model[0].last)}
    return body


def drive_burst(spec, kind='int', n=3):
    """Several updates inside one loop iteration, the iteration starting at any phase."""
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        sensor = make_sensor(kind)
        srv = rig.start_async_server(make_class('5', [sensor]), loop)
        peer = rig.connect(srv, loop)
        peer.send(b'?sensor-sampling s ' + b' '.join(spec_args(spec, '5')) + b'\n')
        loop.drain()
        probs, trace = [], []
        sent = []

        def collect():
            for ln in peer.lines():
                m = PARSER.parse(ln)
                if m.name == 'sensor-status':
                    sent.append((sim.W.now, m.arguments[3], int(m.arguments[4])))
        collect()
        vals = {'event-rate': 1, 'differential-rate': 10, 'event': 1, 'differential': 10,
                'auto': 1, 'period': 1}[spec[0]]
        v = 0
        for i in range(n):
            dt = (0.0, 0.5, 1.0, 2.0)[ch.choose(4, 0, 'dt')]
            how = ch.choose(3, 0, 'how')
            # time passes without the loop running, then updates arrive as callbacks
            sim.W.now += dt
            trace.append('%.1f s later' % dt)
            for _ in range(how + 1):
                v += vals
                loop.add_callback(sensor.set, sim.W.now, Sensor.NOMINAL, v)
            trace.append('%d updates in one iteration' % (how + 1))
            loop.drain()
            collect()
        # after the minimum period the client must know the latest value
        smin = {'event-rate': 1, 'differential-rate': 2}.get(spec[0])
        loop.advance(spec[smin] if smin else spec[1] if spec[0] == 'period' else 0)
        collect()
        if not sent or sent[-1][2] != v:
            probs.append('the latest value %r was not reported: %r' % (v, sent))
        for a, b in zip(sent, sent[1:]):
            if smin and b[0] - a[0] < spec[smin] - EPS:
                probs.append('updates %.2f s apart' % (b[0] - a[0]))
            if b[2] < a[2]:
                probs.append('values out of order: %r' % (sent,))
        if spec[0] == 'auto' and [s[2] for s in sent] != list(range(v + 1)):
            probs.append('auto sent %r' % (sent,))
        return {'probs': probs, 'trace': ' | '.join(trace), 'steps': n,
                'outcome': (v, tuple((round(t - 1000000, 3), s, x) for t, s, x in sent))}
    return body


def drive_bad(proto, args, kind):
    """Invalid strategies are refused and leave the old strategy alone."""
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        sensor = make_sensor(kind)
        srv = rig.start_async_server(make_class(proto, [sensor]), loop)
        peer = rig.connect(srv, loop)
        probs = []
        peer.send(b'?sensor-sampling s auto\n')
        loop.drain()
        peer.lines()
        peer.send(b'?sensor-sampling ' + b' '.join(args) + b'\n')
        loop.drain()
        lines = peer.lines()
        if len(lines) != 1 or not lines[0].startswith(b'!sensor-sampling fail'):
            probs.append('%r was answered with %r' % (args, lines))
        peer.send(b'?sensor-sampling s\n')
        loop.drain()
        lines = peer.lines()
        if lines != [b'!sensor-sampling ok s auto']:
            probs.append('after a refused request: %r' % (lines,))
        sensor.set(5.0, Sensor.WARN, sensor.value())
        loop.drain()
        n = len(peer.lines())
        if n != 1:
            probs.append('%d updates by the old strategy' % n)
        return {'probs': probs, 'steps': 3, 'outcome': (proto, tuple(args)), 'trace': repr(args)}
    return body


def drive_v4_periods(lo, hi):
    """katcp v4 periods are milliseconds: reported back unchanged and obeyed."""
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        sensor = make_sensor('int')
        srv = rig.start_async_server(make_class('4', [sensor]), loop)
        peer = rig.connect(srv, loop)
        probs = []
        for ms in range(lo, hi):
            peer.send(b'?sensor-sampling s period %d\n' % ms)
            loop.drain()
            lines = peer.lines()
            if lines[-1] != b'!sensor-sampling ok s period %d' % ms:
                probs.append('period %d: %r' % (ms, lines[-1]))
            nd = loop.next_deadline()
            if nd is None or abs(nd - sim.W.now - ms / 1000.0) > 1e-6:
                probs.append('period %d ms: next update in %r s' % (ms, nd and nd - sim.W.now))
        return {'probs': probs, 'steps': hi - lo, 'outcome': (lo, hi), 'trace': 'v4 periods'}
    return body


def bad_args(proto):
    out = [
        ('int', [b'x', b'auto']), ('int', [b's', b'nonsense']), ('int', [b's', b'auto', b'1']),
        ('int', [b's', b'none', b'1']), ('int', [b's', b'event', b'1']), ('int', [b's', b'period']),
        ('int', [b's', b'period', b'0']), ('int', [b's', b'period', b'-1']),
        ('int', [b's', b'period', b'x']), ('int', [b's', b'period', b'1', b'2']),
        ('int', [b's', b'differential']), ('int', [b's', b'differential', b'0']),
        ('int', [b's', b'differential', b'-1']), ('int', [b's', b'differential', b'x']),
        ('int', [b's', b'differential', b'1.5']),
        ('float', [b's', b'differential', b'0']), ('float', [b's', b'differential', b'-0.5']),
        ('bool', [b's', b'differential', b'1']), ('str', [b's', b'differential', b'1']),
        ('disc', [b's', b'differential', b'1']), ('time', [b's', b'differential', b'0']),
        ('int', [b's', b'event-rate']), ('int', [b's', b'event-rate', b'1']),
        ('int', [b's', b'event-rate', b'2', b'1']), ('int', [b's', b'event-rate', b'-1', b'1']),
        ('int', [b's', b'event-rate', b'1', b'2', b'3']), ('int', [b's', b'event-rate', b'x', b'1']),
        ('int', [b's', b'differential-rate', b'1', b'2']),
        ('int', [b's', b'differential-rate', b'1', b'2', b'1']),
        ('bool', [b's', b'differential-rate', b'1', b'1', b'2']),
        ('str', [b's', b'differential-rate', b'1', b'1', b'2']),
        ('int', [b's', b'differential-rate', b'x', b'1', b'2']), ('int', [b's', b'\\@']),
        ('int', [b'\xff', b'auto']), ('int', [b's', b'\xff']),
    ]
    if proto == '4':
        out += [('int', [b's', b'event-rate', b'1', b'2']),
                ('int', [b's', b'differential-rate', b'1', b'1', b'2'])]
    return out


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    out = []

    def add(name, *a, **kw):
        out.append((name, drive(*a, **kw), 0))
    ints = [('n', 1), ('n', 3), ('w', 3)]
    P1, P3 = ('period', 1.0), ('period', 1.5)
    for queued in (False, True):
        q = ':queued' if queued else ''
        add('auto' + q, 'int', [('auto',)], ints + [('n', 0)], 4 + d, queued=queued)
        add('event' + q, 'int', [('event',)], ints + [('n', 0)], 5 + d, times=(1.0,), queued=queued)
        for thr in (1, 2):
            add('differential %d%s' % (thr, q), 'int', [('differential', thr)],
                [('n', 1), ('n', 2), ('n', 3), ('w', 3), ('n', 0)], 4 + d, times=(1.0,), queued=queued)
        add('differential float' + q, 'float', [('differential', 0.5)],
            [('n', 0.25), ('n', 0.5), ('n', 1.0), ('e', 1.0), ('n', 1.75)], 4 + d, times=(1.0,),
            queued=queued)
        for s, l in ((1.0, 3.0), (0.0, 2.0), (2.0, 2.0), (1.0, 1e99), (0.5, 1.5)):
            for vals in ([('n', 1), ('n', 0)], [('n', 1), ('w', 1)]):
                add('event-rate %r %r %r%s' % (s, l, vals, q), 'int', [('event-rate', s, l)],
                    vals, (4 if queued else 5) + 2 * d, times=(0.5, 1.0, 3.0) if th else (0.5, 1.5), queued=queued)
        for dv, s, l in ((1, 1.0, 3.0), (2, 0.0, 2.0), (2, 1.0, 1e99)):
            add('differential-rate %r %r %r%s' % (dv, s, l, q), 'int',
                [('differential-rate', dv, s, l)], [('n', 1), ('n', 3), ('w', 1)], 5 + d,
                times=(0.5, 1.5), queued=queued)
    nan, inf = float('nan'), float('inf')
    for spec in (('auto',), ('event',), ('differential', 0.5), ('event-rate', 1.0, 3.0),
                 ('differential-rate', 0.5, 1.0, 3.0)):
        add('not finite %s' % spec[0], 'float', [spec],
            [('n', 1.0), ('n', nan), ('n', inf), ('n', -inf), ('w', nan)], 4 + d, times=(0.5, 1.5))
    add('event-rate late', 'int', [('event-rate', 1.0, 3.0)], [('n', 1), ('n', 0)], 4 + d,
        times=(0.5, 1.0), late=(0.75, 3.5))
    add('period', 'int', [P1], [('n', 1), ('w', 2)], 5 + d)
    add('period late', 'int', [P1], [('n', 1)], 4 + d, times=(0.5, 1.0), late=(0.75, 1.0, 3.25))
    add('period 1.5', 'int', [P3], [('n', 1)], 4 + d, late=(5.0,))
    for kind, vals in (('bool', [('n', True), ('n', False), ('w', True)]),
                       ('str', [('n', 'y'), ('n', 'x'), ('e', 'y z')]),
                       ('disc', [('n', 'b'), ('n', 'a'), ('e', 'b')]),
                       ('time', [('n', 1.0), ('n', 0.0), ('w', 1.5)])):
        for spec in (('auto',), ('event',), ('event-rate', 1.0, 2.0)):
            add('%s %s' % (kind, spec[0]), kind, [spec], vals, 4 + d, times=(0.5, 1.0))
    add('time differential', 'time', [('differential', 1.0)],
        [('n', 1.0), ('n', 2.0), ('n', 3.5), ('w', 0.0)], 5 + d, times=(1.0,))
    # protocol versions
    for proto in ('4', '51'):
        for spec in (('auto',), ('event',), ('differential', 1), ('period', 1.0), ('period', 1.5)):
            add('v%s %s %r' % (proto, spec[0], spec[1:]), 'int', [spec], ints, 4, proto=proto)
        add('v%s time' % proto, 'time', [('event',)], [('n', 1.25), ('w', 2.5)], 4, proto=proto)
    for spec in (('event-rate', 1.0, 2.0), ('differential-rate', 1, 1.0, 2.0)):
        add('v51 %s' % spec[0], 'int', [spec], ints, 4, proto='51')
    # re-configuration
    sp = [('auto',), ('event',), ('period', 1.0), ('differential', 1), ('event-rate', 1.0, 2.0),
          ('differential-rate', 1, 1.0, 2.0), ('none',)]
    for a, b in itertools.product(sp, sp):
        add('replace %s>%s' % (a[0], b[0]), 'int', [a, b], [('n', 1), ('n', 3)], 4 + d,
            times=(0.5, 1.0), reconf=1)
    add('replace many', 'int', sp, [('n', 3)], 4, times=(1.0,), reconf=3)
    for spec in (('auto',), ('event',), ('differential', 1), ('event-rate', 1.0, 3.0),
                 ('event-rate', 0.5, 1e99), ('differential-rate', 1, 1.0, 3.0),
                 ('event-rate', 1.0, 1.0), ('period', 1.0)):
        out.append(('burst %r' % (spec,), drive_burst(spec, n=4 if th else 3), 0))
    for proto in ('5', '51', '4'):
        for kind, args in bad_args(proto):
            out.append(('refuse v%s %r' % (proto, args), drive_bad(proto, args, kind), 0))
    for lo in range(1, 10001, 1000):
        out.append(('v4 periods %d' % lo, drive_v4_periods(lo, lo + 1000), 0))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:40]),
                      batch=1)
    rep.sample({'scenario': 'event-rate', 'events': ['set 1', 'time 0.5', 'set 0', 'time 1.5']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
