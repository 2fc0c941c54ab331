"""C18: a client's sensor object tells its listeners everything and wait() never misses.

All sequences of updates, registrations, waits of every kind and time are run on
the real KATCPSensor and compared after every operation with a reference model.
"""
from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
from .c15 import with_first_choice  # noqa
from tornado import gen  # noqa
from tornado.concurrent import Future  # noqa
from katcp import Sensor, resource  # noqa


class Manager(object):
    resource_name = 'dev'

    def __init__(self, loop):
        self.time = loop.time
        self.strategy = ('event',)
        self.polls = []
        self.calls = []

    def get_sampling_strategy(self, name):
        assert name == 'a.b-c'
        return self.strategy

    def poll_sensor(self, name):
        assert name == 'a.b-c'
        f = Future()
        self.polls.append(f)
        return f


class Boom(Exception):
    pass


# conditions of waits: what they say about a reading (value, status)
CONDS = {'=1': lambda v, s: v == 1,
         '=2': lambda v, s: v == 2,
         'is2': lambda v, s: v == 2,
         'warn': lambda v, s: s == 'warn',
         'boom1': lambda v, s: Boom if v == 1 else v == 2,
         'any': lambda v, s: True}


class Sys(object):
    def __init__(self, sname):
        sim.reset()
        self.loop = sim.VLoop(make_current=True)
        self.m = Manager(self.loop)
        self.s = resource.KATCPSensor(dict(sensor_type=Sensor.INTEGER, name='a.b-c',
                                           description='d', units='m', params=[-9, 9]), self.m)
        self.probs = []
        self.fns = {}
        self.heard = []         # what listeners got
        self.want = []
        self.regs = {}          # listener -> with reading, in order of registration
        self.cur = (0, 0, 'unknown', None)
        self.waits = []
        self.poll_f = []
        self.ts = -1
        self.acting = None

    def listener(self, i):
        """The callable; bound methods are made anew each time, as users do."""
        if i == 'm':
            return self.on_update
        if i == 'n':
            return self.on_reading
        if i not in self.fns:
            def fn(*a):
                self.heard.append((i,) + self.norm(a))
                if i == 'raise':
                    raise Boom('listener')
                if i == 'once':
                    self.s.unregister_listener(fn)
            self.fns[i] = fn
        return self.fns[i]

    def norm(self, a):
        if a[0] is self.s:
            r = a[1]
            return ('reading', r.received_timestamp, r.timestamp, r.status, r.value)
        return ('plain',) + tuple(a)

    def on_update(self, *a):
        self.heard.append(('m',) + self.norm(a))

    def on_reading(self, *a):
        self.heard.append(('n',) + self.norm(a))

    def updated(self, value, status, ts):
        """The model of an update."""
        self.cur = (sim.W.now, ts, status, value)
        for i, reading in list(self.regs.items()):
            self.want.append((i, 'reading' if reading else 'plain') + self.cur)
            if i == 'once':
                del self.regs[i]
        for row in self.poll_f:
            if isinstance(row[2], list) and not row[3]:
                row[2].append(self.cur)     # fresher than what was asked for
        self.judge(value, status)

    def judge(self, value, status, only=None):
        for w in self.waits:
            if w['out'] is None and (only is None or w is only):
                r = CONDS[w['cond']](value, status)
                if r:
                    w['evals'].append('boom' if r is Boom else 'ok')
                    if not w['fresh']:
                        w['out'] = w['evals'][:]

    def do(self, op):
        k = op[0]
        s = self.s
        if k == 'val':
            self.ts += 1
            if op[2] is None:
                self.updated(op[1], 'nominal', sim.W.now)
                s.set_value(op[1])
            else:
                self.updated(op[1], op[2], self.ts)
                s.set_value(op[1], Sensor.STATUS_NAMES[op[2]], self.ts)
        elif k == 'fmt':
            self.ts += 1
            self.updated(op[1], op[2], float(self.ts))
            s.set_formatted(b'%d' % self.ts, op[2].encode(), b'%d' % op[1], 5)
        elif k == 'reg':
            self.regs[op[1]] = op[2]
            s.register_listener(self.listener(op[1]), op[2])
        elif k == 'unreg':
            self.regs.pop(op[1], None)
            s.unregister_listener(self.listener(op[1]))
        elif k == 'wait':
            self.wait(op[1], op[2])
        elif k == 'drain':
            self.loop.drain()
            self.drained()
        elif k == 'time':
            self.loop.drain()
            self.drained()
            self.loop.advance(op[1])
            for w in self.waits:
                if w['out'] is None and w['deadline'] is not None and w['deadline'] <= sim.W.now:
                    w['out'] = ['timeout']
            self.loop.drain()
        elif k == 'poll':
            f = getattr(s, 'get_' + op[1])()
            self.poll_f.append([f, op[1], None, False])
        elif k == 'polled':
            if self.m.polls:
                p = self.m.polls.pop(0)
                row = [r for r in self.poll_f if r[2] is None][0]
                if op[1] == 'ok':
                    self.do(('fmt', 2, 'warn'))
                    row[2] = [self.cur]
                    p.set_result(None)
                else:
                    row[2] = 'failed'
                    p.set_exception(resource.KATCPSensorError('no answer'))
        elif k == 'strategy':
            self.m.strategy = op[1]

    def wait(self, cond, timeout):
        fn = CONDS[cond]

        def test(r):
            self.evaluated += 1
            x = fn(r.value, r.status)
            if x is Boom:
                raise Boom(cond)
            return x
        c = int(cond[1]) if cond[0] == '=' else test
        try:
            f = self.s.wait(c, timeout) if timeout is not False else self.s.wait(c)
        except resource.KATCPSensorError:
            if self.m.strategy != ('none',):
                self.probs.append('wait refused although there is a strategy')
            return
        if self.m.strategy == ('none',):
            self.probs.append('wait accepted without a strategy')
            return
        t = None if timeout is None or timeout is False else sim.W.now + timeout
        w = {'cond': cond, 'deadline': t, 'out': None, 'evals': [], 'fresh': True, 'f': f,
             'zero': timeout == 0 and timeout is not False}
        self.waits.append(w)
        self.judge(self.cur[3], self.cur[2], w)

    def drained(self):
        for row in self.poll_f:
            row[3] = row[2] is not None
        for w in self.waits:
            w['fresh'] = False
            if w['out'] is None and w['evals']:
                w['out'] = w['evals'][:]

    def outcome(self, f):
        if not f.done():
            return None
        try:
            r = f.result()
            return 'ok' if r is True else repr(r)
        except gen.TimeoutError:
            return 'timeout'
        except Boom:
            return 'boom'
        except Exception as e:
            return repr(e)

    def check(self, op):
        if self.heard != self.want:
            n = 0
            while n < min(len(self.heard), len(self.want)) and self.heard[n] == self.want[n]:
                n += 1
            self.probs.append('listeners heard %r, should have heard %r'
                              % (self.heard[n:n + 2], self.want[n:n + 2]))
        r = self.s.reading
        got = (r.received_timestamp, r.timestamp, r.status, r.value)
        if got != self.cur or (self.s.value, self.s.status) != (self.cur[3], self.cur[2]):
            self.probs.append('the reading is %r, should be %r' % (got, self.cur))
        for i in ('a', 'b', 'm', 'n', 'raise', 'once'):
            if self.s.is_listener(self.listener(i)) != (i in self.regs):
                self.probs.append('is_listener(%s) is wrong' % i)
        if op[0] in ('drain', 'time'):
            for w in self.waits:
                o = self.outcome(w['f'])
                if w['zero'] and o == 'timeout':
                    continue        # there was no time to look
                if o != w['out'] and not (w['out'] and o in w['out']):
                    self.probs.append('wait for %s with time-out %s gives %r, should be %r'
                                      % (w['cond'], w['deadline'], o, w['out']))
            for f, kind, want, _ in self.poll_f:
                if want is None:
                    if f.done():
                        self.probs.append('get_%s returned before the poll' % kind)
                elif want == 'failed':
                    if not f.done() or not isinstance(f.exception(), resource.KATCPSensorError):
                        self.probs.append('get_%s should fail: %r' % (kind, f))
                elif not f.done() or f.exception() is not None:
                    self.probs.append('get_%s: %r' % (kind, f))
                else:
                    x = f.result()
                    if kind == 'reading':
                        x = (x.received_timestamp, x.timestamp, x.status, x.value)
                    want = [{'reading': c, 'value': c[3], 'status': c[2]}[kind] for c in want]
                    if x not in want:
                        self.probs.append('get_%s gives %r, should be %r' % (kind, x, want))
        errs = [e for e in sim.W.loop_errors]
        if errs:
            self.probs.append('error in the event loop: %r' % (errs[0],))

    evaluated = 0


def drive(ops, depth, start=()):
    def body(ch):
        s = Sys('a.b-c')
        trace, states = [], []
        for o in start:
            s.do(o)
        for _ in range(depth):
            o = ops[ch.choose(len(ops), 0, 'op')]
            trace.append(o)
            s.do(o)
            s.check(o)
            if s.probs:
                break
            states.append((s.cur[2:], tuple(s.regs.items()),
                           tuple((w['cond'], w['out'] and w['out'][0]) for w in s.waits), len(s.m.polls)))
        if not s.probs:
            s.do(('drain',))
            s.check(('drain',))
            if not s.probs:
                s.do(('time', 10.))
                s.check(('time', 10.))
        if not s.probs:
            # whoever was answered does not listen any more
            for w in s.waits:
                if w['out'] is None:
                    w['f'].add_done_callback(lambda f: f.exception())
            if all(w['out'] for w in s.waits):
                s.evaluated = 0
                s.do(('val', 1, None))
                s.do(('val', 2, 'warn'))
                s.do(('time', 10.))
                s.check(('time', 10.))
                if s.evaluated:
                    s.probs.append('a wait that is over still evaluates its condition')
        for w in s.waits:
            if w['f'].done():
                w['f'].exception()
        for row in s.poll_f:
            if row[0].done():
                row[0].exception()
        return {'probs': s.probs, 'trace': trace, 'states': states, 'steps': len(trace),
                'outcome': repr((s.cur[2:], [w['out'] for w in s.waits], s.want[-2:]))}
    return body


def scenarios(tier):
    d = 1 if tier == 'thorough' else 0
    V = [('val', 1, None), ('val', 2, 'warn'), ('fmt', 2, 'nominal'), ('fmt', 1, 'error')]
    groups = [
        ('listeners', [V[0], V[3], ('reg', 'a', False), ('reg', 'a', True), ('reg', 'b', True),
                       ('unreg', 'a'), ('reg', 'raise', False), ('reg', 'once', True),
                       ('unreg', 'b')], 5 + d, ()),
        ('methods', [V[1], V[2], ('reg', 'm', False), ('reg', 'n', True), ('reg', 'm', True),
                     ('unreg', 'm'), ('unreg', 'n'), ('reg', 'a', False)], 5 + d, ()),
        ('wait', [V[0], V[1], ('wait', '=1', None), ('wait', 'is2', 2.), ('wait', '=2', False),
                  ('drain',), ('time', 1.), ('wait', 'warn', 1.)], 5 + d, ()),
        ('wait 2', [V[0], V[1], V[3], ('wait', 'boom1', None), ('wait', 'boom1', 1.),
                    ('drain',), ('time', 1.), ('wait', 'any', None)], 5 + d, ()),
        ('wait 0', [V[0], V[1], ('wait', '=1', 0), ('wait', '=1', 0.5), ('drain',), ('time', 0.5),
                    ('wait', '=2', 1.)], 5 + d, ()),
        ('wait twice', [V[0], V[2], ('wait', '=1', None), ('wait', 'is2', None), ('reg', 'a', True),
                        ('drain',), ('unreg', 'a')], 5 + d, (V[0],)),
        ('strategy', [V[0], ('strategy', ('none',)), ('strategy', ('event',)), ('wait', '=1', None),
                      ('wait', 'any', 1.), ('drain',), ('time', 1.)], 5 + d, ()),
        ('poll', [V[0], ('poll', 'reading'), ('poll', 'value'), ('poll', 'status'), ('polled', 'ok'),
                  ('polled', 'fail'), ('drain',), ('wait', '=2', None)], 5 + d, (('reg', 'a', True),)),
    ]
    out = []
    for name, ops, depth, start in groups:
        for i, op in enumerate(ops):
            out.append(('%s:%s' % (name, ' '.join(str(x) for x in op)),
                        with_first_choice(drive(ops, depth, start), i), 0))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'wait', 'events': ['wait for 1', 'value 1', 'drain'], 'outcome': 'True'})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
