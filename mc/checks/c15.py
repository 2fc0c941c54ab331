"""C15: waiting for events, states and combinations of futures never misses or invents a wake-up.

All sequences of operations (set, clear, change state, waits of every kind with
and without time-out, waiters that act again when woken, time) up to a depth are
run on the real AsyncEvent / AsyncState / until_any / until_some and compared
after every operation with a reference model; threads blocking in
wait_with_ioloop are explored with bounded pre-emption.
"""
import gc
import weakref

from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
from tornado import gen  # noqa
from tornado.concurrent import Future as TFuture  # noqa
from katcp import core  # noqa


# -- events and states --------------------------------------------------------

# operations: ('state', s), ('set', e), ('clear', e), ('wait', kind), ('time', dt)
# conditions: ('st', s), ('ev', e)
WAITS = {
    'st-b': ([('st', 'b')], None, None),
    'st-c': ([('st', 'c')], None, None),
    'st-b/1': ([('st', 'b')], 1.0, None),
    'in-bc': ([('st', 'b'), ('st', 'c')], None, None),
    'in-ab': ([('st', 'a'), ('st', 'b')], None, None),
    'in-bc/1': ([('st', 'b'), ('st', 'c')], 1.0, None),
    'in-cb/2': ([('st', 'c'), ('st', 'b')], 2.0, None),
    'st-b>c': ([('st', 'b')], None, ('state', 'c')),
    'in-bc>a': ([('st', 'b'), ('st', 'c')], None, ('state', 'a')),
    'st-b>in-bc': ([('st', 'b')], None, ('wait', 'in-bc')),
    'st-c>in-ab': ([('st', 'c')], None, ('wait', 'in-ab')),
    'ev': ([('ev', 0)], None, None),
    'ev/1': ([('ev', 0)], 1.0, None),
    'ev>clear': ([('ev', 0)], None, ('clear', 0)),
    'ev>wait': ([('ev', 0)], None, ('wait', 'ev')),
    'ev>set1': ([('ev', 0)], None, ('set', 1)),
    'any01': ([('ev', 0), ('ev', 1)], None, None),
    'any10': ([('ev', 1), ('ev', 0)], None, None),
    'any01/1': ([('ev', 0), ('ev', 1)], 1.0, None),
    'any-eb': ([('ev', 0), ('st', 'b')], None, None),
    'any-be/1': ([('st', 'b'), ('ev', 0)], 1.0, None),
    'any01>clear': ([('ev', 0), ('ev', 1)], None, ('clear', 0)),
    'cbev': ([('ev', 2)], None, None),
}
KIND_IN = {'in-bc', 'in-ab', 'in-bc/1', 'in-cb/2', 'in-bc>a'}


class Sys(object):
    """Implementation and model side by side."""

    def __init__(self):
        sim.reset()
        self.loop = sim.VLoop(make_current=True)
        self.st = core.AsyncState(('a', 'b', 'c'))
        self.cb_seen, self.cb_want = [], []
        self.ev = [core.AsyncEvent(), core.AsyncEvent(),
                   core.AsyncCallbackEvent(self.on_change)]
        self.m_state = 'a'
        self.m_ev = [False, False, False]
        self.m_wait = {}        # id -> [conds, deadline, reaction, outcome or None]
        self.real = {}          # id -> list of outcomes
        self.n = 0
        self.probs = []

    def on_change(self, flag):
        self.cb_seen.append(flag)
        if len(self.cb_seen) == 2:
            raise ValueError('callback error')

    def true(self, c):
        return self.m_state == c[1] if c[0] == 'st' else self.m_ev[c[1]]

    def fire(self, cond):
        for w in self.m_wait.values():
            if w[3] is None and cond in w[0]:
                w[3] = 'ok'

    def wait(self, kind):
        conds, timeout, reaction = WAITS[kind]
        i = self.n
        self.n += 1
        out = self.real[i] = []
        self.m_wait[i] = [conds, None if timeout is None else sim.W.now + timeout, reaction,
                          'ok' if any(self.true(c) for c in conds) else None]
        if kind in KIND_IN:
            f = self.st.until_state_in(*[c[1] for c in conds], timeout=timeout)
        elif len(conds) == 1 and conds[0][0] == 'st':
            f = self.st.until_state(conds[0][1], timeout=timeout)
        elif len(conds) == 1:
            f = self.ev[conds[0][1]].until_set(timeout=timeout)
        else:
            fs = [self.st.until_state(c[1]) if c[0] == 'st' else self.ev[c[1]].until_set()
                  for c in conds]
            f = core.until_any(*fs, timeout=timeout)

        def woken(f):
            try:
                r = f.result()
                out.append('ok' if r is True else repr(r))
            except gen.TimeoutError:
                out.append('timeout')
            except Exception as e:
                out.append(repr(e))
            if reaction is not None and out == ['ok']:
                self.do(reaction)
        f.add_done_callback(woken)

    def do(self, op):
        k, x = op
        if k == 'state':
            self.m_state = x
            self.fire(('st', x))
            self.st.set_state(x)
        elif k == 'set':
            self.m_ev[x] = True
            self.fire(('ev', x))
            if x == 2:
                self.cb_want.append(True)
            self.ev[x].set()
        elif k == 'clear':
            self.m_ev[x] = False
            if x == 2:
                self.cb_want.append(False)
            self.ev[x].clear()
        elif k == 'wait':
            self.wait(x)
        elif k == 'time':
            t = sim.W.now + x
            for w in self.m_wait.values():
                if w[3] is None and w[1] is not None and w[1] <= t:
                    w[3] = 'timeout'
            self.loop.advance(x)

    def check(self):
        if self.st.state != self.m_state:
            self.probs.append('state is %r, expected %r' % (self.st.state, self.m_state))
        if [e.is_set() for e in self.ev] != self.m_ev:
            self.probs.append('event flags differ from %r' % (self.m_ev,))
        if self.cb_seen != self.cb_want:
            self.probs.append('event change callback saw %r, expected %r' % (
                self.cb_seen, self.cb_want))
        for i in sorted(self.m_wait):
            want = [] if self.m_wait[i][3] is None else [self.m_wait[i][3]]
            if self.real[i] != want:
                self.probs.append('waiter %d: %r, expected %r' % (i, self.real[i], want))

    def key(self):
        return (self.m_state, tuple(self.m_ev), tuple(
            (tuple(w[0]), w[1] and w[1] - sim.W.now, w[2]) for w in self.m_wait.values()
            if w[3] is None))


def drive_sys(ops, depth, max_waiters=3):
    def body(ch):
        s = Sys()
        trace, states = [], []
        for _ in range(depth):
            cand = [o for o in ops if o[0] != 'wait' or s.n < max_waiters]
            op = cand[ch.choose(len(cand), 0, 'op')]
            trace.append('%s %s' % op)
            s.do(op)
            s.check()
            states.append(s.key())
            if s.probs:
                break
            # waiters resolve without help of the loop; run it every now and then
            if op[0] == 'time':
                s.loop.drain()
        return {'probs': s.probs, 'trace': ' | '.join(trace), 'steps': depth, 'states': states,
                'outcome': tuple(tuple(v) for v in s.real.values())}
    return body


# -- combining futures ---------------------------------------------------------

def drive_combine(depth, n=3, kw=False):
    """Resolve n futures in all orders / ways while any / some waiters exist."""
    names = ['f%d' % i for i in range(n)]

    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        fs = [TFuture() for _ in range(n)]
        order = []          # resolution order
        outc = {}
        waiters = []
        trace, probs, states = [], [], []
        ops = ([('ok', i) for i in range(n)] + [('fail', i) for i in range(n)] +
               [('any', s) for s in ((0, 1), (1, 0), (0, 2), (0, 1, 2))] +
               [('any/1', (0, 1))] +
               [('some', k) for k in (1, 2, None)] + [('some/1', 2), ('time', 1.0)])

        def outcome(f):
            if not f.done():
                return None
            try:
                return ('ok', f.result())
            except gen.TimeoutError:
                return ('timeout',)
            except Exception as e:
                return ('exc', str(e))
        for _ in range(depth):
            cand = [o for o in ops if not (o[0] in ('ok', 'fail') and o[1] in outc)
                    and not (len(waiters) >= 2 and o[0][:3] in ('any', 'som'))]
            op = cand[ch.choose(len(cand), 0, 'op')]
            trace.append('%s %s' % op)
            if op[0] in ('ok', 'fail'):
                i = op[1]
                order.append(i)
                if op[0] == 'ok':
                    outc[i] = ('ok', 'v%d' % i)
                    fs[i].set_result('v%d' % i)
                else:
                    outc[i] = ('exc', 'e%d' % i)
                    fs[i].set_exception(ValueError('e%d' % i))
            elif op[0] == 'time':
                loop.advance(op[1])
            elif op[0].startswith('any'):
                to = 1.0 if '/' in op[0] else None
                f = core.until_any(*[fs[i] for i in op[1]], timeout=to)
                waiters.append(dict(kind='any', on=op[1], f=f, n=len(order), at=sim.W.now,
                                    dl=None if to is None else sim.W.now + to, out=None))
            else:
                to = 1.0 if '/' in op[0] else None
                if kw:
                    f = core.until_some(done_at_least=op[1], timeout=to, **dict(zip(names, fs)))
                else:
                    f = core.until_some(*fs, done_at_least=op[1], timeout=to)
                waiters.append(dict(kind='some', k=n if op[1] is None else op[1], f=f,
                                    n=len(order), dl=None if to is None else sim.W.now + to,
                                    out=None))
            loop.drain()
            for w in waiters:
                if w['out'] is not None:
                    pass
                elif w['kind'] == 'any':
                    done0 = [i for i in w['on'] if i in order[:w['n']]]
                    done = done0 or [i for i in order if i in w['on']]
                    if done:
                        w['out'] = outc[done[0]]
                else:
                    seq = [i for i in range(n) if i in order[:w['n']]] + order[w['n']:]
                    res = []
                    for i in seq:
                        if outc[i][0] == 'exc':
                            w['out'] = outc[i]
                            break
                        res.append((names[i] if kw else i, outc[i][1]))
                        if len(res) == w['k']:
                            w['out'] = ('ok', res)
                            break
                if w['out'] is None and w['dl'] is not None and sim.W.now >= w['dl']:
                    w['out'] = ('timeout',)
                got = outcome(w['f'])
                if w['kind'] == 'some' and kw and got and got[0] == 'ok' and w['out']:
                    got = ('ok', sorted(got[1]))
                    if w['out'][0] == 'ok':
                        w['out'] = ('ok', sorted(w['out'][1]))
                if got != w['out']:
                    probs.append('waiter %r: %r, expected %r' % (w['kind'], got, w['out']))
            states.append((tuple(sorted(outc.items())), tuple(
                (w['kind'], w['out'] is None) for w in waiters)))
            if probs:
                break
        return {'probs': probs, 'trace': ' | '.join(trace), 'steps': depth, 'states': states,
                'outcome': tuple(repr(w['out']) for w in waiters)}
    return body


def drive_budget(durations, timeout):
    """future_timeout_manager: one time-out over several consecutive waits."""
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs = []
        got = []

        @gen.coroutine
        def multi():
            mt = core.future_timeout_manager(timeout, loop)
            for d in durations:
                rem = mt.remaining()
                if timeout and abs(rem - (timeout - (sim.W.now - t0))) > 1e-6:
                    probs.append('remaining() is %r' % rem)
                if not timeout and rem is not None:
                    probs.append('remaining() is %r without time-out' % rem)
                try:
                    yield mt(core.until_later(d, loop))
                    got.append(('ok', sim.W.now - t0))
                except gen.TimeoutError:
                    got.append(('timeout', sim.W.now - t0))
                    return
        t0 = sim.W.now
        f = multi()
        loop.advance(20)
        want, t = [], 0.0
        for d in durations:
            if timeout and t + d > timeout:
                want.append(('timeout', timeout))
                break
            t += d
            want.append(('ok', t))
        if not f.done() or [(a, round(b, 6)) for a, b in got] != want:
            probs.append('%r, expected %r' % (got, want))
        return {'probs': probs, 'outcome': tuple(got), 'steps': len(durations),
                'trace': '%r time-out %r' % (durations, timeout)}
    return body


def drive_forget(n, kind):
    """A finished until_any leaves nothing behind on the futures that are still pending.

    (Waits in a loop on a long-lived event would otherwise use ever more memory.)
    """
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs = []
        if kind == 'futures':
            fs = [TFuture() for _ in range(n)]
            finish = fs[:]
        elif kind == 'events':
            evs = [core.AsyncEvent(loop) for _ in range(n)]
            fs = [e.until_set() for e in evs]
        else:
            st = core.AsyncState(('s',) + tuple('abc'[:n]), ioloop=loop)
            fs = [st.until_state(x) for x in 'abc'[:n]]
        first = ch.choose(n, 0, 'first')
        timeout = (None, 5.0)[ch.choose(2, 0, 'timeout')]

        class Marker(object):
            pass
        m = Marker()
        ref = weakref.ref(m)
        if kind == 'state':
            f = st.until_state_in(*'abc'[:n], timeout=timeout)
        else:
            f = core.until_any(*fs, timeout=timeout)
        # the result future is what would be kept alive: hang something on it
        f.add_done_callback(lambda f, m=m: None)
        inner = weakref.ref(f)
        f.marker = m
        del m
        if kind == 'state':
            st.set_state('abc'[first])
        elif kind == 'events':
            evs[first].set()
        else:
            fs[first].set_result(1)
        loop.drain()
        if not f.done():
            probs.append('not finished')
        del f
        loop.advance(10)
        for _ in range(3):
            gc.collect()
        if inner() is not None or ref() is not None:
            probs.append('the result of a finished until_any is still referenced '
                         'by one of the futures not done')
        return {'probs': probs, 'outcome': (first, timeout), 'steps': 1,
                'trace': '%s first %d' % (kind, first)}
    return body


# -- threads ---------------------------------------------------------------------

def drive_threads(timeouts, script, pre=False):
    """Threads block in wait_with_ioloop while the loop thread runs the script."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        res = {}
        probs = []

        def main():
            sched.preempt = False
            loop = sim.VLoop(make_current=False)
            ev = core.AsyncEvent(loop)
            if pre:
                ev.set()
            lt = sim.VThreadAPI(target=loop.start, name='loop')
            lt.start()
            sched.preempt = True
            ths = []

            def work(i, to):
                t0 = sim.W.now
                r = ev.wait_with_ioloop(loop, to)
                res[i] = (r, sim.W.now - t0)
            for i, to in enumerate(timeouts):
                t = sim.VThreadAPI(target=work, args=(i, to), name='w%d' % i)
                t.start()
                ths.append(t)
            for op in script:
                if op == 'set':
                    loop.add_callback(ev.set)
                elif op == 'clear':
                    loop.add_callback(ev.clear)
                else:
                    sim.vsleep(op)
            for t in ths:
                t.join(10)
            sched.preempt = False
            loop.add_callback(loop.stop)
            lt.join(5)
        sched.run(main)
        if sched.deadlocked:
            probs.append('deadlock %r' % (sched.deadlocked,))
        for n, e in sched.uncaught:
            probs.append('thread %s died with %r' % (n, e[1]))
        stays_set = script and [o for o in script if isinstance(o, str)][-1:] == ['set']
        for i, to in enumerate(timeouts):
            if i not in res:
                if pre or stays_set or to is not None:
                    probs.append('waiter %d (time-out %r) never returned' % (i, to))
                continue
            r, dt = res[i]
            if to is not None and dt > to + 1e-6:
                probs.append('waiter %d returned after %r' % (i, dt))
            if r is not True and (to is None or dt < to - 1e-6):
                probs.append('waiter %d returned %r after %r' % (i, r, dt))
            if pre and script[:1] != ('clear',) and r is not True:
                probs.append('waiter %d returned %r although the event was set' % (i, r))
            if not pre and 'set' not in script and r is not False:
                probs.append('waiter %d returned %r but the event was never set' % (i, r))
            if script == ('set',) and r is not True:
                probs.append('waiter %d returned %r although the event was set' % (i, r))
        return {'probs': probs, 'outcome': tuple(sorted(res.items())), 'steps': sched.npoints,
                'trace': '%r %r' % (timeouts, script)}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    st = [('state', s) for s in 'abc']
    ev = [('set', 0), ('clear', 0), ('set', 1), ('clear', 1)]
    tm = [('time', 1.0)]

    def w(*ks):
        return [('wait', k) for k in ks]
    groups = [
        ('state', st + w('st-b', 'in-bc', 'in-ab', 'st-b>c', 'in-bc>a') + tm, 6 if th else 5),
        ('state-timeout', st[1:] + w('st-b/1', 'in-bc/1', 'in-cb/2', 'in-bc') + tm, 7 if th else 6),
        ('state-again', st + w('st-b>in-bc', 'st-c>in-ab', 'in-bc>a', 'st-c'), 6 if th else 5),
        ('event', ev[:2] + w('ev', 'ev/1', 'ev>clear', 'ev>wait') + tm, 7 if th else 6),
        ('two-events', ev + w('any01', 'any10', 'any01/1', 'ev>set1', 'any01>clear') + tm,
         6 if th else 5),
        ('mixed', st[:2] + ev[:2] + w('any-eb', 'any-be/1', 'in-ab', 'ev') + tm, 6 if th else 5),
        ('callback-event', [('set', 2), ('clear', 2)] + w('cbev'), 7),
    ]
    for name, ops, depth in groups:
        for i, op in enumerate(ops):
            # one task per first operation so that the work spreads over cores
            out.append(('%s:%s %s' % ((name,) + op), with_first(drive_sys, ops, depth, i), 0))
    for kw in (False, True):
        n = 16
        for i in range(n):
            out.append(('combine:%s:%d' % (kw, i), with_first_choice(
                drive_combine(5 if th else 4, kw=kw), i), 0))
    for timeout in (None, 2.0, 3.0):
        for durs in ((1.0, 1.5, 1.0), (2.5,), (0.5, 0.5, 0.5), (1.0, 4.0, 1.0), (3.5, 1.0)):
            out.append(('budget:%r:%r' % (timeout, durs), drive_budget(durs, timeout), 0))
    for tos in ((None,), (1.0,), (1.0, None), (1.0, 1.0), (None, None)):
        for script in (('set',), (0.5, 'set'), (2.0, 'set'), ('set', 'clear'), (0.5, 'set', 'clear'),
                       ('set', 'clear', 'set'), ()):
            if not [o for o in script if o == 'set'] and None in tos:
                continue
            if script and script[-1] == 'clear' and None in tos:
                continue
            out.append(('threads:%r:%r' % (tos, script), drive_threads(tos, script),
                        3 if th else 2))
    for tos in ((0,), (None,), (0, 1.0)):
        out.append(('threads:%r:set before' % (tos,), drive_threads(tos, (), pre=True), 3 if th else 2))
    for kind in ('futures', 'events', 'state'):
        for n in (2, 3):
            out.append(('forget:%s %d' % (kind, n), drive_forget(n, kind), 0))
    return out


class _Forced(object):
    """Chooser whose first choice is fixed (used to split a scenario over workers)."""

    def __init__(self, ch, first):
        self.ch, self.first, self.used = ch, first, False

    def choose(self, n, cost=1, tag=None):
        if not self.used:
            self.used = True
            if self.first >= n:
                raise explore.Prune()
            return self.first
        return self.ch.choose(n, cost, tag)


def with_first_choice(body, i):
    return lambda ch: body(_Forced(ch, i))


def with_first(maker, ops, depth, i):
    return with_first_choice(maker(ops, depth), i)


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'state', 'events': ['wait in-bc', 'wait in-bc', 'state b']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
