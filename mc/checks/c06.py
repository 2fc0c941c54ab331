"""C06: every client request completes exactly once, with its own reply and informs.

The real AsyncClient talks to a scripted server over a virtual connection.  All
orders of issuing requests, receiving informs / replies / noise, time-outs,
connection loss, reconnection and stop are enumerated and compared after every
event with a reference model; schedules of blocking requests from several
threads are explored with bounded pre-emption.
"""
import itertools

from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, AsyncClient  # noqa
from katcp.client import CallbackClient  # noqa

GREET = {
    'v5mid': b'#version-connect katcp-protocol 5.0-MI\n',
    'v5': b'#version-connect katcp-protocol 5.0-M\n',
    'v4': b'#version dev-1.0\n#build-state dev-1.0.0\n',
}
PARSER = katcp.MessageParser()


class Req(object):
    """One request: name, use_mid, timeout, api ('fut','cb','cbn','cbx','chain')."""

    def __init__(self, name, use_mid=None, timeout=None, api='fut'):
        self.name, self.use_mid, self.timeout, self.api = name, use_mid, timeout, api

    def __repr__(self):
        return '%s/%s/%s/%s' % (self.name, self.use_mid, self.timeout, self.api)


def make_client(unh):
    class C(AsyncClient):
        def unhandled_inform(self, msg):
            unh.append(('#', msg.name, msg.arguments[-1]))

        def unhandled_reply(self, msg):
            # (a request that nobody waits for may or may not come back with an error text)
            if b' ' not in msg.arguments[-1]:
                unh.append(('!', msg.name, msg.arguments[-1]))
    return C


class Model(object):
    def __init__(self, mode, default_timeout):
        self.mode = mode
        self.default = default_timeout
        self.out = []          # outstanding: dict(idx,name,mid,deadline,informs,api)
        self.done = {}         # idx -> outcome
        self.unh = []
        self.heard = []        # informs given to callbacks of requests without reply callback
        self.connected = True

    def issue(self, idx, r, now):
        supports = self.mode == 'v5mid'
        mid = supports if r.use_mid is None else r.use_mid
        if not self.connected:
            self.finish(dict(idx=idx, informs=[], api=r.api, req=r), 'fail-local', None, now)
            return
        if mid and not supports:
            self.finish(dict(idx=idx, informs=[], api=r.api, req=r), 'fail-local', None, now)
            return
        t = self.default if r.timeout is None else r.timeout
        self.out.append(dict(idx=idx, name=r.name, mid=mid, deadline=now + t, informs=[], api=r.api,
                             req=r))

    def find(self, idx, with_mid, name):
        for o in self.out:
            if with_mid and o['mid'] and o['idx'] == idx:
                return o
            if not with_mid and not o['mid'] and o['name'] == name:
                return o

    def inform(self, idx, with_mid, name, arg):
        o = self.find(idx, with_mid, name)
        if o is None or o['api'] in ('cbn', 'chain'):
            self.unh.append(('#', name, arg))
        elif o['api'] == 'icb':
            self.heard.append((o['idx'], arg))
        else:
            o['informs'].append(arg)

    def reply(self, idx, with_mid, name, arg, now):
        o = self.find(idx, with_mid, name)
        if o is None:
            self.unh.append(('!', name, arg))
        else:
            self.out.remove(o)
            self.finish(o, 'reply', arg, now)

    def finish(self, o, how, arg, now):
        if o['api'] == 'icb':
            # nobody waits for the reply: it is an unsolicited one
            if how == 'reply' or (how == 'fail' and self.connected):
                self.unh.append(('!', o['req'].name, arg if how == 'reply' else b'stray'))
            return
        self.done.setdefault(o['idx'], []).append((how, arg, tuple(o['informs'])))
        if o['api'] == 'chain':
            self.issue(o['idx'] + 100, Req(o['req'].name, o['req'].use_mid, o['req'].timeout), now)

    def time(self, now):
        for o in sorted(self.out, key=lambda o: (o['deadline'], o['idx'])):
            if o in self.out and o['deadline'] <= now:
                self.out.remove(o)
                self.finish(o, 'timeout', None, o['deadline'])

    def drop(self, how, now):
        out, self.out = self.out, []
        self.connected = False
        for o in out:
            self.finish(o, how, None, now)


FAILS = ('timeout', 'closed', 'stopped', 'fail-local')


def classify(reply, informs):
    """Observed outcome of a request."""
    a = reply.arguments
    infs = tuple(i.arguments[-1] for i in informs)
    if a and a[0] == b'ok':
        return ('reply', a[-1], infs)
    txt = b' '.join(a[1:])
    if b'timed out' in txt:
        return ('timeout', None, infs)
    return ('fail', None, infs)


def agrees(model, real):
    if len(model) != len(real):
        return False
    for m, r in zip(model, real):
        how = m[0] if m[0] in ('reply', 'timeout') else 'fail'
        if (how, m[1]) != r[:2]:
            return False
        if r[2] is not None and m[2] != r[2]:
            return False
    return True


def drive(mode, reqs, max_informs=1, default_timeout=5.0, extra=('noise', 'time', 'drop', 'stop', 'dup'),
          nodrain=True):
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        sim.W.net.manual_ports.add(4000)
        unh = []
        c = make_client(unh)('127.0.0.1', 4000, timeout=default_timeout)
        c.auto_reconnect_delay = 0.25
        rig.start_client(c, loop)
        peer = rig.accept_client(loop, GREET[mode])
        model = Model(mode, default_timeout)
        done = {}
        wire = {}           # idx -> mid bytes or None, as seen on the wire
        trace, probs, states = [], [], []
        todo = list(range(len(reqs)))
        informs_left = dict((i, max_informs) for i in todo)
        replied = set()
        weak = [False]
        stopped = [False]
        heard = []
        steps = 0

        def issue(idx, r):
            msg = Message.request(r.name, 'q%d' % idx)
            res = done.setdefault(idx, [])
            if r.api == 'icb':
                try:
                    c.callback_request(msg, inform_cb=lambda m, *ud: heard.append((ud[0], m.arguments[-1])),
                                       user_data=(idx, 'u'), timeout=r.timeout, use_mid=r.use_mid)
                except katcp.client.KatcpClientError:
                    pass
                return
            if r.api == 'fut':
                f = c.future_request(msg, timeout=r.timeout, use_mid=r.use_mid)

                def fin(f):
                    try:
                        rep, infs = f.result()
                    except katcp.client.KatcpClientError:
                        res.append(('fail', None, None))
                        return
                    res.append(classify(rep, infs))
                    check_msg(idx, rep, infs)
                f.add_done_callback(fin)
                return
            infs = []

            def rcb(m, *ud):
                res.append(classify(m, infs) if r.api == 'cb' else classify(m, [])[:2] + (None,))
                check_msg(idx, m, infs)
                if ud != (('u', idx) if r.api in ('cb', 'cbn') else ()):
                    probs.append('user data %r' % (ud,))
                if r.api == 'chain':
                    issue(idx + 100, Req(r.name, r.use_mid, r.timeout))
                if r.api == 'cbx':
                    raise ValueError('callback error')

            def icb(m, *ud):
                infs.append(m)
                if r.api == 'cbx':
                    raise ValueError('callback error')
            try:
                if r.api == 'cb':
                    c.callback_request(msg, rcb, icb, ('u', idx), r.timeout, r.use_mid)
                elif r.api == 'cbx':
                    c.callback_request(msg, reply_cb=rcb, inform_cb=icb, timeout=r.timeout,
                                       use_mid=r.use_mid)
                else:
                    c.callback_request(msg, reply_cb=rcb, timeout=r.timeout, use_mid=r.use_mid,
                                       user_data=('u', idx) if r.api == 'cbn' else None)
            except katcp.client.KatcpClientError:
                res.append(('fail', None, None))

        def check_msg(idx, rep, infs):
            if rep.mtype != Message.REPLY:
                probs.append('request %d completed with a message that is not a reply: %r' % (
                    idx, bytes(rep)))
            r = reqs[idx % 100]
            if rep.name != r.name or any(i.name != r.name for i in infs):
                probs.append('request %d (%s) got %r' % (idx, r.name, bytes(rep)))

        def read_wire():
            for ln in peer.lines():
                m = PARSER.parse(ln)
                idx = int(m.arguments[0][1:])
                r = reqs[idx % 100]
                if idx in wire:
                    probs.append('request %d sent twice' % idx)
                wire[idx] = m.mid
                want = (mode == 'v5mid') if r.use_mid is None else r.use_mid
                if (m.mid is not None) != bool(want):
                    probs.append('request %r on the wire as %r' % (r, ln))
            mids = [m for m in wire.values() if m is not None]
            if len(mids) != len(set(mids)):
                probs.append('message ids reused: %r' % wire)

        def mids(i):
            m = wire.get(i)
            return b'' if m is None else b'[' + m + b']'

        def settle():
            loop.drain()

        noise = [b'!a ok stray', b'#a stray', b'!a[999] ok stray', b'#b[999] stray', b'!b fail stray',
                 b'?q[7] stray']
        while True:
            ev = []
            if todo:
                ev.append(('issue', todo[0]))
            for i in sorted(wire):
                if i not in replied:
                    if informs_left.get(i, 0):
                        ev.append(('inform', i))
                    ev.append(('reply', i))
            if not ev or stopped[0]:
                if not model.out or stopped[0]:
                    break
            # deviations
            dev = []
            if 'noise' in extra:
                dev += [('noise', n) for n in range(len(noise))]
            if 'dup' in extra:
                dev += [('dup', i) for i in sorted(replied)]
            if 'time' in extra and model.out:
                dev.append(('time', None))
            if 'drop' in extra and model.connected:
                dev += [('drop', None), ('reset', None)]
            if 'drop' in extra and not model.connected:
                dev.append(('reconnect', None))
            if 'stop' in extra:
                dev.append(('stop', None))
            if not ev:
                e = ('time', None)
            else:
                k = ch.choose(1 + len(dev), 1, 'dev')
                if k:
                    e = dev[k - 1]
                else:
                    e = ev[ch.choose(len(ev), 0, 'ev')]
            if not model.connected and e[0] in ('inform', 'reply', 'noise', 'dup'):
                e = ('reconnect', None)
            trace.append('%s %s' % e)
            steps += 1
            if e[0] == 'issue':
                todo.pop(0)
                issue(e[1], reqs[e[1]])
                model.issue(e[1], reqs[e[1]], sim.W.now)
            elif e[0] == 'inform':
                i = e[1]
                r = reqs[i % 100]
                informs_left[i] -= 1
                arg = b'i%d-%d' % (i, informs_left[i])
                peer.send(b'#%s%s %s\n' % (r.name.encode(), mids(i), arg))
                model.inform(i, wire[i] is not None, r.name, arg)
            elif e[0] in ('reply', 'dup'):
                i = e[1]
                r = reqs[i % 100]
                replied.add(i)
                arg = b'r%d' % i
                peer.send(b'!%s%s ok %s\n' % (r.name.encode(), mids(i), arg))
                model.reply(i, wire[i] is not None, r.name, arg, sim.W.now)
            elif e[0] == 'noise':
                ln = noise[e[1]]
                peer.send(ln + b'\n')
                m = PARSER.parse(ln)
                if m.mtype == Message.INFORM:
                    model.inform(-1, m.mid is not None, m.name, b'stray')
                elif m.mtype == Message.REPLY:
                    o = model.find(-1, m.mid is not None, m.name)
                    if o is not None and m.arguments[0] == b'fail':
                        model.out.remove(o)
                        model.finish(o, 'fail', None, sim.W.now)
                    else:
                        model.reply(-1, m.mid is not None, m.name, b'stray', sim.W.now)
            elif e[0] == 'time':
                t = min(o['deadline'] for o in model.out)
                if not loop.has_work():
                    loop.drain()
                sim.W.now = max(sim.W.now, t)
                model.time(t)
            elif e[0] in ('drop', 'reset'):
                if e[0] == 'drop':
                    peer.close()
                else:
                    peer.reset()
                model.drop('closed', sim.W.now)
            elif e[0] == 'reconnect':
                settle()
                for _ in range(20):
                    if sim.W.net.pending_connects:
                        break
                    nd = loop.next_deadline()
                    if nd is None:
                        break
                    sim.W.now = max(sim.W.now, nd)
                    model.time(sim.W.now)
                    loop.drain()
                if not sim.W.net.pending_connects:
                    probs.append('client does not reconnect')
                    break
                peer = rig.accept_client(loop, GREET[mode])
                model.connected = True
                for i in list(wire):
                    replied.add(i)
            elif e[0] == 'stop':
                stopped[0] = True
                c.stop()
                model.drop('stopped', sim.W.now)
                todo = []
            if nodrain and ch.choose(2, 1, 'nodrain'):
                trace.append('(no drain)')
                weak[0] = True
                continue
            settle()
            read_wire()
            for i in wire:
                informs_left.setdefault(i, 0)
            if not weak[0]:
                if unh != model.unh:
                    probs.append('unsolicited messages passed on: %r, expected %r' % (unh, model.unh))
                if heard != model.heard:
                    probs.append('informs given to callbacks: %r, expected %r' % (heard, model.heard))
                for i in set(done) | set(model.done):
                    if not agrees(model.done.get(i, []), done.get(i, [])):
                        probs.append('request %d: %r, expected %r' % (
                            i, done.get(i), model.done.get(i)))
            if probs:
                break
            states.append((tuple((o['idx'], len(o['informs'])) for o in model.out),
                           tuple(sorted(model.done)), model.connected, tuple(sorted(replied)),
                           stopped[0]))
        # everything must have completed once all time-outs are past
        if not probs:
            loop.advance(60.0 if not stopped[0] else 0.0)
            if stopped[0]:
                loop.drain()
            for i, v in sorted(done.items()):
                if len(v) != (reqs[i % 100].api != 'icb'):
                    probs.append('request %d completed %d times: %r' % (i, len(v), v))
                elif v and v[0][0] == 'reply' and v[0][1] != b'r%d' % i and not (
                        wire.get(i) is None):
                    probs.append('request %d got the reply %r' % (i, v[0]))
            if sim.W.loop_errors:
                probs.append('errors in the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'outcome': tuple(sorted((i, tuple(v)) for i, v in done.items())), 'probs': probs,
                'steps': steps, 'trace': ' | '.join(trace), 'states': states}
    return body


def drive_blocking(n_threads, action, mode='v5mid', preset=None):
    """n_threads blocking requests in parallel; action in reply/swap/none/drop/stop."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        res = {}
        probs = []

        def main():
            sched.preempt = False
            sim.W.net.manual_ports.add(4000)
            c = CallbackClient('127.0.0.1', 4000, timeout=2.0)
            c.start(1)
            sim._block(lambda: bool(sim.W.net.pending_connects), 1, 'connect')
            peer = sim.Peer.accept_pending(sim.W.net.pending_connects[0])
            peer.send(GREET[mode])
            c.wait_protocol(2)
            sched.preempt = True
            ths = []

            def work(i):
                t0 = sim.W.now
                try:
                    rep, infs = c.blocking_request(Message.request('a', 'q%d' % i))
                    res[i] = (classify(rep, infs), sim.W.now - t0)
                except RuntimeError as e:
                    res[i] = (('error', str(e), ()), sim.W.now - t0)
            for i in range(n_threads):
                t = sim.VThreadAPI(target=work, args=(i,), name='user%d' % i)
                t.start()
                ths.append(t)
            got = {}

            def all_in():
                for ln in peer.lines():
                    m = PARSER.parse(ln)
                    got[int(m.arguments[0][1:])] = m.mid
                return len(got) == n_threads
            if action != 'stop-early':
                sim._block(all_in, 1.0, 'requests')
            order = sorted(got)
            if action == 'swap':
                order.reverse()
            if action in ('reply', 'swap'):
                for i in order:
                    peer.send(b'#a[%s] i%d\n!a[%s] ok r%d\n' % (got[i], i, got[i], i))
            elif action == 'drop':
                if order:
                    i = order[0]
                    peer.send(b'!a[%s] ok r%d\n' % (got[i], i))
                peer.close()
            elif action in ('stop', 'stop-early'):
                c.stop()
            for t in ths:
                t.join(10)
            sched.preempt = False
            if action not in ('stop', 'stop-early'):
                c.stop()
            c.join(5)
        sched.run(main)
        if sched.deadlocked:
            probs.append('deadlock %r' % (sched.deadlocked,))
        for n, e in sched.uncaught:
            if n != 'main':
                probs.append('thread %s died with %r' % (n, e[1]))
        for i in range(n_threads):
            if i not in res:
                probs.append('blocking request %d never returned' % i)
                continue
            (how, arg, infs), dt = res[i]
            if dt > 3.5:
                probs.append('blocking request %d took %.2f s (time-out 2 s)' % (i, dt))
            if action in ('reply', 'swap') and (how, arg, infs) != ('reply', b'r%d' % i, (b'i%d' % i,)):
                probs.append('blocking request %d: %r' % (i, res[i]))
            if how == 'reply' and arg != b'r%d' % i:
                probs.append('blocking request %d got the reply of another: %r' % (i, res[i]))
            if action == 'none' and how != 'timeout':
                probs.append('blocking request %d: %r, expected a time-out' % (i, res[i]))
        return {'outcome': tuple(sorted(res.items())), 'probs': probs, 'steps': sched.npoints}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    out = []

    def add(name, mode, reqs, bound, **kw):
        out.append(('%s:%s:%s' % (name, mode, ','.join(map(repr, reqs))), drive(mode, reqs, **kw), bound))
    for mode in ('v5mid', 'v5', 'v4'):
        for api in ('fut', 'cb', 'cbn', 'cbx', 'chain', 'icb'):
            for um in (None, True, False):
                if not th and mode != 'v5mid' and (api not in ('fut', 'chain', 'icb') or um is False):
                    continue
                add('one', mode, [Req('a', um, None, api)], 3 if th else 2,
                    max_informs=2 if th else 1)
        for n2 in ('a', 'b'):
            for api1, api2 in (('fut', 'fut'), ('cb', 'cbx'), ('chain', 'fut'), ('fut', 'cbn'), ('icb', 'fut')):
                for t2 in (None, 2.0):
                    if not th and (api1, api2) != ('fut', 'fut') and (mode == 'v4' or t2):
                        continue
                    add('two', mode, [Req('a', None, None, api1), Req(n2, None, t2, api2)],
                        2 if th else 1)
    for mode in ('v5mid', 'v5'):
        for n2 in ('a', 'b'):
            add('two-deep', mode, [Req('a', None, 3.0), Req(n2, None, 2.0, 'cb')],
                3 if th else 2, max_informs=0, nodrain=False)
    for ums in itertools.product((True, False), repeat=2):
        add('mixed', 'v5mid', [Req('a', ums[0], 3.0), Req('a', ums[1], 2.0)], 2 if th else 1)
    for ums in itertools.product((True, False), repeat=3):
        add('mixed3', 'v5mid', [Req('a', u, 3.0 - i) for i, u in enumerate(ums)], 2 if th else 1,
            max_informs=0, nodrain=False)
    for mode in ('v5mid', 'v5'):
        for names in (('a', 'a', 'a'), ('a', 'b', 'a')):
            add('three', mode, [Req(n, None, 3.0 - 0.5 * i) for i, n in enumerate(names)],
                1, nodrain=False, max_informs=1 if th else 0)
    for n, act in itertools.product((1, 2), ('reply', 'swap', 'none', 'drop', 'stop', 'stop-early')):
        out.append(('blocking:%d:%s' % (n, act), drive_blocking(n, act), 2 if (th or n == 1) else 1))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: 'request-outcome'))
    rep.sample({'scenario': 'two:v5mid', 'events': ['issue 0', 'issue 1', 'reply 1', 'drop', 'reconnect']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
