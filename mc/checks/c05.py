"""C05: requests of one connection are processed strictly in order; connections are isolated.

Explicit-state refinement check: a small reference model of the dispatcher
(per connection a FIFO whose head blocks while its non-concurrent work is
pending; concurrent and AsyncReply handlers do not block) runs in lock step with
the real server through every interleaving of arrivals, completions, garbage and
connection loss, and both must agree on the exact output of every connection
after every event.
"""
import itertools

from .. import sim, explore
from . import c04
from .c04 import rig, KINDS, CONCURRENT, line_of, PARSER, Rec, make_class, drive_threads
from katcp import Message
LEVEL = 'model_checking'

PRE = {'fut-later': 1, 'co': 1, 'co-fail': 1}     # informs sent before the work is pending
LABEL = {'fut-later': 'fut-later', 'tfut-later': 'tfut', 'fut-fail': 'fut-fail', 'fut-exc': 'fut-exc',
         'fut-async': 'fut-async', 'co': 'co', 'co-fail': 'co', 'conc': 'conc',
         'conc-fail': 'conc-fail', 'conc-exc': 'conc-exc', 'dec-conc': 'dec-conc', 'async': 'async'}


class ModelConn(object):
    def __init__(self):
        self.queue = []
        self.busy = None
        self.out = []
        self.closed = False


class Model(object):
    def __init__(self, n):
        self.conns = [ModelConn() for _ in range(n)]
        self.pending = []       # (label, conn, kind, mid)

    def emit(self, c, kind, mid, informs, reply):
        for i in informs:
            c.out.append(('#', kind, mid, i))
        if reply is not None:
            c.out.append(('!', kind, mid, reply))

    def arrive(self, i, kind, mid):
        self.conns[i].queue.append((kind, mid))
        self.pump(i)

    def pump(self, i):
        c = self.conns[i]
        while c.queue and c.busy is None and not c.closed:
            kind, mid = c.queue.pop(0)
            if kind == 'garbage':
                c.out.append(('log',))
                continue
            informs, reply = KINDS[kind]
            if kind in LABEL:
                self.emit(c, kind, mid, informs[:PRE.get(kind, 0)], None)
                ent = (LABEL[kind], i, kind, mid)
                self.pending.append(ent)
                if kind not in CONCURRENT:
                    c.busy = ent
            else:
                self.emit(c, kind, mid, informs, reply)

    def complete(self, k):
        ent = self.pending.pop(k)
        label, i, kind, mid = ent
        c = self.conns[i]
        informs, reply = KINDS[kind]
        self.emit(c, kind, mid, informs[PRE.get(kind, 0):], reply)
        if c.busy is ent:
            c.busy = None
            self.pump(i)


def abstract(lines):
    out = []
    for ln in lines:
        m = PARSER.parse(ln)
        if m.name in ('version-connect', 'disconnect'):
            continue
        mid = None if m.mid is None else int(m.mid)
        if m.mtype == Message.INFORM:
            out.append(('log',) if m.name == 'log' else ('#', m.name, mid, m.arguments))
        else:
            out.append(('!', m.name, mid, m.arguments))
    return out


def same(model, real):
    if len(model) != len(real):
        return False
    for a, b in zip(model, real):
        if a[:3] != b[:3]:
            return False
        if a[0] == '#' and a[3] != b[3]:
            return False
        if a[0] == '!':
            if len(b[3]) < len(a[3]) or any(w is not None and w != g for w, g in zip(a[3], b[3])):
                return False
    return True


def drive(conns, thread_safe=False, allow_close=False, burst=False):
    def body(ch):
        sim.reset()
        rec = Rec()
        loop = sim.VLoop(make_current=True)
        srv = rig.start_async_server(make_class(rec), loop, thread_safe=thread_safe)
        peers = [rig.connect(srv, loop) for _ in conns]
        model = Model(len(conns))
        todo = [list(c) for c in conns]
        out = [[] for _ in conns]
        trace, probs, states = [], [], []
        steps = 0
        while not probs:
            acts = [('send', i) for i, t in enumerate(todo) if t and not model.conns[i].closed]
            acts += [('do', k) for k in range(len(rec.pending))]
            if not acts:
                break
            a = acts[ch.choose(len(acts), 0, 'act')]
            if a[0] == 'send':
                i = a[1]
                n = 1
                if burst and len(todo[i]) > 1:
                    n += ch.choose(len(todo[i]), 1, 'burst')
                data = b''
                for _ in range(n):
                    kind, mid = todo[i].pop(0)
                    data += b'garbage\n' if kind == 'garbage' else line_of(kind, mid)
                    model.conns[i].queue.append((kind, mid))
                peers[i].send(data)
                trace.append('conn%d gets %r' % (i, data))
                loop.drain()
                model.pump(i)
            else:
                lab, fn = rec.pending.pop(a[1])
                trace.append('complete %s' % lab)
                fn()
                loop.drain()
                model.complete(a[1])
            if allow_close and not any(c.closed for c in model.conns):
                c = ch.choose(1 + len(conns), 1, 'close')
                if c:
                    c -= 1
                    peers[c].close()
                    loop.drain()
                    trace.append('conn%d lost' % c)
                    mc = model.conns[c]
                    mc.closed = True
            steps += 1
            want_pending = [e[0] for e in model.pending]
            if [x[0] for x in rec.pending] != want_pending:
                probs.append('handlers at work: %r, in-order processing gives %r' % (
                    [x[0] for x in rec.pending], want_pending))
            for i, p in enumerate(peers):
                if model.conns[i].closed:
                    continue
                out[i] += abstract(p.lines())
                if not same(model.conns[i].out, out[i]):
                    probs.append('connection %d received %r, expected %r' % (
                        i, out[i], model.conns[i].out))
            states.append(tuple((tuple(map(repr, c.queue)), repr(c.busy), len(c.out), c.closed)
                                for c in model.conns) + (tuple(want_pending),))
        if sim.W.loop_errors:
            probs.append('errors escaped into the ioloop: %r' % (sim.W.loop_errors[:2],))
        return {'outcome': repr(out).split('Traceback')[0], 'probs': probs, 'steps': steps, 'states': states,
                'trace': ' | '.join(trace)}
    return body


def order_only(reqs, lines):
    """Final order of the non-concurrent requests of one connection."""
    want = [(k, m) for k, m in reqs if k not in CONCURRENT]
    got = []
    for x in abstract(lines):
        if x[0] in '#!' and len(x) > 1 and x[1] in KINDS and x[1] not in CONCURRENT:
            if not got or got[-1] != (x[1], x[2]):
                got.append((x[1], x[2]))
    if got != want:
        return ['messages arrive in the order %r, requests were %r' % (got, want)]
    return []


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    kinds = ['ok', 'inf2', 'failreply', 'raise', 'replynow', 'fut-now', 'fut-later', 'tfut-later',
             'fut-exc', 'fut-async', 'co', 'co-fail', 'conc', 'dec-conc', 'async', 'unknown', 'garbage']
    for a, b in itertools.product(kinds, repeat=2):
        out.append(('seq:%s,%s' % (a, b), drive([[(a, 5), (b, 6)]], burst=True), 1))
        out.append(('iso:%s,%s' % (a, b), drive([[(a, 5), ('inf2', 6)], [(b, 5)]], thread_safe=True,
                                                allow_close=True), 2 if th else 1))
    core = ['inf2', 'fut-later', 'co', 'conc', 'co-fail', 'garbage', 'async', 'raise']
    for t in itertools.product(core, repeat=3):
        out.append(('seq3:%s,%s,%s' % t, drive([[(k, 5 + i) for i, k in enumerate(t)]],
                                               burst=True), 2 if th else 1))
    core4 = ['inf2', 'fut-later', 'co', 'conc'] if not th else core
    for t in itertools.product(core4, repeat=4):
        out.append(('seq4:%s,%s,%s,%s' % t, drive([[(k, 5 + i) for i, k in enumerate(t)]],
                                                  burst=True), 2 if th else 1))
    pairs = [('fut-later', 'inf2'), ('co', 'ok'), ('conc', 'co'), ('garbage', 'fut-later'),
             ('async', 'inf2')]
    for x, y in itertools.product(pairs, repeat=2):
        out.append(('iso2:%s/%s' % (x, y), drive([[(k, 5 + i) for i, k in enumerate(x)],
                                                  [(k, 5 + i) for i, k in enumerate(y)]],
                                                 allow_close=True), 2 if th else 1))
        out.append(('iso3:%s/%s' % (x, y), drive([[(k, 5 + i) for i, k in enumerate(x)],
                                                  [(k, 5 + i) for i, k in enumerate(y)],
                                                  [('inf2', 9)]]), 1))
    for h in (False, True):
        for a, b, c in [('inf2', 'fut-later', 'ok'), ('fut-now', 'inf2', 'co'), ('bin', 'conc', 'inf2'),
                        ('co-fail', 'inf2', 'fut-later')]:
            out.append(('thread%d:%s,%s,%s' % (h, a, b, c), drive_threads(
                [[(a, 4), (b, 5), (c, 6)], [('inf2', 4)]], h, ordering=order_only), 2 if th else 1))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: 'order'))
    rep.sample({'scenario': 'seq:fut-later,inf2', 'model': 'queue head blocks until completion'})
    rep.sample({'scenario': "iso2:('conc','co')/('async','inf2')", 'connections': 2})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for name, body, bound in scenarios('thorough'):
        if name == obj['scenario']:
            r = explore.replay(body, obj['choices'])
            for p in r['probs']:
                rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
    rep.set(states=1, transitions=1, traces_validated_against_impl=1)
