"""C23: log levels and log informs.

All sequences (up to a depth) of ?log-level requests of two clients, set_log_level
calls and messages logged at every level in every form, on the real server, in
lock step with a model; and the same with logging from other threads.
"""
import logging
from .. import env, sim, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, ProtocolFlags, DeviceServer  # noqa
from katcp.server import DeviceLogger  # noqa

PARSER = katcp.MessageParser()
LEVELS = ['all', 'trace', 'debug', 'info', 'warn', 'error', 'fatal', 'off']
PY = {'debug': 10, 'info': 20, 'warn': 30, 'error': 40, 'fatal': 50}
PF = ProtocolFlags
V = {'4': PF(4, 0, set([PF.MULTI_CLIENT])),
     '5.0': PF(5, 0, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS]))}

# (format, args) -> text
FORMS = [('plain text', (), 'plain text'),
         ('%s=%d', ('x', 3), 'x=3'),
         ('100%', (), '100%'),
         ('50% done', (), '50% done'),
         ('%(a)s', ({'a': 'mapped'},), None),
         ('a\nb\tc \\', (), 'a\nb\tc \\'),
         ('', (), ''),
         ('%r', (u'\u20ac',), u"'\u20ac'"),
         ('missing %s %s', ('one',), None),       # must not fail; the text is free
         ('%z', (), None),
         ('%d', ('x',), None)]


def make(version, python_logger):
    class D(DeviceServer):
        PROTOCOL_INFO = V[version]

        def setup_sensors(self):
            pass
    return D


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.seen = []

    def createLock(self):
        self.lock = None

    def handle(self, record):
        self.seen.append((record.levelno, record.getMessage))


def drive(version, ops, depth, thread_safe, own_logger):
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs, trace, states = [], [], []
        kw = {}
        if own_logger:
            lg = kw['logger'] = logging.getLogger('verif.c23')
            lg.propagate = False
            lg.setLevel(logging.NOTSET + 1)
            keep = Keep()
            lg.handlers[:] = [keep]
        srv = rig.start_async_server(make(version, None), loop, thread_safe, **kw)
        peers = [rig.connect(srv, loop), rig.connect(srv, loop)]
        level = 'warn'

        def bad(p):
            probs.append(p)

        for _ in range(depth):
            o = ops[ch.choose(len(ops), 0, 'op')]
            trace.append(o)
            if o[0] == 'time':
                loop.advance(o[1])
                continue
            was_set = any(t[0] in ('set', 'setname') or (t[0] == 'ask' and t[2] is not None and
                                                         t[2].decode('latin1') in LEVELS) for t in trace)
            want = []           # informs expected on every connection
            if o[0] == 'ask':
                peers[o[1]].send(b'?log-level%s\n' % (b'' if o[2] is None else b' ' + o[2]))
            elif o[0] == 'set':
                level = o[1]
                try:
                    srv.log.set_log_level(LEVELS.index(o[1]))
                except Exception as e:
                    bad('set_log_level(%s) raised %r' % (o[1], e))
                    break
            elif o[0] == 'setname':
                level = o[1].decode() if isinstance(o[1], bytes) else o[1]
                srv.log.set_log_level_by_name(o[1])
            elif o[0] == 'log':
                fmt, args, text = FORMS[o[2]]
                lv = o[1]
                f = (getattr(srv.log, lv) if o[3] == 'method' else
                     (lambda *a, **k: srv.log.log(LEVELS.index(lv), *a, **k)))
                k = {'name': 'sub.logger', 'timestamp': (1234.125, 0.0)[o[2] % 2]} if o[3] == 'named' else {}
                if own_logger:
                    del keep.seen[:]
                try:
                    f(fmt, *args, **k)
                except Exception as e:
                    bad('logging %r %r raised %r' % (fmt, args, e))
                    break
                if LEVELS.index(lv) >= LEVELS.index(level):
                    t = k.get('timestamp', sim.W.now)
                    ts = ('%.6f' % t) if version != '4' else '%d' % round(t * 1000)
                    want.append((lv, ts, k.get('name', 'root'), text))
                # (the Python logger is governed by the level once that was set)
                if own_logger and level not in ('all', 'trace') and was_set:
                    rec = [r[0] for r in keep.seen]
                    if rec != [PY.get(lv)] * len(want):
                        bad('the Python logger got %r at level %s' % (rec, level))
            loop.drain()
            for i, p in enumerate(peers):
                ms = [PARSER.parse(x) for x in p.lines()]
                if o[0] == 'ask' and o[1] == i:
                    if not ms or ms[-1].mtype != Message.REPLY:
                        bad('?log-level not answered: %r' % ([bytes(m) for m in ms],))
                        break
                    a = ms.pop().arguments
                    arg = o[2]
                    if arg is not None and arg.decode('latin1') in LEVELS:
                        level = arg.decode()
                        arg = None
                    if arg is None:
                        if a != [b'ok', level.encode()]:
                            bad('?log-level %r: %r, level is %s' % (o[2], a, level))
                    elif a[0] != b'fail' or len(a) != 2 or b'Traceback' in a[1]:
                        bad('?log-level %r: %r' % (o[2], a))
                got = []
                for m in ms:
                    if m.mtype != Message.INFORM or m.name != 'log' or len(m.arguments) != 4:
                        bad('unexpected %r' % (bytes(m),))
                        continue
                    got.append(tuple(x.decode('utf-8') for x in m.arguments))
                ok = len(got) == len(want)
                for g, w in zip(got, want):
                    if (g[:1] + g[2:3] != w[:1] + w[2:3]) or (w[3] is not None and g[3] != w[3]):
                        ok = False
                    if version == '4':
                        ok = ok and abs(int(g[1]) - int(w[1])) <= 1
                    else:
                        ok = ok and g[1] == w[1]
                if not ok:
                    bad('client %d got %r, expected %r at level %s' % (i, got, want, level))
            if probs:
                break
            if srv.log.level_name() != level:
                bad('level_name() is %r, expected %r' % (srv.log.level_name(), level))
                break
            if [srv.log.level_name(i) for i in range(8)] != LEVELS or [
                    srv.log.level_from_name(n) for n in LEVELS] != list(range(8)):
                bad('level_name / level_from_name disagree with the list of levels')
                break
            states.append((level,) + tuple(o[:2]))
        if sim.W.loop_errors and not probs:
            bad('error in event loop: %r' % (sim.W.loop_errors[0],))
        return {'probs': probs, 'outcome': repr(states[-1:]), 'steps': len(trace),
                'trace': repr(trace), 'states': states}
    return body


def threads(conc, n_threads):
    """Threads log while the level changes."""
    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch)
        probs, seen = [], []

        def main():
            sched.preempt = False
            srv = make('5.0', None)('127.0.0.1', 0)
            srv.set_concurrency_options(*conc)
            srv.start(5)
            peers = [sim.Peer.to_listener(srv.bind_address[1]) for _ in range(2)]
            sim.vsleep(0.01)
            for p in peers:
                p.lines()
            sched.preempt = True

            def work(k):
                for i in range(2):
                    srv.log.warn('w%d.%d', k, i)
                    srv.log.info('i%d.%d', k, i)
            ts = [sim.VThreadAPI(target=work, args=(k,), name='user %d' % k) for k in range(n_threads)]
            peers[0].send(b'?log-level info\n?log-level error\n')
            for t in ts:
                t.start()
            for t in ts:
                t.join(5)
            sim._block(lambda: bytes(b''.join(peers[0].sock.rx)).count(b'!') == 2, 1, 'reply')
            sched.preempt = False
            sim.vsleep(0.1)
            srv.log.error('last')
            sim.vsleep(0.1)
            both = []
            for p in peers:
                ms = [PARSER.parse(x) for x in p.lines()]
                both.append([m.arguments[3] for m in ms if m.name == 'log'])
            seen.extend(both)
            if both[0] != both[1]:
                probs.append('the clients got different log messages: %r' % (both,))
            if both[0][-1:] != [b'last']:
                probs.append('message at a level that is on was not sent: %r' % (both,))
            for k in range(n_threads):
                for c in (b'w', b'i'):
                    mine = [x for x in both[0] if x.startswith(c + b'%d.' % k)]
                    if mine != sorted(set(mine)):
                        probs.append('log messages of one thread out of order: %r' % (mine,))
            srv.stop()
            srv.join(5)
        sched.run(main)
        for n, e in sched.uncaught:
            probs.append('thread %s died with %r' % (n, e[1]))
        if sched.deadlocked:
            probs.append('deadlock %r' % (sched.deadlocked,))
        return {'probs': probs, 'outcome': repr(seen), 'steps': sched.npoints, 'trace': repr(seen)}
    return body


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    from .c15 import _Forced

    def add(name, bound, body, n):
        for i in range(n):
            out.append(('%s/%d' % (name, i), (lambda b, i: lambda ch: b(_Forced(ch, i)))(body, i), bound))
    asks = [('ask', 0, l.encode()) for l in LEVELS] + [
        ('ask', 1, None), ('ask', 1, b'WARN'), ('ask', 0, b'\\@'), ('ask', 1, b'1'), ('ask', 0, b'\xff'),
        ('ask', 1, b'warn extra')]
    asks = asks[:-1]
    logs = [('log', l, 1, 'method') for l in LEVELS[1:-1]]
    for v in ('4', '5.0'):
        for ts in (False, True):
            ops = asks + logs + [('set', 'info'), ('setname', 'error'), ('setname', b'off')]
            add('levels %s %d' % (v, ts), 0, drive(v, ops, 4 if th else 3, ts, False), len(ops))
            ops = [('log', l, i, how) for l in ('warn', 'debug') for i in range(len(FORMS))
                   for how in ('method', 'named')] + [('ask', 0, b'debug'), ('ask', 0, b'warn'), ('time', 1.001)]
            add('forms %s %d' % (v, ts), 0, drive(v, ops, 3 if th else 2, ts, True), len(ops))
        ops = [('ask', 0, l.encode()) for l in LEVELS] + [('set', l) for l in LEVELS] + [
            ('log', l, 0, 'generic') for l in LEVELS[:-1]]
        add('own logger %s' % v, 0, drive(v, ops, 3, False, True), len(ops))
    for conc in ((True, True), (True, False)):
        for n in (1, 2):
            out.append(('threads %r %d' % (conc, n), threads(conc, n), (2 if th else 1) if n == 1 else (1 if th else 0)))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'levels 5.0', 'operations': ['?log-level info', 'log info', 'log debug']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
