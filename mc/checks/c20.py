"""C20: starting, stopping and joining servers and clients from any thread.

Real servers, clients and IOLoopManagers with event loops in their own (virtual)
threads. Several threads start, stop, join and use them at once; the code of
katcp.ioloop_manager carries scheduling points before every statement, and all
schedules with a bounded number of pre-emptions are executed. Whatever the
schedule, everything ends up stopped, no thread is left behind or blocked, every
future is resolved, and the object can be started again.
"""
from .. import env, sim
LEVEL = 'model_checking'
K = env.load(instrument=['ioloop_manager'])
from .. import rig  # noqa
from .c15 import _Forced  # noqa
import katcp  # noqa
from katcp import Message, DeviceServer  # noqa
from katcp.ioloop_manager import IOLoopManager  # noqa

CONFIGS = {'single': (False, False), 'safe': (True, False), 'handler': (True, True)}
PORT = 4300
get_ident = sim.get_ident
PARSER = katcp.MessageParser()


class Dev(DeviceServer):
    VERSION_INFO = ('dev', 1, 0)
    BUILD_INFO = ('dev', 1, 0, '')

    def setup_sensors(self):
        pass


def listening(port):
    return port in sim.W.net.listeners


def settle(sched, dt=0.01):
    """Let all the other threads run until nothing happens any more."""
    was, sched.preempt = sched.preempt, False
    sim.vsleep(dt)
    sched.preempt = was


def ask(peer, text=b'?watchdog\n'):
    """-> the reply to a request, or None."""
    peer.send(text)
    for _ in range(5):
        for line in peer.lines():
            if line.startswith(b'!'):
                return line
        sim.vsleep(0.01)
    return None


class Threads(object):
    """Runs scripts in virtual threads and keeps what they return or raise."""

    def __init__(self):
        self.results = {}
        self.threads = []

    def spawn(self, name, fns):
        out = self.results[name] = []

        def run():
            for what, fn in fns:
                try:
                    out.append((what, 'ok', fn()))
                except sim.VKill:
                    raise
                except Exception as e:
                    out.append((what, type(e).__name__, e))
        t = sim.VThreadAPI(target=run, name=name)
        self.threads.append(t)
        t.start()
        return t

    def join(self, timeout=60):
        for t in self.threads:
            t.join(timeout)
        return [t.name for t in self.threads if t.is_alive()]


def alive(sched, names=('main',)):
    return [t.name for t in sched.threads if not t.done and t.name not in names]


def finish(sched, probs, results, ok_errors):
    if sched.deadlocked:
        probs.append('deadlock: %r' % (sched.deadlocked,))
    for n, e in sched.uncaught:
        if n != 'main':
            probs.append('thread %s died with %r' % (n, e[1]))
    for e in sim.W.loop_errors[:2]:
        probs.append('errors in the ioloop: %r' % (e,))
    for n in sorted(results):
        for what, how, val in results[n]:
            if how != 'ok' and (what, how) not in ok_errors:
                probs.append('%s in thread %s raised %s: %s' % (what, n, how, val))


# -- servers -------------------------------------------------------------------

def server(config, scripts, started=True, client=False, busy=False):
    """scripts: name -> list of ops; run at once, the server started before or not."""
    thread_safe, handler = CONFIGS[config]

    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs, obs = [], []
        ths = Threads()

        def main():
            srv = Dev('127.0.0.1', PORT)
            srv.set_concurrency_options(thread_safe=thread_safe, handler_thread=handler)
            peer = None
            futures = []
            if started:
                srv.start(5)
                if not srv.running():
                    probs.append('not running after start(5)')
                if client:
                    peer = sim.Peer.to_listener(PORT)
                    settle(sched)
                    peer.lines()

            def op(o):
                if o == 'start':
                    return lambda: srv.start(5)
                if o == 'start0':
                    return lambda: srv.start()
                if o == 'stop':
                    return lambda: futures.append(srv.stop())
                if o == 'stopwait':
                    def f():
                        futures.append(srv.stop())
                        futures[-1].result(10)
                    return f
                if o == 'join':
                    return lambda: srv.join(10)
                if o == 'joinforever':
                    return lambda: srv.join()
                if o == 'running':
                    return lambda: srv.wait_running(3)
                if o == 'ask':
                    return lambda: peer.send(b'?watchdog\n')
                if o == 'halt':
                    return lambda: peer.send(b'?halt\n')
                if o == 'sensor':
                    return lambda: srv.mass_inform(Message.inform('foo'))
            if busy:
                other = sim.FakeSocket()
                other.bind(('127.0.0.1', PORT))
                other.listen(5)
            sched.preempt = True
            for name in sorted(scripts):
                ths.spawn(name, [(o, op(o)) for o in scripts[name]])
            left = ths.join()
            sched.preempt = False
            if left:
                probs.append('threads %r never finish' % (left,))
                return
            sim.vsleep(2.)
            if busy:
                # refused without a trace
                other.close()
                if any(r[1] != 'OSError' for r in ths.results['a']):
                    probs.append('started on a port that is in use')
                if srv.running() or alive(sched):
                    probs.append('running=%r, threads %r after start failed' % (srv.running(), alive(sched)))
                srv.start(5)
            run = srv.running()
            obs.append(run)
            if run:
                p = sim.Peer.to_listener(PORT) if listening(PORT) else None
                if p is None:
                    probs.append('running but not listening')
                elif not ask(p):
                    probs.append('running but there is no answer')
            stops = any(o in ('stop', 'stopwait', 'halt') for s in scripts.values() for o in s)
            starts = any(o.startswith('start') for s in scripts.values() for o in s)
            if stops and not starts and run:
                probs.append('still running after stop')
            # stop for good
            try:
                if starts or not stops:
                    futures.append(srv.stop())
                srv.join(5)
            except RuntimeError as e:
                # never started, or gone already
                if 'join' not in str(e):
                    probs.append('stopping raised %r' % (e,))
            except Exception as e:
                probs.append('stopping raised %r' % (e,))
            sim.vsleep(1.)
            for f in futures:
                if not f.done():
                    probs.append('a future of stop() is never resolved')
                elif f.exception() is not None:
                    probs.append('a future of stop() fails: %r' % (f.exception(),))
            if srv.running():
                probs.append('running after stop and join')
            if listening(PORT):
                probs.append('the port is still open after stop and join')
            a = alive(sched)
            if a:
                probs.append('threads %r are left after stop and join' % (a,))
            if peer is not None:
                if not peer.eof():
                    probs.append('a connection is left open after stop and join')
                lines = peer.lines()
                if not any(x.startswith(b'#disconnect') for x in lines):
                    probs.append('no #disconnect: %r' % (lines,))
            if probs:
                return
            # and again
            try:
                srv.start(5)
                ok = srv.running()
                p = sim.Peer.to_listener(PORT) if listening(PORT) else None
                if not ok or p is None or not ask(p):
                    probs.append('does not work when started again')
                f = srv.stop()
                f.result(5)
                srv.join(5)
                sim.vsleep(0.1)
                if srv.running() or listening(PORT) or alive(sched):
                    probs.append('not stopped after the second round: %r' % (alive(sched),))
            except Exception as e:
                probs.append('starting again raised %r' % (e,))
        sched.run(main)
        finish(sched, probs, ths.results, OK_SERVER)
        out = tuple((n, tuple(x[:2] for x in ths.results[n])) for n in sorted(ths.results))
        return {'probs': probs, 'outcome': (out, tuple(obs)), 'steps': sched.npoints,
                'trace': repr((out, obs)), 'states': [(out, tuple(obs))]}
    return body


# refusing is fine: starting what runs (or still stops), joining what was not started
OK_SERVER = {('start', 'OSError'), ('start0', 'OSError'), ('start', 'RuntimeError'), ('start0', 'RuntimeError'), ('join', 'RuntimeError'),
             ('joinforever', 'RuntimeError')}


# -- clients -------------------------------------------------------------------

def client(cls, scripts, started=True, connected=True, greeting=b'#version-connect katcp-protocol 5.0-MI\n',
           accept=True, answer=True):
    """A client with its own event loop thread against a scripted server."""

    def body(ch):
        sim.reset()
        sim.W.net.manual_ports.add(PORT)
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs, obs = [], []
        ths = Threads()
        state = {'peers': [], 'quit': False, 'accept': accept}

        def serve():
            """The other side."""
            while not state['quit']:
                sim._block(lambda: state['quit'] or state['accept'] and sim.W.net.pending_connects or
                           any(p.sock.rx for p in state['peers']), 0.5, 'serve')
                if state['accept'] and sim.W.net.pending_connects:
                    p = sim.Peer.accept_pending(sim.W.net.pending_connects[0])
                    state['peers'].append(p)
                    if greeting:
                        p.send(greeting)
                for p in state['peers']:
                    for line in p.lines():
                        m = PARSER.parse(line)
                        if m.mtype == m.REQUEST and answer:
                            p.send(bytes(Message.reply_to_request(m, 'ok')) + b'\n')

        def main():
            st = sim.VThreadAPI(target=serve, name='server')
            st.start()
            c = cls('127.0.0.1', PORT)

            def timed(fn, timeout, slack=0.):
                def f():
                    t0 = sim.W.now
                    r = fn(timeout=timeout)
                    if sim.W.now - t0 > timeout + slack + 1e-6:
                        probs.append('%s took %s s' % (fn.__name__, sim.W.now - t0))
                    if r not in (True, False):
                        probs.append('%s returned %r' % (fn.__name__, r))
                    return r
                return f

            def request():
                t0 = sim.W.now
                r, i = c.blocking_request(Message.request('foo'), timeout=2.)
                if sim.W.now - t0 > 3.:
                    probs.append('a request took %s s' % (sim.W.now - t0))
                if r.mtype != r.REPLY or r.name != 'foo':
                    probs.append('reply %r' % (r,))
                return r.reply_ok()

            def callback():
                got = []
                c.callback_request(Message.request('foo'), reply_cb=lambda m: got.append(m), timeout=2.)
                sim.vsleep(3.)
                if len(got) > 1 or not got and not any('stop' in x for x in scripts.values()):
                    probs.append('callback called with %r' % (got,))

            def lose():
                for p in state['peers']:
                    p.close()
                state['peers'][:] = []

            def op(o):
                return {'start': lambda: c.start(5), 'start0': lambda: c.start(),
                        'stop': lambda: c.stop(), 'stop5': lambda: c.stop(5), 'join': lambda: c.join(20),
                        'joinforever': lambda: c.join(),
                        'running': timed(c.wait_running, 3.), 'connected': timed(c.wait_connected, 3.),
                        'protocol': timed(c.wait_protocol, 3.),
                        'disconnected': timed(c.wait_disconnected, 3.),
                        'request': request, 'callback': callback, 'lose': lose}[o]
            if started == 'start0':
                c.start()
            elif started:
                c.start(5)
                if not c.running():
                    probs.append('not running after start(5)')
                if connected:
                    if not c.wait_connected(5) or not c.wait_protocol(5):
                        probs.append('not connected')
            sched.preempt = True
            for name in sorted(scripts):
                ths.spawn(name, [(o, op(o)) for o in scripts[name]])
            left = ths.join()
            sched.preempt = False
            if left:
                probs.append('threads %r never finish' % (left,))
                return
            sim.vsleep(2.)
            stops = any(o.startswith('stop') for x in scripts.values() for o in x)
            starts = any(o.startswith('start') for x in scripts.values() for o in x)
            for n in scripts:
                for what, how, val in ths.results[n]:
                    # nothing else goes on: these have to be so
                    if how == 'ok' and not stops and 'lose' not in sum(scripts.values(), []):
                        want = {'running': True, 'connected': accept, 'protocol': accept and bool(greeting),
                                'disconnected': not accept and None, 'request': answer}.get(what)
                        if want is not None and val is not want:
                            probs.append('%s gave %r' % (what, val))
            if stops and not starts and (c.running() or c.is_connected()):
                probs.append('still running after stop')
            if c.running() and accept and not c.is_connected():
                probs.append('running but not connected')
            obs.append((c.running(), c.is_connected()))
            try:
                if not stops or starts:
                    c.stop(5)
                c.join(20)
            except Exception as e:
                if not (stops and isinstance(e, RuntimeError)):
                    probs.append('stopping raised %r' % (e,))
            sim.vsleep(1.)
            if c.running() or c.is_connected():
                probs.append('running or connected after stop and join')
            a = alive(sched, ('main', 'server'))
            if a:
                probs.append('threads %r are left after stop and join' % (a,))
            if any(not p.eof() for p in state['peers']) or sim.W.net.pending_connects:
                probs.append('a connection is left open after stop and join')
            if probs:
                return
            try:
                del state['peers'][:]
                state['accept'] = True
                c.start(5)
                if not c.running():
                    probs.append('not running when started again')
                if not c.wait_connected(5):
                    probs.append('not connected when started again')
                elif answer and not c.blocking_request(Message.request('foo'), timeout=2.)[0].reply_ok():
                    probs.append('no answer when started again')
                c.stop()
                c.join(20)
                sim.vsleep(0.1)
                if c.running() or c.is_connected() or alive(sched, ('main', 'server')):
                    probs.append('not stopped after the second round')
            except Exception as e:
                probs.append('starting again raised %r' % (e,))
            state['quit'] = True
        sched.run(main)
        finish(sched, probs, ths.results,
               OK_CLIENT | (OK_STOP if any('stop' in x for x in scripts.values()) else set()))
        out = tuple((n, tuple(x[:2] + (x[2] if x[1] == 'ok' else None,) for x in ths.results[n]))
                    for n in sorted(ths.results))
        return {'probs': probs, 'outcome': (out, tuple(obs)), 'steps': sched.npoints,
                'trace': repr((out, obs)), 'states': [(out, tuple(obs))]}
    return body


OK_CLIENT = {('start', 'RuntimeError'), ('start0', 'RuntimeError')}
# what needs the event loop may be refused once it is gone
OK_STOP = set((x, 'RuntimeError') for x in ('stop', 'request', 'callback', 'connected', 'disconnected',
                                            'protocol', 'running'))


# -- one caller, one thing after the other ---------------------------------------

def sequence(kind, depth):
    """All sequences of calls, each given the time it needs."""
    OPS = ['start5', 'start', 'stop', 'stopwait', 'join', 'joinnow', 'running']

    def body(ch):
        sim.reset()
        sched = sim.Scheduler(ch, block_cost=1)
        sched.preempt = False
        probs, trace, states = [], [], []

        def main():
            called = []
            if kind == 'manager':
                o = IOLoopManager()
            elif kind == 'client':
                o = katcp.CallbackClient('127.0.0.1', PORT)
            else:
                o = Dev('127.0.0.1', 0)
                o.set_concurrency_options(*CONFIGS[kind])
            up, ever = False, False

            def start(*a):
                if kind == 'manager':
                    o.get_ioloop()
                return o.start(*a)

            def stop(**kw):
                if kind == 'manager':
                    return o.stop(callback=lambda: called.append(get_ident()), **kw)
                if kind == 'client':
                    return o.stop(1)
                return o.stop(**kw)

            def running():
                return o._running.is_set() if kind == 'manager' else o.running()
            for _ in range(depth):
                op = OPS[ch.choose(len(OPS), 0, 'op')]
                trace.append(op)
                t0 = sim.W.now
                res, err = None, None
                n_called = len(called)
                try:
                    if op == 'start5':
                        res = start(5)
                    elif op == 'start':
                        res = start()
                    elif op in ('stop', 'stopwait'):
                        res = stop()
                        if op == 'stopwait' and res is not None:
                            res.result(5)
                    elif op == 'join':
                        o.join(0.5)
                    elif op == 'joinnow':
                        if not up:
                            o.join()
                    elif op == 'running':
                        res = o.wait_running(0.5) if kind != 'manager' else up
                except Exception as e:
                    err = e
                dt = sim.W.now - t0
                settle(sched, 1.5)
                if op in ('start5', 'start'):
                    if up:
                        if not isinstance(err, RuntimeError):
                            probs.append('started twice: %r' % (err,))
                    elif err is not None:
                        probs.append('%s raised %r' % (op, err))
                    elif op == 'start5' and (res not in (None, True) or dt > 1):
                        probs.append('start(5) gave %r after %s s' % (res, dt))
                    up = ever = True
                elif op in ('stop', 'stopwait'):
                    if err is not None and not (not up and isinstance(err, RuntimeError)):
                        probs.append('%s raised %r' % (op, err))
                    if res is not None:
                        if not res.done() or res.exception() is not None:
                            probs.append('the future of stop() is %r' % (res,))
                    if kind == 'manager' and len(called) - n_called != (1 if up else 0):
                        probs.append('callback of stop() called %d times' % (len(called) - n_called))
                    if dt > 2.1:
                        probs.append('%s took %s s' % (op, dt))
                    up = False
                elif op in ('join', 'joinnow'):
                    if err is not None and (ever or not isinstance(err, RuntimeError)):
                        probs.append('%s raised %r' % (op, err))
                    if dt > (1.0 if up else 0.1) + 1e-6:
                        probs.append('%s took %s s' % (op, dt))
                elif op == 'running':
                    if err is None and bool(res) != up or err is not None and (
                            up or not isinstance(err, RuntimeError)):
                        probs.append('wait_running() gave %r %r' % (res, err))
                if running() != up:
                    probs.append('running is %r after %s' % (running(), op))
                n = len(alive(sched))
                if n != (0 if not up else 2 if kind == 'handler' else 1):
                    probs.append('%d threads after %s' % (n, op))
                states.append((kind, up, ever, op))
                if probs:
                    return
            if up:
                stop()
                o.join(5)
                settle(sched, 1.5)
            if alive(sched) or running():
                probs.append('left behind: %r' % (alive(sched),))
        sched.run(main)
        finish(sched, probs, {}, ())
        return {'probs': probs, 'outcome': tuple(trace), 'steps': len(trace), 'trace': repr(trace),
                'states': states}
    return body


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    for cfg in sorted(CONFIGS):
        def s(name, scripts, bound=2, **kw):
            out.append(('server %s: %s' % (cfg, name), server(cfg, scripts, **kw), bound + (1 if T else 0)))
        s('stop', {'a': ['stop', 'join']}, client=True)
        s('stop stop', {'a': ['stopwait', 'join'], 'b': ['stopwait', 'join']}, client=True)
        s('stop twice', {'a': ['stop', 'stop', 'join', 'stopwait']})
        s('stop and ask', {'a': ['stopwait', 'join'], 'b': ['ask', 'ask']}, client=True)
        s('halt and stop', {'a': ['halt'], 'b': ['stopwait', 'join']}, client=True)
        s('start start', {'a': ['start'], 'b': ['start']}, started=False)
        if cfg != 'handler':
            s('start stop', {'a': ['start'], 'b': ['stop', 'join']}, started=False)
        s('start and wait', {'a': ['start0', 'running'], 'b': ['running']}, started=False)
        s('start0 stop', {'a': ['start0', 'stop', 'joinforever']}, started=False)
        s('restart', {'a': ['stopwait', 'joinforever', 'start', 'stopwait', 'joinforever']})
        s('restart and wait', {'a': ['stopwait', 'join', 'start'], 'b': ['join']})
        s('port in use', {'a': ['start', 'start0']}, started=False, busy=True)
        s('stop first', {'a': ['stopwait']}, started=False)
    for cls in (katcp.CallbackClient,):
        def c(name, scripts, bound=2, **kw):
            out.append(('client: %s' % name, client(cls, scripts, **kw), bound + (1 if T else 0)))
        c('stop', {'a': ['stop', 'join']})
        c('stop forever', {'a': ['stop', 'joinforever']})
        c('stop stop', {'a': ['stop', 'join'], 'b': ['stop', 'join']})
        c('waits', {'a': ['connected', 'request'], 'b': ['running', 'protocol']}, started='start0',
          connected=False)
        c('start0 waits', {'a': ['start0', 'running', 'connected', 'protocol']}, started=False)
        c('no server', {'a': ['start0', 'running', 'connected', 'disconnected']}, started=False, accept=False)
        c('no protocol', {'a': ['start', 'connected', 'protocol']}, started=False, greeting=b'')
        c('stop and request', {'a': ['stop', 'join'], 'b': ['request']})
        c('stop and request 2', {'a': ['stop', 'join'], 'b': ['request']}, answer=False)
        c('stop and callback', {'a': ['stop', 'join'], 'b': ['callback']})
        c('stop and wait', {'a': ['stop', 'join'], 'b': ['connected', 'disconnected']}, connected=False)
        c('stop and wait 2', {'a': ['stop5', 'join'], 'b': ['protocol']}, connected=False, accept=False)
        c('lose and wait', {'a': ['lose', 'connected'], 'b': ['disconnected', 'protocol']})
        c('lose and stop', {'a': ['lose'], 'b': ['stop', 'join']})
        c('start stop', {'a': ['start0', 'stop', 'join']}, started=False)
        c('restart', {'a': ['stop', 'joinforever', 'start', 'connected', 'stop', 'joinforever']})
    for kind in ('manager', 'client') + tuple(sorted(CONFIGS)):
        for i in range(7):
            b = sequence(kind, 5 if T else 4)
            out.append(('%s calls %d' % (kind, i), lambda ch, b=b, i=i: b(_Forced(ch, i)), 0))
    return out


def run(tier, rep):
    tasks = rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:80])
    ex = rig.parallel(rep, tasks, batch=1)
    rep.sample({'scenario': 'two threads stop and join the server at once'})
    ex.finish()


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj.get('scenario'):
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
    run('quick', rep)
