"""Common pieces for harnesses that run real servers and clients in the simulation."""
from . import sim, explore, guard
import tornado.gen as gen   # noqa (after sim.install via env.load)


def start_async_server(cls, loop, thread_safe=False, **kw):
    s = cls('127.0.0.1', 0, **kw)
    s.set_concurrency_options(thread_safe=thread_safe, handler_thread=False)
    s.set_ioloop(loop)
    s.start()
    loop.drain()
    return s


def connect(server, loop, greet=True):
    p = sim.Peer.to_listener(server.bind_address[1])
    if greet:
        loop.drain()
        p.greeting = p.lines()
    return p


def start_client(client, loop):
    """Start a client against a manual port; returns the pending FakeSocket."""
    client.set_ioloop(loop)
    client.start()
    loop.drain()


def accept_client(loop, greeting=b''):
    s = sim.W.net.pending_connects[0]
    p = sim.Peer.accept_pending(s)
    if greeting:
        p.send(greeting)
    loop.drain()
    return p


def split_lines(data):
    return [x for x in data.split(b'\n') if x]


def compositions(n, max_cuts):
    """All ways to cut a byte string of length n at up to max_cuts positions."""
    import itertools
    for k in range(max_cuts + 1):
        for cuts in itertools.combinations(range(1, n), k):
            yield cuts


def chunks(data, cuts):
    prev = 0
    for c in list(cuts) + [len(data)]:
        yield data[prev:c]
        prev = c


class Explored(object):
    """Accumulates exploration statistics over scenarios for the evidence file."""

    def __init__(self, rep):
        self.rep = rep
        self.executions = 0
        self.points = 0
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.capped = False
        self.extra = {}
        self.n_scenarios = 0

    def count(self, **kw):
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v

    def scenario(self, name, body, bound, oracle, key=None, max_executions=None, budget=None,
                 extra=None, stop_on_violation=True):
        """Explore body; oracle(result) -> list of problem strings (or None)."""
        rep = self.rep
        found = [0]
        outs = set()
        t0 = rep.elapsed()

        def on_result(ch, res):
            guard.note_progress(name)
            probs = oracle(res)
            out = getattr(res, 'outcome', None)
            if out is None and isinstance(res, dict):
                out = res.get('outcome')
            if out is not None:
                outs.add(out)
            if isinstance(res, dict):
                self.transitions += res.get('steps', 0)
                for s in res.get('states', ()):
                    self.states.add(hash(s))
            if probs:
                found[0] += 1
                for p in probs[:3]:
                    k = key(p) if key else p
                    k2 = '%s:%s' % (name, k)
                    tags = [(t, c) for t, c in zip(ch.tags, ch.choices) if c]
                    rep.violation(k2, '%s\n scenario %s, choices %r\n deviations %r\n %s' % (
                        p, name, list(ch.choices), tags,
                        (res.get('trace') if isinstance(res, dict) else '') or ''),
                        {'scenario': name, 'choices': list(ch.choices), 'extra': extra})
                return stop_on_violation
            return False

        def stop():
            return budget is not None and rep.elapsed() - t0 > budget
        st = explore.explore(body, bound, on_result, max_executions, stop)
        self.executions += st.executions
        self.points += st.points
        self.outcomes |= set(hash((name, o)) for o in outs)
        self.capped = self.capped or st.capped
        rep.scenarios.append({'name': name, 'bound': st.bound, 'executions': st.executions,
                              'by_deviations': st.by_cost, 'choice_points': st.points,
                              'longest': st.max_len, 'capped': st.capped,
                              'distinct_outcomes': len(outs)})
        return st

    def finish(self, **kw):
        r = self.rep
        if self.n_scenarios:
            kw.setdefault('n_scenarios', self.n_scenarios)
        for k, v in self.extra.items():
            kw.setdefault(k, v)
        r.set(states=len(self.states) or len(self.outcomes), transitions=self.transitions or self.points,
              traces_validated_against_impl=self.executions, capped=self.capped, **kw)


# -- running independent scenarios on all cores ---------------------------------

class ChildFailed(Exception):
    pass


def fanout(tasks, n=None):
    """Run the callables in forked workers; returns their (picklable) results in order."""
    import os
    import pickle
    import traceback
    import select
    if n is None:
        n = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    n = max(1, min(n, len(tasks)))
    results = [None] * len(tasks)
    if n == 1:
        return [t() for t in tasks]
    pids, fds = [], {}
    assert len(tasks) < 15000       # the queue must fit into a pipe
    qr, qw = os.pipe()
    os.write(qw, b''.join(i.to_bytes(4, 'big') for i in range(len(tasks))))
    os.close(qw)
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            os.close(r)
            out = []
            guard.rearm()
            try:
                while True:
                    i = os.read(qr, 4)
                    if not i:
                        break
                    i = int.from_bytes(i, 'big')
                    guard.note_progress('task %d' % i)
                    out.append((i, tasks[i]()))
                data = pickle.dumps(('ok', out), 2)
            except guard.Hang as e:
                data = pickle.dumps(('hang', (str(e), e.where)), 2)
            except BaseException:
                data = pickle.dumps(('exc', traceback.format_exc()), 2)
            off = 0
            while off < len(data):
                off += os.write(wr, data[off:off + 65536])
            os._exit(code)
        os.close(wr)
        pids.append(pid)
        fds[r] = []
    os.close(qr)
    left = set(fds)
    while left:
        guard.note_progress('waiting')
        rd, _, _ = select.select(list(left), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 20)
            if d:
                fds[fd].append(d)
            else:
                left.discard(fd)
                os.close(fd)
    for p in pids:
        os.waitpid(p, 0)
    fail = None
    for fd in fds:
        raw = b''.join(fds[fd])
        if not raw:
            fail = fail or ('exc', 'worker died')
            continue
        kind, val = pickle.loads(raw)
        if kind == 'ok':
            for i, v in val:
                results[i] = v
        else:
            fail = fail or (kind, val)
    if fail:
        if fail[0] == 'hang':
            e = guard.Hang(fail[1][0])
            e.where = fail[1][1]
            raise e
        raise ChildFailed('in worker:\n' + str(fail[1]))
    return results


class _ChildRep(object):
    """Collects what a worker finds."""

    def __init__(self, parent):
        import time
        self.violations = {}
        self.samples = []
        self.scenarios = []
        self.elapsed = parent.elapsed
        self.tier = parent.tier

    def violation(self, key, detail, replay):
        if key not in self.violations and len(self.violations) < 20:
            self.violations[key] = (detail, replay)

    def sample(self, obj, limit=12):
        if len(self.samples) < limit:
            self.samples.append(obj)


def parallel(rep, tasks, n=None, batch=None):
    """tasks: callables f(ex); run in workers, merged into one Explored."""
    ex = Explored(rep)
    if not tasks:
        return ex
    if batch is None:
        batch = max(1, len(tasks) // 64)
    groups = [tasks[i::max(1, len(tasks) // batch)] for i in range(max(1, len(tasks) // batch))]

    def make(group):
        def job():
            cr = _ChildRep(rep)
            cx = Explored(cr)
            for t in group:
                t(cx)
                if len(cr.violations) >= 8:
                    break
            return (cr.violations, cr.samples, cr.scenarios, cx.executions, cx.points,
                    cx.states, cx.transitions, cx.outcomes, cx.capped, cx.extra)
        return job
    for r in fanout([make(g) for g in groups], n):
        for k in sorted(r[0]):
            rep.violation(k, *r[0][k])
        for s in r[1]:
            rep.sample(s)
        rep.scenarios.extend(r[2])
        ex.executions += r[3]
        ex.points += r[4]
        ex.states |= r[5]
        ex.transitions += r[6]
        ex.outcomes |= r[7]
        ex.capped = ex.capped or r[8]
        for k, v in r[9].items():
            ex.extra[k] = ex.extra.get(k, 0) + v
    rep.scenarios = sorted(rep.scenarios, key=lambda s: (-s['executions'], s['name']))
    ex.n_scenarios = len(rep.scenarios)
    rep.scenarios = rep.scenarios[:25]
    return ex


def scenario_tasks(scs, oracle=lambda r: r['probs'], key=None, **kw):
    """[(name, body, bound)] -> tasks."""
    def make(name, body, bound):
        return lambda ex: ex.scenario(name, body, bound, oracle, key=key, **kw)
    return [make(*s) for s in scs]
