"""C27: sampling requests tell the truth and are all-or-nothing.

All bounded sequences of sensor-sampling requests (query, set for one or several
sensors, legal and illegal in every way) by two clients on servers of protocol
4, 5.0 and 5.1, each run in lock step with a table (client, sensor) -> strategy.
After every request each client is asked about each sensor.
"""
from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor, ProtocolFlags, DeviceServer  # noqa

PARSER = katcp.MessageParser()
_F = ProtocolFlags
NONE = (b'none',)

# Sensors: name -> (type, value, can be sampled differentially)
KINDS = {'i': 'num', 'j': 'num', 'f': 'num', 't': 'ts', 'd': 'other'}


def make_sensor(n):
    if n in 'ij':
        return Sensor.integer(n, default=3, initial_status=Sensor.NOMINAL)
    if n == 'f':
        return Sensor.float(n, default=1.5, initial_status=Sensor.NOMINAL)
    if n == 't':
        return Sensor.timestamp(n, default=1e9, initial_status=Sensor.NOMINAL)
    return Sensor.discrete(n, params=['on', 'off'], default='on', initial_status=Sensor.NOMINAL)


def make_class(version):
    flags = [_F.MULTI_CLIENT] + ([_F.MESSAGE_IDS] if version[0] > 4 else [])
    if version == (5, 1):
        flags.append(_F.BULK_SET_SENSOR_SAMPLING)

    class S(DeviceServer):
        VERSION_INFO = ('dev', 1, 0)
        BUILD_INFO = ('dev', 1, 0, '')
        PROTOCOL_INFO = _F(version[0], version[1], set(flags))

        def setup_sensors(self):
            for n in 'ijftd':
                self.add_sensor(make_sensor(n))
    return S


def num(b, integer=False):
    """Reference reader of numbers; None if it is not a (finite) one."""
    try:
        v = int(b) if integer else float(b)
    except ValueError:
        return None
    return v if v == v and abs(v) != float('inf') else None


def legal(version, n, args):
    """True, False or None (not specified) for the strategy `args` on sensor n."""
    s, p = args[0], args[1:]
    known = {b'none': 0, b'auto': 0, b'event': 0, b'period': 1, b'differential': 1,
             b'event-rate': 2, b'differential-rate': 3}
    if s not in known:
        return False
    if version[0] < 5 and s in (b'event-rate', b'differential-rate'):
        return False
    if len(p) != known[s]:
        return False
    kind = KINDS[n]
    if s == b'period':
        v = num(p[0])
        return v is not None and v > 0
    if s == b'event-rate':
        a, b = num(p[0]), num(p[1])
        return a is not None and b is not None and 0 <= a <= b
    if s in (b'differential', b'differential-rate'):
        if kind == 'other' or (kind == 'ts' and s == b'differential-rate'):
            return False
        v = num(p[0], n in 'ij')
        if v is None or v < 0:
            return False
        if v == 0:
            return False if s == b'differential' else None
        if s == b'differential-rate':
            a, b = num(p[1]), num(p[2])
            return a is not None and b is not None and 0 <= a <= b
    return True


def expected(version, have, line):
    """(ok, args of the reply or None, {sensor: strategy} changes) of a request; ok None:
    either way."""
    parts = line.split(b' ')[1:]
    if not parts or not parts[0]:
        return False, None, {}
    names, args = parts[0], tuple(parts[1:])
    bulk = version == (5, 1)
    ns = [x.decode('latin-1') for x in (names.split(b',') if bulk else [names])]
    if b',' in names and not args:
        return False, None, {}
    if any(n not in have for n in ns):
        return False, None, {}
    if not args:
        return True, [names] + list(have[ns[0]]), {}
    ls = [legal(version, n, args) for n in ns]
    if any(x is False for x in ls):
        return False, None, {}
    if any(x is None for x in ls):
        return None, [names] + list(args), dict((n, args) for n in ns)
    return True, [names] + list(args), dict((n, args) for n in ns)


S = b'?sensor-sampling '
ALPH = {
    # one sensor, all strategies
    'one': [S + x for x in (
        b'i', b'i auto', b'i event', b'i period 2', b'i none', b'i differential 2',
        b'i event-rate 1 5', b'i differential-rate 2 1 5', b'j auto', b'i period 4')] + [
        b'?sensor-sampling-clear'],
    # illegal requests, on top of a legal one
    'bad': [S + x for x in (
        b'i auto', b'i period 2', b'nope', b'nope auto', b'i bogus', b'i AUTO', b'i period', b'i period 0',
        b'i period -1', b'i period x', b'i period nan', b'i period inf', b'i period 1 2',
        b'i auto 1', b'i none 1', b'i event 1', b'i differential', b'i differential 0',
        b'i differential -1', b'i differential 1.5', b'i differential x', b'i differential nan',
        b'f differential nan', b'f differential -0.5', b'f differential 0.5', b'd differential 1',
        b'd differential-rate 1 1 2', b't differential-rate 1 1 2', b't differential 2',
        b'i event-rate', b'i event-rate 1', b'i event-rate 2 1', b'i event-rate -1 1',
        b'i event-rate nan 1', b'i event-rate 1 nan', b'i event-rate 1 2 3',
        b'i differential-rate 1 1', b'i differential-rate 1 2 1', b'i differential-rate x 1 2',
        b'i differential-rate -1 1 2', b'f differential-rate nan 1 2',
        b'f differential-rate -0.5 1 2', b'f differential-rate 0.5 1 2',
        b'', b'\\@ auto', b'\xff auto', b'i, auto', b', auto', b'i,nope auto', b'i,j bogus',
        b'i,j period nan', b'i,d differential 1', b'i,j', b'd,i differential 1')] + [
        b'?sensor-sampling'],
    # several sensors at a time
    'bulk': [S + x for x in (
        b'i,j auto', b'i,j event', b'j,i period 2', b'i,j none', b'i,i auto', b'i,f differential 2',
        b'i,d differential 2', b'd,j differential 2', b'i,nope auto', b'nope,i none', b'i,j', b'i', b'j none', b'i auto',
        b'i,j,f,d,t event-rate 1 5', b'i,j,i differential-rate 2 1 5', b'i,j bogus',
        b'i,j period 0', b'i,,j auto')] + [b'?sensor-sampling-clear'],
}


def drive(version, alphabet, depth, clients=2, thread_safe=False, pipeline=1, names='ijf',
          first=None):
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        srv = rig.start_async_server(make_class(version), loop, thread_safe=thread_safe)
        peers = [rig.connect(srv, loop) for _ in range(clients)]
        table = [dict((n, NONE) for n in KINDS) for _ in peers]
        trace, probs = [], []
        waiting = []                 # (client, line) sent and not yet answered
        informs = [[] for _ in peers]

        def receive():
            replies = [[] for _ in peers]
            for c, p in enumerate(peers):
                for ln in p.lines():
                    m = PARSER.parse(ln)
                    if m.mtype == Message.REPLY:
                        replies[c].append((m, list(informs[c])))
                        del informs[c][:]
                    elif m.name == 'sensor-status':
                        informs[c].append(m.arguments[2].decode())
                    else:
                        probs.append('client %d got %r' % (c, ln))
            return replies

        def settle(check_updates):
            loop.drain()
            replies = receive()
            while waiting:
                c, line = waiting.pop(0)
                if not replies[c]:
                    probs.append('no reply to %r' % line)
                    continue
                m, inf = replies[c].pop(0)
                # Updates that come after the reply belong to it, too
                inf = inf + (informs[c] if not replies[c] and not waiting else [])
                if m.name != line.split(b' ')[0][1:].decode():
                    probs.append('%r was answered by %s' % (line, m))
                    continue
                if m.name == 'sensor-sampling-clear':
                    if m.arguments != [b'ok']:
                        probs.append('clear was answered by %s' % m)
                    table[c] = dict((n, NONE) for n in KINDS)
                    continue
                ok, args, changes = expected(version, table[c], line)
                got = m.arguments[0] == b'ok'
                if ok is not None and got != ok:
                    probs.append('%r was answered by %s' % (line, m))
                if got:
                    if args is not None and not same(m.arguments[1:], args):
                        probs.append('%r was answered by %s, expected %r' % (line, m, args))
                    table[c].update(changes)
                elif len(m.arguments) != 2 or m.arguments[0] != b'fail':
                    probs.append('%r was answered by %s' % (line, m))
                if check_updates:
                    want = sorted(n for n in changes if changes[n] != NONE) if got else []
                    if sorted(inf) != want:
                        probs.append('%r led to the updates %r' % (line, inf))
            for c, r in enumerate(replies):
                for m, _ in r:
                    probs.append('client %d got a second reply %s' % (c, m))
                del informs[c][:]

        def queries():
            for c, p in enumerate(peers):
                for n in names:
                    p.send(b'?sensor-sampling %s\n' % n.encode())
                loop.drain()
                reps = receive()
                for o, r in enumerate(reps):
                    if o != c and r:
                        probs.append('client %d got a reply for client %d' % (o, c))
                got = [m for m, _ in reps[c]]
                if any(inf for _, inf in reps[c]) or any(informs):
                    probs.append('asking for a strategy led to updates')
                    for x in informs:
                        del x[:]
                want = [[b'ok', n.encode()] + list(table[c][n]) for n in names]
                if len(got) != len(want) or any(not same(g.arguments, w)
                                                for g, w in zip(got, want)):
                    probs.append('client %d should have %r and is told %s' % (
                        c, dict((n, table[c][n]) for n in names), '; '.join(str(m) for m in got)))

        n = 0
        while n < depth and not probs:
            c = ch.choose(clients, 0, 'client') if clients > 1 else 0
            line = alphabet[first if n == 0 and first is not None else
                            ch.choose(len(alphabet), 0, 'request')]
            n += 1
            trace.append('%d%s' % (c, line.decode('latin-1')))
            waiting.append((c, line))
            peers[c].send(line + b'\n')
            if pipeline and n < depth and ch.choose(2, 1, 'more at once'):
                trace.append('&')
                continue
            settle(len(waiting) == 1)
            queries()
        # Who really gets updates?
        if not probs:
            for step in range(2):
                loop.advance(20.)
                receive()
                for x in informs:
                    del x[:]
                for k in 'ij':
                    srv.get_sensor(k).set_value(1000 * (step + 1), Sensor.WARN if step else Sensor.NOMINAL)
                loop.drain()
                loop.advance(20.)
                receive()
                for c in range(clients):
                    for k in 'ij':
                        if (k in informs[c]) != (table[c][k] != NONE):
                            probs.append('client %d, %s: strategy %r, %d updates of a change' % (
                                c, k, table[c][k], informs[c].count(k)))
        if sim.W.loop_errors:
            probs.append('error in the loop: %r' % (sim.W.loop_errors[:1],))
        return dict(probs=probs, trace=' '.join(trace), states=[repr(table)])
    return body


def same(got, want):
    """Equal arguments; numbers may be written differently."""
    if len(got) != len(want):
        return False
    for i, (g, w) in enumerate(zip(got, want)):
        if g == w:
            continue
        if i == 0 or num(g) is None or num(w) is None or abs(num(g) - num(w)) > 1e-9:
            return False
    return True


def scenarios(tier):
    d = 1 if tier == 'thorough' else 0
    groups = []
    for v in ((4, 0), (5, 0), (5, 1)):
        vn = 'v%d.%d' % v
        one = ALPH['one']
        groups += [(vn + ' one, 2 clients', one, 2 + d, 1, dict(version=v, names='ij')),
                   (vn + ' one', one, 3 + d, 1, dict(version=v, clients=1, names='ij')),
                   (vn + ' bad', ALPH['bad'] + ([S + b'i period 1001'] if v[0] == 4 else []), 2, 0, dict(version=v, clients=1, pipeline=0, names='ift'))]
    b = ALPH['bulk']
    groups += [('bulk', b, 3 + d, 0, dict(version=(5, 1), clients=1)),
               ('bulk, 2 clients', b, 2 + d, 1, dict(version=(5, 1), names='ij')),
               ('bulk, no flag', b, 2, 1, dict(version=(5, 0), clients=1, names='ij')),
               ('bulk, thread-safe', b, 2 + d, 1,
                dict(version=(5, 1), clients=1, names='ij', thread_safe=True))]
    out = []
    for name, alphabet, depth, bound, kw in groups:
        for k, first in enumerate(alphabet):
            out.append(('%s: %s' % (name, first.decode('latin-1')),
                        drive(alphabet=alphabet, depth=depth, first=k, **kw), bound))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'bulk', 'events': ['?sensor-sampling i,j auto', '?sensor-sampling i'],
                'outcome': 'ok i auto'})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
