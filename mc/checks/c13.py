"""C13: client and server agree on the protocol version.

All version / flag combinations are printed, parsed and announced by a real server
to a real client; and all sequences (up to a depth) of announcements, requests,
waiting, losing the connection and restarting are run on the real client in lock
step with a small model of what it has to know at each moment.
"""
import itertools
from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, ProtocolFlags, DeviceServer  # noqa
from katcp.core import KatcpVersionError  # noqa
from katcp.client import AsyncClient, DeviceClient  # noqa
import tornado.gen  # noqa

PARSER = katcp.MessageParser()
PF = ProtocolFlags
FLAGS = [b'M', b'I', b'T', b'B']
PORT = 4100


def legal(major, minor, flags):
    if b'I' in flags and major < 5:
        return False
    return not ((b'T' in flags or b'B' in flags) and (major, minor) < (5, 1))


def subsets(xs):
    for n in range(len(xs) + 1):
        for t in itertools.combinations(xs, n):
            yield t


def flags_section(cx):
    """Construction, text form, parsing and comparison of protocol flags."""
    rep, n = cx.rep, 0
    made = []
    for major in (0, 3, 4, 5, 6, 10):
        for minor in (0, 1, 2, 10):
            for fl in subsets(FLAGS + [b'Z']):
                n += 1
                key = '%d.%d %r' % (major, minor, fl)
                try:
                    p = PF(major, minor, set(fl))
                except ValueError:
                    if legal(major, minor, fl):
                        rep.violation(key, 'flags %s: refused' % key, dict(case=key))
                    continue
                if not legal(major, minor, fl):
                    rep.violation(key, 'flags %s: accepted' % key, dict(case=key))
                    continue
                text = '%d.%d' % (major, minor)
                if fl:
                    text += '-' + ''.join(sorted(f.decode() for f in fl))
                if str(p) != text:
                    rep.violation(key, 'flags %s: printed as %r' % (key, str(p)), dict(case=key))
                for order in (fl, fl[::-1]):
                    w = b'%d.%d' % (major, minor) + (b'-' + b''.join(order) if fl else b'')
                    q = PF.parse_version(w)
                    if not (q == p) or q != p or (q.major, q.minor, q.flags) != (major, minor, set(fl)):
                        rep.violation(key, 'flags %s: %r parsed as %s' % (key, w, q), dict(case=key))
                    if (q.multi_client, q.message_ids, q.request_timeout_hints,
                            q.bulk_set_sensor_sampling) != tuple(f in fl for f in FLAGS) or \
                            [q.supports(f) for f in FLAGS] != [f in fl for f in FLAGS]:
                        rep.violation(key, 'flags %s: features of %r' % (key, w), dict(case=key))
                made.append(((major, minor, frozenset(fl)), p))
    for a, pa in made:
        for b, pb in made:
            if (pa == pb) != (a == b):
                rep.violation('eq', '%s == %s is %r' % (pa, pb, pa == pb), dict(case='eq'))
    cx.count(flag_sets=n)


# ---------------------------------------------------------------- a real server and a real client
def pair_section(base, part):
    def go(cx):
        rep, n = cx.rep, 0
        for k, (major, minor, fl) in enumerate(
                (ma, mi, f) for ma in (4, 5) for mi in (0, 1, 2) for f in subsets(FLAGS)):
            if k % 4 != part or not legal(major, minor, fl):
                continue
            pf = PF(major, minor, set(fl))

            class D(DeviceServer):
                PROTOCOL_INFO = pf
                VERSION_INFO = ('dev', 1, 2)
                BUILD_INFO = ('bld', 3, 4, '')

                def setup_sensors(self):
                    pass

                def request_x(self, req, msg):
                    "?x"
                    self.mid = msg.mid
                    return req.make_reply('ok')
            sim.reset()
            loop = sim.VLoop(make_current=True)
            srv = rig.start_async_server(D, loop)
            cl = base('127.0.0.1', srv.bind_address[1])
            rig.start_client(cl, loop)
            f = cl.until_protocol(timeout=1)
            loop.drain()
            n += 1
            want = pf if major >= 5 else PF(4, 0, '')
            key = '%s %s' % (base.__name__, pf)
            got = cl.protocol_flags
            if not f.done() or f.exception() is not None or got is None or \
                    (got.major, got.minor, got.flags) != (want.major, want.minor, want.flags):
                rep.violation(key, 'a server of protocol %s is taken for %s' % (pf, got), dict(case=key))
                continue
            srv.mid = 'none'
            cl.request(Message.request('x'))
            loop.drain()
            if (srv.mid is None) != (b'I' not in fl):
                rep.violation(key, 'request to a server of protocol %s sent with id %r'
                              % (pf, srv.mid), dict(case=key))
            if major >= 5:
                vs = cl.versions
                if vs.get('katcp-protocol') != (str(pf),) or 'katcp-library' not in vs or \
                        vs.get('katcp-device') != (srv.version(), srv.build_state()):
                    rep.violation(key, 'versions of a server of protocol %s: %r' % (pf, vs),
                                  dict(case=key))
            if cl.convert_seconds(1.5) != (1.5 if major >= 5 else 1500):
                rep.violation(key, 'convert_seconds(1.5) is %r for protocol %s'
                              % (cl.convert_seconds(1.5), pf), dict(case=key))
        cx.count(server_client_pairs=n)
    return go


# ---------------------------------------------------------------- histories on the client
ANN = {'5.0-MI': (5, 0, 'MI'), '5.0-M': (5, 0, 'M'), '5.1-IMTB': (5, 1, 'BIMT'), '6.2-I': (6, 2, 'I'),
       '4.1-M': (4, 1, 'M'), '5.0': (5, 0, ''), '5.0-IM': (5, 0, 'MI'), '3.0': (3, 0, '')}
V4 = (4, 0, '')
OPS = {'v5': [('ann', '5.0-MI'), ('ann', '5.0-M'), ('ann', '5.1-IMTB'), ('ann', '5.0-IM'), ('lib',),
              ('short',), ('req',), ('reqmid',), ('wait', 1.), ('time', 0.6), ('lose',)],
       'v4': [('v4', '#version foo-1.0'), ('v4', '#build-state foo-0.1'), ('ann', '5.0-MI'),
              ('ann', '4.1-M'), ('ann', '3.0'), ('req',), ('force',), ('wait', None), ('conv',), ('lose',),
              ('restart',)],
       'restart': [('ann', '6.2-I'), ('ann', '5.0'), ('lib',), ('req',), ('wait', 1.), ('lose',),
                   ('restart',), ('time', 1.2), ('conv',)],
       'preset': [('preset', '5.0-MI'), ('preset', '4.1-M'), ('ann', '5.0-M'), ('ann', '5.0-MI'),
                  ('v4', '#version foo-1.0'), ('req',), ('reqmid',), ('wait', 1.), ('lose',), ('restart',)]}


def drive(base, alpha, depth):
    ops = OPS[alpha]

    def body(ch):
        sim.reset()
        sim.W.net.manual_ports.add(PORT)
        loop = sim.VLoop(make_current=True)
        cl = base('127.0.0.1', PORT)
        probs, trace, states = [], [], []
        rig.start_client(cl, loop)
        peer = rig.accept_client(loop)
        flags, preset, waits, versions, over = None, False, [], {}, False
        name = 0

        def bad(p):
            probs.append(p)

        for _ in range(depth):
            o = ops[ch.choose(len(ops), 0, 'op')]
            trace.append(o)
            known = None
            if o[0] in ('ann', 'v4'):
                new = ANN[o[1]] if o[0] == 'ann' else V4
                line = o[1] if o[0] == 'v4' else '#version-connect katcp-protocol ' + o[1]
                peer.send(line.encode() + b'\n')
                if o[0] == 'ann':
                    versions['katcp-protocol'] = (o[1],)
                if flags is None:
                    flags = new
                elif flags != new and not preset:
                    over = True
            elif o[0] == 'lib':
                peer.send(b'#version-connect katcp-library lib-1 serial\\_2\n')
                versions['katcp-library'] = ('lib-1', 'serial 2')
            elif o[0] == 'short':
                peer.send(b'#version-connect katcp-protocol\n#version-connect\n')
            elif o[0] in ('req', 'reqmid', 'force'):
                name += 1
                ids = flags is not None and 'I' in flags[2]
                m = Message.request('r%d' % name)
                kw = {}
                if o[0] == 'reqmid':
                    m.mid = b'77'
                elif o[0] == 'force':
                    kw['use_mid'] = True
                try:
                    r = cl.request(m, **kw)
                    refused = False
                except KatcpVersionError:
                    refused = True
                except Exception as e:
                    bad('request raised %r' % e)
                    break
                loop.drain()
                got = [PARSER.parse(x) for x in peer.lines()]
                if refused:
                    if ids or o[0] == 'req':
                        bad('request with an id refused, the server is %r' % (flags,))
                    if got:
                        bad('a refused request was sent: %r' % got)
                else:
                    if o[0] != 'req' and not ids:
                        bad('request with an id was accepted, the server is %r' % (flags,))
                    if len(got) != 1 or got[0].name != m.name:
                        bad('sent %r' % got)
                        break
                    wid = b'77' if o[0] == 'reqmid' else r if ids else None
                    if got[0].mid != wid or (ids and not wid):
                        bad('request sent with id %r, should be %r (server %r)' % (got[0].mid, wid, flags))
            elif o[0] == 'wait':
                f = cl.until_protocol(timeout=o[1])
                waits.append([f, None if o[1] is None else sim.W.now + o[1], flags is not None, False])
            elif o[0] == 'time':
                loop.advance(o[1])
            elif o[0] == 'conv':
                if flags is not None:
                    for t in (0, 1.5, 12.0):
                        c = cl.convert_seconds(t)
                        w = t if flags[0] >= 5 else t * 1000
                        if c != w:
                            bad('convert_seconds(%r) is %r with protocol %r' % (t, c, flags))
            elif o[0] == 'preset':
                cl.preset_protocol_flags(PF.parse_version(o[1].encode()))
                flags, preset = ANN[o[1]], True
            elif o[0] == 'lose':
                peer.close()
                loop.drain()
                loop.advance(1.)
                if not sim.W.net.pending_connects:
                    bad('no attempt to connect again')
                    break
                peer = rig.accept_client(loop)
            elif o[0] == 'restart':
                cl.stop()
                loop.drain()
                loop.advance(0.1)
                waits = [w for w in waits if w[3]]       # (waits across a restart are not specified)
                cl.start()
                loop.drain()
                if not sim.W.net.pending_connects:
                    bad('no attempt to connect after a restart')
                    break
                peer = rig.accept_client(loop)
                if not preset:
                    flags = None
                versions = {}
            loop.drain()
            if over:
                # the server contradicts itself: the connection is given up for good
                loop.advance(2.)
                if cl.is_connected() or not peer.eof() or sim.W.net.pending_connects:
                    bad('still connected to a server that changed its protocol version')
                break
            got = cl.protocol_flags
            gf = None if got is None else (got.major, got.minor,
                                           ''.join(sorted(x.decode() for x in got.flags)))
            wf = None if flags is None else (flags[0], flags[1], ''.join(sorted(flags[2])))
            if gf != wf:
                bad('protocol_flags is %r, should be %r' % (gf, wf))
            if not cl.is_connected():
                bad('the client lost its connection')
            if dict(cl.versions) != versions:
                bad('versions is %r, should be %r' % (dict(cl.versions), versions))
            for w in waits:
                f, deadline, ok, seen = w
                if seen:
                    continue
                if flags is not None and (deadline is None or sim.W.now <= deadline + 1e-9 or ok):
                    w[2] = ok = True
                if f.done():
                    w[3] = True
                    failed = f.exception() is not None
                    if failed and ok or not failed and not ok:
                        bad('until_protocol %s' % ('failed: %r' % f.exception() if failed else
                                                   'resolved without protocol information'))
                    if failed and sim.W.now < deadline - 1e-9:
                        bad('until_protocol timed out early')
                elif ok:
                    bad('until_protocol not resolved although the protocol is known')
                elif deadline is not None and sim.W.now > deadline + 1e-9:
                    bad('until_protocol not timed out')
            if sim.W.loop_errors:
                bad('error in the event loop: %r' % sim.W.loop_errors[:1])
            states.append((alpha, gf, preset, tuple(sorted(versions)), len(waits)))
            if probs:
                break
        for w in waits:
            if w[0].done():
                w[0].exception()
        return {'probs': probs, 'trace': trace, 'states': states, 'steps': len(trace),
                'outcome': (alpha, repr(states))}
    return body


class _First(object):
    """A chooser whose first choice is fixed, to share a scenario between workers."""

    def __init__(self, ch, i):
        self.ch, self.i, self.used = ch, i, False

    def __getattr__(self, a):
        return getattr(self.ch, a)

    def choose(self, n, cost=0, tag=None):
        if not self.used:
            self.used = True
            return self.i
        return self.ch.choose(n, cost, tag)


def scenarios(tier):
    out = []
    depth = 5 if tier == 'thorough' else 4
    for base in (DeviceClient, AsyncClient):
        for alpha in sorted(OPS):
            body = drive(base, alpha, depth)
            for i in range(len(OPS[alpha])):
                out.append(('%s %s %d' % (base.__name__, alpha, i),
                            lambda ch, body=body, i=i: body(_First(ch, i)), 0))
    return out


def run(tier, rep):
    tasks = rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(' (')[0][:90])
    tasks += [flags_section] + [pair_section(b, k) for b in (DeviceClient, AsyncClient) for k in range(4)]
    ex = rig.parallel(rep, tasks, batch=1)
    rep.sample({'history': ['v4 #version', 'ann 5.0-MI'], 'outcome': 'the connection is given up'})
    ex.finish(operation_depth=5 if tier == 'thorough' else 4)


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj.get('scenario'):
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
    run('quick', rep)
