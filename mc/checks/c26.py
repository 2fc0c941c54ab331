"""C26: containers and groups show what their clients have, and act on all of them.

The real KATCPClientResourceContainer with real resource clients against scripted
devices: all histories, up to a depth, of changes of the devices, connection loss,
adding clients and groups, reading the combined requests and sensors in any order
and using them. Waiting of a group: all combinations of when clients satisfy a
condition with all quorums and time-outs.
"""
import math
import random
import re
from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
from .c17 import Device, esc, PARSER, norm  # noqa
from .c15 import with_first_choice  # noqa
from tornado import gen  # noqa
from katcp import Message, Sensor, resource  # noqa
from katcp.core import AttrDict  # noqa
from katcp.resource_client import (KATCPClientResourceContainer, ClientGroup)  # noqa

PORT = 4400
INT = ['-9999', '9999']
SENS = {'a.x': [('first', '', 'integer', INT), ('second', 'm', 'integer', INT)],
        'b-y': [('bee', '', 'integer', INT)], 'aggy': [('aggrieved', '', 'integer', INT)], 'agg_z': [('sum', '', 'integer', INT)],
        'c': [('cee', '', 'integer', INT)]}
REQS = {'do-it': [('?do-it one', None), ('?do-it two', 2.5)], 'clear': [('?clear', None)],
        'items': [('?items', None)], 'halt': [('?halt', None)]}
NAMES = ['dev-1', 'dev.2', 'third']
HAS = [(('a.x', 'b-y', 'aggy'), ('do-it',)), (('a.x', 'agg_z'), ('do-it', 'halt')), (('c',), ('do-it', 'clear'))]


def drive(ops, depth, answers, first, third=False, start=()):
    def body(ch):
        sim.reset()
        random.seed(0)
        loop = sim.VLoop(make_current=True)
        n0 = 3 if third else 2
        devs, peers = [], [None] * 3
        for i in range(3):
            sim.W.net.manual_ports.add(PORT + i)
            devs.append(Device(SENS, REQS, *HAS[i]))
        spec = {'name': 'all', 'clients': {}, 'groups': {'g-x': ['dev-1', 'dev_2'], 'one': ['dev.2']}}
        for i in range(n0):
            spec['clients'][NAMES[i]] = {'address': ('127.0.0.1', PORT + i), 'controlled': True}
        cont = KATCPClientResourceContainer(spec)
        cont.set_ioloop(loop)
        groups = {'g_x': ['dev-1', 'dev.2'], 'one': ['dev.2']}
        names = NAMES[:n0]
        probs, trace, states = [], [], []
        st = {'quiet': False, 'held': [], 'up': [True] * 3, 'active': True}
        waits = []
        calls = [0, 0, 0]
        kept = dict((g, dict.get(cont.groups, g)) for g in groups)

        def bad(p):
            probs.append(p)

        def child(name):
            return dict.get(cont.children, esc(name))

        def kids():
            return [(n, child(n)) for n in names]

        def give(i, m):
            if m.name in ('do-it', 'clear', 'items', 'halt'):
                calls[i] += 1
            out = devs[i].answer(m)
            peers[i].send(b''.join(bytes(x) + b'\n' for x in out))

        def pump():
            for _ in range(300):
                loop.drain()
                note()
                did = False
                for s in list(sim.W.net.pending_connects):
                    i = s.target[1] - PORT
                    if st['up'][i]:
                        peers[i] = sim.Peer.accept_pending(s)
                        peers[i].send(b'#version-connect katcp-protocol 5.0-IM\n')
                        devs[i].strat = {}
                        did = True
                for i in range(3):
                    if peers[i] is None:
                        continue
                    for line in peers[i].lines():
                        m = PARSER.parse(line)
                        did = True
                        if st['quiet'] and m.name in answers and ch.choose(2, 1, m.name):
                            trace.append('(hold %d %s)' % (i, m))
                            st['held'].append((i, peers[i], m))
                        else:
                            give(i, m)
                if not did:
                    return
            bad('the clients never come to rest')

        def release():
            held, st['held'][:] = list(st['held']), []
            for i, p, m in held:
                if peers[i] is p:
                    give(i, m)

        def lose(i):
            if peers[i] is not None:
                peers[i].close()
                peers[i] = None

        def note():
            """What the waits were waiting for."""
            for w in waits:
                for n, c in kids():
                    if c.synced:
                        w['synced'].add(n)
                    else:
                        w['not'] = True
                    if c.state == 'syncing':
                        w['syncing'] = True

        def union(attr):
            out = {}
            for n, c in kids():
                for k, v in dict.items(getattr(c, attr)):
                    out[k if k.startswith('agg_') else esc(n) + '_' + k] = v
            return out

        def same(what, got, want):
            got = dict(dict.items(got))
            if set(got) != set(want):
                bad('%s are %r, should be %r' % (what, sorted(got), sorted(want)))
            elif [k for k in got if got[k] is not want[k]]:
                bad('%s: %r are not those of the clients'
                    % (what, [k for k in got if got[k] is not want[k]]))

        def read(which):
            if which == 'req':
                same('requests', cont.req, union('req'))
            elif which == 'sensor':
                same('sensors', cont.sensor, union('sensor'))
            else:
                if set(dict.keys(cont.groups)) != set(groups):
                    bad('groups are %r' % sorted(cont.groups))
                for gname, members in groups.items():
                    for g in (dict.get(cont.groups, gname), kept.get(gname)):
                        if g is None:
                            continue
                        if [c.name for c in g.clients] != members or len(g) != len(members):
                            bad('group %s has %r' % (gname, [c.name for c in g]))
                        want = set()
                        for m in members:
                            want.update(dict.keys(child(m).req))
                        if set(dict.keys(g.req)) != want:
                            bad('requests of group %s are %r, should be %r'
                                % (gname, sorted(g.req), sorted(want)))

        def call(gname, rname):
            g = dict.get(cont.groups, gname)
            members = groups[gname]
            have = [m for m in members if esc(rname) in dict.keys(child(m).req)]
            r = dict.get(g.req, esc(rname))
            if r is None:
                if have:
                    bad('group %s has no request %s' % (gname, rname))
                return
            if not have:
                bad('group %s has request %s although no client has' % (gname, rname))
            before = list(calls)
            keys = [sorted(dict.keys(child(m).req)) for m in members]
            conn = [m for m in have if child(m).is_connected()]
            f = r('x')
            pump()
            release()
            pump()
            if keys != [sorted(dict.keys(child(m).req)) for m in members]:
                bad('calling %s of group %s changes the requests of its clients' % (rname, gname))
            if not st['active']:
                if not f.done() or not isinstance(f.exception(), resource.KATCPResourceInactive):
                    bad('calling %s of an inactive group gives %r' % (rname, f))
                if calls != before:
                    bad('an inactive group sends requests')
                return
            if not f.done():
                loop.advance(10.)
                pump()
            if not f.done() or f.exception() is not None:
                bad('calling %s of group %s gives %r' % (rname, gname, f.done() and f.exception()))
                return
            res = f.result()
            if set(res) != set(members):
                bad('results of %s of group %s: %r' % (rname, gname, res))
                return
            ok = True
            for m in members:
                i = NAMES.index(m)
                x = res[m]
                if m not in have:
                    ok = False
                    if x is not None:
                        bad('%s has no %s, but the result is %r' % (m, rname, x))
                elif m in conn:
                    if x is None or not x.succeeded or x.reply.name != rname or \
                            x.reply.arguments != [b'ok', b'x'] or len(x.informs) != 1:
                        bad('%s answers %r' % (m, x))
                    if calls[i] != before[i] + 1:
                        bad('%s got %d requests' % (m, calls[i] - before[i]))
                else:
                    ok = False
                    if x is None or x.succeeded:
                        bad('%s is not connected, but the result is %r' % (m, x))
            if bool(res) != ok or res.succeeded != ok:
                bad('the result %r is %s' % (res, bool(res)))

        def apply(o):
            k = o[0]
            if k in ('sens', 'req'):
                d = devs[o[1]]
                t = d.s if k == 'sens' else d.r
                if o[3] is None:
                    t.pop(o[2], None)
                else:
                    t[o[2]] = o[3]
                if k == 'sens':
                    d.strat.pop(o[2], None)
                if peers[o[1]] is not None:
                    peers[o[1]].send(b'#interface-changed\n')
            elif k == 'lose':
                lose(o[1])
            elif k == 'down':
                st['up'][o[1]] = False
                lose(o[1])
            elif k == 'up':
                st['up'][o[1]] = True
            elif k == 'time':
                for _ in range(int(o[1])):
                    loop.advance(1.)
                    release()
                    pump()
            elif k == 'read':
                read(o[1])
            elif k == 'call':
                call(o[1], o[2])
            elif k == 'active':
                st['active'] = o[1]
                cont.set_active(o[1])
            elif k == 'child':
                if 'third' not in names:
                    names.append('third')
                    c = cont.add_child_resource_client('third', {'address': ('127.0.0.1', PORT + 2),
                                                                 'controlled': True})
                    if c is not child('third'):
                        bad('the client that was added is not there')
            elif k == 'group':
                groups['late_g'] = ['dev.2', 'dev-1']
                cont.add_group('late.g', ['dev.2', 'dev_1'])
            elif k == 'wait':
                f = {'synced': lambda: cont.until_synced(o[2]),
                     'not': lambda: cont.until_not_synced(o[2]),
                     'any': lambda: cont.until_any_child_in_state('syncing'),
                     'all': lambda: cont.until_all_children_in_state('synced', o[2])}[o[1]]()
                waits.append({'kind': o[1], 'f': f, 'synced': set(), 'not': False, 'syncing': False,
                              'names': list(names), 'deadline': o[2] and sim.W.now + o[2], 'over': False})
            elif k == 'set':
                ident = o[1]
                want = [(n, s) for n, c in kids() for s in dict.keys(c.sensor)
                        if (s if s.startswith('agg_') else esc(n) + '_' + s) == ident]
                f = cont.set_sampling_strategy(ident, o[2])
                pump()
                release()
                pump()
                if f.done() and not f.exception():
                    got = f.result()
                    exp = {}
                    for n, s in want:
                        exp.setdefault(n, {})[s] = o[2]
                    if got != exp:
                        bad('setting a strategy of %s returns %r, should be %r' % (ident, got, exp))
                    for n, s in want:
                        i = NAMES.index(n)
                        raw = [x for x in devs[i].s if esc(x) == s]
                        if raw and peers[i] is not None and child(n).synced and \
                                devs[i].strat.get(raw[0], ('none',)) != norm(o[2]):
                            bad('device %s samples %s with %r' % (n, raw[0], devs[i].strat.get(raw[0])))
                elif f.done():
                    bad('setting a strategy of %s: %r' % (ident, f.exception()))
            elif k == 'listen':
                ident = o[1]
                heard = []
                f = cont.set_sensor_listener(ident, lambda s, r: heard.append((s.name, r.value)))
                pump()
                if not f.done() or f.exception():
                    bad('setting a listener of %s: %r' % (ident, f))
                for n, c in kids():
                    i = NAMES.index(n)
                    for raw in list(devs[i].s):
                        x = esc(raw)
                        if (x if x.startswith('agg_') else esc(n) + '_' + x) == ident and c.synced and \
                                peers[i] is not None and not st['held'] and \
                                x in dict.keys(c.sensor):
                            devs[i].value[raw] += 1
                            peers[i].send(bytes(devs[i].update(raw)) + b'\n')
                            pump()
                            if heard != [(raw, devs[i].value[raw])]:
                                bad('the listener of %s heard %r' % (ident, heard))

        def check():
            if cont.is_connected() != all(c.is_connected() for _, c in kids()):
                bad('is_connected() is %r' % cont.is_connected())
            for w in waits:
                if w['over']:
                    continue
                true = {'synced': set(w['names']) <= w['synced'], 'all': set(w['names']) <= w['synced'],
                        'not': w['not'], 'any': w['syncing']}[w['kind']]
                late = w['deadline'] and sim.W.now >= w['deadline']
                if w['f'].done():
                    w['over'] = True
                    e = w['f'].exception()
                    if e is None and not true:
                        bad('until %s resolved too early' % w['kind'])
                    if e is not None and not (isinstance(e, gen.TimeoutError) and late):
                        bad('until %s raised %r' % (w['kind'], e))
                elif true or late:
                    bad('until %s does not resolve' % w['kind'])

        def lists():
            """list_sensors in all its variants."""
            loop.drain()
            items = dict(dict.items(cont.sensor))
            for filt in ('', 'x', '^dev', 'agg_', 'dev_1_a_x$', r'a\.x', 'nothing'):
                for strategy in (False, True):
                    for status in ('', 'nominal', 'unknown', 'nominal|unknown'):
                        for ident in (True, False):
                            for tup in (False, True):
                                f = cont.list_sensors(filt, strategy, status, ident, tup)
                                pump()
                                want = []
                                for k in sorted(items):
                                    o = items[k]
                                    if not re.search(filt, k if ident else o.name) or strategy and \
                                            o.sampling_strategy == ('none',) or status and \
                                            o.status not in status.split('|'):
                                        continue
                                    n = o.name if o.name.startswith('agg_') else o.parent_name + '.' + o.name
                                    r = o.reading
                                    if tup:
                                        want.append((n, r.value, r.timestamp, o.type, o.units,
                                                     r.received_timestamp, r.status, o.sampling_strategy))
                                    else:
                                        want.append((o, n, k, o.description, o.type, o.units, r))
                                got = [tuple(x) for x in f.result()]
                                if got != want:
                                    bad('list_sensors%r gives %r, should be %r'
                                        % ((filt, strategy, status, ident, tup), got, want))
                                    return

        cont.start()
        pump()
        for o in start:
            apply(o)
            pump()
        for i in range(depth):
            o = ops[ch.choose(len(ops), 0, 'op') if i else first]
            st['quiet'] = True
            trace.append(o)
            held = bool(st['held'])
            apply(o)
            note()
            if held:
                loop.drain()
                release()
            pump()
            check()
            if probs:
                break
            states.append((tuple(c.state for _, c in kids()), tuple(tuple(sorted(d.s)) for d in devs),
                           tuple(tuple(sorted(d.r)) for d in devs), len(names), len(groups), st['active'],
                           bool(st['held'])))
        if not probs:
            st['quiet'] = False
            st['up'] = [True] * 3
            for k in range(60):
                release()
                pump()
                if k and all(c.synced for _, c in kids()):
                    break
                loop.advance(1.)
                pump()
            check()
            if not all(c.synced for _, c in kids()):
                bad('not synced in the end: %r' % [c.state for _, c in kids()])
            else:
                for w in (('req', 'sensor', 'group') if ch.choose(2, 0, 'order') else
                          ('sensor', 'group', 'req')):
                    read(w)
                for n, c in kids():
                    i = NAMES.index(n)
                    if set(dict.keys(c.sensor)) != set(esc(x) for x in devs[i].s):
                        bad('client %s has sensors %r' % (n, sorted(c.sensor)))
                    if set(dict.keys(c.req)) != set(esc(x) for x in devs[i].requests()):
                        bad('client %s has requests %r' % (n, sorted(c.req)))
                if not probs:
                    lists()
                if not probs:
                    apply(('active', True))
                    for g in sorted(groups):
                        for r in ('do-it', 'clear', 'items'):
                            call(g, r)
                if not probs:
                    cont.stop()
                    loop.drain()
                    loop.advance(1.)
                    fs = cont.until_stopped()
                    if [p for p in peers if p is not None and not p.eof()] or \
                            set(fs) != set(esc(n) for n in names) or not all(f.done() for f in fs.values()):
                        bad('not stopped: %r' % (fs,))
        for w in waits:
            if w['f'].done():
                w['f'].exception()
        if sim.W.loop_errors:
            bad('error in the event loop: %r' % (sim.W.loop_errors[0],))
        return {'probs': probs, 'trace': trace, 'states': states, 'steps': len(trace),
                'outcome': repr((trace[-1:], states[-1:]))}
    return body


# -- waiting of groups ------------------------------------------------------------

class Mgr(object):
    resource_name = 'r'

    def __init__(self, loop, strategy):
        self.time = loop.time
        self.strategy = strategy

    def get_sampling_strategy(self, name):
        return self.strategy


class Res(resource.KATCPResource):
    """A resource with one sensor."""
    name = description = address = parent = sensor = None
    children = {}
    req = {}

    def __init__(self, name, loop, present=True, strategy=('event',)):
        super(Res, self).__init__()
        self.name = name
        self.sensor = AttrDict()
        self.s = resource.KATCPSensor(dict(sensor_type=Sensor.INTEGER, name='s.x', params=[-9, 9]),
                                      Mgr(loop, strategy))
        if present:
            self.sensor['s_x'] = self.s

    def is_connected(self):
        return True

    def list_sensors(self, *a, **kw):
        raise NotImplementedError


QUORUMS = [None, 1, 2, 3, 0.2, 0.5, 0.7, 1.0]
TIMES = [(5.0, 1.0), (5.0, 0.0), (5.0, 4.0), (1.0, 3.0), (None, 1.0), (2.0, 0.25), (None, 0.0)]
WHEN = [0.0, 0.3, 1.1, 2.2, 4.2, 4.6, None]


def drive_wait(n):
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        timeout, grace = TIMES[ch.choose(len(TIMES), 0, 'timeout')]
        quorum = QUORUMS[ch.choose(len(QUORUMS), 0, 'quorum')]
        when = [WHEN[ch.choose(len(WHEN), 0, 'when')] for _ in range(n)]
        probs = []
        rs = [Res('r%d' % i, loop) for i in range(n)]
        g = ClientGroup('g', rs)
        if isinstance(quorum, int) and quorum > n:
            return {'probs': [], 'steps': 0, 'outcome': 'none'}
        for r, w in zip(rs, when):
            if w == 0:
                r.s.set_value(1)
        t0 = sim.W.now
        cond = 1 if ch.choose(2, 0, 'kind') else lambda reading: reading.value == 1
        f = g.wait('s.x', cond, timeout, quorum, grace)
        end = []
        f.add_done_callback(lambda f: end.append(sim.W.now - t0))
        need = n if quorum is None else quorum if isinstance(quorum, int) else int(math.ceil(quorum * n))
        # when the quorum is there, or the time is over
        reach = sorted(w for w in when if w is not None)
        gp = min(grace, timeout / 2.) if timeout else grace
        t1 = reach[need - 1] if len(reach) >= need else None
        if timeout:
            t1 = timeout - gp if t1 is None else min(t1, timeout - gp)
        t2 = None if t1 is None else t1 + gp
        if t2 is not None and len(reach) == n and reach[-1] < t2:
            t2 = max(t1, reach[-1])
        loop.drain()
        for t in sorted(set(w for w in when if w) | set([20.])):
            loop.advance(t0 + t - sim.W.now)
            for r, w in zip(rs, when):
                if w == t:
                    r.s.set_value(1)
            loop.drain()
        what = 'wait(quorum=%r, timeout=%r, grace=%r), clients at %r' % (quorum, timeout, grace, when)
        if t2 is None:
            if f.done():
                probs.append('%s resolves with %r' % (what, f.exception() or f.result()))
        elif not f.done():
            probs.append('%s never resolves' % what)
        elif f.exception() is not None:
            probs.append('%s raises %r' % (what, f.exception()))
        else:
            res = f.result()
            exact = dict((r.name, w is not None and w <= t2 + 1e-6) for r, w in zip(rs, when))
            if abs(end[0] - t2) > 1e-6:
                probs.append('%s resolves after %s s, should take %s s' % (what, end[0], t2))
            if bool(res) != (sum(exact.values()) >= need):
                probs.append('%s gives %s %r' % (what, bool(res), res))
            if gp and dict((k, bool(v)) for k, v in res.items()) != exact:
                probs.append('%s gives %r, should be %r' % (what, dict(res), exact))
            for r in rs:
                calls = []
                r.s.register_listener(lambda *a: calls.append(a))
        if sim.W.loop_errors:
            probs.append('error in the event loop: %r' % (sim.W.loop_errors[0],))
        return {'probs': probs, 'trace': what, 'steps': n, 'states': [(quorum, timeout, grace, tuple(when))],
                'outcome': repr((end, need))}
    return body


def drive_refused():
    def body(ch):
        sim.reset()
        loop = sim.VLoop(make_current=True)
        probs = []
        kinds = [ch.choose(3, 0, 'kind') for _ in range(2)]
        rs = [Res('r%d' % i, loop, k != 1, ('none',) if k == 2 else ('event',))
              for i, k in enumerate(kinds)]
        f = ClientGroup('g', rs).wait('s.x', 1, 1.0)
        loop.drain()
        loop.advance(5.)
        if any(kinds):
            if not f.done() or not isinstance(f.exception(), resource.KATCPSensorError):
                probs.append('waiting for sensors %r gives %r' % (
                    [('fine', 'missing', 'without strategy')[k] for k in kinds],
                    f.done() and (f.exception() or f.result())))
        elif not f.done() or f.exception() or f.result():
            probs.append('waiting gives %r' % f)
        return {'probs': probs, 'trace': kinds, 'steps': 1, 'states': [tuple(kinds)], 'outcome': repr(kinds)}
    return body


def scenarios(tier):
    d = 1 if tier == 'thorough' else 0
    R = [('read', 'req'), ('read', 'sensor'), ('read', 'group')]
    tab = [
        ('sensors', R + [('sens', 0, 'a.x', None), ('sens', 1, 'b-y', 0), ('sens', 0, 'a.x', 1),
                         ('sens', 1, 'agg_z', None), ('lose', 0)], 4 + d, ['sensor-list'], 1, {}),
        ('requests', R + [('req', 0, 'clear', 0), ('req', 1, 'items', 0), ('req', 0, 'do-it', None),
                          ('req', 1, 'do-it', 1), ('lose', 1)], 4 + d, ['help'], 1, {}),
        ('calls', [('call', 'g_x', 'do-it'), ('call', 'one', 'do-it'), ('call', 'g_x', 'clear'),
                   ('call', 'g_x', 'items'), ('req', 0, 'clear', 0), ('req', 1, 'items', 0), ('down', 0),
                   ('up', 0), ('active', False), ('active', True)], 4 + d, [], 0, {}),
        ('more', R + [('child',), ('group',), ('req', 0, 'clear', 0), ('call', 'g_x', 'clear'),
                      ('sens', 2, 'a.x', 0), ('lose', 2), ('req', 2, 'clear', None)], 4 + d, [], 0, {}),
        ('three', R[:2] + [('req', 2, 'clear', None), ('req', 2, 'items', 0), ('sens', 2, 'c', None),
                           ('group',), ('call', 'g_x', 'do-it'), ('lose', 0)], 3 + d, ['help', 'sensor-list'],
         1, {'third': True}),
        ('waits', [('wait', 'synced', None), ('wait', 'synced', 2.), ('wait', 'not', None), ('wait', 'not', 2.),
                   ('wait', 'any', None), ('wait', 'all', 2.), ('lose', 0), ('down', 1), ('up', 1),
                   ('time', 1.)], 4 + d, [], 0, {}),
        ('strategies', [('set', 'dev_1_a_x', 'event'), ('set', 'dev_2_a_x', 'period 2'), ('set', 'agg_z', 'event'),
                        ('set', 'dev_2_agg_z', 'event'), ('listen', 'dev_1_a_x'), ('listen', 'agg_z'),
                        ('sens', 0, 'a.x', 1), ('sens', 1, 'agg_z', None), ('lose', 0)], 3 + d,
         ['sensor-sampling'], 1, {})]
    out = [('%s:%s' % (name, ' '.join(str(x) for x in op)), drive(ops, depth, ans, first=i, **kw), bound)
           for name, ops, depth, ans, bound, kw in tab for i, op in enumerate(ops)]
    for n in ((2, 3, 4) if d else (2, 3)):
        for i in range(len(TIMES)):
            out.append(('group wait %d:%d' % (n, i), with_first_choice(drive_wait(n), i), 0))
    out.append(('group wait refused', drive_refused(), 0))
    return out


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:80]), batch=1)
    rep.sample({'scenario': 'requests', 'events': ['device 1 gets a request', 'read requests', 'read sensors']})
    ex.finish()


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj.get('scenario'):
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
    run('quick', rep)
