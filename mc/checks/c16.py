"""C16: the inspecting client's picture of a server is right whenever it says so.

The real InspectingClientAsync against a scripted server whose interface changes at
any moment: every answer may be prompt, late (the next event comes first), missing,
a failure, or cut off by the loss of the connection. All histories up to a depth,
with a bounded number of such deviations, are compared with a model of what was
inspected: the reported changes have to be exactly the differences between
successive complete inspections.
"""
import random
from .. import env, sim
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, Sensor  # noqa
from katcp.inspecting_client import InspectingClientAsync  # noqa
import tornado.gen  # noqa
from tornado.concurrent import Future  # noqa

PARSER = katcp.MessageParser()
PORT = 4200
SENS = {'s': [('first', '', b'integer', [b'-5', b'5']), ('second', 'm', b'integer', [b'-5', b'5']),
              ('first', '', b'discrete', [b'x', b'y'])],
        't': [('tee', '', b'boolean', [])]}
REQS = {'r': [('?r one', None), ('?r two', None), ('?r one', 12.5)], 'q': [('?q', 0.25)]}
BASE = {'help': ('get help', None), 'sensor-list': ('list', None)}
VALUES = {b'integer': (b'3', 3), b'discrete': (b'y', 'y'), b'boolean': (b'1', True)}


class Fake(object):
    """What the server has, and how it answers."""

    def __init__(self, hints):
        self.hints = hints
        self.s = {'s': 0}           # name -> variant
        self.r = {'r': 0}

    def sensors(self):
        return dict((n, SENS[n][v]) for n, v in self.s.items())

    def requests(self):
        d = dict(BASE)
        if self.hints:
            d['request-timeout-hint'] = ('hints', None)
        for n, v in self.r.items():
            d[n] = REQS[n][v]
        return d

    def greeting(self):
        return b'#version-connect katcp-protocol %s\n' % (b'5.1-MIT' if self.hints else b'5.0-MI')

    def answer(self, m):
        """-> (informs and reply, what was told)"""
        name = m.arguments[0].decode() if m.arguments else None
        if m.name == 'help':
            items = self.requests()
            rows = [[n, items[n][0]] for n in sorted(items)]
            unknown = 'Unknown request method.'
        elif m.name == 'request-timeout-hint':
            items = self.requests()
            rows = [[n, repr(items[n][1])] for n in sorted(items) if items[n][1]]
            unknown = 'Unknown request method.'
        else:
            items = self.sensors()
            rows = [[n, d[0], d[1], d[2]] + list(d[3]) for n, d in sorted(items.items())]
            unknown = 'Unknown sensor name.'
        if name is not None:
            if name not in items:
                return [Message.reply_to_request(m, 'fail', unknown)], {}
            rows = [r for r in rows if r[0] == name]
            items = {name: items[name]}
        return [Message.reply_inform(m, *r) for r in rows] + [
            Message.reply_to_request(m, 'ok', len(rows))], items


def public(ic):
    return set(ic.sensors), set(ic.requests)


def drive(hints, ops, depth, user, answers, start=()):
    """answers: what may happen to a request of the client, besides a prompt answer."""

    def body(ch):
        sim.reset()
        random.seed(0)
        sim.W.net.manual_ports.add(PORT)
        loop = sim.VLoop(make_current=True)
        srv = Fake(hints)
        ic = InspectingClientAsync('127.0.0.1', PORT, ioloop=loop)
        probs, trace, states = [], [], []
        st = {'peer': None, 'held': [], 'cb': None, 'raise': False, 'told': {}, 'complete': None,
              'quiet': True, 'up': True, 'helps': 0, 'failnext': False, 'alive': False, 'disturbed': False}
        view = (set(), set())
        calls = []
        lookups = []

        def bad(p):
            probs.append(p)

        def on_state(state, changes):
            calls.append(state)
            prev = calls[-2] if len(calls) > 1 else None
            ch_s = (set(), set())
            ch_r = (set(), set())
            if changes is not None:
                if changes.get('sensors'):
                    ch_s = (set(changes.sensors.added), set(changes.sensors.removed))
                if changes.get('requests'):
                    ch_r = (set(changes.requests.added), set(changes.requests.removed))
            some = any(ch_s) or any(ch_r)
            if state.model_changed != bool(some):
                bad('model_changed is %r with changes %r' % (state.model_changed, changes))
            if some and not state.data_synced:
                bad('changes reported in state %s' % (state,))
            if state.synced and (prev is None or not prev.data_synced):
                bad('synced follows %s' % (prev,))
            if state.data_synced and not state.synced:
                # a complete inspection is reported: exactly what changed since the last one
                old, new = st['complete'], st['told'].get('all')
                if new is None:
                    bad('data synced without a complete inspection')
                    return None
                st['complete'] = new
                st['told'] = {}
                for what, (added, removed), o, n in (
                        ('sensors', ch_s, old and old[0] or {}, new[0]),
                        ('requests', ch_r, old and old[1] or {}, new[1])):
                    wa = set(x for x in n if x not in o or o[x] != n[x])
                    wr = set(x for x in o if x not in n or o[x] != n[x])
                    if added != wa or removed != wr:
                        bad('%s: reported added %r removed %r, should be %r %r'
                            % (what, sorted(added), sorted(removed), sorted(wa), sorted(wr)))
                for i, (added, removed) in enumerate((ch_s, ch_r)):
                    for x in removed:
                        view[i].discard(x)
                    view[i].update(added)
                got = public(ic)
                if got != (set(new[0]), set(new[1])):
                    bad('data synced with sensors %r and requests %r, should be %r and %r'
                        % (sorted(got[0]), sorted(got[1]), sorted(new[0]), sorted(new[1])))
            if st['raise']:
                st['raise'] = False
                raise RuntimeError('user callback')
            if user == 'slow' and state.data_synced and not state.synced and st['quiet']:
                st['cb'] = Future()
                return st['cb']
            return None
        if user != 'none':
            ic.set_state_callback(on_state)

        def give(m, how):
            """Answer the request m."""
            peer = st['peer']
            if how == 'fail':
                st['disturbed'] = True
                peer.send(bytes(Message.reply_to_request(m, 'fail', 'no way')) + b'\n')
                return
            msgs, items = srv.answer(m)
            peer.send(b''.join(bytes(x) + b'\n' for x in msgs))
            if m.arguments:
                return
            st['told'][m.name] = items
            if m.name == 'sensor-list':
                r = dict((n, (d[0], None)) for n, d in st['told'].get('help', {}).items())
                for n, d in st['told'].get('request-timeout-hint', {}).items():
                    if n in r:
                        r[n] = (r[n][0], d[1])
                st['told']['all'] = (dict(items), r)

        def pump():
            """Let everything happen; the chooser decides about answers."""
            for _ in range(200):
                watch()
                loop.drain()
                did = False
                if sim.W.net.pending_connects and st['up']:
                    s = sim.W.net.pending_connects[0]
                    st['peer'] = sim.Peer.accept_pending(s)
                    st['peer'].send(srv.greeting())
                    st['alive'] = True
                    st['told'] = {}
                    st['held'][:] = []
                    did = True
                elif st['alive']:
                    for line in st['peer'].lines():
                        m = PARSER.parse(line)
                        did = True
                        how = 'answer'
                        if m.name == 'help' and not m.arguments:
                            st['helps'] += 1
                        if st['failnext'] and m.name == 'sensor-list':
                            st['failnext'] = False
                            how = 'fail'
                        if st['quiet'] and answers:
                            how = (['answer'] + answers)[ch.choose(1 + len(answers), 1, m.name)]
                        if how != 'answer':
                            trace.append('(%s %s)' % (how, m.name))
                        if how == 'hold':
                            st['held'].append(m)
                        elif how == 'lose':
                            lose()
                            break
                        elif how == 'never':
                            st['disturbed'] = True
                        else:
                            give(m, how)
                if not did:
                    return
            bad('the client never comes to rest')

        def lose():
            if st['alive']:
                st['peer'].close()
                st['alive'] = False
                st['held'][:] = []
                st['told'] = {}
                st['disturbed'] = True

        def release():
            held, st['held'][:] = list(st['held']), []
            for m in held:
                give(m, 'answer')

        def lookup(kind, name):
            f = (ic.future_get_sensor if kind == 's' else ic.future_get_request)(name)
            lookups.append([kind, name, f, True])

        def watch():
            """Has what is looked up been there all the time?"""
            for e in lookups:
                if not e[2].done() and e[1] not in (srv.s if e[0] == 's' else srv.r):
                    e[3] = False

        def check_object(kind, name, obj, src):
            d = src.get(name)
            if d is None:
                if obj is not None:
                    bad('%s %s is not on the server but there is %r' % (kind, name, obj))
                return
            if obj is None:
                bad('no object for %s %s' % (kind, name))
            elif kind == 's':
                got = (obj.name, obj.description, obj.units, obj.type, list(obj.params))
                par = Sensor.parse_params(Sensor.parse_type(d[2].decode()), d[3])
                want = (name, d[0], d[1], d[2].decode(), par)
                if got != want:
                    bad('sensor %s is described as %r, should be %r' % (name, got, want))
            else:
                got = (obj.name, obj.description, obj.timeout_hint)
                if got != (name, d[0], d[1] if hints else None):
                    bad('request %s is described as %r, should be %r' % (name, got, (name,) + d))

        def apply(o):
            changed = False
            if o[0] == 'sens':
                if o[2] is None:
                    srv.s.pop(o[1], None)
                else:
                    srv.s[o[1]] = o[2]
                changed = True
            elif o[0] == 'req':
                if o[2] is None:
                    srv.r.pop(o[1], None)
                else:
                    srv.r[o[1]] = o[2]
                changed = True
            elif o[0] == 'quiet':
                # the server changes and does not say so (yet)
                (srv.s if o[1] == 's' else srv.r)[o[2]] = o[3]
            elif o[0] == 'note':
                changed = True
            elif o[0] == 'lose':
                lose()
            elif o[0] == 'time':
                for _ in range(int(o[1])):
                    loop.advance(1.)
                    release()
                    pump()
            elif o[0] == 'get':
                lookup(o[1], o[2])
                watch()
            elif o[0] == 'down':
                st['up'] = False
                lose()
            elif o[0] == 'up':
                st['up'] = True
            elif o[0] == 'cb':
                if st['cb'] is not None:
                    f, st['cb'] = st['cb'], None
                    f.set_result(None)
            elif o[0] == 'raise':
                st['raise'] = True
                st['disturbed'] = True
            elif o[0] == 'stop':
                ic.stop()
                loop.drain()
                if st['alive'] and not st['peer'].eof():
                    bad('the connection stays open after stop')
                st['alive'] = False
                if o[1]:
                    loop.advance(200.)
                if ic.state.synced or o[1] and ic.state.connected:
                    bad('state %s after stop' % (ic.state,))
                ic.start()
                loop.drain()
            if changed and st['alive']:
                st['peer'].send(b'#interface-changed sensor-list\n')

        def settle():
            """No more trouble: the client has to get in sync with the server."""
            st['quiet'] = False
            st['up'] = True
            st['raise'] = False
            if any(o[0] == 'quiet' for o in trace):
                apply(('note',))
            for k in range(300):
                apply(('cb',))
                release()
                pump()
                if k > 1 and ic.state.synced:
                    break
                loop.advance(0.01 if k == 0 else 1.)
                pump()

        ic.start()
        pump()
        for o in start:
            apply(o)
            release()
            pump()
        held_before = False
        for _ in range(depth):
            o = ops[ch.choose(len(ops), 0, 'op')]
            trace.append(o)
            held_before = bool(st['held'])
            apply(o)
            if held_before:
                # late answers come after this event
                loop.drain()
                release()
            pump()
            if probs:
                break
            s = ic.state
            if s.synced and not s.data_synced or s.data_synced and not s.connected:
                bad('state %s' % (s,))
            if st['cb'] is None and not st['disturbed'] and not st['held'] and st['alive'] and st['up'] and \
                    o[0] != 'raise' and ic.connected:
                if not s.synced:
                    bad('not synced although nothing is outstanding: %s' % (s,))
            if s.synced and not st['alive'] and st['cb'] is None:
                bad('synced without a connection')
            states.append((s, tuple(sorted(srv.s.items())), tuple(sorted(srv.r.items())), st['alive'],
                           bool(st['held']), st['cb'] is not None))
        if not probs:
            settle()
            s = ic.state
            if not (s.connected and s.synced and s.data_synced and not s.model_changed):
                bad('in the end the state is %s' % (s,))
            elif sorted(ic.sensors) != sorted(srv.sensors()) or \
                    sorted(ic.requests) != sorted(srv.requests()):
                bad('in the end the client knows sensors %r and requests %r, the server has %r and %r'
                    % (sorted(ic.sensors), sorted(ic.requests), sorted(srv.sensors()),
                       sorted(srv.requests())))
            elif user != 'none' and (view[0] != set(srv.sensors()) or view[1] != set(srv.requests())):
                bad('in the end the reported changes add up to %r' % (view,))
            else:
                for kind, names, src in (('s', SENS, srv.sensors()), ('r', REQS, srv.requests())):
                    for name in sorted(names):
                        early = kind == 's' and name in src and len(trace) % 2
                        if early:
                            # the update comes before anyone asks for the sensor
                            raw, val = VALUES[src[name][2]]
                            st['peer'].send(b'#sensor-status 122.5 1 %s error %s\n' % (name.encode(), raw))
                            pump()
                        f = (ic.future_get_sensor if kind == 's' else ic.future_get_request)(name)
                        pump()
                        if not f.done() or f.exception() is not None:
                            bad('lookup of %s %s: %r' % (kind, name, f))
                        else:
                            check_object(kind, name, f.result(), src)
                            if early and f.result() is not None:
                                r = f.result().read()
                                if (r.timestamp, r.status, r.value) != (122.5, Sensor.ERROR, val):
                                    bad('the latest update of %s is lost: %r' % (name, r))
                        if kind == 's' and name in src:
                            raw, val = VALUES[src[name][2]]
                            st['peer'].send(b'#sensor-status 123.5 1 %s warn %s\n'
                                            % (name.encode(), raw))
                            pump()
                            r = f.result().read() if f.done() and not f.exception() else None
                            if r is None or (r.timestamp, r.status, r.value) != (
                                    123.5, Sensor.WARN, val):
                                bad('an update of %s is not seen: %r' % (name, r))
                # exactly one inspection per change, and a prompt new attempt if it fails
                st['helps'] = 0
                apply(('note',))
                pump()
                apply(('cb',))
                pump()
                if st['helps'] != 1 or not ic.state.synced:
                    bad('%d inspections because of one change, state %s' % (st['helps'], ic.state))
                st['failnext'] = True
                st['helps'] = 0
                apply(('note',))
                pump()
                for _ in range(11):
                    loop.advance(0.5)
                    pump()
                apply(('cb',))
                pump()
                if st['helps'] != 2 or not ic.state.synced:
                    bad('after a failure %d inspections in %s s, state %s'
                        % (st['helps'], ic.initial_resync_timeout, ic.state))
                for kind, name, f, there in lookups:
                    if not f.done():
                        bad('lookup of %s %s never answered' % (kind, name))
                        break
                    if there and not f.exception() and f.result() is None:
                        bad('%s %s was there all the time and is said not to exist' % (kind, name))
                        break
        for _, _, f, _ in lookups:
            if f.done():
                f.exception()
        errs = [e for e in sim.W.loop_errors if 'user callback' not in repr(e)]
        if errs:
            bad('error in the event loop: %r' % (errs[0],))
        return {'probs': probs, 'trace': trace, 'states': states, 'steps': len(trace),
                'outcome': repr((trace[-1:], states[-1:]))}
    return body


S_OPS = [('sens', 's', 1), ('sens', 's', 2), ('sens', 's', None), ('sens', 't', 0), ('lose',),
         ('time', 1.)]
R_OPS = [('req', 'r', 1), ('req', 'r', 2), ('req', 'r', 0), ('req', 'r', None), ('req', 'q', 0), ('lose',),
         ('time', 1.)]
MIX = [('sens', 's', 1), ('req', 'r', 1), ('sens', 's', 0), ('req', 'q', 0), ('note',), ('lose',),
       ('time', 1.), ('time', 30.)]
CB = [('cb',), ('sens', 's', 1), ('sens', 't', 0), ('note',), ('lose',), ('time', 1.)]
GET = [('get', 's', 's'), ('get', 's', 't'), ('get', 'r', 'r'), ('get', 'r', 'q'), ('sens', 't', 0),
       ('sens', 's', 1), ('req', 'r', 1), ('req', 'q', 0), ('lose',), ('time', 1.)]
QUIET = [('quiet', 's', 't', 0), ('quiet', 'r', 'q', 0), ('get', 's', 't'), ('get', 'r', 'q'), ('note',),
         ('sens', 't', None), ('time', 1.)]
RAISE = [('raise',), ('sens', 's', 1), ('req', 'r', 1), ('lose',), ('time', 1.), ('time', 100.)]
STOP = [('stop', 0), ('stop', 1), ('down',), ('up',), ('sens', 's', 1), ('req', 'r', 1), ('lose',), ('time', 1.)]


def scenarios(tier):
    T = tier == 'thorough'
    d = 1 if T else 0
    A = ['hold', 'fail', 'lose']
    out = []
    for hints in (False, True):
        h = 'hints' if hints else 'plain'
        out += [('%s sensors' % h, drive(hints, S_OPS, 3 + d, 'record', A), 1 + d),
                ('%s requests' % h, drive(hints, R_OPS, 3 + d, 'record', A), 1 + d),
                ('%s mixed' % h, drive(hints, MIX, 3 + d, 'record', A + ['never']), 1 + d),
                ('%s mixed 2' % h, drive(hints, MIX, 2 + d, 'record', A + ['never']), 2),
                ('%s no callback' % h, drive(hints, MIX, 2 + d, 'none', A), 1),
                ('%s slow callback' % h, drive(hints, CB, 4 + d, 'slow', ['hold']), 1),
                ('%s lookups' % h, drive(hints, GET, 3 + d, 'record', A), 1),
                ('%s unannounced' % h, drive(hints, QUIET, 4 + d, 'record', ['fail']), 1),
                ('%s raising' % h, drive(hints, RAISE, 3 + d, 'record', ['fail']), 1),
                ('%s stop' % h, drive(hints, STOP, 3 + d, 'record', ['fail', 'hold']), 1)]
    return out


def run(tier, rep):
    tasks = rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(':')[0][:80])
    ex = rig.parallel(rep, tasks, batch=1)
    rep.sample({'history': ['sens s described differently', '(fail sensor-list)', 'time 30'],
                'outcome': 'reported once, after the next complete inspection'})
    ex.finish()


def replay(obj, rep):
    from .. import explore
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj.get('scenario'):
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
    run('quick', rep)
