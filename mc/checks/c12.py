"""C12: handlers declared with types get exactly the values the message carries.

All signatures (up to three parameter types, with defaults, optional and repeated
parameters), decorator orders and handler styles, with all argument lists of a small
alphabet, through the real server; all return types with all returned tuples; and
the same for informs handled by a client.
"""
import itertools
import re
from .. import env, sim
LEVEL = 'exploration'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Message, ProtocolFlags, DeviceServer, AsyncReply  # noqa
from katcp import kattypes as kt  # noqa
from katcp.client import AsyncClient, DeviceClient  # noqa
import tornado.gen  # noqa

PARSER = katcp.MessageParser()
PF = ProtocolFlags
FREE, BAD = object(), object()
NAMES = ('alpha', 'beta', 'gamma')


# ---------------------------------------------------------------- reference types
def rd_int(lo=None, hi=None):
    def f(b, major):
        if not re.match(br'^[0-9]+\Z', b):
            return BAD
        v = int(b.decode())
        return BAD if (lo is not None and v < lo) or (hi is not None and v > hi) else v
    return f


def rd_ts(b, major):
    if not re.match(br'^[0-9]+(\.[0-9]+)?\Z', b):
        return BAD
    return float(b.decode()) / (1. if major >= 5 else 1000.)


def rd_str(b, major):
    try:
        return b.decode('utf-8')
    except ValueError:
        return BAD


def wr_int(lo=None, hi=None):
    def f(v, major):
        if isinstance(v, bool) or not isinstance(v, int):
            return BAD if isinstance(v, (str, bytes)) else FREE
        return BAD if (lo is not None and v < lo) or (hi is not None and v > hi) else b'%d' % v
    return f


def wr_str(v, major):
    return v if isinstance(v, bytes) else str(v).encode()


def wr_ts(v, major):
    if isinstance(v, (str, bytes)):
        return BAD
    return b'%.6f' % v if major >= 5 else b'%d' % (v * 1000)


# name -> (make, read, write, default or None, optional)
ATOMS = {
    'I': (lambda **k: kt.Int(**k), rd_int(), wr_int(), None, False),
    'Id': (lambda **k: kt.Int(default=7, **k), rd_int(), wr_int(), 7, False),
    'Io': (lambda **k: kt.Int(optional=True, **k), rd_int(), wr_int(), None, True),
    'Ir': (lambda **k: kt.Int(min=0, max=5, **k), rd_int(0, 5), wr_int(0, 5), None, False),
    'B': (lambda **k: kt.Bool(**k), lambda b, m: {b'1': True, b'0': False}.get(b, BAD),
          lambda v, m: b'1' if v else b'0', None, False),
    'D': (lambda **k: kt.Discrete(['a', 'x'], default='x', **k),
          lambda b, m: {b'a': 'a', b'x': 'x'}.get(b, BAD),
          lambda v, m: {'a': b'a', 'x': b'x'}.get(v, BAD), 'x', False),
    'So': (lambda **k: kt.Str(optional=True, **k), rd_str, wr_str, None, True),
    'S': (lambda **k: kt.Str(**k), rd_str, wr_str, None, False),
    'T': (lambda **k: kt.Timestamp(**k), rd_ts, wr_ts, None, False),
}


def make_types(sig, multi):
    return [ATOMS[a][0](**({'multiple': True} if multi and i == len(sig) - 1 else {}))
            for i, a in enumerate(sig)]


def ref_unpack(sig, multi, args, major):
    """-> list of values, or the (1-based) number of the offending parameter, or 'many'."""
    if len(args) > len(sig) and not multi:
        return 'many'
    out = []
    for i in range(max(len(args), len(sig))):
        make, read, write, default, optional = ATOMS[sig[min(i, len(sig) - 1)]]
        if i < len(args):
            v = read(args[i], major)
            if v is BAD:
                return i + 1
        elif default is not None:
            v = default
        elif optional:
            v = None
        else:
            return i + 1
        out.append(v)
    return out


def ref_pack(sig, multi, vals, major):
    """-> list of byte strings, BAD or FREE."""
    if len(vals) > len(sig) and not multi:
        return BAD
    out = []
    for i in range(max(len(vals), len(sig))):
        make, read, write, default, optional = ATOMS[sig[min(i, len(sig) - 1)]]
        v = vals[i] if i < len(vals) else None
        if v is None:
            v = default
        w = BAD if v is None else write(v, major)
        out.append(w)
    if BAD in out:
        return BAD
    return FREE if FREE in out else out


def signatures():
    yield (), False
    for n, atoms in ((1, sorted(ATOMS)), (2, sorted(ATOMS)), (3, ['I', 'Id', 'S'])):
        for sig in itertools.product(atoms, repeat=n):
            for multi in (False, True):
                yield sig, multi


STYLES = ['request-return', 'return-request', 'coroutine', 'with-msg', 'return-with-msg']


def server(handlers):
    def called(self, req, msg, args):
        self.calls.append((req.msg.name, msg, args))
        return self.ret
    d = {'PROTOCOL_INFO': PF(5, 0, set([PF.MULTI_CLIENT, PF.MESSAGE_IDS])), 'calls': [],
         'ret': ('ok',), 'called': called, 'setup_sensors': lambda self: None}
    for name, h in handlers.items():
        d['request_' + name] = h
    return type('D', (DeviceServer,), d)


def same(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, float) else abs(a - b) < 1e-12)


LONG = [b'1', b'a']         # for the longest argument lists
ARGS = [b'1', b'9', b'a', b'1.5', b'\xff', b'']


def build(sig, multi, style, major, rtypes, name):
    types = make_types(sig, multi)
    n = len(sig)
    params = list(NAMES[:n])
    if multi:
        params[-1] = '*' + params[-1]
    msg = 'with-msg' in style
    src = ('def request_%s(self, %s):\n    "?%s"\n    return self.called(req, %s, [%s])\n' % (
        name, ', '.join(['req'] + (['msg'] if msg else []) + params), name,
        'msg' if msg else 'None', ', '.join(params)))
    ns = {}
    exec(src, ns)
    f = ns['request_' + name]
    rq = kt.request(*types, include_msg=msg, major=major)
    rr = kt.return_reply(*rtypes, major=major)
    if style == 'coroutine':
        return rq(rr(tornado.gen.coroutine(f)))
    if style.startswith('return'):
        return rr(rq(f))
    return rq(rr(f))


def requests(chunk, nchunks, depth):
    def go(cx):
        rep = cx.rep
        sim.reset()
        sim.W.horizon = 1 << 60
        loop = sim.VLoop(make_current=True)
        specs, d = {}, {}
        for k, (sig, multi) in enumerate(signatures()):
            if k % nchunks != chunk:
                continue
            majors = (4, 5) if 'T' in sig else (5,)
            for s, style in enumerate(STYLES):
                for major in majors:
                    name = 'h%dx%dx%d' % (k, s, major)
                    specs[name] = (sig, multi, style, major, depth if s == k % 5 else min(depth, 2))
                    d[name] = build(sig, multi, style, major, (), name)
        srv = rig.start_async_server(server(d), loop)
        p = rig.connect(srv, loop)
        n = calls = 0
        for name in sorted(specs):
            sig, multi, style, major, dep = specs[name]
            for ln in range(dep + (3 if dep >= depth else 1)):
                for args in itertools.product(ARGS if ln <= dep else LONG, repeat=ln):
                    del srv.calls[:]
                    p.send(bytes(Message.request(name, *args, mid=3)) + b'\n')
                    loop.drain()
                    got = [PARSER.parse(x) for x in p.lines()]
                    n += 1
                    want = ref_unpack(sig, multi, list(args), major)
                    key = '%s%s %s major %d args %r' % ('/'.join(sig), '...' if multi else '', style,
                                                       major, args)
                    if len(got) != 1 or got[0].mtype != Message.REPLY or got[0].name != name or \
                            got[0].mid != b'3':
                        rep.violation(key, '%s: answered by %r' % (key, got), dict(case=key))
                        continue
                    a = got[0].arguments
                    if isinstance(want, list):
                        calls += 1
                        ok = len(srv.calls) == 1
                        if ok:
                            nm, msg, vals = srv.calls[0]
                            ok = (nm == name and len(vals) == len(want) and
                                  all(same(x, y) for x, y in zip(vals, want)) and
                                  ('with-msg' not in style or
                                   (isinstance(msg, Message) and msg.name == name and
                                    msg.arguments == list(args))))
                        if not ok or a != [b'ok']:
                            rep.violation(key, '%s: called with %r and answered %r; should be called with %r'
                                          % (key, srv.calls, a, want), dict(case=key))
                        continue
                    ok = not srv.calls and a[0] == b'fail' and len(a) == 2 and b'Traceback' not in a[1]
                    if ok and isinstance(want, int) and style != 'coroutine':
                        ok = str(want).encode() in a[1] and (
                            want > len(sig) - multi or NAMES[want - 1].encode() in a[1])
                    if not ok:
                        rep.violation(key, '%s: called with %r and answered %r; should be refused (%s)'
                                      % (key, srv.calls, a, want), dict(case=key))
            if len(rep.violations) > 12:
                break
        cx.count(evaluations=n, calls=calls)
    return go


# ---------------------------------------------------------------- returned values
RET = [1, 9, 'a', b'b', None]
RSIGS = ['I', 'Id', 'Ir', 'B', 'D', 'S', 'T']


def replies(chunk, nchunks, depth):
    def go(cx):
        rep = cx.rep
        sim.reset()
        sim.W.horizon = 1 << 60
        loop = sim.VLoop(make_current=True)
        sigs = [((), False)]
        for n in (1, 2):
            for sig in itertools.product(RSIGS, repeat=n):
                sigs += [(sig, False), (sig, True)]
        specs, d = {}, {}
        for k, (sig, multi) in enumerate(sigs):
            if k % nchunks != chunk:
                continue
            for s, style in enumerate(STYLES):
                for major in (4, 5) if 'T' in sig else (5,):
                    name = 'h%dx%dx%d' % (k, s, major)
                    specs[name] = (sig, multi, style, major, depth if s == k % 5 else min(depth, 2))
                    d[name] = build((), False, style, major, make_types(sig, multi), name)
            # and the decorator for callbacks that send the reply themselves
            for major in (4, 5) if 'T' in sig else (5,):
                name = 'c%dx%d' % (k, major)
                specs[name] = (sig, multi, 'send', major, min(depth, 2))
        cls = server(d)

        def mk(name, sig, multi, major):
            def h(self, req, msg):
                "?%s"
                self.calls.append((name, msg, []))
                self.cb_req = req
                getattr(self, 'cb_' + name)(5)
                raise AsyncReply()

            def cb(self, x):
                return (self.cb_req,) + tuple(self.ret)
            h.__name__ = 'request_' + name
            return h, kt.send_reply(*make_types(sig, multi), major=major)(cb)
        extra = {}
        for name, sp in specs.items():
            if sp[2] == 'send':
                extra['request_' + name], extra['cb_' + name] = mk(name, sp[0], sp[1], sp[3])
        cls = type('D2', (cls,), extra)
        srv = rig.start_async_server(cls, loop)
        p = rig.connect(srv, loop)
        n = good = 0
        for name in sorted(specs):
            sig, multi, style, major, dep = specs[name]
            for ln in range(dep + 1):
                for vals in itertools.product(RET, repeat=ln):
                    for status in ('ok', 'fail') if ln else ('ok', 'fail', 'bananas', b'\xff', None):
                        for cons in (tuple, list) if ln == 1 else (tuple,):
                            srv.ret = cons((status,) + vals)
                            p.send(bytes(Message.request(name, mid=4)) + b'\n')
                            loop.drain()
                            got = [PARSER.parse(x) for x in p.lines()]
                            n += 1
                            if status == 'ok':
                                want = ref_pack(sig, multi, vals, major)
                            elif status == 'fail':
                                want = BAD if len(vals) != 1 or vals[0] is None else [wr_str(vals[0], 5)]
                            else:
                                want = BAD
                            key = 'returns %s%s %s major %d: %r' % ('/'.join(sig), '...' if multi else '',
                                                                   style, major, srv.ret)
                            if len(got) != 1 or got[0].mtype != Message.REPLY or \
                                    got[0].name != name or got[0].mid != b'4':
                                rep.violation(key, '%s: answered by %r' % (key, got), dict(case=key))
                                continue
                            a = got[0].arguments
                            if want is BAD:
                                if a[0] != b'fail' or len(a) != 2:
                                    rep.violation(key, '%s: answered %r, does not fit the types'
                                                  % (key, a), dict(case=key))
                            elif want is not FREE:
                                good += 1
                                if a != [status.encode()] + want:
                                    rep.violation(key, '%s: answered %r, should be %r'
                                                  % (key, a, want), dict(case=key))
            if len(rep.violations) > 12:
                break
        cx.count(evaluations=n, replies_packed=good)
    return go


# ---------------------------------------------------------------- informs and replies at a client
def informs(depth):
    def go(cx):
        rep = cx.rep
        n = calls = 0
        sigs = [(sig, multi) for sig, multi in signatures() if len(sig) <= 2]
        for base in (DeviceClient, AsyncClient):
            sim.reset()
            sim.W.horizon = 1 << 60
            loop = sim.VLoop(make_current=True)
            d, specs = {}, {}
            for k, (sig, multi) in enumerate(sigs):
                for kind in ('inform', 'reply'):
                    for msg in (False, True):
                        major = 4 + k % 2
                        name = '%s%d%s' % (kind[0], k, 'm' if msg else '')
                        params = list(NAMES[:len(sig)])
                        if multi:
                            params[-1] = '*' + params[-1]
                        src = 'def %s_%s(self, %s):\n    "doc"\n    self.calls.append((%r, %s, [%s]))\n' % (
                            kind, name, ', '.join((['msg'] if msg else []) + params), name,
                            'msg' if msg else 'None', ', '.join(params))
                        ns = {}
                        exec(src, ns)
                        deco = kt.inform if kind == 'inform' else kt.unpack_message
                        d['%s_%s' % (kind, name)] = deco(*make_types(sig, multi), include_msg=msg,
                                                         major=major)(ns['%s_%s' % (kind, name)])
                        specs[name] = (kind, sig, multi, msg, major)
            d['calls'] = []
            cls = type('C', (base,), d)
            cl = cls('127.0.0.1', 4000)
            sim.W.net.manual_ports.add(4000)
            rig.start_client(cl, loop)
            p = rig.accept_client(loop, b'#version-connect katcp-protocol 5.0-MI\n')
            for name in sorted(specs):
                kind, sig, multi, msg, major = specs[name]
                for ln in range(min(depth, 3) + 1):
                    for args in itertools.product(ARGS, repeat=ln):
                        del cl.calls[:]
                        m = (Message.inform if kind == 'inform' else Message.reply)(name, *args)
                        p.send(bytes(m) + b'\n')
                        loop.drain()
                        n += 1
                        want = ref_unpack(sig, multi, list(args), major)
                        key = '%s %s %s%s args %r' % (base.__name__, kind, '/'.join(sig),
                                                      '...' if multi else '', args)
                        got = cl.calls
                        if not isinstance(want, list):
                            if got:
                                rep.violation(key, '%s: called with %r, should be refused' % (key, got),
                                              dict(case=key))
                            continue
                        calls += 1
                        if len(got) != 1 or got[0][0] != name or len(got[0][2]) != len(want) or \
                                not all(same(x, y) for x, y in zip(got[0][2], want)) or \
                                (msg and got[0][1] != m):
                            rep.violation(key, '%s: calls %r, should be %r' % (key, got, want),
                                          dict(case=key))
                if len(rep.violations) > 12:
                    break
            if not cl.is_connected():
                rep.violation('connection', 'the client lost its connection', dict(case='connection'))
        cx.count(evaluations=n, calls=calls)
    return go


# ---------------------------------------------------------------- declarations that make no sense
def declarations(cx):
    n = 0
    for deco in (kt.request, kt.inform, kt.unpack_message, kt.return_reply):
        for types in ((kt.Int(multiple=True), kt.Int()), (kt.Int(), kt.Str(multiple=True), kt.Int())):
            n += 1
            try:
                deco(*types)
            except TypeError:
                pass
            else:
                cx.rep.violation('declaration', 'only the last type may be repeated', dict(case='multi'))
    for deco in (kt.request, kt.return_reply, kt.send_reply):
        n += 1
        try:
            deco(kt.Int(), nonsense=1)
        except TypeError:
            pass
        else:
            cx.rep.violation('declaration', 'unknown option accepted', dict(case='option'))
    cx.count(evaluations=n)


def run(tier, rep):
    depth = 4 if tier == 'thorough' else 3
    nch = 24
    tasks = [requests(i, nch, depth) for i in range(nch)]
    tasks += [replies(i, nch, depth) for i in range(nch)]
    tasks += [informs(depth), declarations]
    ex = rig.parallel(rep, tasks, batch=1)
    rep.sample({'signature': 'Id/S', 'arguments': ['9'], 'refused': 'parameter 2 missing'})
    rep.sample({'signature': 'I...', 'arguments': ['1', '9'], 'called with': [1, 9]})
    x = ex.extra
    rep.set(evaluations=x['evaluations'], distinct_nontrivial=x['calls'] + x['replies_packed'],
            exhaustive=True, argument_lists_up_to=depth + 2,
            rule='every signature with every argument list (non-trivial: the handler has to be called '
                 'with the right values) and every return type with every returned tuple (non-trivial: '
                 'an ok reply has to carry the right arguments); all cases are distinct')


def replay(obj, rep):
    run('quick', rep)
