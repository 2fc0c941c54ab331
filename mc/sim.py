"""Deterministic simulated environment for the real katcp code.

Virtual clock, virtual threads (greenlets under a controlled scheduler), virtual
threading primitives, a virtual-time tornado IOLoop, and a virtual TCP network
underneath real tornado IOStreams.  ``install()`` must run before katcp or
tornado are imported; afterwards all time, thread, lock, socket and loop
operations of the process go through here.
"""
import errno
import functools
import heapq
import logging
import socket as _socket_mod
import sys
import threading as _threading
import time as _time_mod
import _thread
from collections import deque

import greenlet

from .explore import Horizon

_real_get_ident = _thread.get_ident
_real_time = _time_mod.time


class VKill(BaseException):
    """Unwinds abandoned virtual threads at the end of an execution."""


class Deadlock(Exception):
    """Every virtual thread is blocked and no timer is pending."""


class WouldBlock(Exception):
    """Code under test tried to block while running without a scheduler."""


class World(object):
    """Per-execution state; replaced by reset()."""

    def __init__(self):
        self.now = 1000000.0
        self.sched = None
        self.loop_current = {}
        self.fd_next = 100
        self.socks = {}
        self.net = Net()
        self.loops = []
        self.steps = 0
        self.horizon = 200000
        self.loop_errors = []
        self.rand = []
        self.ident = None       # pretend to be this thread

    def tick(self):
        self.steps += 1
        if self.steps > self.horizon:
            raise Horizon('execution exceeded %d steps' % self.horizon)


class Net(object):
    def __init__(self):
        self.listeners = {}
        self.next_port = 50000
        self.manual_connect = False
        self.pending_connects = []
        self.manual_ports = set()


W = World()
W_gen = 0


def reset():
    global W, W_gen
    W = World()
    W_gen += 1
    # (coroutines of earlier executions would be kept alive for ever)
    runners = getattr(sys.modules.get('tornado.gen'), '_futures_to_runners', None)
    if runners is not None:
        runners.clear()
    return W


# --------------------------------------------------------------------------
# virtual threads

class VThread(object):
    def __init__(self, sched, fn, name):
        self.sched = sched
        self.fn = fn
        self.name = name
        self.ident = 7000 + len(sched.threads)
        self.cond = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.what = None
        self.g = greenlet.greenlet(self._main)
        self.killed = False

    def _main(self):
        try:
            self.fn()
        except VKill:
            pass
        except (Horizon, KeyboardInterrupt):
            raise
        except BaseException:
            self.exc = sys.exc_info()
            self.sched.on_thread_exception(self)
        finally:
            self.done = True

    def enabled(self):
        if self.done:
            return False
        if self.cond is None and self.deadline is None:
            return True
        if self.cond is not None and self.cond():
            return True
        return self.deadline is not None and W.now >= self.deadline


class Scheduler(object):
    """Runs virtual threads; every point() may pre-empt at the chooser's will."""

    def __init__(self, chooser, block_cost=0, time_cost=None):
        self.chooser = chooser
        self.threads = []
        self.current = None
        self.hub = None
        self.preempt = True
        self.uncaught = []
        self.trace = None
        self.block_cost = block_cost
        self.time_cost = time_cost
        self.npoints = 0
        self.switches = 0
        self.deadlocked = None
        self.stopping = False

    def on_thread_exception(self, t):
        self.uncaught.append((t.name, t.exc))

    def spawn(self, fn, name='t'):
        t = VThread(self, fn, name)
        if self.hub is not None:
            t.g.parent = self.hub
        self.threads.append(t)
        return t

    def _options(self, first):
        opts = [t for t in self.threads if t is not first and t.enabled()]
        return opts

    def next_deadline(self):
        ds = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
        ds = [d for d in ds if d > W.now]
        return min(ds) if ds else None

    def point(self, what=None):
        """A scheduling point of the running thread."""
        cur = self.current
        if cur is None or self.stopping:
            return
        W.tick()
        self.npoints += 1
        if not self.preempt:
            return
        opts = self._options(cur)
        n_thr = len(opts)
        if self.time_cost is not None:
            nd = self.next_deadline()
        else:
            nd = None
        n = 1 + n_thr + (1 if nd is not None else 0)
        if n == 1:
            return
        if nd is not None:
            costs = [0] + [1] * n_thr + [self.time_cost]
            c = self.chooser.choose(n, costs, what)
        else:
            c = self.chooser.choose(n, 1, what)
        if c == 0:
            return
        if c == 1 + n_thr:
            W.now = nd
            return
        self.next_forced = opts[c - 1]
        self.switches += 1
        self.hub.switch()
        if cur.killed:
            raise VKill()

    next_forced = None

    def block(self, cond, deadline=None, what=None):
        """Block the running thread until cond() or the deadline. True if cond()."""
        cur = self.current
        if cur is None:
            if cond is not None and cond():
                return True
            raise WouldBlock(what)
        if self.stopping:
            if cur.killed:
                raise VKill()
        self.point(what)
        if cond is not None and cond():
            return True
        if deadline is not None and deadline <= W.now:
            return False
        cur.cond, cur.deadline, cur.what = cond, deadline, what
        if cur.deadline is None and cur.cond is None:
            cur.cond = lambda: False
        try:
            self.hub.switch()
        finally:
            cur.cond, cur.deadline, cur.what = None, None, None
        if cur.killed:
            raise VKill()
        return bool(cond is not None and cond())

    def run(self, main):
        """Run main() as the first thread until it finishes; then kill the rest."""
        self.hub = greenlet.getcurrent()
        W.sched = self
        mt = self.spawn(main, 'main')
        try:
            while not mt.done:
                W.tick()
                if self.next_forced is not None:
                    t, self.next_forced = self.next_forced, None
                else:
                    en = [t for t in self.threads if t.enabled()]
                    if not en:
                        nd = self.next_deadline()
                        if nd is None:
                            self.deadlocked = [(t.name, t.what) for t in self.threads
                                               if not t.done]
                            break
                        W.now = nd
                        continue
                    if self.preempt and len(en) > 1:
                        t = en[self.chooser.choose(len(en), self.block_cost, 'sched')]
                    else:
                        t = en[0]
                self.current = t
                t.g.switch()
                self.current = None
        finally:
            self.current = None
            self.kill_all()
            W.sched = None
        if mt.exc is not None:
            raise mt.exc[1].with_traceback(mt.exc[2])

    def kill_all(self):
        self.stopping = True
        for t in list(self.threads):
            n = 0
            while not t.done and n < 50:
                t.killed = True
                n += 1
                if not t.g:           # never started, or finished
                    t.done = True
                    break
                self.current = t
                try:
                    t.g.throw(VKill)
                except VKill:
                    pass
                except Exception:
                    pass
                self.current = None
        self.current = None


def point(what=None):
    s = W.sched
    if s is not None:
        s.point(what)


def get_ident():
    if W.ident is not None:
        return W.ident
    s = W.sched
    if s is not None and s.current is not None:
        return s.current.ident
    return _real_get_ident()


def _block(cond, timeout, what):
    s = W.sched
    if s is None or s.current is None:
        if cond is not None and cond():
            return True
        if timeout is not None:
            W.now += max(0, timeout)
            return bool(cond is not None and cond())
        raise WouldBlock(what)
    deadline = None if timeout is None else W.now + max(0, timeout)
    return s.block(cond, deadline, what)


class VLock(object):
    _kind = 'lock'

    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        point('acquire')
        if self._owner is None:
            self._owner = get_ident()
            return True
        if not blocking:
            return False
        to = None if timeout is None or timeout < 0 else timeout
        if _block(lambda: self._owner is None, to, 'lock'):
            self._owner = get_ident()
            return True
        return False

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None
        point('release')

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class VRLock(object):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        point('racquire')
        if self._owner is not None:
            if not blocking:
                return False
            to = None if timeout is None or timeout < 0 else timeout
            if not _block(lambda: self._owner is None, to, 'rlock'):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            point('rrelease')

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        return c

    def _acquire_restore(self, c):
        _block(lambda: self._owner is None, None, 'rlock-restore')
        self._owner = get_ident()
        self._count = c

    def _is_owned(self):
        return self._owner == get_ident()


class VCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else VRLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        lock = self._lock
        if isinstance(lock, VRLock):
            saved = lock._release_save()
        else:
            lock._owner = None
            saved = None
        try:
            ok = _block(lambda: tok[0], timeout, 'condition')
        finally:
            if isinstance(lock, VRLock):
                lock._acquire_restore(saved)
            else:
                _block(lambda: lock._owner is None, None, 'cond-reacquire')
                lock._owner = get_ident()
        if not ok and tok in self._waiters:
            self._waiters.remove(tok)
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else W.now + timeout
        r = predicate()
        while not r:
            if end is not None and W.now >= end:
                break
            self.wait(None if end is None else end - W.now)
            r = predicate()
        return r

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class VEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        point('is_set')
        return self._flag

    isSet = is_set

    def set(self):
        point('set')
        self._flag = True

    def clear(self):
        point('clear')
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            point('wait')
        if self._flag:
            return True
        return _block(lambda: self._flag, timeout, 'event')


class VSemaphore(object):
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        point('sem')
        if self._value <= 0:
            if not blocking:
                return False
            if not _block(lambda: self._value > 0, timeout, 'sem'):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        point('semrel')

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class VThreadAPI(object):
    """Replacement of threading.Thread."""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        VThreadAPI._n += 1
        self.name = str(name) if name is not None else 'Thread-v'
        self.daemon = bool(daemon)
        self._vt = None

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    @property
    def ident(self):
        return self._vt.ident if self._vt else None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._vt is not None:
            raise RuntimeError('threads can only be started once')
        s = W.sched
        if s is None:
            raise WouldBlock('thread started without a scheduler')
        self._vt = s.spawn(self.run, self.name)
        point('thread-start')

    def is_alive(self):
        return self._vt is not None and not self._vt.done

    def join(self, timeout=None):
        if self._vt is None:
            raise RuntimeError('cannot join thread before it is started')
        if self._vt.ident == get_ident():
            raise RuntimeError('cannot join current thread')
        _block(lambda: self._vt.done, timeout, 'join')


class VTimer(VThreadAPI):
    def __init__(self, interval, function, args=None, kwargs=None):
        VThreadAPI.__init__(self)
        self.interval, self.function = interval, function
        self.args_, self.kwargs_ = args or (), kwargs or {}
        self._cancelled = VEvent()

    def cancel(self):
        self._cancelled.set()

    def run(self):
        if not self._cancelled.wait(self.interval):
            self.function(*self.args_, **self.kwargs_)


# --------------------------------------------------------------------------
# virtual sockets

class FakeSocket(object):
    """In-memory non-blocking TCP socket with chunk-preserving delivery."""
    proto = 0

    def __init__(self, family=_socket_mod.AF_INET, type=_socket_mod.SOCK_STREAM, *a, **k):
        self.family, self.type = family, type
        W.fd_next += 1
        self._fd = W.fd_next
        W.socks[self._fd] = self
        self.peer = None
        self.rx = deque()
        self.rx_eof = False
        self.err = 0
        self.closed = False
        self.listening = False
        self.backlog = deque()
        self.addr = ('127.0.0.1', 0)
        self.raddr = None
        self.connecting = False
        self.connected = False
        self.tx_limit = None        # bytes the peer's kernel will still take; None = unlimited
        self.reset_on_send = False
        self.log = []

    def fileno(self):
        return -1 if self.closed else self._fd

    def setblocking(self, b):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == _socket_mod.SO_ERROR:
            e, self.err = self.err, 0
            return e
        return 0

    def bind(self, addr):
        host, port = addr[0], addr[1]
        if port == 0:
            W.net.next_port += 1
            port = W.net.next_port
        elif port in W.net.listeners:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.addr = (host or '0.0.0.0', port)

    def listen(self, n=0):
        point('listen')
        if self.addr[1] in W.net.listeners:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.listening = True
        W.net.listeners[self.addr[1]] = self

    def getsockname(self):
        return self.addr

    def getpeername(self):
        if self.raddr is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.raddr

    def connect(self, addr):
        self.connecting = True
        self.target = addr
        if W.net.manual_connect or addr[1] in W.net.manual_ports:
            W.net.pending_connects.append(self)
        else:
            self._resolve_connect()
        raise BlockingIOError(errno.EINPROGRESS, 'in progress')

    def _resolve_connect(self, accept=True):
        """Decide a pending connect: real listener, or refuse."""
        lst = W.net.listeners.get(self.target[1])
        if accept and lst is not None:
            other = FakeSocket()
            self._pair(other)
            lst.backlog.append(other)
        else:
            self.connecting = False
            self.err = errno.ECONNREFUSED
            self.refused = True

    refused = False

    def _pair(self, other):
        W.net.next_port += 1
        self.addr = ('127.0.0.1', W.net.next_port)
        self.raddr = getattr(self, 'target', ('127.0.0.1', 1))
        other.addr, other.raddr = self.raddr, self.addr
        self.peer, other.peer = other, self
        self.connecting, self.connected = False, True
        other.connected = True

    def accept(self):
        if self.closed or not self.backlog:
            raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
        s = self.backlog.popleft()
        return s, s.raddr

    # data -----------------------------------------------------------------
    def recv(self, n, *flags):
        if self.closed:
            raise OSError(errno.EBADF, 'closed')
        if self.rx:
            d = self.rx.popleft()
            if len(d) > n:
                self.rx.appendleft(d[n:])
                d = d[:n]
            return bytes(d)
        if self.err:
            e, self.err = self.err, 0
            self.rx_eof = True
            raise OSError(e, 'reset')
        if self.rx_eof:
            return b''
        raise BlockingIOError(errno.EWOULDBLOCK, 'would block')

    def recv_into(self, buf, n=0, *flags):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    def send(self, data, *flags):
        if self.closed:
            raise OSError(errno.EBADF, 'closed')
        if self.peer is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        if self.err:
            e, self.err = self.err, 0
            raise OSError(e, 'reset')
        if self.peer.closed:
            raise OSError(errno.EPIPE, 'broken pipe')
        data = bytes(data)
        if self.tx_limit is not None:
            if self.tx_limit <= 0:
                raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
            data = data[:self.tx_limit]
            self.tx_limit -= len(data)
        if data:
            self.peer.rx.append(data)
        return len(data)

    def sendall(self, data):
        self.send(data)

    def shutdown(self, how):
        if self.peer is not None:
            self.peer.rx_eof = True

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.listening:
            self.listening = False
            if W.net.listeners.get(self.addr[1]) is self:
                del W.net.listeners[self.addr[1]]
            for s in self.backlog:
                s.reset_peer()
        if self in W.net.pending_connects:
            W.net.pending_connects.remove(self)
        if self.peer is not None and not self.peer.closed:
            self.peer.rx_eof = True
        W.socks.pop(self._fd, None)

    def reset_peer(self):
        """RST towards the peer."""
        self.closed = True
        if self.peer is not None:
            self.peer.err = errno.ECONNRESET
            self.peer.rx_eof = True

    # readiness ------------------------------------------------------------
    def readable(self):
        if self.listening:
            return bool(self.backlog)
        return bool(self.rx) or self.rx_eof or bool(self.err)

    def writable(self):
        if self.connecting:
            return False
        if self.refused or self.err:
            return True
        if self.peer is None:
            return False
        return self.tx_limit is None or self.tx_limit > 0 or self.peer.closed

    def hup(self):
        return bool(self.err)


class Peer(object):
    """Harness-side raw end of a virtual connection."""

    def __init__(self, sock):
        self.sock = sock
        self.buf = b''

    @classmethod
    def to_listener(cls, port):
        s = FakeSocket()
        s.target = ('127.0.0.1', port)
        s._resolve_connect()
        if s.peer is None:
            raise OSError(errno.ECONNREFUSED, 'refused')
        return cls(s)

    @classmethod
    def accept_pending(cls, client_sock):
        """Accept a pending client connect on the harness side."""
        W.net.pending_connects.remove(client_sock)
        other = FakeSocket()
        client_sock._pair(other)
        return cls(other)

    def send(self, data):
        if not self.sock.closed and self.sock.peer is not None and not self.sock.peer.closed:
            self.sock.peer.rx.append(data)

    def pull(self):
        """All bytes received so far (drained)."""
        d = b''.join(bytes(x) for x in self.sock.rx)
        self.sock.rx.clear()
        self.buf += d
        return d

    def lines(self):
        self.pull()
        out = self.buf.split(b'\n')
        self.buf = out.pop()
        return [x for x in out if x]

    def eof(self):
        return self.sock.rx_eof or bool(self.sock.err)

    def close(self):
        self.sock.close()

    def reset(self):
        self.sock.reset_peer()
        W.socks.pop(self.sock._fd, None)


def refuse_pending(client_sock):
    W.net.pending_connects.remove(client_sock)
    client_sock.connecting = False
    client_sock.err = errno.ECONNREFUSED
    client_sock.refused = True


# --------------------------------------------------------------------------

_installed = False
VLoop = None


class _VTimeout(object):
    __slots__ = ('deadline', 'seq', 'callback', 'gen')

    def __init__(self, deadline, seq, callback):
        self.deadline, self.seq, self.callback = deadline, seq, callback

    def __lt__(self, o):
        return (self.deadline, self.seq) < (o.deadline, o.seq)

    def __le__(self, o):
        return (self.deadline, self.seq) <= (o.deadline, o.seq)

    def cancel(self):
        self.callback = None


def vtime():
    return W.now


def vsleep(t):
    _block(None, t, 'sleep')


def install():
    """Virtualise the process. Call before importing tornado / katcp."""
    global _installed, VLoop
    if _installed:
        return
    _installed = True
    import ssl           # noqa: binds the real socket class first
    import asyncio       # noqa
    import concurrent.futures  # noqa
    import queue         # noqa
    logging.logThreads = False
    logging.logMultiprocessing = False
    logging.logProcesses = False
    import tornado.ioloop
    import tornado.platform.asyncio
    import tornado.stack_context
    import tornado.iostream, tornado.tcpserver, tornado.tcpclient, tornado.netutil  # noqa
    import tornado.gen, tornado.concurrent  # noqa
    from tornado.ioloop import IOLoop
    from tornado import stack_context

    import tornado.netutil
    tornado.netutil.set_close_exec = lambda fd: None
    tornado.tcpclient.set_close_exec = lambda fd: None
    tornado.iostream._set_nonblocking = lambda fd: None

    _thread.get_ident = get_ident
    _threading.get_ident = get_ident
    _threading.Lock = VLock
    _threading.RLock = VRLock
    _threading.Condition = VCondition
    _threading.Event = VEvent
    _threading.Thread = VThreadAPI
    _threading.Timer = VTimer
    _threading.Semaphore = VSemaphore
    _threading.BoundedSemaphore = VSemaphore
    _time_mod.time = vtime
    _time_mod.monotonic = vtime
    _time_mod.sleep = vsleep
    _socket_mod.socket = FakeSocket

    def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
        return [(_socket_mod.AF_INET, _socket_mod.SOCK_STREAM, 6, '', ('127.0.0.1', int(port)))]
    _socket_mod.getaddrinfo = getaddrinfo

    class VLoop_(IOLoop):
        """Virtual-time IOLoop with tornado's iteration structure."""
        asyncio_style = False

        def initialize(self, **kwargs):
            self._cbs = deque()
            self._batch = deque()
            self._timers = []
            self._seq = 0
            self._handlers = {}
            self._running = False
            self._stopped = False
            self.closing = False
            self.closed_ = False
            self.wake = 0
            self.errors = []
            W.loops.append(self)
            super(VLoop_, self).initialize(**kwargs)

        # -- IOLoop API
        def time(self):
            return W.now

        def add_callback(self, callback, *args, **kwargs):
            point('add_callback')
            if self.closing:
                if self.asyncio_style:
                    raise RuntimeError('IOLoop is closing')
                return
            self._cbs.append(functools.partial(
                stack_context.wrap(callback), *args, **kwargs))

        add_callback_from_signal = add_callback

        def call_at(self, when, callback, *args, **kwargs):
            self._seq += 1
            if self.asyncio_style:
                when = max(when, W.now)
            t = _VTimeout(when, self._seq, functools.partial(
                stack_context.wrap(callback), *args, **kwargs))
            heapq.heappush(self._timers, t)
            return t

        def remove_timeout(self, timeout):
            timeout.callback = None

        def add_handler(self, fd, handler, events):
            fd, obj = self.split_fd(fd)
            if fd in self._handlers:
                raise ValueError('fd %s added twice' % fd)
            self._handlers[fd] = [obj, stack_context.wrap(handler), events]

        def update_handler(self, fd, events):
            fd, obj = self.split_fd(fd)
            self._handlers[fd][2] = events | IOLoop.ERROR

        def remove_handler(self, fd):
            fd, obj = self.split_fd(fd)
            self._handlers.pop(fd, None)

        def close(self, all_fds=False):
            self.closing = True
            if all_fds:
                for fd in sorted(self._handlers):
                    h = self._handlers.get(fd)
                    if h is not None:
                        self.close_fd(h[0] if not isinstance(h[0], int) else
                                      W.socks.get(fd))
            self._handlers = {}
            self.closed_ = True

        def close_fd(self, fd):
            try:
                fd.close()
            except Exception:
                pass

        def stop(self):
            point('loop-stop')
            self._stopped = True
            self._running = False

        def handle_callback_exception(self, callback):
            e = sys.exc_info()
            W.loop_errors.append((repr(callback)[:200], e[0].__name__, str(e[1])[:300]))
            self.errors.append(e[1])
            super(VLoop_, self).handle_callback_exception(callback)

        # -- stepping
        def _events_for(self, fd, h):
            s = W.socks.get(fd)
            if s is None:
                return 0
            ev = 0
            if h[2] & IOLoop.READ and s.readable():
                ev |= IOLoop.READ
            if h[2] & IOLoop.WRITE and s.writable():
                ev |= IOLoop.WRITE
            if s.hup():
                ev |= IOLoop.ERROR
            return ev

        def _ready_fds(self):
            return [fd for fd in sorted(self._handlers)
                    if self._events_for(fd, self._handlers[fd])]

        def _due(self):
            while self._timers and self._timers[0].callback is None:
                heapq.heappop(self._timers)
            return bool(self._timers) and self._timers[0].deadline <= W.now

        def next_deadline(self):
            while self._timers and self._timers[0].callback is None:
                heapq.heappop(self._timers)
            return self._timers[0].deadline if self._timers else None

        def has_work(self):
            if self._cbs or self._batch or self._due():
                return True
            for fd in self._handlers:
                if self._events_for(fd, self._handlers[fd]):
                    return True
            return False

        def _fill(self):
            b = self._batch
            due = []
            while self._due():
                t = heapq.heappop(self._timers)
                due.append(t)
            fds = self._ready_fds()
            while self._cbs:
                b.append(('cb', self._cbs.popleft()))
            for t in due:
                b.append(('timer', t))
            for fd in fds:
                b.append(('fd', fd))

        def step(self):
            """Run one callback / timer / fd event. False when nothing is ready."""
            W.tick()
            while True:
                if not self._batch:
                    self._fill()
                    if not self._batch:
                        return False
                kind, x = self._batch.popleft()
                if kind == 'cb':
                    self._run_callback(x)
                    return True
                if kind == 'timer':
                    cb = x.callback
                    if cb is None:
                        continue
                    x.callback = None
                    self._run_callback(cb)
                    return True
                h = self._handlers.get(x)
                if h is None:
                    continue
                ev = self._events_for(x, h)
                if not ev:
                    continue
                try:
                    h[1](h[0], ev)
                except Exception:
                    self.handle_callback_exception(h)
                return True

        def start(self):
            """Run in the current virtual thread until stop()."""
            if self._running:
                raise RuntimeError('IOLoop is already running')
            old = IOLoop.current(instance=False)
            self.make_current()
            stop_early, self._stopped = self._stopped, False
            self._running = True
            try:
                while True:
                    if not self._batch:
                        if stop_early or not self._running:
                            # finish what is ready in this iteration, as both
                            # PollIOLoop and asyncio do
                            self._fill()
                            while self._batch:
                                self.step()
                                point('loop')
                            break
                        if not self.has_work():
                            s = W.sched
                            if s is None:
                                nd = self.next_deadline()
                                if nd is None:
                                    raise WouldBlock('loop idle')
                                W.now = max(W.now, nd)
                                continue
                            s.block(lambda: self.has_work() or not self._running,
                                    self.next_deadline(), 'loop-idle')
                            continue
                    self.step()
                    point('loop')
                    if not self._running and not self._batch:
                        break
            finally:
                self._running = False
                self._stopped = False
                if old is None:
                    IOLoop.clear_current()
                else:
                    old.make_current()

        # -- driving without threads
        def drain(self, limit=100000):
            """Run everything that is ready now (virtual time does not move)."""
            n = 0
            while self.step():
                n += 1
                if n > limit:
                    raise Horizon('loop never idle')
            return n

        def advance(self, dt):
            """Move virtual time forward by dt, running timers in order."""
            end = W.now + dt
            self.drain()
            while True:
                nd = self.next_deadline()
                if nd is None or nd > end:
                    break
                W.now = max(W.now, nd)
                self.drain()
            W.now = end
            self.drain()

        def advance_to_next(self):
            nd = self.next_deadline()
            if nd is None:
                return False
            W.now = max(W.now, nd)
            self.drain()
            return True

    class VAsyncLoop(VLoop_):
        asyncio_style = True

    VLoop = VLoop_
    globals()['VAsyncLoop'] = VAsyncLoop
    tornado.platform.asyncio.AsyncIOLoop = VAsyncLoop

    # IOLoop.current() per virtual thread
    def current(instance=True):
        cur = W.loop_current.get(get_ident())
        if cur is None and instance:
            cur = W.loop_current.get('instance')
            if cur is None:
                cur = VLoop_(make_current=False)
                W.loop_current['instance'] = cur
        return cur

    IOLoop.current = staticmethod(current)
    IOLoop.instance = staticmethod(current)
    IOLoop.initialized = staticmethod(lambda: True)

    def make_current(self):
        W.loop_current[get_ident()] = self
    IOLoop.make_current = make_current

    def clear_current():
        W.loop_current.pop(get_ident(), None)
    IOLoop.clear_current = staticmethod(clear_current)
    IOLoop.configurable_default = classmethod(lambda cls: VLoop_)
