"""Raw TCP clients and an instrumented device server for the server monitors."""
import logging
import socket
import threading
import time
from concurrent.futures import Future as TFuture

import tornado.concurrent
from tornado import gen

from katcp import AsyncReply, DeviceServer, Message, ProtocolFlags, Sensor
from katcp.core import FailReply
from katcp.kattypes import (Float, Int, Str, concurrent_reply, request, return_reply)

from .. import common
from . import wire

STALL = common.STALL

# name -> (thread_safe, handler_thread)
MODES = {'handler-thread': (True, True), 'thread-safe': (True, False), 'ioloop': (False, False)}


class RawClient(object):
    """A TCP peer that records every line it receives, in order."""

    def __init__(self, addr, rcvbuf=None, reading=True):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.rcvbuf = rcvbuf if not reading else None
        if rcvbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.sock.settimeout(STALL)
        self.sock.connect(addr)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.name = '%s:%d' % self.sock.getsockname()
        self.cond = threading.Condition()
        self.lines = []          # raw lines without terminator
        self.buf = b''
        self.eof = False
        self.nbar = 0
        self._thread = None
        if reading:
            self.start_reading()

    def start_reading(self):
        if self.rcvbuf:
            # was small so that the server's output piles up; reading through it would take minutes
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        self.sock.settimeout(None)
        self._thread = threading.Thread(target=self._read)
        self._thread.daemon = True
        self._thread.start()

    def _read(self):
        while True:
            try:
                data = self.sock.recv(65536)
            except (OSError, ValueError):
                data = b''
            with self.cond:
                if not data:
                    self.eof = True
                    self.cond.notify_all()
                    return
                self.buf += data
                if b'\n' in self.buf:
                    parts = self.buf.split(b'\n')
                    self.buf = parts.pop()
                    self.lines.extend(parts)
                self.cond.notify_all()

    def pull(self, until):
        """Read in this thread (before start_reading) until `until` was received."""
        while until not in self.buf:
            data = self.sock.recv(4096)
            if not data:
                return False
            self.buf += data
        return True

    def send(self, data):
        try:
            self.sock.sendall(data)
            return True
        except OSError:
            return False

    def req(self, name, *args, **kw):
        mid = kw.get('mid')
        line = wire.encode('request', name, mid,
                           [a if isinstance(a, bytes) else str(a).encode() for a in args])
        return self.send(line + b'\n')

    def snapshot(self):
        with self.cond:
            return list(self.lines)

    def wait(self, pred, timeout=None):
        """Wait until pred(lines) holds; its truth."""
        end = time.monotonic() + (STALL if timeout is None else timeout)
        with self.cond:
            while True:
                r = pred(self.lines)
                if r:
                    return r
                left = end - time.monotonic()
                if left <= 0 or self.eof:
                    return pred(self.lines)
                self.cond.wait(left)

    def wait_line(self, prefix, start=0, timeout=None):
        """Index of the first line at or after `start` with that prefix, or None."""
        state = [start]

        def pred(lines):
            for i in range(state[0], len(lines)):
                if lines[i].startswith(prefix):
                    return i + 1
            state[0] = len(lines)
            return 0
        r = self.wait(pred, timeout)
        return r - 1 if r else None

    def barrier(self, timeout=None):
        """Round trip; True iff answered.  Everything the server sent before is recorded."""
        self.nbar += 1
        mid = b'99%06d' % self.nbar
        start = len(self.lines)
        if not self.send(b'?watchdog[' + mid + b']\n'):
            return False
        return self.wait_line(b'!watchdog[' + mid + b'] ok', start, timeout) is not None

    def call(self, name, *args, **kw):
        """(reply, informs) as decoded tuples, or (None, informs)."""
        self.nbar += 1
        mid = b'88%06d' % self.nbar
        start = len(self.lines)
        self.req(name, *args, mid=mid)
        head = b'!' + name.encode() + b'[' + mid + b']'
        i = self.wait_line(head, start, kw.get('timeout'))
        informs = []
        for line in self.snapshot()[start:i]:
            if line.startswith(b'#' + name.encode() + b'[' + mid + b']'):
                informs.append(wire.decode(line))
        if i is None:
            return None, informs
        return wire.decode(self.lines[i]), informs

    def close(self, rst=False):
        try:
            if rst:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                     b'\x01\x00\x00\x00\x00\x00\x00\x00')
                # wake our reader, which would otherwise keep the connection open
                self.sock.shutdown(socket.SHUT_RD)
                if self._thread is not None:
                    self._thread.join(STALL)
            else:
                self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def half_close(self):
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass


class QuietLogger(object):
    pass


def quiet_logger(name='verif.device', level=logging.ERROR):
    lg = logging.getLogger(name)
    lg.setLevel(level)
    return lg


class Dev(DeviceServer):
    """Device whose handlers show every documented way of answering a request."""
    VERSION_INFO = ("verif-dev", 1, 2)
    BUILD_INFO = ("verif-build", 3, 4, "rc5")

    def setup_sensors(self):
        self.trace = []            # (event, conn address, uid, thread)
        self.trace_lock = threading.Lock()
        self.held = {}
        self.delay = lambda: 0.0
        self.hthread = None

    # -- helpers -----------------------------------------------------------
    def ev(self, what, req, msg):
        uid = msg.arguments[0] if msg.arguments else b''
        with self.trace_lock:
            self.trace.append((what, id(req.client_connection), uid, threading.get_ident()))

    def nap(self):
        d = self.delay()
        if d and self.hthread:
            time.sleep(d)

    def informs(self, req, msg):
        n = int(msg.arguments[1]) if len(msg.arguments) > 1 else 0
        for i in range(n):
            req.inform(msg.arguments[0], i, n)

    def later(self, fn):
        d = self.delay()
        if d:
            self.ioloop.add_callback(lambda: self.ioloop.call_later(d, fn))
        else:
            self.ioloop.add_callback(fn)

    def release(self, key):
        """Let go of held requests (any thread)."""
        def go():
            for fn in self.held.pop(key, []):
                fn()
        self.ioloop.add_callback(go)

    # -- synchronous -------------------------------------------------------
    def request_sync(self, req, msg):
        """Answer (sync)."""
        self.ev('enter', req, msg)
        self.nap()
        self.informs(req, msg)
        self.ev('exit', req, msg)
        return req.make_reply('ok', msg.arguments[0], 'sync')

    def request_failing(self, req, msg):
        """Answer (failing)."""
        self.ev('enter', req, msg)
        self.informs(req, msg)
        self.ev('exit', req, msg)
        raise FailReply('failed ' + msg.arguments[0].decode())

    def request_boom(self, req, msg):
        """Answer (boom)."""
        self.ev('enter', req, msg)
        self.informs(req, msg)
        self.ev('exit', req, msg)
        raise KeyError('boom ' + msg.arguments[0].decode())

    def request_no_message(self, req, msg):
        """Returns something that is no reply."""
        return None

    def request_wrong_name(self, req, msg):
        """Answer (wrong name)."""
        return Message.reply('sync', 'ok', msg.arguments[0])

    def request_direct(self, req, msg):
        """Sends the reply itself; tries to answer twice and inform late."""
        req.reply('ok', msg.arguments[0], 'direct')
        for again in (lambda: req.reply('ok', msg.arguments[0], 'second'),
                      lambda: req.inform('late', msg.arguments[0]),
                      lambda: req.reply_with_message(req.make_reply('ok', 'third'))):
            try:
                again()
            except RuntimeError:
                pass
        raise AsyncReply()

    @request(Str(), Int(min=0, max=9), Float(default=1.5))
    @return_reply(Str(), Int(min=0, max=9), Float())
    def request_typed(self, req, uid, num, flt):
        """Answer (typed)."""
        return ('ok', uid, num, flt)

    @request(Str())
    @return_reply(Str(), Int(min=0, max=9))
    def request_bad_return(self, req, uid):
        """Answer (bad return)."""
        return ('ok', uid, 77)

    @return_reply(Str())
    @request(Str())
    def request_typed_fail(self, req, uid):
        """Answer (typed fail)."""
        return ('fail', 'told ' + uid)

    # -- futures -----------------------------------------------------------
    def request_fut(self, req, msg):
        """Answer (fut)."""
        self.ev('enter', req, msg)
        f = tornado.concurrent.Future()

        def done():
            self.informs(req, msg)
            self.ev('exit', req, msg)
            f.set_result(req.make_reply('ok', msg.arguments[0], 'fut'))
        self.later(done)
        return f

    def request_fut_fail(self, req, msg):
        """Answer (fut fail)."""
        f = tornado.concurrent.Future()
        self.later(lambda: f.set_exception(FailReply('failed ' + msg.arguments[0].decode())))
        return f

    def request_fut_boom(self, req, msg):
        """Answer (fut boom)."""
        f = tornado.concurrent.Future()
        self.later(lambda: f.set_exception(ValueError('boom ' + msg.arguments[0].decode())))
        return f

    def request_fut_none(self, req, msg):
        """Answer (fut none)."""
        f = tornado.concurrent.Future()
        self.later(lambda: f.set_result(None))
        return f

    def request_fut_ready(self, req, msg):
        """Answer (fut ready)."""
        f = tornado.concurrent.Future()
        self.informs(req, msg)
        f.set_result(req.make_reply('ok', msg.arguments[0], 'ready'))
        return f

    def request_fut_thread(self, req, msg):
        """A thread-safe future resolved in yet another thread."""
        f = TFuture()

        def work():
            time.sleep(self.delay())
            f.set_result(req.make_reply('ok', msg.arguments[0], 'thread'))
        t = threading.Thread(target=work)
        t.daemon = True
        t.start()
        return f

    @gen.coroutine
    def request_coro(self, req, msg):
        """Answer (coro)."""
        self.ev('enter', req, msg)
        n = int(msg.arguments[1]) if len(msg.arguments) > 1 else 0
        for i in range(n):
            req.inform(msg.arguments[0], i, n)
            yield gen.sleep(self.delay())
        yield gen.sleep(self.delay())
        self.ev('exit', req, msg)
        raise gen.Return(req.make_reply('ok', msg.arguments[0], 'coro'))

    @gen.coroutine
    def request_coro_fail(self, req, msg):
        """Answer (coro fail)."""
        yield gen.sleep(self.delay())
        raise FailReply('failed ' + msg.arguments[0].decode())

    @gen.coroutine
    def request_coro_boom(self, req, msg):
        """Answer (coro boom)."""
        yield gen.sleep(self.delay())
        raise RuntimeError('boom ' + msg.arguments[0].decode())

    @request(Str(), Int())
    @return_reply(Str(), Int())
    @gen.coroutine
    def request_typed_coro(self, req, uid, num):
        """Answer (typed coro)."""
        yield gen.sleep(self.delay())
        raise gen.Return(('ok', uid, num))

    @gen.coroutine
    def request_coro_async(self, req, msg):
        """Answers by itself inside a coroutine, then says so."""
        yield gen.sleep(self.delay())
        req.inform(msg.arguments[0], 0, 1)
        req.reply('ok', msg.arguments[0], 'coro-async')
        raise AsyncReply()

    @concurrent_reply
    @gen.coroutine
    def request_conc(self, req, msg):
        """Answer (conc)."""
        self.ev('enter', req, msg)
        n = int(msg.arguments[1]) if len(msg.arguments) > 1 else 0
        for i in range(n):
            req.inform(msg.arguments[0], i, n)
            yield gen.sleep(self.delay())
        yield gen.sleep(self.delay())
        self.ev('exit', req, msg)
        raise gen.Return(req.make_reply('ok', msg.arguments[0], 'conc'))

    @concurrent_reply
    def request_conc_fail(self, req, msg):
        """Answer (conc fail)."""
        f = tornado.concurrent.Future()
        self.later(lambda: f.set_exception(FailReply('failed ' + msg.arguments[0].decode())))
        return f

    @concurrent_reply
    def request_conc_fut(self, req, msg):
        """Answer (conc fut)."""
        self.ev('enter', req, msg)
        f = tornado.concurrent.Future()

        def done():
            self.informs(req, msg)
            self.ev('exit', req, msg)
            f.set_result(req.make_reply('ok', msg.arguments[0], 'conc-fut'))
        self.later(done)
        return f

    # -- asynchronous replies ------------------------------------------------
    def request_async(self, req, msg):
        """Answer (async)."""
        def done():
            self.informs(req, msg)
            req.reply('ok', msg.arguments[0], 'async')
        self.later(done)
        raise AsyncReply()

    def request_async_thread(self, req, msg):
        """Reply from a worker thread (thread-safe modes only)."""
        def work():
            time.sleep(self.delay())
            self.informs(req, msg)
            req.reply('ok', msg.arguments[0], 'async-thread')
        t = threading.Thread(target=work)
        t.daemon = True
        t.start()
        raise AsyncReply()

    # -- held until the test lets go --------------------------------------------
    def _hold(self, req, msg, kind):
        self.ev('enter', req, msg)
        f = tornado.concurrent.Future()

        def done():
            self.ev('exit', req, msg)
            f.set_result(req.make_reply('ok', msg.arguments[0], kind))
        self.ioloop.add_callback(
            lambda: self.held.setdefault(bytes(msg.arguments[0]), []).append(done))
        return f

    def request_hold(self, req, msg):
        """Answer (hold)."""
        return self._hold(req, msg, 'hold')

    @concurrent_reply
    def request_hold_conc(self, req, msg):
        """Answer (hold conc)."""
        return self._hold(req, msg, 'hold-conc')

    def request_hold_async(self, req, msg):
        """Answer (hold async)."""
        self.ev('enter', req, msg)

        def done():
            self.ev('exit', req, msg)
            req.reply('ok', msg.arguments[0], 'hold-async')
        self.ioloop.add_callback(
            lambda: self.held.setdefault(bytes(msg.arguments[0]), []).append(done))
        raise AsyncReply()

    def request_echo(self, req, msg):
        """Reply with all arguments as received."""
        with self.trace_lock:
            self.trace.append(('echo', id(req.client_connection), tuple(msg.arguments), None))
        return req.make_reply('ok', *msg.arguments)


SYNC_KINDS = ['sync', 'failing', 'boom', 'no-message', 'wrong-name', 'direct', 'typed', 'bad-return',
              'typed-fail', 'unknown-req']
FUT_KINDS = ['fut', 'fut-fail', 'fut-boom', 'fut-none', 'fut-ready', 'fut-thread', 'coro', 'coro-fail',
             'coro-boom', 'typed-coro', 'coro-async']
FREE_KINDS = ['conc', 'conc-fut', 'conc-fail', 'async', 'async-thread']   # later requests may overtake
WITH_INFORMS = {'sync', 'conc-fut', 'failing', 'boom', 'fut', 'fut-ready', 'coro', 'conc', 'async', 'async-thread'}


# Kinds that cannot be used in a mode: tornado coroutines may only be driven in the event-loop
# thread, and plain connections may only be used there.
NOT_IN_MODE = {'handler-thread': {'coro', 'coro-fail', 'coro-boom', 'typed-coro', 'coro-async', 'conc'},
               'thread-safe': set(), 'ioloop': {'fut-thread', 'async-thread'}}


class Delays(object):
    """A thread-safe pre-drawn sequence of delays."""

    def __init__(self, rng, values, n=997):
        self.seq = [rng.choice(values) for _ in range(n)]
        self.i = rng.randrange(n)

    def __call__(self):
        self.i += 1
        return self.seq[self.i % len(self.seq)]


def expected(kind, uid, extra):
    """Predicate on reply arguments for a request of this kind."""
    u = uid

    def is_fail(text):
        return lambda a: len(a) == 2 and a[0] == b'fail' and text in a[1]
    if kind in ('sync', 'direct', 'fut', 'coro', 'conc', 'conc-fut', 'async', 'coro-async', 'async-thread'):
        return lambda a: a == [b'ok', u, kind.encode()]
    if kind == 'fut-ready':
        return lambda a: a == [b'ok', u, b'ready']
    if kind == 'fut-thread':
        return lambda a: a == [b'ok', u, b'thread']
    if kind in ('failing', 'fut-fail', 'coro-fail', 'conc-fail'):
        return lambda a: a == [b'fail', b'failed ' + u]
    if kind in ('boom', 'fut-boom', 'coro-boom'):
        return is_fail(b'boom ' + u)
    if kind in ('no-message', 'wrong-name', 'bad-return', 'fut-none'):
        return is_fail(b'')
    if kind == 'typed-fail':
        return lambda a: a == [b'fail', b'told ' + u]
    if kind == 'unknown-req':
        return lambda a: a[:1] == [b'invalid']
    if kind == 'typed':
        num = extra
        if num is None or not 0 <= num <= 9:
            return lambda a: len(a) == 2 and a[0] == b'fail'
        return lambda a: len(a) == 4 and a[:3] == [b'ok', u, b'%d' % num] and float(a[3]) == 1.5
    if kind == 'typed-coro':
        num = extra
        if num is None:
            return lambda a: len(a) == 2 and a[0] == b'fail'
        return lambda a: a == [b'ok', u, b'%d' % num]
    raise AssertionError(kind)


def make_server(mode='handler-thread', major=5, flags=None, cls=Dev, minor=0, level=None, name=None,
                start=True, logger=None, **attrs):
    ts, ht = MODES[mode]
    if flags is None:
        flags = 'IM' if major >= 5 else 'M'
    pf = ProtocolFlags(major, minor, set(f.encode() for f in flags))
    ns = dict(PROTOCOL_INFO=pf)
    ns.update(attrs)
    klass = type('D' + cls.__name__, (cls,), ns)
    s = klass('127.0.0.1', 0, logger=logger or quiet_logger())
    s.set_concurrency_options(thread_safe=ts, handler_thread=ht)
    s.hthread = ht
    if start:
        s.start(timeout=STALL)
    return s


def stop_server(s, timeout=STALL):
    s.stop(timeout=STALL)
    s.join(timeout)


def in_loop(s, fn, timeout=STALL):
    """Run fn in the server's event loop and return its result."""
    f = TFuture()

    def cb():
        try:
            f.set_result(fn())
        except BaseException as e:
            f.set_exception(e)
    s.ioloop.add_callback(cb)
    return f.result(timeout)


def after_greeting(c):
    """Wait for the first round trip of a fresh client."""
    if not c.barrier():
        raise common.Violated('no answer on a fresh connection')
    return c
