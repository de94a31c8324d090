"""C18: cross-thread calls run once in the event loop and report back.

Several threads hammer the wrapped objects; every execution is logged in the event loop (thread,
caller, sequence number) and compared with what the callers asked for and got back.
"""
import random
import sys
import threading
import time
from concurrent.futures import TimeoutError as TTimeout

import tornado.gen
import tornado.ioloop
from tornado.concurrent import Future

from katcp import AsyncClient, DeviceClient, Message, Sensor
from katcp.client import make_threadsafe, make_threadsafe_blocking
from katcp.ioloop_manager import IOLoopThreadWrapper, ThreadSafeMethodAttrWrapper

from .. import common, perturb
from . import adv, srv, wire

STALL = common.STALL


class Boom(Exception):
    pass


class LoopThread(object):
    def __init__(self):
        self.loop = tornado.ioloop.IOLoop(make_current=False)
        self.ident = None
        ready = threading.Event()

        def run():
            self.loop.make_current()
            self.ident = threading.get_ident()
            self.loop.add_callback(ready.set)
            self.loop.start()
        self.t = threading.Thread(target=run)
        self.t.daemon = True
        self.t.start()
        ready.wait(STALL)

    def do(self, fn):
        box, ev = [], threading.Event()

        def cb():
            try:
                box.append(fn())
            finally:
                ev.set()
        self.loop.add_callback(cb)
        ev.wait(STALL)
        return box[0] if box else None

    def stall(self, seconds):
        self.loop.add_callback(time.sleep, seconds)

    def stop(self):
        self.loop.add_callback(self.loop.stop)
        self.t.join(STALL)


class Target(object):
    """The object that lives in the event loop."""

    def __init__(self, log):
        self.log = log
        self.value = 'plain-value'
        self.number = 41

    def note(self, key):
        self.log.append((key, threading.get_ident()))

    def give(self, key, x):
        """Returns at once."""
        self.note(key)
        return ('got', key, x)

    def fail(self, key, x):
        self.note(key)
        raise Boom(key)

    def later(self, key, x, delay=0.002):
        self.note(key)
        f = Future()
        tornado.ioloop.IOLoop.current().call_later(delay, f.set_result, ('got', key, x))
        return f

    def later_fail(self, key, x):
        self.note(key)
        f = Future()
        tornado.ioloop.IOLoop.current().call_later(0.002, f.set_exception, Boom(key))
        return f

    @tornado.gen.coroutine
    def coro(self, key, x):
        self.note(key)
        yield tornado.gen.sleep(0.001)
        raise tornado.gen.Return(('got', key, x))

    def never(self, key, x):
        self.note(key)
        return Future()

    def slow(self, key, x, timeout=None):
        return self.later(key, x, 0.2)

    def stuck(self, key, x, timeout=None):
        return Future()

    def with_timeout(self, key, x, timeout=None):
        self.note(key)
        return ('got', key, x, timeout)


def judge_log(ctx, what, log, asked, loop_ident):
    """Everything asked for ran once, in the loop thread, in order per caller."""
    seen = {}
    per = {}
    for key, ident in log:
        seen[key] = seen.get(key, 0) + 1
        per.setdefault(key[0], []).append(key[1])
        if ident != loop_ident:
            ctx.violation('wrong-thread', '%s: call %r ran in thread %r, the event loop is %r' % (what, key, ident, loop_ident))
            break
    for key in asked:
        if seen.get(key, 0) != 1:
            ctx.violation('times-%d' % min(seen.get(key, 0), 2), '%s: call %r ran %d times' % (what, key, seen.get(key, 0)))
            break
    for key in seen:
        if key not in asked:
            ctx.violation('invented', '%s: call %r ran but was not made' % (what, key))
            break
    for t, ks in per.items():
        if ks != sorted(ks):
            ctx.violation('order', '%s: calls of thread %s ran in the order %r' % (what, t, ks[:20]))
            break
    ctx.observe('executions', len(log))
    ctx.observe('oracle_evaluations', len(log) + len(asked))


def run_threads(ctx, n, fn):
    ts = [threading.Thread(target=fn, args=(t,)) for t in range(n)]
    for t in ts:
        t.daemon = True
        t.start()
    return ts


def join_threads(ctx, what, ts, timeout=None):
    end = time.monotonic() + (timeout or 3 * STALL)
    for t in ts:
        t.join(max(0.01, end - time.monotonic()))
    alive = [t for t in ts if t.is_alive()]
    if alive:
        ctx.violation('stuck', '%s: %d calling threads never came back' % (what, len(alive)))
        common.dump_threads()
        return False
    return True


# -- wrapped objects -----------------------------------------------------------------------
def wrapper(ctx, i):
    lt = LoopThread()
    log, asked, bad = [], [], []
    lock = threading.Lock()
    target = Target(log)
    w = lt.do(lambda: IOLoopThreadWrapper(lt.loop))
    obj = ThreadSafeMethodAttrWrapper(target, w)
    per = ctx.scale(60, 200)
    seeds = [ctx.rng.random() for _ in range(6)]

    def work(t):
        r = random.Random(seeds[t])
        for k in range(per):
            key = (t, k)
            kind = r.choice(['give', 'give', 'fail', 'later', 'later_fail', 'coro', 'with_timeout', 'direct', 'attr', 'never'])
            if kind == 'never' and r.random() < 0.7:
                kind = 'give'
            x = r.random()
            if kind == 'attr':
                try:
                    got = (obj.value, obj.number)
                except Exception as e:
                    got = e
                if got != ('plain-value', 41):
                    bad.append('attributes read as %r' % (got,))
                continue
            with lock:
                asked.append(key)
            t0 = time.monotonic()
            try:
                if kind == 'direct':
                    got = w.call_in_ioloop(target.give, (key,), {'x': x}, STALL)
                elif kind == 'never':
                    got = w.call_in_ioloop(target.never, (key, x), {}, 0.05)
                elif kind == 'with_timeout':
                    got = obj.with_timeout(key, x, timeout=STALL)
                else:
                    got = getattr(obj, kind)(key, x)
            except BaseException as e:
                got = e
            dt = time.monotonic() - t0
            if kind in ('fail', 'later_fail'):
                ok = isinstance(got, Boom) and got.args == (key,)
            elif kind == 'never':
                ok = isinstance(got, TTimeout) and dt >= 0.045
            elif kind == 'with_timeout':
                ok = got == ('got', key, x, STALL)
            else:
                ok = got == ('got', key, x)
            if not ok:
                bad.append('%s%r gave %r after %.3f s' % (kind, key, got, dt))
    ts = run_threads(ctx, 6, work)
    for _ in range(8):
        time.sleep(0.01)
        lt.stall(0.015)
    if join_threads(ctx, 'wrapper', ts):
        lt.do(lambda: None)
        judge_log(ctx, 'wrapper', log, set(asked), lt.ident)
    for b in bad[:3]:
        ctx.violation('result', 'wrapped object: ' + b)
    # calling from the event loop would deadlock, so it is refused
    err = lt.do(lambda: _err(lambda: w.call_in_ioloop(target.give, (('x', 0), 1), {}, 1)))
    ctx.expect(isinstance(err, RuntimeError), 'loop-call', 'a wrapped call from the event loop gave %r' % (err,))
    # default timeout of the wrapper
    w.default_timeout = 0.05
    e = _err(lambda: obj.never(('d', 0), 1))
    ctx.expect(isinstance(e, TTimeout), 'default-timeout', 'a call longer than the default timeout gave %r' % (e,))
    # a call's own timeout goes before it
    e = _err(lambda: w.call_in_ioloop(target.later, (('d', 1), 1), {'delay': 0.2}, STALL))
    ctx.expect(e == ('got', ('d', 1), 1), 'own-timeout', 'a call of 0.2 s with a timeout of %g s gave %r (default timeout 0.05 s)' % (STALL, e))
    e = _err(lambda: obj.slow(('d', 2), 1, timeout=STALL))
    ctx.expect(e == ('got', ('d', 2), 1), 'own-timeout', 'a call of 0.2 s with the argument timeout=%g gave %r (default timeout 0.05 s)' % (STALL, e))
    w.default_timeout = 10
    t0 = time.monotonic()
    e = _err(lambda: obj.stuck(('d', 3), 1, timeout=0.05) if i % 2 else w.call_in_ioloop(target.never, (('d', 3), 1), {}, 0.05))
    dt = time.monotonic() - t0
    ctx.expect(isinstance(e, TTimeout) and dt < 9.5, 'own-timeout', 'a call that never ends with a timeout of 0.05 s gave %r after %.2f s' % (e, dt))
    ctx.case(('wrapper', tuple(k for k, _ in log)))
    lt.stop()


def _err(fn):
    try:
        return fn()
    except BaseException as e:
        return e


# -- clients -------------------------------------------------------------------------------
def client_class(base):
    class Client(base):
        def set_log(self, log):
            self.log = log

        @make_threadsafe
        def fire(self, key):
            self.log.append((key, threading.get_ident()))

        @make_threadsafe_blocking
        def ask(self, key, kind):
            self.log.append((key, threading.get_ident()))
            if kind == 'value':
                return ('got', key)
            if kind == 'raise':
                raise Boom(key)
            f = Future()
            if kind == 'future':
                self.ioloop.call_later(0.002, f.set_result, ('got', key))
            elif kind == 'future-raise':
                self.ioloop.call_later(0.002, f.set_exception, Boom(key))
            return f                   # 'never'
    return Client


def clients(ctx, i):
    base = [DeviceClient, AsyncClient][i % 2]
    peer = LoopThread()
    got = []

    def on_request(conn, m):
        got.append(m)
        if m[1] == 'ask':
            conn.say(wire.encode('reply', 'ask', m[2], [b'ok', m[3][0]]))
    server = adv.AdvServer(peer.loop, adv.GREETS['5-MI'], on_request)
    peer.do(server.up)
    c = client_class(base)(*server.addr)
    log, asked, bad, sent = [], [], [], {}
    c.set_log(log)
    c.enable_thread_safety()
    c.start(timeout=STALL)
    ok = c.wait_connected(STALL) and c.wait_protocol(STALL)
    if not ok:
        ctx.violation('no-connection', 'the client does not connect')
    ident = c.ioloop_thread_id
    lock = threading.Lock()
    per = ctx.scale(50, 150)
    seeds = [ctx.rng.random() for _ in range(5)]
    cb_threads, cb_got = set(), []

    def work(t):
        r = random.Random(seeds[t])
        for k in range(per):
            key = (t, k)
            kind = r.choice(['fire', 'value', 'raise', 'future', 'future-raise', 'never', 'send', 'request', 'callback', 'send'])
            if kind == 'never' and r.random() < 0.7:
                kind = 'value'
            if kind in ('send', 'request', 'callback'):
                uid = 't%dk%d' % key
                pad = b'z' * r.choice([0, 10, 3000, 60000])
                with lock:
                    sent.setdefault(t, []).append(uid)
                try:
                    if kind == 'send':
                        c.send_message(Message.request('note', uid, pad), timeout=STALL)
                    elif kind == 'request' or base is DeviceClient:
                        mid = c.request(Message.request('note', uid, pad), timeout=STALL)
                        if mid is None:
                            bad.append('request() returned no id')
                    else:
                        c.callback_request(Message.request('ask', uid, pad), reply_cb=lambda m: (
                            cb_got.append(m.arguments), cb_threads.add(threading.get_ident())), timeout=STALL)
                except Exception as e:
                    bad.append('%s raised %r' % (kind, e))
                continue
            with lock:
                asked.append(key)
            t0 = time.monotonic()
            if kind == 'fire':
                r_ = _err(lambda: c.fire(key))
                if r_ is not None:
                    bad.append('fire gave %r' % (r_,))
                continue
            res = _err(lambda: c.ask(key, kind, timeout=0.05 if kind == 'never' else STALL))
            dt = time.monotonic() - t0
            if kind in ('raise', 'future-raise'):
                ok = isinstance(res, Boom) and res.args == (key,)
            elif kind == 'never':
                ok = isinstance(res, TTimeout) and dt >= 0.045
            else:
                ok = res == ('got', key)
            if not ok:
                bad.append('ask %r %s gave %r after %.3f s' % (key, kind, res, dt))
    ts = run_threads(ctx, 5, work)
    for _ in range(6):
        time.sleep(0.01)
        c.ioloop.add_callback(time.sleep, 0.01)
    if join_threads(ctx, base.__name__, ts):
        # in the loop the original is called directly
        box = []
        ev = threading.Event()
        c.ioloop.add_callback(lambda: (box.append(_err(lambda: c.ask(('loop', 0), 'value'))), ev.set()))
        ev.wait(STALL)
        asked.append(('loop', 0))
        ctx.expect(box == [('got', ('loop', 0))], 'in-loop', 'in the event loop ask() gave %r' % (box,))
        judge_log(ctx, base.__name__, log, set(asked), ident)
        total = sum(len(x) for x in sent.values())
        common.wait_until(lambda: len(got) >= total, STALL)
        arrived = {}
        for m in peer.do(lambda: list(got)):
            uid = m[3][0].decode()
            arrived.setdefault(int(uid[1:].split('k')[0]), []).append(uid)
        for t, uids in sent.items():
            if arrived.get(t, []) != uids:
                ctx.violation('messages', '%s: thread %d sent %r..., the peer received %r...' % (
                    base.__name__, t, uids[:12], arrived.get(t, [])[:12]))
                break
        if server.garbage:
            ctx.violation('messages', 'the peer received garbled lines: %r' % (server.garbage[0][:80],))
        ctx.observe('messages_from_threads', total)
        if base is AsyncClient:
            want = sum(1 for m in got if m[1] == 'ask')
            common.wait_until(lambda: len(cb_got) >= want, STALL)
            ctx.expect(len(cb_got) == want and all(a[0] == b'ok' for a in cb_got), 'callbacks',
                       '%d callbacks for %d requests' % (len(cb_got), want))
            ctx.expect(cb_threads <= {ident}, 'callback-thread', 'reply callbacks ran in %r, the loop is %r' % (cb_threads, ident))
    for b in bad[:3]:
        ctx.violation('result', '%s: %s' % (base.__name__, b))
    c.stop(timeout=STALL)
    c.join(STALL)
    peer.do(server.finish)
    peer.stop()
    ctx.case((base.__name__, tuple(k for k, _ in log), tuple(m[3][0] for m in got)))


# -- servers -------------------------------------------------------------------------------
def servers(ctx, i):
    mode = ['handler-thread', 'thread-safe'][i % 2]
    s = srv.make_server(mode, cls=srv.Dev)
    conns = {}
    orig = s.on_client_connect
    raws = []
    try:
        for k in range(3):
            raws.append(srv.after_greeting(srv.RawClient(s.bind_address)))

        def grab():
            return dict((c.address, c) for c in s._client_conns)
        conns = srv.in_loop(s, grab)
        targets = [conns[r.name] for r in raws]
        ident = s._server.ioloop_thread_id if hasattr(s, '_server') else None
        per = ctx.scale(80, 300)
        expected = [dict() for _ in raws]       # per client: thread -> uids
        mass = {}
        lock = threading.Lock()
        bad, futs, log, asked = [], [], [], []
        seeds = [ctx.rng.random() for _ in range(5)]

        def work(t):
            r = random.Random(seeds[t])
            for k in range(per):
                uid = 't%dk%d' % (t, k)
                pad = 'p' * r.choice([0, 5, 200, 30000])
                kind = r.choice(['inform', 'inform', 'mass', 'call', 'sync'])
                if kind == 'inform':
                    j = r.randrange(len(raws))
                    with lock:
                        expected[j].setdefault(t, []).append(uid)
                    futs.append((uid, targets[j].inform(Message.inform('note', uid, pad))))
                elif kind == 'mass':
                    with lock:
                        for e in expected:
                            e.setdefault(t, []).append(uid)
                    s.mass_inform(Message.inform('note', uid, pad))
                elif kind == 'call':
                    key = (t, k)
                    with lock:
                        asked.append(key)
                    fail = r.random() < 0.3

                    def fn(key=key, fail=fail):
                        log.append((key, threading.get_ident()))
                        if fail:
                            raise Boom(key)
                        return ('got', key)
                    f = s._server.call_from_thread(fn)
                    try:
                        res = f.result(STALL)
                    except BaseException as e:
                        res = e
                    if fail and not (isinstance(res, Boom) and res.args == (key,)) or not fail and res != ('got', key):
                        bad.append('call_from_thread gave %r' % (res,))
                elif r.random() < 0.3:
                    e = _err(lambda: s.sync_with_ioloop(STALL))
                    if e is not None:
                        bad.append('sync_with_ioloop gave %r' % (e,))
        ts = run_threads(ctx, 5, work)
        nreq = 60
        for k in range(nreq):                 # replies from worker threads at the same time
            for j, r in enumerate(raws):
                r.req('async-thread', 'r%d-%d' % (j, k), '3', mid=b'%d' % (k + 1))
            if k % 10 == 0:
                s.ioloop.add_callback(time.sleep, 0.01)
        if join_threads(ctx, 'server', ts):
            s.sync_with_ioloop(STALL)
            for r in raws:
                if not r.barrier():
                    ctx.violation('no-answer', 'the server does not answer any more')
            judge_log(ctx, 'call_from_thread', log, set(asked), ident)
            for uid, f in futs:
                e = _err(lambda: f.result(STALL))
                if isinstance(e, BaseException):
                    bad.append('future of inform %s gave %r' % (uid, e))
                    break
            for j, r in enumerate(raws):
                want = set(b'!async-thread[%d]' % (k + 1) for k in range(nreq))
                r.wait(lambda ls: sum(1 for l in ls if l.startswith(b'!async-thread[')) >= nreq)
                lines = r.snapshot()
                got = {}
                replies = {}
                for l in lines:
                    try:
                        m = wire.decode(l)
                    except wire.Bad:
                        ctx.violation('garbled', '%s: client %d received the broken line %r...' % (mode, j, l[:100]))
                        break
                    if m[1] == 'note':
                        uid = m[3][0].decode()
                        got.setdefault(int(uid[1:].split('k')[0]), []).append(uid)
                        if set(m[3][1]) - set(b'p'):
                            ctx.violation('garbled', '%s: text of %s is damaged' % (mode, uid))
                    elif m[1] == 'async-thread':
                        replies.setdefault(m[2], []).append(m[0])
                for t in range(5):
                    if got.get(t, []) != expected[j].get(t, []):
                        a, b = got.get(t, []), expected[j].get(t, [])
                        k = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), min(len(a), len(b)))
                        ctx.violation('messages', '%s: of the %d informs thread %d sent to client %d it received %d; first difference at %d: %r / %r' % (
                            mode, len(b), t, j, len(a), k, b[k:k + 3], a[k:k + 3]))
                        break
                for mid, seq in replies.items():
                    if seq != ['inform'] * 3 + ['reply']:
                        ctx.violation('reply', '%s: request %r of client %d was answered by %r' % (mode, mid, j, seq))
                        break
                if len(replies) != nreq:
                    ctx.violation('reply', '%s: %d of %d requests answered by threads' % (mode, len(replies), nreq))
                ctx.observe('messages_from_threads', sum(len(x) for x in got.values()))
        for b in bad[:3]:
            ctx.violation('result', '%s: %s' % (mode, b))
        # a loop that is busy for longer than the timeout
        hold = threading.Event()
        s.ioloop.add_callback(hold.wait, STALL)
        e = _err(lambda: s.sync_with_ioloop(0.05))
        ctx.expect(isinstance(e, TTimeout), 'sync-timeout', 'sync_with_ioloop of a busy loop gave %r' % (e,))
        hold.set()
        ctx.case((mode, tuple(tuple(r.snapshot()[-40:]) for r in raws)))
        for r in raws:
            r.close()
    finally:
        srv.stop_server(s)


# -- wrapped resource clients ------------------------------------------------------------------
def resources(ctx, i):
    from katcp.resource_client import KATCPClientResource, ThreadSafeKATCPClientResourceWrapper

    class D(srv.Dev):
        def setup_sensors(self):
            srv.Dev.setup_sensors(self)
            for n in ('a.one', 'b-two'):
                self.add_sensor(Sensor.integer(n, 'd', 'u', [-1000, 1000], default=7))
    s = srv.make_server('thread-safe', cls=D, name='d')
    lt = LoopThread()
    try:
        res = lt.do(lambda: KATCPClientResource(dict(name='dev', address=s.bind_address, controlled=True)))
        lt.do(lambda: (res.set_ioloop(lt.loop), res.start()))
        w = lt.do(lambda: IOLoopThreadWrapper(lt.loop))
        tr = ThreadSafeKATCPClientResourceWrapper(res, w)
        e = _err(lambda: tr.until_synced(timeout=STALL))
        if isinstance(e, BaseException):
            ctx.violation('not-synced', 'until_synced() of the wrapped resource gave %r' % (e,))
            return
        bad = []
        per = ctx.scale(25, 80)

        def work(t):
            for k in range(per):
                uid = 't%dk%d' % (t, k)
                try:
                    if k % 5 == 4:
                        n = ['a_one', 'b_two'][k % 2]
                        rd = getattr(tr.sensor, n).get_reading()
                        if rd.value != 7 or rd.istatus != Sensor.UNKNOWN and rd.status != 'unknown':
                            bad.append('reading of %s is %r' % (n, rd))
                        v = getattr(tr.sensor, n).get_value()
                        if v != 7:
                            bad.append('value of %s is %r' % (n, v))
                    else:
                        rep = tr.req.echo(uid, k)
                        if not rep.succeeded or [bytes(a) for a in rep.reply.arguments] != [b'ok', uid.encode(), b'%d' % k]:
                            bad.append('request %s got %r' % (uid, rep))
                except Exception as e:
                    bad.append('request %s raised %r' % (uid, e))
        ts = run_threads(ctx, 4, work)
        if join_threads(ctx, 'resource', ts):
            echoed = [a for what, _, a, _ in s.trace if what == 'echo']
            for t in range(4):
                got = [a[0].decode() for a in echoed if a[0].startswith(b't%dk' % t)]
                want = ['t%dk%d' % (t, k) for k in range(per) if k % 5 != 4]
                ctx.expect(got == want, 'messages', 'wrapped resource: thread %d made %r..., the device handled %r...' % (t, want[:6], got[:6]))
        for b in bad[:3]:
            ctx.violation('result', 'wrapped resource: ' + b)
        ctx.observe('wrapped_resource_calls', 4 * per)
        ctx.case(('resource', tuple(a for what, _, a, _ in s.trace if what == 'echo')))
        lt.do(res.stop)
        time.sleep(0.05)
    finally:
        lt.stop()
        srv.stop_server(s)


def run(ctx):
    ctx.rule = 'a run is distinct by the interleaving of the threads\' calls and messages as executed'
    ctx.assumptions = ['a caller that gave up after its timeout does not undo the call, which still runs once']
    old = sys.getswitchinterval()
    i = 0
    try:
        while ctx.more(i, 8, 80, quick_s=80, thorough_s=500):
            sys.setswitchinterval([1e-5, 1e-4, 5e-3][i % 3])
            with perturb.Perturb(ctx, ctx.subrng('p', i), on=i % 2 == 1) as slow:
                wrapper(ctx, i)
                slow.again()
                clients(ctx, i)
                slow.again()
                servers(ctx, i)
                if i % 3 == 0:
                    resources(ctx, i)
            i += 1
    finally:
        sys.setswitchinterval(old)
    ctx.observe('rounds', i)
    ctx.sample({'switch_intervals': [1e-5, 1e-4, 5e-3], 'rounds': i})
