"""C26: a request made through a resource is the one the device gets, and its result the device's answer.

Resources (in and out of containers) and inspecting clients make scripted requests of a scripted device
on a virtual-time loop.  Monitors: the lines the device received (exactly one per request made, none for
refused ones, right name, arguments and message id), and for every call its result and when it came
(the device's answer with all its informs in order, or a failure at exactly the timeout in force).
"""
import collections
import re
import threading

import tornado.gen

from katcp import Message
from katcp.core import KatcpVersionError
from katcp.resource import KATCPReply, KATCPResourceInactive
from katcp.resource_client import KATCPClientResource, KATCPClientResourceContainer

from .. import vloop
from . import fakedev, wire

NAMES = ['go', 'set-level', 'a-b-c', 'status2', 'x', 'keys', 'get', 'name', 'Upper-Case', 'capture-start']
HINTS = [None, None, 0.5, 2.0, 7.25, 30.0, 0.05]


def esc(name):
    return name.replace('.', '_').replace('-', '_')


class Call(object):
    pass


class Scenario(object):
    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=3000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.greet = rng.choice(['5-MI', '5.1-MITB', '5.1-MITB', '4', '5-M'])
        self.ids = 'I' in self.greet
        self.dev = fakedev.FakeDevice(self.loop, self.greet)
        self.problems, self.calls, self.steps = [], [], []
        self.plans = {}
        self.received = collections.defaultdict(list)     # uid -> [(conn idx, name, mid, args)]
        for n in rng.sample(NAMES, rng.randrange(2, 6)):
            self.offer(n)
        self.container = rng.random() < 0.4
        spec = dict(name='dev', address=self.dev.server.addr, controlled=True, auto_reconnect_delay=0.5)
        if self.container:
            self.top = KATCPClientResourceContainer(dict(name='top', clients={'dev': spec}))
        else:
            self.top = KATCPClientResource(spec)
        self.top.set_ioloop(self.loop)
        self.counter = 0

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- the device ----------------------------------------------------------------------
    def offer(self, name):
        self.dev.requests[name] = fakedev.Req('Does %s %d.' % (name, self.rng.randrange(100)), self.rng.choice(HINTS))
        self.dev.handlers[name] = lambda conn, mid, args: self.serve(conn, name, mid, args)

    def serve(self, conn, name, mid, args):
        uid = args[0] if args else None
        self.received[uid].append((conn.idx, name, mid, list(args)))
        plan = self.plans.get(uid)
        if plan is None:
            return self.bad('stray', 'the device received %r with arguments %r that nobody sent' % (name, args))
        for delay, kind, margs in plan:
            def act(kind=kind, margs=margs):
                if not conn.open:
                    return
                if kind == 'inform':
                    self.dev.inform(conn, name, mid, margs)
                elif kind == 'reply':
                    self.dev.reply(conn, name, mid, margs)
                elif kind == 'close':
                    conn.close()
            if delay:
                self.loop.call_later(delay, act)
            else:
                act()

    # -- the user ------------------------------------------------------------------------------
    def argument(self):
        rng = self.rng
        return rng.choice([
            lambda: (rng.randrange(-10 ** 9, 10 ** 9),) * 2,
            lambda: (wire.gen_arg(rng),) * 2,
            lambda: (rng.choice(['plain', 'two words', '', u'caf\xe9', 'a\tb', 'back\\slash', 'x\x00y\n']),) * 2,
            lambda: rng.choice([(True, b'1'), (False, b'0')]),
            lambda: (rng.choice([0.5, -3.25, 1e300, 12345.678]),) * 2])()

    @staticmethod
    def formatted(a):
        if isinstance(a, bytes):
            return a
        if isinstance(a, str):
            return a.encode('utf-8')
        if isinstance(a, float):
            return repr(a).encode()
        return b'%d' % a

    def plan(self, timeout):
        """What the device will do, and what becomes of the call: (reply args or None, informs, delay)."""
        rng = self.rng
        kind = rng.choice(['now', 'now', 'later', 'later', 'late', 'silent', 'fail', 'edge', 'close'])
        informs = [[b'i%d' % k, wire.gen_arg(rng)] for k in range(rng.choice([0, 0, 1, 5]))]
        delay = {'now': 0, 'fail': 0, 'later': timeout * rng.choice([0.3, 0.7]), 'late': timeout + rng.choice([0.01, 1]),
                 'edge': timeout - 0.001, 'silent': 0, 'close': timeout * rng.choice([0, 0.5])}[kind]
        plan = [(delay * (k + 1.0) / (len(informs) + 1) if delay else 0, 'inform', a) for k, a in enumerate(informs)]
        if kind == 'late' and not self.ids:
            kind = 'silent'             # such replies would be taken for the next request's
            plan = []
        if kind == 'close':
            plan = [(delay, 'close', None)]
            return plan, None, [], delay
        if kind == 'silent':
            plan = [p for p in plan if p[0] < timeout * 0.9]
            return plan, None, [p[2] for p in plan], timeout
        ok = kind != 'fail' and rng.random() < 0.85
        reply = [b'ok' if ok else rng.choice([b'fail', b'invalid'])] + [wire.gen_arg(rng) for _ in range(rng.choice([0, 1, 3]))]
        plan.append((delay, 'reply', reply))
        if kind == 'late':
            return plan, None, [p[2] for p in plan if p[1] == 'inform' and p[0] < timeout - 1e-6], timeout
        return plan, reply, informs, delay

    def make_call(self):
        rng = self.rng
        res = self.res
        name = rng.choice(sorted(n for n in self.dev.requests if n in self.dev.handlers))
        c = Call()
        self.counter += 1
        c.uid = b'u%d' % self.counter
        c.name, c.t0 = name, self.loop.time()
        c.how = rng.choice(['req', 'req', 'req', 'item', 'wrapped', 'simple', 'object'])
        if self.container and c.how == 'req' and rng.random() < 0.5:
            c.how = 'container'
        pairs = [self.argument() for _ in range(rng.choice([0, 1, 1, 3]))]
        args = [c.uid if rng.random() < 0.5 else c.uid.decode()] + [a for a, _ in pairs]
        c.args = [c.uid] + [self.formatted(b) for _, b in pairs]
        kw = {}
        if rng.random() < 0.4:
            kw['timeout'] = rng.choice([None, 0.3, 1.5, 12.0])
        c.mid = None
        if rng.random() < 0.25:
            c.mid = rng.randrange(10 ** 8, 10 ** 9)
            kw['mid'] = rng.choice([c.mid, str(c.mid), str(c.mid).encode()])
        c.use_mid = rng.choice([None, None, None, None, True])
        if c.use_mid and self.ids:
            kw['use_mid'] = True
        # the timeout in force
        hint = self.dev.requests[name].hint if self.dev.hints and c.how in ('req', 'item', 'container', 'object') else None
        c.timeout = kw.get('timeout') or hint or 5.0
        plan, c.reply, c.informs, c.delay = self.plan(c.timeout)
        self.plans[c.uid] = plan
        c.done = None
        c.expect_sent = True
        c.connected = self.dev.current() is not None and res.is_connected() and res.state == 'synced'
        c.conn = self.dev.current()
        c.active = res.is_active()
        c.refused = None
        try:
            if c.how == 'req':
                f = getattr(res.req, esc(name))(*args, **kw)
            elif c.how == 'item':
                f = res.req[esc(name)](*args, **kw)
            elif c.how == 'container':
                f = getattr(self.top.req, 'dev_' + esc(name))(*args, **kw)
            elif c.how == 'wrapped':
                f = res._inspecting_client.wrapped_request(name, *args, **kw)
            elif c.how == 'simple':
                f = res._inspecting_client.simple_request(name, *args, **kw)
            else:
                f = self.objects[name].issue_request(*args, **kw)
        except Exception as e:
            c.refused = e
            c.future = None
        else:
            c.future = f
            f.add_done_callback(lambda f: self.finished(c, f))
        self.calls.append(c)
        self.ctx.observe('calls_' + c.how)

    def finished(self, c, f):
        if c.done is not None:
            self.bad('twice', 'the call %r resolved twice' % c.uid)
        c.done = self.loop.time()

    # -- driving ----------------------------------------------------------------------------------
    @tornado.gen.coroutine
    def settle(self):
        """Until synchronised with the present interface."""
        yield tornado.gen.sleep(1)
        try:
            yield self.res.until_synced(timeout=60)
        except tornado.gen.TimeoutError:
            self.bad('sync', 'does not synchronise')
            raise
        yield tornado.gen.sleep(0.01)
        self.objects = {}
        for n in self.dev.handlers:
            if n in self.dev.requests:
                self.objects[n] = yield self.res._inspecting_client.future_get_request(n)
                o = self.objects[n]
                r = self.dev.requests[n]
                if (o.name, o.description, o.timeout_hint) != (n, r.doc, r.hint if self.dev.hints else None):
                    self.bad('object', 'the request object for %s is %r' % (n, (o.name, o.description, o.timeout_hint)))

    @tornado.gen.coroutine
    def drive(self):
        rng, d = self.rng, self.dev
        d.server.up()
        self.top.start()
        self.res = self.top.children['dev'] if self.container else self.top
        yield self.settle()
        for _ in range(rng.randrange(2, 6)):
            what = rng.choice(['calls', 'calls', 'calls', 'sequence', 'inactive', 'change', 'outage'])
            self.steps.append(what)
            if what == 'calls':
                names = set()
                for _ in range(rng.choice([1, 3, 8])):
                    self.make_call()
                    if not self.ids:
                        yield self.rest()     # answers of servers without ids come in order
                    elif rng.random() < 0.5:
                        yield tornado.gen.sleep(rng.choice([0, 0.1, 2]))
            elif what == 'sequence':
                for _ in range(3):
                    self.make_call()
                    yield self.rest()
            elif what == 'inactive':
                self.top.set_active(False)
                for _ in range(2):
                    self.make_call()
                    yield self.rest()
                self.top.set_active(True)
            elif what == 'change':
                yield self.rest()
                yield self.settle()
                n = rng.choice(NAMES)
                if n in d.requests and rng.random() < 0.5 and len(d.handlers) > 2:
                    del d.requests[n], d.handlers[n]
                else:
                    self.offer(n)
                d.notify()
                yield self.settle()
            elif what == 'outage':
                yield self.rest()
                d.current() and d.current().close()
                yield tornado.gen.sleep(0.1)
                self.make_call()
                yield self.rest()
                yield self.settle()
            if rng.random() < 0.6:
                yield self.rest()
                yield self.settle()
            elif d.current() is None or not self.res.synced:
                yield self.rest()
                yield self.settle()
        yield self.rest()
        yield tornado.gen.sleep(2)
        self.top.stop()
        fs = self.top.until_stopped(timeout=10)
        yield (fs if not isinstance(fs, dict) else list(fs.values()))

    @tornado.gen.coroutine
    def rest(self):
        for _ in range(400):
            if all(c.done is not None or c.future is None for c in self.calls):
                return
            yield tornado.gen.sleep(0.25)
        c = next(c for c in self.calls if c.done is None and c.future is not None)
        self.bad('pending', 'the call %r (%s by %s, timeout %s) never resolves' % (c.uid, c.name, c.how, c.timeout))
        raise RuntimeError('pending')

    # -- judging --------------------------------------------------------------------------------------
    def judge(self):
        mids = {}
        for c in self.calls:
            what = '%s(%s) by %s' % (c.name, c.uid.decode(), c.how)
            got = self.received.get(c.uid, [])
            if not c.active and c.how in ('req', 'item', 'container'):
                if not isinstance(c.refused, KATCPResourceInactive):
                    self.bad('inactive', '%s of an inactive resource: %r' % (what, c.refused or c.future))
                if got:
                    self.bad('inactive', '%s of an inactive resource was sent' % what)
                self.ctx.observe('refused_inactive')
                continue
            if c.refused is not None:
                self.bad('raised', '%s raised %r' % (what, c.refused))
                continue
            exc = c.future.exception()
            if c.mid is not None and not self.ids:
                if got:
                    self.bad('sent', '%s with a message id was sent to a device without ids' % what)
                if exc is None and c.future.result()[0].reply_ok():
                    self.bad('result', '%s with a message id succeeded' % what)
                continue
            if exc is not None:
                self.bad('raised', '%s failed with %r' % (what, exc))
                continue
            r = c.future.result()
            reply, informs = r
            if not c.connected:
                # sent or not, depending on when the loss was noticed
                if len(got) > 1:
                    self.bad('sent', '%s was sent %d times' % (what, len(got)))
                if not got and (reply.reply_ok() or c.done > c.t0 + 0.5):
                    self.bad('result', '%s without a connection gave %s after %.3f s' % (what, reply, c.done - c.t0))
                if not got:
                    self.ctx.observe('failed_disconnected')
                    continue
            if len(got) != 1:
                if c.conn is not None and c.conn.t_close is not None and c.conn.t_close <= c.t0 + 0.2 and not got:
                    continue
                self.bad('sent', '%s was received %d times' % (what, len(got)))
                continue
            _, name, mid, args = got[0]
            if name != c.name or not self.same_args(args, c.args):
                self.bad('sent', '%s with %r was received as %s %r' % (what, c.args, name, args))
            if c.mid is not None:
                if mid != b'%d' % c.mid:
                    self.bad('mid', '%s with id %s was received with %r' % (what, c.mid, mid))
            elif (mid is not None) != self.ids:
                self.bad('mid', '%s was received with the id %r from a device %s ids' % (what, mid, 'with' if self.ids else 'without'))
            elif mid is not None:
                if mids.setdefault((got[0][0], mid), c.uid) != c.uid:
                    self.bad('mid', '%s and %s have the same id %r' % (what, mids[got[0][0], mid], mid))
            # the result
            end = c.t0 + (c.delay if c.reply is not None or c.delay < c.timeout else c.timeout)
            cut = [k for k in [c.conn.t_close] if k is not None and k < end - 1e-9]
            if not c.connected and c.conn is not self.dev.server.conns[-1]:
                cut = cut or [c.done]
            if cut:
                if reply.reply_ok() or c.done > max(cut[0], c.t0) + 0.1:
                    self.bad('result', '%s of a lost connection gave %s at %.3f, lost at %.3f' % (what, reply, c.done, cut[0]))
                self.ctx.observe('failed_lost')
                continue
            if abs(c.done - end) > 0.02:
                self.bad('time', '%s with a timeout of %s s resolved after %.3f s, expected after %.3f s' % (
                    what, c.timeout, c.done - c.t0, end - c.t0))
                continue
            if c.reply is None:
                if reply.reply_ok() or reply.mtype != Message.REPLY or reply.name != c.name:
                    self.bad('result', '%s without an answer gave %s' % (what, reply))
                self.ctx.observe('timed_out')
            else:
                if (reply.mtype, reply.name, list(reply.arguments)) != (Message.REPLY, c.name, c.reply):
                    self.bad('result', '%s was answered %r, the result is %r' % (what, c.reply, list(reply.arguments)))
                self.ctx.observe('answered')
            got_informs = [list(m.arguments) for m in informs]
            if got_informs != c.informs or any(m.name != c.name or m.mtype != Message.INFORM for m in informs):
                self.bad('informs', '%s came with the informs %r, the result has %r' % (what, c.informs, got_informs))
            if c.how != 'simple':
                ok = c.reply is not None and c.reply[0] == b'ok'
                if not isinstance(r, KATCPReply) or bool(r) != ok or r.succeeded != ok or r.reply is not reply or \
                        r.informs is not informs or r.messages != [reply] + informs:
                    self.bad('reply', '%s: the reply object of %s does not show the answer' % (what, reply))
                try:
                    shown = repr(r)
                except Exception as e:
                    self.bad('reply', '%s: a reply object cannot be shown: %r' % (what, e))
                else:
                    if len(shown) < len(c.name) + 1 or not shown.startswith('!' + c.name + ' '):
                        self.bad('reply', '%s: the reply object of %s is shown as %r' % (what, reply, shown[:80]))

    @staticmethod
    def same_args(got, want):
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if g != w:
                try:
                    if float(g) != float(w) or not re.match(br'^[-+0-9.e]+$', g):
                        return False
                except ValueError:
                    return False
        return True

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(100, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.dev.server.finish()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        elif fut[0].exception() is not None:
            if not self.problems:
                fut[0].result()
        else:
            self.judge()
        self.loop.clear_current()
        self.loop.close()
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        return self.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by its device, its steps and the calls made with their results'
    ctx.assumptions = [
        'requests to devices without message ids are made one at a time, as late answers cannot be told apart there',
        'what the device sent before a connection ended may be lost',
        'suspicious runs are repeated with a longer grace for the kernel before they count']
    i = 0
    while ctx.more(i, 260, 8000, quick_s=50, thorough_s=400):
        s = Scenario(ctx, ctx.subrng('s', i), i, 0.002)
        v = s.run()
        if v:
            ctx.observe('scenarios_repeated_with_longer_grace')
            s = Scenario(ctx, ctx.subrng('s', i), i, 0.1)
            v = s.run()
            for key, text in v[:3]:
                ctx.violation(key, 'scenario %d (%s): %s' % (i, s.greet, text), steps=s.steps)
        ctx.observe('calls', len(s.calls))
        ctx.observe('oracle_evaluations', len(s.calls))
        ctx.case((s.greet, s.container, tuple(s.steps), tuple((c.name, c.how, c.delay, repr(c.reply)) for c in s.calls)))
        ctx.sample({'device': s.greet, 'steps': s.steps, 'calls': ['%s %s %r' % (c.how, c.name, c.reply) for c in s.calls[:6]]})
        i += 1
        if len(ctx.violations) > 4:
            break
