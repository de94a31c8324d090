"""C08: every client request is resolved exactly once, with its own reply.

A scripted peer answers the requests of a real client on a virtual-time loop (reordered, duplicated,
late, never, without ids, with the connection breaking).  Every reply and inform names the request
it was sent for, so each outcome is judged against the peer's own log.
"""
import threading
import time

import tornado.gen
import tornado.ioloop

from katcp import AsyncClient, BlockingClient, Message
from katcp.client import CallbackClient, request_check
from katcp.core import ProtocolFlags

from .. import common, perturb, vloop
from . import adv, wire

EPS = 1e-3
NAMES = ['alpha', 'beta', 'gamma-2']


class Rec(object):
    """One client request and everything that happened to it."""

    def __init__(self, uid, name):
        self.uid, self.name = uid, name
        self.t0 = None
        self.timeout = None
        self.connected = None
        self.out = []            # (t, Message or exception)
        self.informs = []        # (t, Message)  given to inform_cb / future
        self.informs_known = True
        self.raised = None
        self.low = False
        self.arrived = None      # (t, conn, mid)
        self.sent = []           # (t, conn, kind, wire tuple, first)
        self.expect_refused = False
        self.twin = False
        self.silent = False

    def brief(self):
        return {'uid': self.uid, 'name': self.name, 't0': self.t0, 'timeout': self.timeout,
                'connected': self.connected, 'outcomes': [(t, repr(m)) for t, m in self.out],
                'informs': [(t, repr(m)) for t, m in self.informs],
                'arrived': self.arrived and (self.arrived[0], self.arrived[1].idx, self.arrived[2]),
                'sent': [(t, c.idx, k, w) for t, c, k, w in self.sent]}


def tup(msg):
    return ({Message.REQUEST: 'request', Message.REPLY: 'reply', Message.INFORM: 'inform'}[msg.mtype],
            msg.name, msg.mid, tuple(msg.arguments))


class Script(object):
    """What the peer does with requests; shared by both kinds of scenario."""

    def __init__(self, rng, loop, greet, plan):
        self.rng, self.loop = rng, loop
        self.server = adv.AdvServer(loop, adv.GREETS[greet], self.on_request)
        self.recs = {}
        self.plan = plan
        self.unknown = []
        self.fifo = {}           # (conn idx, name) -> time before which no later answer may go
        self.midless_open = {}

    def on_request(self, conn, m):
        mtype, name, mid, args = m
        uid = args[0].decode('ascii', 'replace') if args else ''
        rec = self.recs.get(uid)
        if rec is None or mtype != 'request':
            self.unknown.append(m)
            return
        if rec.arrived is not None and not rec.twin:
            self.unknown.append(('twice', m))
            return
        rec.arrived = (self.loop.time(), conn, mid)
        self.plan(self, conn, rec, mid)

    def say(self, conn, rec, kind, mid, args, eol=b'\n'):
        """An inform or reply that belongs to `rec`."""
        allargs = ([b'ok', rec.uid.encode()] if kind == 'reply' else [rec.uid.encode()]) + list(args)
        line = wire.encode(kind, rec.name, mid, allargs)
        if conn.say(line, eol):
            rec.sent.append((self.loop.time(), conn, kind, (kind, rec.name, mid, tuple(allargs))))
            return True
        return False

    def at(self, delay, fn, *args):
        self.loop.call_later(delay, fn, *args)


def blob(rng):
    return bytes(rng.choice(b'ab \\\n\t\x00\xff\x1b9') for _ in range(rng.choice([0, 1, 3, 20])))


def answer(s, conn, rec, mid, delays, ninf, extra, eol):
    """Informs then the reply, each after its delay; `extra` more copies or informs afterwards."""
    rng = s.rng
    body = [('inform', [b'%d' % i, blob(rng)]) for i in range(ninf)] + [('reply', [blob(rng)])]
    for kind in extra:
        body.append((kind, [b'late', blob(rng)]))
    t = 0.0
    for (kind, args), d in zip(body, delays):
        t += d
        s.at(t, s.say, conn, rec, kind, mid, args, eol)
    return t


def plan_ids(prof):
    def plan(s, conn, rec, mid):
        rng = s.rng
        eol = rng.choice([b'\n', b'\n', b'\r\n', b'\n\n'])
        if mid is None:
            return plan_midless(prof)(s, conn, rec, mid)
        if rec.silent:
            return
        ninf = rng.choice([0, 0, 1, 2, 5])
        extra = []
        if rng.random() < prof['dup'] and not rec.low:
            extra = [rng.choice(['reply', 'inform', 'reply']) for _ in range(rng.randrange(1, 3))]
        delays = [rng.choice([0, 0, 1, 2, 5, 20, 60]) * 0.01 for _ in range(ninf + 1 + len(extra))]
        if rng.random() < prof['late']:
            k = rng.randrange(ninf + 1)
            delays[k] += 3.0
        if rec.low:
            delays[0] += rng.choice([0.2, 1.0, 5.0])
        answer(s, conn, rec, mid, delays, ninf, extra, eol)
        if rng.random() < prof['stray']:
            stray(s, conn, rec)
    return plan


def stray(s, conn, rec):
    """Messages that belong to no pending request."""
    rng = s.rng
    which = rng.randrange(4)
    d = rng.choice([0, 1, 5]) * 0.01
    if which == 0:
        s.at(d, conn.say, b'!%s[%d] ok stray' % (rec.name.encode(), 10 ** 6 + rng.randrange(9)))
    elif which == 1:
        s.at(d, conn.say, b'#%s[%d] stray' % (rec.name.encode(), 10 ** 6 + rng.randrange(9)))
    elif which == 2:
        s.at(d, conn.say, b'!never-asked ok stray')
    else:
        s.at(d, conn.say, b'this is not a katcp line')


def plan_midless(prof):
    """Without ids the peer answers requests of one name in order."""
    def plan(s, conn, rec, mid):
        rng = s.rng
        if rec.silent:
            return
        key = (conn.idx, rec.name)
        now = s.loop.time()
        start = max(now, s.fifo.get(key, now))
        ninf = rng.choice([0, 0, 1, 2, 5])
        t = start - now
        eol = rng.choice([b'\n', b'\r\n'])
        for i in range(ninf + 1):
            t += rng.choice([0, 0, 1, 2, 10]) * 0.01
            kind = 'inform' if i < ninf else 'reply'
            args = [b'%d' % i, blob(rng)]
            s.at(t, s.say, conn, rec, kind, None, args, eol)
        # the very next answer of this name must come after this one
        s.fifo[key] = now + t + 0.01
    return plan


class TestClient(AsyncClient):
    def setup(self, loop):
        self.seen_informs = []
        self.conn_log = []

    def inform_tick(self, msg):
        """Unsolicited inform of the scripted peer."""
        self.seen_informs.append(tup(msg))

    def notify_connected(self, connected):
        self.conn_log.append((self.ioloop.time(), connected))


class Scenario(object):
    def __init__(self, ctx, rng, greet, prof, grace):
        self.ctx, self.rng, self.greet, self.prof = ctx, rng, greet, prof
        self.clock = vloop.Clock(start=5000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.ids = adv.HAS_IDS[greet]
        self.script = Script(rng, self.loop, greet, plan_ids(prof) if self.ids else plan_midless(prof))
        self.server = self.script.server
        self.default_timeout = rng.choice([5.0, 2.005, None, 1.205])
        self.client = TestClient(*self.server.addr, timeout=self.default_timeout,
                                 auto_reconnect=prof['reconnect'])
        self.client.setup(self.loop)
        self.client.auto_reconnect_delay = 0.5
        self.client.set_ioloop(self.loop)
        self.recs = []
        self.breaks = []          # (t, what) connection ends as scheduled by us
        self.stop_t = None
        self.n = 0
        self.n_low = 0
        self.low = set()
        self.ticks = []
        self.err = None
        self.bad = []

    # -- requests ----------------------------------------------------------
    def issue(self, depth=0, msg=None):
        rng, prof = self.rng, self.prof
        self.n += 1
        r = Rec('u%d' % self.n, rng.choice(NAMES))
        self.recs.append(r)
        self.script.recs[r.uid] = r
        r.silent = rng.random() < prof['silent']
        api = rng.choice(['future', 'future', 'callback', 'callback', 'callback-noinf', 'user-data'])
        use_mid = None
        own_mid = None
        if self.ids:
            x = rng.random()
            if x < prof['nomid']:
                use_mid = False
            elif x < prof['nomid'] + 0.1:
                use_mid = True
            elif x < prof['nomid'] + 0.2:
                own_mid = b'%d' % (50000 + self.n)
            elif x < prof['nomid'] + 0.28:
                # an id that the client's own numbering is about to reach, while this request is pending
                self.n_low += 1
                own_mid = b'%d' % (self.n + self.n_low + rng.randrange(3))
                if own_mid in self.low:
                    own_mid = None
                else:
                    self.low.add(own_mid)
                    r.low = True
        elif rng.random() < 0.08:
            if rng.random() < 0.5:
                use_mid = True
            else:
                own_mid = b'%d' % (50000 + self.n)
            r.expect_refused = True
        midless = not self.ids or use_mid is False
        if (r.silent and midless) or (r.expect_refused):
            r.name = 'solo-%d' % self.n     # nothing else may be matched with its answer by name
        r.timeout = rng.choice([None, None, 0.105, 0.405, 1.505, 30.005])
        if midless and not r.silent and not r.expect_refused:
            r.timeout = 200.005      # its answer may queue behind others and must not come late
        if r.low:
            r.timeout = 200.005      # its id is used again: nothing may come late
        eff = self.default_timeout if r.timeout is None else r.timeout
        r.eff = eff
        r.t0 = self.loop.time()
        r.connected = self.client.is_connected()
        m = Message.request(r.name, r.uid, blob(rng), mid=own_mid)

        def done(msg_):
            r.out.append((self.loop.time(), msg_))
            if prof['chain'] and depth < 2 and rng.random() < 0.3:
                self.issue(depth + 1)
            if prof['raise'] and rng.random() < 0.2:
                raise RuntimeError('callback of a scenario raises')

        def reply_cb(msg_, *ud):
            if ud != ud_want:
                self.bad.append((r.uid, 'reply callback got user data %r' % (ud,)))
            done(msg_)

        def inform_cb(msg_, *ud):
            if ud != ud_want:
                self.bad.append((r.uid, 'inform callback got user data %r' % (ud,)))
            r.informs.append((self.loop.time(), msg_))
            if prof['raise'] and rng.random() < 0.2:
                raise RuntimeError('inform callback of a scenario raises')
        ud_want = ()
        kw = dict(timeout=r.timeout, use_mid=use_mid)
        try:
            if api == 'future':
                f = self.client.future_request(m, **kw)

                def fdone(f):
                    try:
                        reply, informs = f.result()
                    except Exception as e:
                        r.out.append((self.loop.time(), e))
                        return
                    r.informs = [(None, i) for i in informs]
                    r.out.append((self.loop.time(), reply))
                f.add_done_callback(fdone)
            elif api == 'callback':
                self.client.callback_request(m, reply_cb, inform_cb, **kw)
            elif api == 'callback-noinf':
                r.informs_known = False
                self.client.callback_request(m, reply_cb=reply_cb, **kw)
            else:
                ud_want = (r.uid, 7)
                self.client.callback_request(m, reply_cb, inform_cb, user_data=(r.uid, 7), **kw)
        except Exception as e:
            r.raised = e
            r.out.append((self.loop.time(), e))
        if prof['twin'] and m.mid is not None and not r.low and api == 'callback' and not r.expect_refused \
                and self.rng.random() < 0.2:
            # the same Message object sent again while it is pending: each use resolves once
            r.twin = True
            r.twin_out = []
            try:
                self.client.callback_request(m, reply_cb=lambda x: r.twin_out.append(x), timeout=r.timeout)
            except Exception as e:
                r.twin_out.append(e)
        return r

    # -- events --------------------------------------------------------------
    def break_now(self, how):
        self.breaks.append((self.loop.time(), how))
        if how == 'server-close':
            self.server.drop()
        elif how == 'server-rst':
            self.server.drop(rst=True)
        elif how == 'client':
            self.client.disconnect()
        elif how == 'outage':
            self.server.down()
            self.loop.call_later(self.rng.choice([0.3, 1.2]), self.server.up)

    def tick_now(self):
        c = self.server.current()
        if c is not None:
            n = len(self.ticks)
            if c.say(b'#tick %d' % n):
                self.ticks.append((self.loop.time(), n))

    @tornado.gen.coroutine
    def drive(self):
        rng, prof = self.rng, self.prof
        try:
            if rng.random() < 0.3:
                self.issue()                       # before the client was even started: refused or failed
                self.recs[-1].t0 = None
        except Exception:
            pass
        self.server.up()
        self.client.start()
        if rng.random() < 0.3:
            self.issue()                           # before it is connected
        yield self.client.until_connected(timeout=30)
        if self.greet != 'none' and rng.random() < 0.8:
            yield self.client.until_protocol(timeout=30)
        for step in range(prof['steps']):
            for _ in range(rng.choice([1, 1, 2, 4, 10])):
                self.issue()
            if rng.random() < 0.3:
                self.tick_now()
            yield tornado.gen.sleep(rng.choice([0, 1, 3, 10, 50]) * 0.01)
            if rng.random() < prof['break']:
                # never together with an answer: those carry times that are multiples of 0.01
                yield tornado.gen.sleep(0.003)
                self.break_now(rng.choice(['server-close', 'server-rst', 'client', 'outage']))
                for _ in range(rng.choice([0, 1, 3])):
                    self.issue()
                yield tornado.gen.sleep(rng.choice([0, 1, 60, 100, 200]) * 0.01 + 0.007)
        yield tornado.gen.sleep(rng.choice([0.0, 0.5, 2.0, 40.0]) + 0.002)
        for _ in range(rng.choice([0, 2])):
            self.issue()
        self.stop_t = self.loop.time()
        self.client.stop()
        for _ in range(rng.choice([0, 0, 1])):
            self.issue()
        yield self.client.until_stopped(timeout=30)
        yield tornado.gen.sleep(0.05)
        self.issue()                               # after it was stopped
        yield tornado.gen.sleep(40.0)

    def run(self):
        fut = []

        def go():
            f = self.drive()
            fut.append(f)
            f.add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(120, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.server.finish()
        self.loop.clear_current()
        self.loop.close()
        if self.clock.runaway:
            raise common.Inconclusive('the event loop never rests')
        if not fut[0].done():
            self.bad.append(('-', 'the scenario did not end: stop or a wait never resolved'))
        else:
            try:
                fut[0].result()
            except Exception as e:
                self.bad.append(('-', 'scenario step failed: %r' % (e,)))

    # -- judgement -----------------------------------------------------------
    def judge(self):
        """List of (key, text, data)."""
        v = []
        for uid, text in self.bad:
            v.append(('harness-visible', '%s: %s' % (uid, text), {}))
        for m in self.script.unknown:
            v.append(('request-garbled', 'the peer received %r, which no request asked for (or twice)' % (m,), {}))
        for g in self.server.garbage:
            v.append(('request-garbled', 'the peer received the malformed line %r' % (g,), {}))
        for r in self.recs:
            v += self.judge_one(r)
        # unsolicited informs: each delivered at most once, in order, and all while connected
        got = [int(m[3][0]) for m in self.client.seen_informs if m[1] == 'tick']
        if got != sorted(set(got)):
            v.append(('tick-order', 'unsolicited informs arrived as %r' % (got,), {}))
        for t, n in self.ticks:
            if n not in got and not any(abs(t - b) < 0.5 for b, _ in self.breaks) \
                    and not (self.stop_t is not None and abs(t - self.stop_t) < 0.01):
                v.append(('tick-lost', 'unsolicited inform %d was not delivered' % n, {}))
        return v

    def judge_one(self, r):
        v = []

        def bad(key, text):
            v.append((key, 'request %s (%s): %s' % (r.uid, r.name, text), r.brief()))
        if len(r.out) != 1:
            bad('outcomes-%s' % min(len(r.out), 2), 'resolved %d times' % len(r.out))
            return v
        if r.twin and len(r.twin_out) != 1:
            bad('twin', 'sent again while pending, the second use resolved %d times' % len(r.twin_out))
        t, out = r.out[0]
        if isinstance(out, Exception):
            if r.connected and not r.expect_refused:
                bad('raised', 'raised %r' % (out,))
            elif r.t0 is not None and r.connected is not False and not r.expect_refused:
                bad('raised', 'raised %r' % (out,))
            return v
        if out.mtype != Message.REPLY or out.name != r.name:
            bad('foreign', 'resolved with %r' % (out,))
            return v
        if r.twin:
            return v
        if r.t0 is None:
            if out.reply_ok():
                bad('never-sent', 'succeeded though the client was not started: %r' % (out,))
            return v
        # informs are exactly those sent for this request
        mine = [(ts, w) for ts, c, k, w in r.sent if k == 'inform']
        first = next(((ts, w) for ts, c, k, w in r.sent if k == 'reply'), None)
        deadline = None if r.eff is None else r.t0 + r.eff
        ends = [b for b, how in self.breaks if b >= r.t0 - 1e-9]
        if self.stop_t is not None:
            ends.append(self.stop_t)
        end = min([e for e in ends if e >= r.t0 - 1e-9] or [None], key=lambda x: x or 0)
        if r.connected is False:
            if out.reply_ok() or r.arrived:
                bad('not-connected', 'made while disconnected, but %r, arrived %r' % (out, bool(r.arrived)))
            elif t - r.t0 > EPS:
                bad('not-connected-slow', 'made while disconnected, resolved only %.3f s later' % (t - r.t0))
            return v
        if r.expect_refused:
            if out.reply_ok() or r.arrived:
                bad('id-unsupported', 'uses an id the server does not support, but %r' % (out,))
            elif t - r.t0 > EPS:
                bad('id-unsupported-slow', 'resolved only %.3f s later' % (t - r.t0))
            return v
        fail_t = min(x for x in (deadline, end, 1e12) if x is not None)
        if len(out.arguments) >= 2 and out.arguments[0] == b'ok':
            if out.arguments[1] != r.uid.encode():
                bad('leak', 'resolved with the reply to %r: %r' % (out.arguments[1], out))
                return v
            if first is None or tup(out) != first[1]:
                bad('wrong-reply', 'resolved with %r, the peer sent first %r' % (out, first))
                return v
            if t - first[0] > EPS or first[0] - t > 1e-6:
                bad('reply-time', 'reply sent at %.4f resolved it at %.4f' % (first[0], t))
            want = [w for ts, w in mine if r.sent.index(next(x for x in r.sent if x[3] is w)) <
                    r.sent.index(next(x for x in r.sent if x[3] is first[1]))]
        else:
            if out.arguments[:1] != [b'fail']:
                bad('odd-reply', 'resolved with %r' % (out,))
            if first is not None and first[0] < fail_t - 1e-6 and t >= first[0] - 1e-9:
                bad('reply-lost', 'failed with %r at %.4f although its reply was sent at %.4f' % (out, t, first[0]))
            elif t < fail_t - 1e-6:
                bad('early-fail', 'failed with %r %.4f s before the deadline or disconnection' % (out, fail_t - t))
            elif t > fail_t + 0.02:
                bad('late-fail', 'deadline or disconnection at %.4f, failed only at %.4f' % (fail_t, t))
            want = [w for ts, w in mine if ts < t - 1e-9]
        got = [tup(i) for _, i in r.informs]
        if r.informs_known:
            if any(w[3][:1] != (r.uid.encode(),) for w in got):
                bad('inform-leak', 'was given informs of another request: %r' % (got,))
            elif got != want:
                bad('informs', 'was given the informs %r, the peer sent %r' % (got, want))
            for ti, i in r.informs:
                if ti is not None and ti > t + 1e-9:
                    bad('late-inform', 'inform %r delivered after the outcome' % (i,))
        return v


PROFILES = [
    ('reorder', dict(dup=0.3, late=0.0, stray=0.3, silent=0.05, nomid=0.15, chain=False, twin=True, steps=12)),
    ('late', dict(dup=0.5, late=0.4, stray=0.2, silent=0.2, nomid=0.0, chain=True, twin=False, steps=12)),
    ('breaks', dict(dup=0.2, late=0.1, stray=0.1, silent=0.2, nomid=0.05, chain=True, twin=False, steps=10)),
    ('raising', dict(dup=0.2, late=0.1, stray=0.1, silent=0.1, nomid=0.1, chain=True, twin=True, steps=10)),
]


def scenario(ctx, key, greet, prof_name, grace=0.002):
    rng = ctx.subrng('virtual', *key)
    prof = dict(dict(PROFILES)[prof_name])
    prof['break'] = 0.4 if prof_name == 'breaks' else 0.0
    prof['raise'] = prof_name == 'raising'
    prof['reconnect'] = True
    s = Scenario(ctx, rng, greet, prof, grace)
    s.run()
    return s, s.judge()


def virtual(ctx, i):
    greet = ['5-MI', '4', '5-MI', '5-M', '5.1-MIB', '4b', '5-MI'][i % 7]
    prof = PROFILES[i % len(PROFILES)][0]
    s, v = scenario(ctx, (i,), greet, prof)
    if v:
        # the virtual clock may have outrun a starved kernel: only what persists counts
        ctx.observe('scenarios_repeated_with_longer_grace')
        s, v = scenario(ctx, (i,), greet, prof, grace=0.1)
        for key, text, data in v[:3]:
            ctx.violation(key, '%s/%s scenario %d: %s' % (greet, prof, i, text), **data)
    for r in s.recs:
        out = r.out[0][1] if r.out else None
        ok = isinstance(out, Message) and out.reply_ok()
        ctx.observe('oracle_evaluations')
        ctx.observe('requests_%s' % ('replied' if ok else 'failed'))
        ctx.observe('informs_matched', len(r.informs))
    ctx.observe('virtual_scenarios')
    ctx.observe('connections', len(s.server.conns))
    ctx.observe('clock_jumps', s.clock.jumps)
    order = tuple((r.name, r.arrived and r.arrived[2], len(r.sent), bool(r.out and isinstance(r.out[0][1], Message) and r.out[0][1].reply_ok()))
                  for r in s.recs)
    ctx.case(('virtual', greet, prof, order))
    ctx.sample({'greet': greet, 'profile': prof, 'requests': [r.brief() for r in s.recs[:3]]})


# -- unsent output: the peer stops reading --------------------------------------------------
def overflow(ctx, i):
    rng = ctx.subrng('overflow', i)
    clock = vloop.Clock(start=100.0, grace=0.01)
    loop = vloop.VLoop(clock=clock)
    loop.make_current()
    out = {}
    held = []

    def on_request(conn, m):
        held.append((conn, m))
    srv = adv.AdvServer(loop, adv.GREETS['5-MI'], on_request)
    cl = TestClient(*srv.addr, timeout=1000.0)
    cl.setup(loop)
    cl.set_ioloop(loop)
    cl.MAX_WRITE_BUFFER_SIZE = 1 << 20
    problems = []

    @tornado.gen.coroutine
    def drive():
        srv.up()
        cl.start()
        yield cl.until_protocol(timeout=30)
        yield tornado.gen.sleep(0.1)
        conn = srv.current()
        conn.pause()
        n = 0
        while cl.is_connected() and n < 400:
            uid = 'o%d' % n
            out[uid] = []
            try:
                f = cl.future_request(Message.request('alpha', uid, b'x' * rng.choice([10, 60000, 100000])))
            except Exception as e:
                out[uid].append(e)
            else:
                f.add_done_callback(lambda f, uid=uid: out[uid].append(f.exception() or f.result()))
            n += 1
            yield tornado.gen.sleep(0.01)
        if cl.is_connected():
            problems.append('still connected after %d unread requests' % n)
        yield tornado.gen.sleep(0.05)
        left = [u for u, o in out.items() if len(o) != 1]
        if left:
            problems.append('requests %r resolved %r times after the connection failed' % (
                left[:4], [len(out[u]) for u in left[:4]]))
        okd = [u for u, o in out.items() if o and not isinstance(o[0], Exception) and o[0][0].reply_ok()]
        if okd:
            problems.append('requests %r succeeded without an answer' % okd[:4])
        yield cl.until_connected(timeout=30)
        del held[:]
        f = cl.future_request(Message.request('beta', 'again'))
        yield tornado.gen.sleep(0.1)
        if not held:
            problems.append('after reconnection a request does not arrive')
        elif held[0][1][3][0] != b'again':
            problems.append('the new connection received %r' % (held[0][1],))
        else:
            c, m = held[0]
            c.say(wire.encode('reply', 'beta', m[2], [b'ok', b'again']))
            r = yield f
            if r[0].arguments != [b'ok', b'again'] or r[1]:
                problems.append('after reconnection resolved with %r' % (r,))
        cl.stop()
        yield cl.until_stopped(timeout=30)
        yield tornado.gen.sleep(0.1)

    f = []

    def go():
        f.append(drive())
        f[0].add_done_callback(lambda _: loop.stop())
    loop.add_callback(go)
    loop.start()
    srv.finish()
    loop.clear_current()
    loop.close()
    try:
        f[0].result()
    except Exception as e:
        problems.append('scenario failed: %r' % (e,))
    for p in problems:
        ctx.violation('overflow', p, scenario=i)
    ctx.case(('overflow', len(out)))
    ctx.observe('overflow_requests', len(out))


# -- blocking clients of real threads ---------------------------------------------------------
def threaded(ctx, i):
    rng = ctx.subrng('threads', i)
    greet = ['5-MI', '4'][i % 2]
    ids = adv.HAS_IDS[greet]
    loop = tornado.ioloop.IOLoop(make_current=False)
    ready = threading.Event()
    prof = dict(dup=0.3, stray=0.2, late=0.0)

    def plan(s, conn, rec, mid):
        r = s.rng
        if rec.silent:
            return
        if not ids:
            return fast_midless(s, conn, rec, mid)
        ninf = r.choice([0, 1, 3])
        extra = ['reply'] if r.random() < 0.3 else []
        answer(s, conn, rec, mid, [r.choice([0, 0, 0.001, 0.005, 0.02]) for _ in range(ninf + 1 + len(extra))],
               ninf, extra, b'\n')

    def fast_midless(s, conn, rec, mid):
        r = s.rng
        now = s.loop.time()
        key = (conn.idx, rec.name)
        q = s.fifo.setdefault(key, [])
        body = [('inform', [b'x'])] * r.choice([0, 1, 3]) + [('reply', [])]
        q.append((rec, body))
        if len(q) == 1:
            s.at(r.choice([0, 0.002]), pump, s, conn, key)

    def pump(s, conn, key):
        q = s.fifo[key]
        rec, body = q[0]
        for kind, args in body:
            s.say(conn, rec, kind, None, args)
        q.pop(0)
        if q:
            s.at(s.rng.choice([0, 0.002]), pump, s, conn, key)

    script = Script(ctx.subrng('threads-script', i), loop, greet, plan)

    def serve():
        loop.make_current()
        script.server.up()
        loop.add_callback(ready.set)
        loop.start()
    th = threading.Thread(target=serve)
    th.daemon = True
    th.start()
    ready.wait(common.STALL)
    cls = [BlockingClient, CallbackClient][i // 2 % 2]
    cl = cls(*script.server.addr, timeout=common.STALL)
    cl.start(timeout=common.STALL)
    if not cl.wait_protocol(common.STALL):
        ctx.violation('no-protocol', 'client never got the protocol announcement')
    nthreads, per = 5, ctx.scale(30, 60)
    for t in range(nthreads):
        for k in range(per + 1):
            uid = 't%dk%d' % (t, k)
            rec = Rec(uid, NAMES[(t + k) % 3] if ids else NAMES[k % 3])
            rec.silent = ids and k % 13 == 5
            if k == per:
                rec.silent = True
                if not ids:
                    rec.name = 'solo-%d' % t
            script.recs[uid] = rec
    results = {}
    seeds = [rng.random() for _ in range(nthreads)]

    def work(t):
        import random
        r = random.Random(seeds[t])
        for k in range(per):
            uid = 't%dk%d' % (t, k)
            rec = script.recs[uid]
            m = Message.request(rec.name, uid, blob(r))
            t0 = time.monotonic()
            try:
                if k % 9 == 7 and not rec.silent:
                    res = request_check(cl, ValueError, rec.name, uid)
                else:
                    res = cl.blocking_request(m, timeout=0.05 if rec.silent else None)
            except Exception as e:
                res = e
            results[uid] = (time.monotonic() - t0, res)
        # left hanging until the client stops
        uid = 't%dk%d' % (t, per)
        try:
            res = cl.blocking_request(Message.request(script.recs[uid].name, uid), timeout=common.STALL * 3)
        except Exception as e:
            res = e
        results[uid] = (0, res)
    workers = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
    for w in workers:
        w.daemon = True
        w.start()
    last = ['t%dk%d' % (t, per) for t in range(nthreads)]
    common.wait_until(lambda: all(script.recs[u].arrived for u in last), common.STALL * 3)
    t0 = time.monotonic()
    if i % 3 == 2:
        loop.add_callback(script.server.drop)
    else:
        cl.stop(timeout=common.STALL)
    for w in workers:
        w.join(common.STALL)
    stuck = [w for w in workers if w.is_alive()]
    ctx.expect(not stuck, 'stuck', '%d threads are still waiting %.0f s after the %s' % (
        len(stuck), time.monotonic() - t0, 'connection closed' if i % 3 == 2 else 'client stopped'))
    if i % 3 == 2:
        cl.stop(timeout=common.STALL)
    cl.join(common.STALL)
    loop.add_callback(script.server.finish)
    loop.add_callback(loop.stop)
    th.join(common.STALL)
    for uid, (dt, res) in sorted(results.items()):
        rec = script.recs[uid]
        ctx.observe('oracle_evaluations')
        ctx.observe('blocking_requests')
        final = uid in last
        if isinstance(res, Exception):
            if not final:
                ctx.violation('blocking-raised', 'request %s raised %r' % (uid, res))
            else:
                ctx.violation('blocking-raised', 'request %s, pending when the %s, raised %r' % (
                    uid, 'connection closed' if i % 3 == 2 else 'client stopped', res))
            continue
        reply, informs = res
        if rec.silent:
            if reply.arguments[:1] != [b'fail']:
                ctx.violation('blocking-unanswered', 'unanswered request %s resolved with %r' % (uid, reply))
            continue
        want = [w for _, _, k, w in rec.sent]
        idx = next((j for j, w in enumerate(want) if w[0] == 'reply'), None)
        if idx is None or tup(reply) != want[idx] or [tup(x) for x in informs] != want[:idx]:
            ctx.violation('blocking-reply', 'request %s resolved with %r and informs %r; the peer sent %r' % (
                uid, reply, informs, want))
    for m in script.unknown:
        ctx.violation('request-garbled', 'the peer received %r' % (m,))
    arr = tuple(u for u, r in sorted(script.recs.items(), key=lambda x: x[1].arrived[0] if x[1].arrived else 0))
    ctx.case(('threads', greet, arr))


def run(ctx):
    ctx.rule = ('a virtual scenario is non-trivial and distinct by the sequence of (request name, id used, messages sent '
                'for it, outcome); a threaded one by the arrival order of the requests at the peer')
    ctx.assumptions = [
        'without message ids the peer answers requests of one name in order and never late (the protocol cannot tell them apart)',
        'replies that leave in the same instant as the connection ends may be lost with it',
        'a reply is due at the virtual instant the peer sent it; suspicious runs are repeated with a longer grace for the kernel']
    i = 0
    while ctx.more(i, 56, 600, quick_s=75, thorough_s=500):
        virtual(ctx, i)
        i += 1
    for k in range(ctx.scale(2, 8)):
        overflow(ctx, k)
    for k in range(ctx.scale(4, 24)):
        with perturb.Perturb(ctx, ctx.subrng('p', k), on=k % 2 == 1):
            threaded(ctx, k)
