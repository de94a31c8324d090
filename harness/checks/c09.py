"""C09: a client tracks its connection and reconnects by itself.

A real client on a virtual-time loop is driven through random outages of a scripted peer (refused,
accepted and dropped, reset, silent, contradictory announcements, client-side disconnects, raising
notification callbacks).  Monitors: the notification trace, the events and is_connected() at every
notification and quiescent point, the connections the peer saw and which lines came in on which.
"""
import threading

import tornado.gen

from katcp import AsyncClient, DeviceClient, Message
from katcp.client import KatcpClientDisconnected
from katcp.core import ProtocolFlags

from .. import common, vloop
from . import adv, wire

DELAY = 0.5


def monitored(base):
    class Client(base):
        def prepare(self, rng, raise_p, hook):
            self.trace = []
            self.mism = []
            self.rng_, self.raise_p, self.hook = rng, raise_p, hook
            self.sent_no = 0

        def notify_connected(self, connected):
            self.trace.append((self.ioloop.time(), connected))
            if bool(self.is_connected()) != bool(connected):
                self.mism.append('notify_connected(%r) while is_connected() is %r' % (
                    connected, self.is_connected()))
            self.hook(connected)
            if self.rng_.random() < self.raise_p:
                raise RuntimeError('notification callback of a scenario raises')

        def generation(self):
            return sum(1 for _, c in self.trace if c)
    return Client


class Scenario(object):
    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=2000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.greet = rng.choice(['5-MI', '5-MI', '4', '5-M', '5.1-MIB', 'none'])
        self.current_greet = self.greet
        self.server = adv.AdvServer(self.loop, self.announce, self.on_request)
        self.base = rng.choice([AsyncClient, DeviceClient])
        self.reconnect = rng.random() < 0.8
        self.client = monitored(self.base)(*self.server.addr, auto_reconnect=self.reconnect)
        self.client.prepare(rng, rng.choice([0, 0, 0, 0.3]), self.hook)
        self.client.auto_reconnect_delay = DELAY
        self.client.set_ioloop(self.loop)
        self.preset = rng.random() < 0.25
        if self.preset:
            self.client.preset_protocol_flags(ProtocolFlags(5, 0, [b'M', b'I']))
        self.problems = []
        self.steps = []
        self.arrived = []         # (conn idx, uid)
        self.issued = {}          # uid -> (generation, connected)
        self.n = 0
        self.contradicted = False
        self.announced = False    # any announcement so far in this run
        self.stopped = False
        self.expect_dead = False
        self.hook_actions = rng.choice([0, 0, 0.2])
        if not self.reconnect:          # those would end it at any time
            self.hook_actions = self.client.raise_p = 0
        self.checks = 0
        self.recovered = 0
        self.slow_announce = rng.random() < 0.4

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- peer -------------------------------------------------------------------
    def announce(self, conn):
        lines = adv.GREETS[self.current_greet]
        if self.slow_announce and lines:
            self.loop.call_later(self.rng.choice([0.05, 0.3]), self.say_all, conn, lines)
            return []
        if lines:
            self.announced = True
        return lines

    def say_all(self, conn, lines):
        if conn.open:
            self.announced = True
            for l in lines:
                conn.say(l)

    def on_request(self, conn, m):
        mtype, name, mid, args = m
        uid = args[0].decode('ascii', 'replace') if args else '?'
        self.arrived.append((conn.idx, uid))
        if name == 'ask':
            conn.say(wire.encode('reply', name, mid, [b'ok', uid.encode()]))

    # -- client -----------------------------------------------------------------
    def hook(self, connected):
        """Sends and disconnects from inside a notification."""
        if self.rng.random() < self.hook_actions:
            what = self.rng.choice(['send', 'disconnect', 'send'])
            if what == 'send':
                self.send()
            else:
                self.client.disconnect()

    def send(self, size=0):
        self.n += 1
        uid = 'q%d' % self.n
        conn_now = self.client.is_connected()
        self.issued[uid] = (self.client.generation(), conn_now)
        try:
            self.client.send_message(Message.request('note', uid, b'y' * size))
        except KatcpClientDisconnected:
            if conn_now:
                self.bad('send-refused', 'sending %s raised although the client is connected' % uid)
            self.issued[uid] = (None, False)
        except Exception as e:
            self.bad('send-raised', 'sending %s raised %r' % (uid, e))
        else:
            if not conn_now:
                self.bad('send-swallowed', 'sending %s while disconnected did not fail' % uid)

    @tornado.gen.coroutine
    def works(self):
        """A request on the present connection is answered."""
        self.n += 1
        uid = 'q%d' % self.n
        self.issued[uid] = (self.client.generation(), True)
        if self.base is AsyncClient:
            f = self.client.future_request(Message.request('ask', uid), timeout=2.0)
            reply, _ = yield f
            raise tornado.gen.Return(reply.arguments == [b'ok', uid.encode()])
        self.client.request(Message.request('ask', uid))
        yield tornado.gen.sleep(0.05)
        raise tornado.gen.Return(any(u == uid for _, u in self.arrived))

    def pause(self, *choices):
        return tornado.gen.sleep(self.rng.choice(choices) + 0.0013)

    def quiescent(self, where):
        """State, notifications and the peer's view agree."""
        self.checks += 1
        open_ = [c for c in self.server.conns if c.open]
        conn = bool(self.client.is_connected())
        last = self.client.trace[-1][1] if self.client.trace else False
        if conn != last:
            self.bad('state-notified', '%s: is_connected() is %r, last notification was %r' % (where, conn, last))
        if conn and len(open_) != 1:
            self.bad('connections', '%s: client connected, the peer sees %d open connections' % (where, len(open_)))
        if not conn and open_:
            self.bad('connections', '%s: client not connected, the peer sees %d open connections' % (where, len(open_)))
        return conn

    @tornado.gen.coroutine
    def checkpoint(self, where):
        """The server is up and well-behaved from now on."""
        self.server.accept_mode = 'normal'
        self.server.up()
        raise_p, self.client.raise_p = self.client.raise_p, 0
        acts, self.hook_actions = self.hook_actions, 0
        yield tornado.gen.sleep(3 * DELAY + 1.5)
        conn = self.quiescent(where)
        should = not self.expect_dead and not self.stopped
        if should and not conn:
            self.bad('not-reconnected', '%s: not connected %.1f s after the server came back' % (where, 3 * DELAY + 1.5))
        if conn and self.expect_dead:
            self.bad('reconnected', '%s: connected again although it should not reconnect' % where)
        if conn:
            ok = yield self.works()
            if not ok:
                self.bad('unusable', '%s: connected but a request is not answered' % where)
            else:
                self.recovered += 1
            w = self.client.until_connected(timeout=1)
            try:
                yield w
            except Exception as e:
                self.bad('until-connected', '%s: until_connected() failed with %r while connected' % (where, e))
        self.client.raise_p, self.hook_actions = raise_p, acts

    @tornado.gen.coroutine
    def watch_protocol(self):
        """until_protocol resolves only after an announcement (or preset)."""
        yield self.client.until_protocol()
        if not (self.announced or self.preset):
            self.bad('protocol-early', 'until_protocol() resolved before any announcement')
        elif self.client.protocol_flags is None:
            self.bad('protocol-none', 'until_protocol() resolved without protocol flags')
        else:
            major = 5 if self.preset else int(self.greet[0])
            if self.client.protocol_flags.major != major:
                self.bad('protocol-flags', 'protocol %s after the announcement %s' % (self.client.protocol_flags, self.greet))

    @tornado.gen.coroutine
    def drive(self):
        yield self.one_run()
        if not self.contradicted and self.rng.random() < 0.5:
            # a second run starts without knowing anything of the first
            self.steps.append('restart')
            self.stopped = self.expect_dead = self.announced = False
            self.greet = self.current_greet = self.rng.choice(['5-MI', '4', '5-M', '5.1-MIB'])
            self.server.down()
            self.server.accept_mode = 'normal'
            yield tornado.gen.sleep(0.1)
            yield self.one_run()

    @tornado.gen.coroutine
    def one_run(self):
        rng, s, c = self.rng, self.server, self.client
        start_down = rng.random() < 0.4
        if not start_down:
            s.up()
        if not self.reconnect and start_down:
            s.up()
            start_down = False
        c.start()
        proto = self.watch_protocol()
        if start_down:
            yield self.pause(0.2, 1.3, 4.0)
            self.quiescent('while refused')
            s.accept_mode = rng.choice(['normal', 'slam'])
            s.up()
            yield self.pause(0.6, 2.2)
        yield self.checkpoint('start')
        for step in range(10):
            what = rng.choice(['refuse', 'blink', 'slam', 'rst', 'client', 'client-twice', 'silent', 'full',
                               'contradict', 'repeat', 'garbage', 'flap', 'junk-announce'])
            if what == 'contradict' and rng.random() < 0.6:
                what = 'blink'
            self.steps.append(what)
            lost = True
            gen0 = c.generation()
            was = c.is_connected()
            for _ in range(rng.randrange(3)):
                self.send()
            if what == 'refuse':
                s.down(rst=rng.random() < 0.5)
                yield self.pause(0.05, 0.3, 0.9, 3.2, 12.6, 45.0)
                self.quiescent('while refused')
                for _ in range(rng.randrange(3)):
                    self.send()
            elif what == 'blink':
                s.drop()
            elif what == 'slam':
                s.accept_mode = 'slam'
                s.drop()
                yield self.pause(0.6, 1.7, 3.1)
            elif what == 'rst':
                s.drop(rst=True)
            elif what == 'client':
                c.disconnect()
            elif what == 'client-twice':
                c.disconnect()
                c.disconnect()
                yield self.pause(0.0, 0.1)
                c.disconnect()
            elif what == 'silent':
                keep, self.current_greet = self.current_greet, 'none'
                s.drop()
                yield self.pause(0.7, 1.4)
                self.current_greet = keep
                lost = True
            elif what == 'full':
                # unread output must not show up on the next connection
                conn = s.current()
                if conn is not None:
                    conn.pause()
                    for _ in range(8):
                        self.send(size=300000)
                    yield self.pause(0.01)
                    for _ in range(3):
                        self.send(size=300000)
                    conn.close(rst=rng.random() < 0.5)
            elif what == 'flap':
                lost = False
                for _ in range(rng.randrange(2, 6)):
                    act = rng.choice([s.down, s.up, s.drop, c.disconnect])
                    act()
                    lost = lost or act != s.up
                    yield self.pause(0.0, 0.1, 0.4, 0.7)
                s.up()
            elif what == 'repeat':
                lost = False
                conn = s.current()
                if conn is not None and self.greet != 'none':
                    self.say_all(conn, adv.GREETS[self.greet])
            elif what == 'garbage':
                lost = False
                conn = s.current()
                if conn is not None:
                    conn.say(b'\xff\xfe not katcp')
                    conn.say(b'#note \xff\xfe')
                    conn.say(b'!note[77] \xe9')
                    conn.say(b'?ask[9] hello')
            elif what == 'junk-announce':
                lost = False
                conn = s.current()
                if conn is not None:
                    conn.say(rng.choice([b'#version-connect', b'#version-connect katcp-protocol',
                                         b'#version-connect \xff x', b'#version-connect other 1 2 3']))
            elif what == 'contradict':
                conn = s.current()
                others = [b'#version-connect katcp-protocol 6.0-MI', b'#version-connect katcp-protocol 6.0-MI \xff\xfe']
                if self.greet != '4':
                    others.append(b'#build-state caf\xe9-1.0')
                other = rng.choice(others)
                if conn is None or not was or (self.greet == 'none' and not self.preset):
                    lost = False
                else:
                    conn.say(other)
                    if self.preset:
                        lost = False
                        yield self.pause(0.1)
                        if not c.is_connected():
                            self.bad('preset-disconnect', 'disconnected by an announcement although the protocol is preset')
                    elif self.announced:
                        self.expect_dead = True
                        self.contradicted = True
                        yield self.pause(0.1)
                        if c.is_connected():
                            self.bad('contradiction', 'still connected after a contradictory protocol announcement')
            if lost and not self.reconnect and was:
                self.expect_dead = True
            yield self.pause(0.0, 0.02, 0.7, 1.1)
            if rng.random() < 0.5 or step == 9:
                yield self.checkpoint('%s after %s' % (step, '+'.join(self.steps[-3:])))
            if not lost and was and c.generation() != gen0 and not (self.hook_actions or c.raise_p) \
                    and what in ('repeat', 'garbage', 'junk-announce'):
                self.bad('dropped', 'the connection was dropped by %s' % what)
            if self.expect_dead:
                break
        yield self.checkpoint('end')
        if self.expect_dead and c.running():
            n = len(s.connects)
            yield tornado.gen.sleep(5)
            if len(s.connects) != n:
                self.bad('reconnected', 'connects again although it should not')
        if not self.expect_dead:
            c.stop()
        self.stopped = True
        if self.reconnect:
            self.ctx.observe('stops_while_%s' % ('connected' if c.is_connected() else 'disconnected'))
        n = len(s.connects)
        yield c.until_stopped(timeout=10)
        yield tornado.gen.sleep(0.2)
        self.quiescent('stopped')
        if c.is_connected():
            self.bad('connected-stopped', 'is_connected() after stop')
        yield tornado.gen.sleep(3)
        if len(s.connects) != n:
            self.bad('reconnected', 'connects again after it was stopped')
        if not proto.done() and self.announced and not self.contradicted:
            self.bad('protocol-never', 'until_protocol() did not resolve although the version was announced')

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(100, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.server.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        else:
            try:
                fut[0].result()
            except Exception as e:
                self.bad('step-failed', 'scenario step failed after %s: %r' % (self.steps[-3:], e))
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        # -- offline checks ----------------------------------------------------
        for m in self.client.mism:
            self.bad('notify-state', m)
        want = True
        for t, c in self.client.trace:
            if bool(c) != want:
                self.bad('alternate', 'notifications do not alternate: %r' % ([x for _, x in self.client.trace],))
                break
            want = not want
        # a line arrives on the connection it was sent on
        seen = {}
        for idx, uid in self.arrived:
            seen[uid] = seen.get(uid, 0) + 1
            if uid not in self.issued:
                self.bad('foreign-line', 'the peer received a request %r that was never made' % uid)
                continue
            gen, conn = self.issued[uid]
            if not conn:
                self.bad('old-output', 'request %s, made while disconnected, arrived on connection %d' % (uid, idx))
            seen.setdefault(('gen', gen), set()).add(idx)
        for k, v in list(seen.items()):
            if isinstance(k, tuple):
                if len(v) > 1:
                    self.bad('old-output', 'requests of connection generation %s arrived on connections %r' % (k[1], sorted(v)))
            elif v > 1:
                self.bad('twice', 'request %s arrived %d times' % (k, v))
        gens = sorted((k[1], max(v)) for k, v in seen.items() if isinstance(k, tuple) and k[1] is not None)
        if [b for _, b in gens] != sorted(set(b for _, b in gens)):
            self.bad('old-output', 'requests of different connections arrived on the same one: %r' % gens)
        for g in self.server.garbage:
            self.bad('garbled', 'the peer received a malformed line %r' % (g[:60],))
        return self.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by its sequence of disturbances and the notification trace it produced'
    ctx.assumptions = [
        'the protocol version is detected once per run (kept across reconnections)',
        'a contradictory announcement ends an auto-detecting client: it disconnects and does not reconnect',
        'suspicious runs are repeated with a longer grace for the kernel before they count']
    i = 0
    while ctx.more(i, 70, 900, quick_s=75, thorough_s=560):
        s = Scenario(ctx, ctx.subrng('s', i), i, 0.002)
        v = s.run()
        if v:
            ctx.observe('scenarios_repeated_with_longer_grace')
            s = Scenario(ctx, ctx.subrng('s', i), i, 0.1)
            v = s.run()
            for key, text in v[:3]:
                ctx.violation(key, '%s%s scenario %d: %s' % (s.base.__name__, '' if s.reconnect else ' (no reconnect)', i, text),
                              steps=s.steps, trace=s.client.trace, greet=s.greet)
        ctx.observe('notifications', len(s.client.trace))
        ctx.observe('quiescent_points', s.checks)
        ctx.observe('recoveries', s.recovered)
        ctx.observe('connections_seen_by_peer', len(s.server.connects))
        ctx.observe('requests_sent', len(s.issued))
        ctx.observe('requests_arrived', len(s.arrived))
        ctx.observe('oracle_evaluations', s.checks + len(s.client.trace) + len(s.arrived))
        ctx.case((s.base.__name__, s.reconnect, s.greet, tuple(s.steps), tuple(c for _, c in s.client.trace)))
        ctx.sample({'steps': s.steps, 'notifications': s.client.trace[:12], 'greet': s.greet})
        i += 1
