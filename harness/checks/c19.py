"""C19: servers and clients start, stop and restart cleanly at any point.

Virtual part: clients, inspecting clients and servers on a shared event loop are stopped after a
random number of loop iterations, wherever that finds them, and started again.  Threaded part: the
same for instances that own their event loop.

Monitors: the life-cycle state machine (running, connected, notifications), the peers' view of the
connections, outstanding requests (each resolved once), resources (threads, ports, sockets, event
loop handlers and timers), and whether a restarted instance works.
"""
import collections
import gc
import itertools
import logging
import os
import socket
import threading
import time

import tornado.gen
import tornado.ioloop

from katcp import AsyncClient, AsyncReply, DeviceClient, Message, Sensor
from katcp.client import BlockingClient, CallbackClient
from katcp.inspecting_client import InspectingClientAsync
from katcp.ioloop_manager import IOLoopManager

from .. import common, vloop
from . import adv, fakedev, srv, wire
from .c18 import LoopThread

STALL = common.STALL
ELSEWHERE = '127.0.0.2'


def outstanding(loop):
    """Live timers of a tornado loop."""
    return [t for t in loop._timeouts if t.callback is not None] + \
        [t for t in getattr(loop, '_new_timeouts', ()) if t.callback is not None]


class Scenario(object):
    """Something on a virtual-time loop."""

    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=7000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.problems, self.steps = [], []
        self.seen = collections.Counter()
        self.setup()

    def bad(self, key, text):
        self.problems.append((key, '%s (%s)' % (text, ' '.join(self.steps[-6:]))))

    @tornado.gen.coroutine
    def linger(self):
        """A few loop iterations, or some time."""
        r = self.rng.random()
        if r < 0.55:
            for _ in range(self.rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 20])):
                yield tornado.gen.moment
        else:
            yield tornado.gen.sleep(self.rng.choice([0, 0.0005, 0.003, 0.05, 0.4, 0.6, 3]))

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(60, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end')
        else:
            fut[0].result()
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests')
        return self.problems


class ClientScenario(Scenario):
    """A client on a shared event loop."""

    def setup(self):
        rng = self.rng
        self.greet = rng.choice(['5-MI', '5.1-MIB', '4', 'none'])
        self.peer = adv.AdvServer(self.loop, self.greeting, self.on_request)
        self.quiet = False                # the peer does not answer
        self.async_ = rng.random() < 0.75
        base = AsyncClient if self.async_ else DeviceClient
        scenario = self

        class Client(base):
            def notify_connected(self, connected):
                scenario.told(connected)
                super(Client, self).notify_connected(connected)

            def unhandled_inform(self, msg):
                if msg.name == 'die':
                    scenario.stop_client('inform')

        self.client = Client('127.0.0.1', self.peer.port, auto_reconnect=rng.random() < 0.85,
                             logger=logging.getLogger('verif.client'))
        self.client.auto_reconnect_delay = 0.5
        self.client.set_ioloop(self.loop)
        self.notes = []                   # notifications of the current run
        self.alive = False                # between start() and stopped
        self.requests = []                # [replies]
        self.stop_on = None

    def greeting(self, conn):
        lines = list(adv.GREETS[self.greet])
        if self.rng.random() < 0.1:
            lines.append(b'#die')
        return lines

    def on_request(self, conn, m):
        if not self.quiet:
            conn.say(wire.encode('reply', m[1], m[2], [b'ok'] + m[3]))

    def told(self, connected):
        self.seen['notifications'] += 1
        if not self.alive:
            self.bad('notify', 'notify_connected(%r) after the client stopped' % (connected,))
        if connected != (len(self.notes) % 2 == 0):
            self.bad('notify', 'notify_connected(%r) follows %r' % (connected, self.notes))
        self.notes.append(connected)
        if self.stop_on == connected:
            self.stop_client('notify')

    def stop_client(self, where):
        self.steps.append('stop@' + where)
        self.seen['stops_' + where] += 1
        self.stopping = True
        self.stop_on = None
        kw = {'timeout': 2.0} if self.rng.random() < 0.3 else {}
        self.client.stop(**kw)
        if self.rng.random() < 0.2:
            self.client.stop()

    def request(self):
        if not self.async_:
            return
        got = []
        try:
            if self.rng.random() < 0.5:
                self.client.callback_request(Message.request('x', 'y'), reply_cb=got.append,
                                             timeout=self.rng.choice([None, 60]))
            else:
                f = self.client.future_request(Message.request('x', 'y'), timeout=60)
                f.add_done_callback(lambda f: got.append(f.exception() or f.result()[0]))
        except Exception as e:
            got.append(e)
        self.requests.append(got)

    @tornado.gen.coroutine
    def drive(self):
        rng, c = self.rng, self.client
        if rng.random() < 0.8:
            self.peer.up()
        if rng.random() < 0.2:
            c.stop()                      # never started
            self.steps.append('stop')
        yield tornado.gen.moment
        idle_handlers = None
        for cycle in range(rng.randrange(2, 6)):
            self.notes, self.requests, self.stopping = [], [], False
            self.quiet = rng.random() < 0.5
            self.stop_on = rng.choice([None, None, None, True, False])
            self.alive = True
            self.steps.append('start')
            c.start()
            self.seen['starts'] += 1
            if rng.random() < 0.3:
                yield self.linger()
            for _ in range(rng.randrange(5)):
                if self.stopping:
                    break
                what = rng.choice(['linger', 'linger', 'request', 'request', 'drop', 'down', 'up', 'double', 'die'])
                self.steps.append(what)
                if what == 'linger':
                    yield self.linger()
                elif what == 'request':
                    self.request()
                elif what == 'drop':
                    self.peer.drop(rst=rng.random() < 0.3)
                elif what == 'down':
                    self.peer.down(drop=rng.random() < 0.7)
                elif what == 'up':
                    self.peer.up()
                elif what == 'double' and c.running():
                    try:
                        c.start()
                        self.bad('start', 'start() of a running client raised nothing')
                    except RuntimeError:
                        self.seen['double_starts_refused'] += 1
                elif what == 'die' and self.peer.current():
                    self.peer.current().say(b'#die')
                    yield self.linger()
            if not self.stopping:
                self.stop_client('top')
            elif rng.random() < 0.3:
                self.stop_client('again')
            if rng.random() < 0.3:
                yield self.linger()
            # the loop knows the client's thread only once it ran
            while c.ioloop_thread_id is None:
                yield tornado.gen.moment
            t0 = self.loop.time()
            try:
                yield c.until_stopped(timeout=30)
            except tornado.gen.TimeoutError:
                self.bad('stop', 'not stopped within 30 s')
                return
            if self.loop.time() - t0 > c.auto_reconnect_delay + 3:
                self.bad('stop', 'stopping took %.3f s' % (self.loop.time() - t0))
            self.alive = False
            # a client that gave up connecting has stopped, but runs until it is told to stop
            yield tornado.gen.sleep(0.05)
            if c.running():
                self.bad('stop', 'running() after until_stopped()')
            n_connects = len(self.peer.connects)
            if c.is_connected():
                self.bad('connection', 'is_connected() after until_stopped()')
            if self.notes and self.notes[-1]:
                self.bad('notify', 'the last notification of a stopped client is notify_connected(True)')
            if self.peer.current() is not None:
                self.bad('connection', 'a connection of the stopped client stays open')
                self.peer.drop()
            for got in self.requests:
                self.seen['requests_judged'] += 1
                if len(got) != 1:
                    self.bad('requests', 'a request outstanding at stop got %d replies' % len(got))
            yield tornado.gen.sleep(rng.choice([0.01, 3]))
            if len(self.peer.connects) != n_connects:
                self.bad('connection', 'a stopped client connects')
            self.seen['stopped_points'] += 1
            h = len(self.loop._handlers) - (1 if self.peer.listening else 0)
            if idle_handlers is None:
                idle_handlers = h
            elif h != idle_handlers:
                self.bad('resources', 'the event loop handles %d sockets after the stop, %d before' % (h, idle_handlers))
            yield tornado.gen.sleep(200)
            if outstanding(self.loop):
                self.bad('resources', '%d timers are alive 200 s after the stop' % len(outstanding(self.loop)))
        # a restarted instance works as new
        self.notes, self.requests, self.quiet, self.stop_on, self.stopping = [], [], False, None, False
        self.peer.greet = adv.GREETS[self.greet]
        self.peer.up()
        self.alive = True
        self.steps.append('last-start')
        c.start()
        try:
            yield c.until_connected(timeout=10)
            if self.greet != 'none':
                yield c.until_protocol(timeout=10)
            else:
                yield tornado.gen.sleep(0.1)
        except Exception as e:
            self.bad('restart', 'the restarted client does not connect: %r' % (e,))
            return
        if self.async_:
            reply, informs = yield c.future_request(Message.request('x', 'again'), timeout=5)
            if reply.arguments != [b'ok', b'again']:
                self.bad('restart', 'a request of the restarted client: %s' % (reply,))
        if self.notes != [True]:
            self.bad('restart', 'notifications of the restarted client: %r' % (self.notes,))
        self.seen['restarts_that_worked'] += 1
        c.stop()
        yield c.until_stopped(timeout=30)
        yield tornado.gen.sleep(0.05)

    def finish(self):
        self.peer.finish()


class InspectingScenario(Scenario):
    """An inspecting client on a shared event loop."""

    def setup(self):
        rng = self.rng
        self.dev = fakedev.FakeDevice(self.loop, rng.choice(['5-MI', '5.1-MITB', '4']),
                                      (lambda: rng.choice([0, 0, 0.3])) if rng.random() < 0.3 else None)
        for n in ('a', 'b-c'):
            self.dev.sensors[n] = fakedev.Sens('Sensor %s.' % n, '', 'integer', [])
            self.dev.values[n] = (1.0, b'nominal', b'0')
        self.dev.requests['go'] = fakedev.Req('Go.', None)
        self.failing = False
        self.dev.fault = lambda conn, name, args: \
            self.rng.choice([('fail',), ('drop', False), ('partial',)]) if self.failing and name in ('help', 'sensor-list') else None
        self.ic = InspectingClientAsync('127.0.0.1', self.dev.server.port, ioloop=self.loop,
                                        logger=logging.getLogger('verif.inspecting'))
        self.ic.katcp_client.auto_reconnect_delay = 0.5
        self.states = []
        self.cb_delay = 0
        self.ic.set_state_callback(self.on_state)
        self.stop_in_callback = False

    @tornado.gen.coroutine
    def on_state(self, state, changes):
        self.seen['states'] += 1
        self.states.append(state)
        if self.stop_in_callback and self.rng.random() < 0.5:
            self.stop_in_callback = False
            self.stop_it('callback')
        if self.cb_delay:
            yield tornado.gen.sleep(self.cb_delay)

    def stop_it(self, where):
        self.steps.append('stop@' + where)
        self.seen['stops_' + where] += 1
        self.stopping = True
        self.ic.stop(**({'timeout': 2.0} if self.rng.random() < 0.3 else {}))

    @tornado.gen.coroutine
    def drive(self):
        rng, ic, dev = self.rng, self.ic, self.dev
        if rng.random() < 0.8:
            dev.server.up()
        cycles = rng.randrange(2, 5)
        for cycle in range(cycles):
            self.stopping = False
            self.stop_in_callback = rng.random() < 0.25
            self.failing = rng.random() < 0.3
            self.cb_delay = rng.choice([0, 0, 0.002, 0.5])
            self.steps.append('start')
            n_states = len(self.states)
            f = ic.start() if rng.random() < 0.7 else ic.connect(timeout=5)
            f.add_done_callback(lambda f: f.exception())
            self.seen['starts'] += 1
            for _ in range(rng.randrange(5)):
                if self.stopping:
                    break
                what = rng.choice(['linger', 'linger', 'linger', 'drop', 'down', 'up', 'notify', 'settle'])
                self.steps.append(what)
                if what == 'linger':
                    yield self.linger()
                elif what == 'drop':
                    dev.server.drop()
                elif what == 'down':
                    dev.server.down()
                elif what == 'up':
                    dev.server.up()
                elif what == 'notify':
                    n = rng.choice(['n0', 'n1'])
                    if dev.sensors.pop(n, None) is None:
                        dev.sensors[n] = fakedev.Sens('New.', '', 'float', [])
                        dev.values[n] = (1.0, b'nominal', b'0')
                    dev.notify()
                elif what == 'settle':
                    yield tornado.gen.sleep(4)
            if not self.stopping:
                self.stop_it('top')
            if rng.random() < 0.3:
                yield self.linger()
            self.stop_in_callback = False
            while ic.katcp_client.ioloop_thread_id is None:
                yield tornado.gen.moment
            try:
                yield ic.until_stopped(timeout=30)
            except tornado.gen.TimeoutError:
                self.bad('stop', 'not stopped within 30 s')
                return
            if rng.random() < 0.6:
                # started again at once in the other cases
                yield tornado.gen.sleep(0.02)
                n_connects = len(dev.server.connects)
                if dev.server.current() is not None:
                    self.bad('connection', 'a connection of the stopped client stays open')
                    dev.server.drop()
                if ic.connected:
                    self.bad('connection', 'connected after until_stopped()')
                yield tornado.gen.sleep(1.7)         # slow state callbacks
                if self.states[n_states:] and self.states[-1].connected:
                    self.bad('state', 'the last state of a stopped client is %r' % (self.states[-1],))
                n = len(self.states)
                yield tornado.gen.sleep(150)
                if len(self.states) != n:
                    self.bad('state', 'a stopped client changes to %r' % (self.states[-1],))
                if len(dev.server.connects) != n_connects:
                    self.bad('connection', 'a stopped client connects')
                if outstanding(self.loop):
                    self.bad('resources', '%d timers are alive 150 s after the stop' % len(outstanding(self.loop)))
                self.seen['stopped_points'] += 1
        self.failing, self.cb_delay = False, 0
        dev.server.up()
        dev.announce_delay = None
        n_help, n_conn = sum(1 for l in dev.log if l[2] == 'help' and not l[4]), len(dev.server.connects)
        n_states = len(self.states)
        self.steps.append('last-start')
        f = ic.start()
        f.add_done_callback(lambda f: f.exception())
        try:
            yield ic.until_synced(timeout=60)
        except Exception as e:
            self.bad('restart', 'the restarted client does not synchronise: %r' % (e,))
            return
        yield tornado.gen.sleep(100)
        inspections = sum(1 for l in dev.log if l[2] == 'help' and not l[4]) - n_help
        connects = len(dev.server.connects) - n_conn
        # a notification left over from the previous connection may cause a second inspection
        if inspections not in (1, 2) or connects != 1:
            self.bad('restart', 'the restarted client connected %d times and inspected %d times' % (connects, inspections))
        if set(ic.sensors) != set(dev.sensors) or set(ic.requests) != set(dev.requests):
            self.bad('restart', 'the restarted client does not show its device')
        reported = [s for s in self.states[n_states:]]
        if sum(s.synced for s in reported) != inspections or not reported[-1].synced:
            self.bad('restart', 'states of the restarted client: %r' % ([tuple(s) for s in reported],))
        # still alive: it follows its device
        dev.sensors['fresh'] = fakedev.Sens('Fresh.', '', 'integer', [])
        dev.values['fresh'] = (1.0, b'nominal', b'0')
        dev.notify()
        yield tornado.gen.sleep(5)
        if 'fresh' not in ic.sensors or not ic.synced:
            self.bad('restart', 'the restarted client does not follow its device')
        inspections = sum(1 for l in dev.log if l[2] == 'help' and not l[4]) - n_help - inspections
        if inspections != 1:
            self.bad('restart', 'the restarted client inspected %d times for one change' % inspections)
        self.seen['restarts_that_worked'] += 1
        ic.stop()
        yield ic.until_stopped(timeout=30)
        yield tornado.gen.sleep(0.1)

    def finish(self):
        self.dev.server.finish()


class Peer(object):
    """Client-side connections to a server under test, on its own loop."""

    def __init__(self, loop):
        self.loop = loop

    def connect(self, addr):
        s = socket.socket()
        s.settimeout(5)
        try:
            # a socket at the server's own address could connect to itself while the port is free
            s.bind((ELSEWHERE, 0))
            s.connect(addr)
        except OSError:
            s.close()
            return None
        c = adv.Conn(self, s, 0)
        return c

    def on_line(self, conn, line):
        pass

    def on_close(self, conn):
        pass


class LifeDev(srv.Dev):
    """Records the comings and goings of clients."""

    def setup_sensors(self):
        super(LifeDev, self).setup_sensors()
        self.present = collections.Counter()
        self.connects = 0
        self.leave_delay = 0
        for n in ('s0', 's1'):
            s = Sensor.integer(n, 'Sensor %s.' % n, '', [-1000000, 1000000])
            self.add_sensor(s)

    def on_client_connect(self, conn):
        self.connects += 1
        self.present[id(conn)] += 1
        self.conns = getattr(self, 'conns', [])
        self.conns.append(conn)           # keeps the id its own
        return super(LifeDev, self).on_client_connect(conn)

    @tornado.gen.coroutine
    def on_client_disconnect(self, conn, msg, connection_valid):
        self.present[id(conn)] -= 1
        yield super(LifeDev, self).on_client_disconnect(conn, msg, connection_valid)
        if self.leave_delay:
            yield tornado.gen.sleep(self.leave_delay)

    def request_die(self, req, msg):
        """Stops the device from within a handler."""
        req.reply('ok')
        self.stopped_by_handler = self.stop(timeout=None)
        raise AsyncReply()


class ServerScenario(Scenario):
    """A server on a shared event loop."""

    def setup(self):
        rng = self.rng
        mode = rng.choice(['ioloop', 'ioloop', 'thread-safe'])
        self.s = srv.make_server(mode, cls=LifeDev, start=False)
        self.s.set_ioloop(self.loop)
        self.peer = Peer(self.loop)
        self.started_once = False
        self.spare = None

    def ask(self, c, name, mid, *args):
        c.say(wire.encode('request', name, mid, list(args)))

    @tornado.gen.coroutine
    def stopped_future(self, f, limit=30):
        t0 = self.loop.time()
        while not f.done():
            if self.loop.time() > t0 + limit:
                raise tornado.gen.Return(False)
            yield tornado.gen.sleep(0.01 if self.loop.time() < t0 + 0.05 else 0.2)
        raise tornado.gen.Return(True)

    @tornado.gen.coroutine
    def drive(self):
        rng, s = self.rng, self.s
        yield tornado.gen.moment
        base_handlers = len(self.loop._handlers)
        values = 0
        for cycle in range(rng.randrange(2, 6)):
            if self.started_once and rng.random() < 0.25:
                # the port is taken
                blocker = socket.socket()
                blocker.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                blocker.bind(s.bind_address)
                blocker.listen(1)
                try:
                    s.start()
                    self.bad('start', 'started although the port is taken')
                except OSError:
                    self.seen['starts_on_a_taken_port'] += 1
                self.steps.append('taken')
                blocker.close()
                yield self.linger()
                if s.running():
                    self.bad('start', 'running() after start() raised')
            self.steps.append('start')
            s.start()
            self.seen['starts'] += 1
            self.started_once = True
            conns = []
            s.trace = []
            s.present.clear()
            s.leave_delay = rng.choice([0, 0, 0.3, 5])
            uid = 0
            by = None
            for _ in range(rng.randrange(9)):
                what = rng.choice(['linger', 'linger', 'connect', 'connect', 'request', 'request', 'sample', 'set',
                                   'close', 'double', 'partial'])
                self.steps.append(what)
                if what == 'linger':
                    yield self.linger()
                elif what == 'connect':
                    c = self.peer.connect(s.bind_address)
                    if c is None:
                        self.bad('port', 'cannot connect to a started server')
                    else:
                        conns.append(c)
                elif what == 'set':
                    values += 1
                    s.get_sensor('s0').set_value(values)
                elif what == 'double' and s.running():
                    try:
                        s.start()
                        self.bad('start', 'start() of a running server raised nothing')
                    except RuntimeError:
                        self.seen['double_starts_refused'] += 1
                elif conns:
                    c = rng.choice(conns)
                    if what == 'request':
                        for _ in range(rng.choice([1, 1, 5])):
                            uid += 1
                            self.ask(c, rng.choice(['echo', 'fut', 'hold', 'conc', 'sync', 'async', 'watchdog']),
                                     b'%d' % uid, b'u%d.%d' % (cycle, uid))
                    elif what == 'sample':
                        uid += 1
                        self.ask(c, 'sensor-sampling', b'%d' % uid, rng.choice([b's0', b's1']),
                                 *rng.choice([[b'event'], [b'period', b'0.25'], [b'auto'], [b'event-rate', b'0.5', b'3']]))
                    elif what == 'partial':
                        c.write(b'?ec')
                    elif what == 'close':
                        c.close(rst=rng.random() < 0.3)
                        conns.remove(c)
            how = rng.choice(['stop', 'stop', 'stop', 'halt', 'die', 'twice'])
            if how in ('halt', 'die') and not conns:
                how = 'stop'
            self.steps.append('stop@' + how)
            self.seen['stops_' + how] += 1
            futs = []
            if how in ('halt', 'die'):
                # on a connection of its own, others may be stuck behind held requests
                c = self.peer.connect(s.bind_address)
                if c is None:
                    self.bad('port', 'cannot connect to a started server')
                    return
                conns.append(c)
                self.ask(c, how, b'900')
                yield tornado.gen.sleep(0.05)
                if not any(l.startswith(b'!%s[900] ok' % how.encode()) for _, l in c.lines):
                    self.bad('halt', '?%s was not answered: %r' % (how, c.lines[-2:]))
                if how == 'die':
                    futs.append(s.stopped_by_handler)
            else:
                futs.append(s.stop(timeout=None))
                if how == 'twice':
                    if rng.random() < 0.5:
                        yield self.linger()
                    futs.append(s.stop(timeout=None))
            for f in futs:
                ok = yield self.stopped_future(f)
                if not ok:
                    self.bad('stop', 'the result of stop() does not resolve')
                    return
                if f.exception():
                    self.bad('stop', 'stop() resolved with %r' % (f.exception(),))
            t0 = self.loop.time()
            while s.running() and self.loop.time() < t0 + 30:
                yield tornado.gen.sleep(0.01 if self.loop.time() < t0 + 0.05 else 0.2)
            if s.running():
                self.bad('stop', 'still running after %s' % how)
                return
            s.join(timeout=0.01)
            probe = self.peer.connect(s.bind_address)
            if probe is not None:
                self.bad('port', 'the port of a stopped server accepts connections')
                probe.close()
            yield tornado.gen.sleep(0.02)
            for c in conns:
                self.seen['connections_judged'] += 1
                if c.open:
                    self.bad('connection', 'a connection stays open after the stop')
                    c.close()
                mids = [wire.decode(l)[2] for _, l in c.lines if l[:1] == b'!']
                if len(mids) != len(set(mids)):
                    self.bad('requests', 'a request was answered twice')
            if any(n != 0 for n in s.present.values()):
                self.bad('connection', 'clients were connected/disconnected %r' % (dict(s.present),))
            # held requests finish after the stop: nothing may come of it
            for k in list(s.held):
                for fn in s.held.pop(k):
                    fn()
            s.get_sensor('s0').set_value(values)
            yield tornado.gen.sleep(rng.choice([0.01, 10]))
            h = len(self.loop._handlers)
            if h != base_handlers:
                self.bad('resources', 'the event loop handles %d sockets after the stop, %d before' % (h, base_handlers))
            self.seen['stopped_points'] += 1
            entered = collections.Counter(t[2] for t in s.trace if t[0] == 'enter')
            if any(n > 1 for n in entered.values()):
                self.bad('requests', 'a request was handled twice')
            if rng.random() < 0.3:
                f = s.stop(timeout=None)
                ok = yield self.stopped_future(f)
                if not ok:
                    self.bad('stop', 'stop() of a stopped server does not resolve')
                    return
            if rng.random() < 0.5:
                yield tornado.gen.sleep(200)
                if outstanding(self.loop):
                    self.bad('resources', '%d timers are alive 200 s after the stop' % len(outstanding(self.loop)))
        # a restarted instance works as new
        self.steps.append('last-start')
        s.leave_delay = 0
        s.start()
        yield tornado.gen.sleep(0.01)
        c = self.peer.connect(s.bind_address)
        if c is None:
            self.bad('restart', 'cannot connect to the restarted server')
            return
        self.ask(c, 'client-list', b'1')
        self.ask(c, 'sensor-sampling', b'2', b's0')
        self.ask(c, 'echo', b'3', b'new')
        values += 1
        s.get_sensor('s0').set_value(values)
        yield tornado.gen.sleep(1)
        got = [l for _, l in c.lines if not l.startswith(b'#version-connect')]
        want = [b'#client-list[1] ' + ('%s:%d' % (ELSEWHERE, c.sock.getsockname()[1])).encode(), b'!client-list[1] ok 1',
                b'!sensor-sampling[2] ok s0 none', b'!echo[3] ok new']
        if got != want:
            self.bad('restart', 'the restarted server sent %r, expected %r' % (got, want))
        self.ask(c, 'sensor-sampling', b'4', b's0', b'event')
        yield tornado.gen.sleep(0.01)
        n = len(c.lines)
        values += 1
        s.get_sensor('s0').set_value(values)
        yield tornado.gen.sleep(0.05)
        if len(c.lines) != n + 1 or not c.lines[-1][1].endswith(b' nominal %d' % values):
            self.bad('restart', 'sampling on the restarted server gave %r' % (c.lines[n:],))
        self.seen['restarts_that_worked'] += 1
        f = s.stop(timeout=None)
        yield self.stopped_future(f)
        yield tornado.gen.sleep(0.05)
        if c.open:
            self.bad('connection', 'a connection stays open after the stop')
            c.close()

    def finish(self):
        pass


def fds():
    gc.collect()
    gc.collect()
    return len(os.listdir('/proc/self/fd'))


class Threaded(object):
    """Something with threads, in real time."""

    def __init__(self, ctx, rng, i):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.problems, self.steps = [], []
        self.lock = threading.Lock()
        self.seen = collections.Counter()

    def bad(self, key, text):
        with self.lock:
            self.problems.append((key, '%s (%s)' % (text, ' '.join(self.steps[-8:]))))

    def nap(self):
        time.sleep(self.rng.choice([0, 0, 0.0005, 0.003, 0.02, 0.06]))

    def threads_end(self, before, what, limit=5):
        """The threads that came up since then are gone."""
        def left():
            return [t for t in threading.enumerate() if t not in before]
        if not common.wait_until(lambda: not left(), limit):
            self.bad('threads', 'threads after join() of %s: %r' % (what, [t.name for t in left()]))

    def run(self):
        late, delays = threading.Thread.run, itertools.cycle([0, 0.002, 0, 0.01, 0])

        def run(thread):
            # threads may take their time to get going
            time.sleep(next(delays))
            late(thread)
        if self.rng.random() < 0.5:
            self.steps.append('late-threads')
            threading.Thread.run = run
        try:
            return self.watch()
        finally:
            threading.Thread.run = late

    def watch(self):
        tornado.ioloop.IOLoop.current()   # this thread's, comes up once
        before, n_fds = set(threading.enumerate()), fds()
        try:
            self.drive()
        finally:
            self.finish()
        if not self.problems:
            self.threads_end(before, 'everything')
            if not common.wait_until(lambda: fds() <= n_fds, 3, 0.05):
                self.bad('resources', '%d file descriptors are open at the end, %d before' % (fds(), n_fds))
        return self.problems

    def finish(self):
        pass


class RawPeer(srv.RawClient):
    def __init__(self, addr, source=None):
        self._source = source
        srv.RawClient.__init__(self, addr)

    def ended(self, limit=5):
        return self.wait(lambda lines: False, 0) or self._thread.join(limit) or self.eof


class ServerThreads(Threaded):
    """A server with its own event loop thread (or one on somebody else's), stopped under load."""

    def setup(self):
        rng = self.rng
        self.mode = rng.choice(['ioloop', 'thread-safe', 'handler-thread', 'handler-thread'])
        self.s = srv.make_server(self.mode, cls=LifeDev, start=False)
        self.lt = None
        if self.mode != 'ioloop' and rng.random() < 0.25:
            self.lt = LoopThread()
            self.s.set_ioloop(self.lt.loop)
        self.steps.append(self.mode + ('-foreign-loop' if self.lt else ''))
        self.incarnation = 0
        self.entered = set()

    def peer(self):
        try:
            return RawPeer(self.s.bind_address)
        except OSError:
            return None

    def early(self, stop, peers):
        """Connects as soon as the port opens and asks for sensor updates."""
        while not stop.is_set():
            k = socket.socket()
            try:
                k.bind((ELSEWHERE, 0))
                k.settimeout(STALL)
                k.connect(self.s.bind_address)
            except OSError:
                k.close()
                continue
            peers.append(k)
            try:
                k.sendall(b'?sensor-sampling[1] s0 event\n')
            except OSError:
                pass                      # stopped again already
            break

    def early_ended(self, k):
        """Reads what an early client got: the request succeeds unless the server stops first."""
        data = b''
        try:
            while True:
                got = k.recv(65536)
                if not got:
                    break
                data += got
        except socket.timeout:
            self.bad('connection', 'an early connection stays open after the stop')
        except OSError:
            pass
        k.close()
        replies = [l for l in data.split(b'\n') if l.startswith(b'!')]
        self.seen['early_requests'] += 1
        if [r for r in replies if not r.startswith(b'!sensor-sampling[1] ok s0 event')]:
            self.bad('early', 'a client that connected while the server started got %r' % (replies,))

    def check_trace(self):
        with self.s.trace_lock:
            trace, self.s.trace = self.s.trace, []
        for what, _, uid, _ in trace:
            if what != 'enter':
                continue
            if not bytes(uid).startswith(b'u%d.' % self.incarnation):
                self.bad('requests', 'request %r was handled in run %d' % (uid, self.incarnation))
            elif uid in self.entered:
                self.bad('requests', 'request %r was handled twice' % (uid,))
            self.entered.add(uid)

    def stopper(self, futs, timeout):
        try:
            futs.append(self.s.stop(timeout=timeout))
        except Exception as e:
            self.bad('stop', 'stop() raised %r' % (e,))

    def cycle(self):
        rng, s = self.rng, self.s
        before = set(threading.enumerate())
        self.incarnation += 1
        s.stopped_by_handler = None
        if self.incarnation > 1 and rng.random() < 0.2:
            blocker = socket.socket()
            blocker.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            blocker.bind(s.bind_address)
            blocker.listen(1)
            self.steps.append('taken')
            try:
                s.start(timeout=STALL)
                self.bad('start', 'started although the port is taken')
            except OSError:
                self.seen['starts_on_a_taken_port'] += 1
            blocker.close()
            self.threads_end(before, 'a server that could not start')
            if s.running():
                self.bad('start', 'running() after start() raised')
        early_stop, early_peers, early_threads = threading.Event(), [], []
        if self.incarnation > 1 and rng.random() < 0.6:
            for _ in range(2):
                t = threading.Thread(target=self.early, args=(early_stop, early_peers))
                t.daemon = True
                t.start()
                early_threads.append(t)
            time.sleep(0.005)
        how_start = rng.choice(['timeout', 'timeout', 'wait', 'no-wait'])
        self.steps.append('start-' + how_start)
        s.start(**({'timeout': STALL} if how_start == 'timeout' else {}))
        self.seen['starts'] += 1
        if how_start == 'wait' and not s.wait_running(STALL):
            self.bad('start', 'not running %d s after start()' % STALL)
            return False
        peers, uid, updaters, stop_update = [], 0, [], threading.Event()
        if how_start != 'no-wait':
            if not s.running():
                self.bad('start', 'not running() after start(timeout)')
                return False
            if rng.random() < 0.2:
                try:
                    s.start()
                    self.bad('start', 'start() of a running server raised nothing')
                except RuntimeError:
                    self.seen['double_starts_refused'] += 1
            for _ in range(rng.randrange(4)):
                p = self.peer()
                if p is None:
                    self.bad('port', 'cannot connect to a started server')
                    return False
                peers.append(p)
            if peers and self.mode != 'ioloop' and rng.random() < 0.5:
                def update(seed=rng.random()):
                    n = 0
                    while not stop_update.wait(0.0005):
                        n += 1
                        try:
                            s.get_sensor('s0').set_value(n)
                            if n % 7 == 0:
                                s.mass_inform(Message.inform('notice', str(n)))
                        except Exception as e:
                            self.bad('sensor', 'setting a sensor while the server stops raised %r' % (e,))
                            return
                t = threading.Thread(target=update)
                t.daemon = True
                t.start()
                updaters.append(t)
            kinds = ['echo', 'sync', 'fut', 'hold', 'hold-conc', 'conc', 'async', 'sensor-value', 'client-list', 'help']
            for p in peers:
                for _ in range(rng.randrange(6)):
                    what = rng.choice(['request', 'request', 'burst', 'sample', 'partial', 'nap', 'close'])
                    self.steps.append(what)
                    if what in ('request', 'burst'):
                        for _ in range(1 if what == 'request' else rng.choice([5, 60])):
                            uid += 1
                            kind = rng.choice(kinds)
                            args = [] if kind in ('sensor-value', 'client-list', 'help') else [b'u%d.%d' % (self.incarnation, uid)]
                            p.req(kind, *args, mid=b'%d' % uid)
                    elif what == 'sample':
                        uid += 1
                        p.req('sensor-sampling', 's0', *rng.choice([('event',), ('period', '0.01'), ('auto',)]), mid=b'%d' % uid)
                    elif what == 'partial':
                        p.send(b'?ec')
                        break
                    elif what == 'nap':
                        self.nap()
                    elif what == 'close' and rng.random() < 0.4:
                        p.close(rst=rng.random() < 0.3)
                        break
            self.nap()
        s.leave_delay = rng.choice([0, 0, 0, 0.05])
        how = rng.choice(['timeout', 'timeout', 'none', 'none', 'twice', 'threads', 'halt', 'die'])
        if how_start == 'no-wait' and how in ('halt', 'die'):
            how = rng.choice(['none', 'twice', 'timeout'])
        self.steps.append('stop-' + how)
        self.seen['stops_' + how] += 1
        futs = []
        if how in ('halt', 'die'):
            p = self.peer()
            if p is None:
                self.bad('port', 'cannot connect to a started server')
                return False
            peers.append(p)
            # the handler thread may have a long queue, and is gone once the other requests are through
            p.req(how, mid=b'900')
            if p.wait_line(b'!%s[900] ' % how.encode()) is None:
                self.bad('halt', '?%s was not answered: %r' % (how, p.snapshot()[-2:]))
                return False
            if how == 'die':
                common.wait_until(lambda: s.stopped_by_handler, 5)
                futs.append(s.stopped_by_handler)
        elif how == 'threads':
            ts = [threading.Thread(target=self.stopper, args=(futs, rng.choice([None, 0.2]))) for _ in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(STALL)
        else:
            self.stopper(futs, STALL if how == 'timeout' else None)
            if how == 'twice':
                self.nap()
                self.stopper(futs, None)
        for f in futs:
            try:
                f.result(STALL)
            except Exception as e:
                self.bad('stop', 'the result of stop(): %r' % (e,))
                return False
        joined = []
        t = threading.Thread(target=lambda: (s.join(STALL), joined.append(True)))
        t.daemon = True
        t.start()
        t.join(2 * STALL)
        if not joined:
            self.bad('join', 'join() does not return')
            return False
        stop_update.set()
        early_stop.set()
        for t in updaters + early_threads:
            t.join(STALL)
        if s.running():
            self.bad('stop', 'running() after stop() and join()')
            return False
        probe = self.peer_elsewhere()
        if probe is not None:
            self.bad('port', 'the port of a stopped server accepts connections')
            probe.close()
        for k in early_peers:
            self.early_ended(k)
        for p in peers:
            self.seen['connections_judged'] += 1
            if not p.ended():
                self.bad('connection', 'a connection stays open after the stop')
            mids = collections.Counter(wire.decode(l)[2] for l in p.snapshot() if l[:1] == b'!' and b'[' in l[:40])
            if any(n > 1 for n in mids.values()):
                self.bad('requests', 'a request was answered twice')
            p.close()
        self.threads_end(before, 'the server')
        self.check_trace()
        s.held.clear()
        if any(n != 0 for n in s.present.values()):
            self.bad('connection', 'clients were connected/disconnected %r' % (dict(s.present),))
        s.present.clear()
        if rng.random() < 0.25:
            # once more
            try:
                s.stop(timeout=None).result(STALL)
            except Exception as e:
                self.bad('stop', 'stop() of a stopped server: %r' % (e,))
                return False
        self.seen['stopped_points'] += 1
        return True

    def peer_elsewhere(self):
        k = socket.socket()
        try:
            k.bind((ELSEWHERE, 0))
            k.settimeout(2)
            k.connect(self.s.bind_address)
            return k
        except OSError:
            k.close()
            return None

    def drive(self):
        self.setup()
        rng, s = self.rng, self.s
        if rng.random() < 0.2:
            try:
                s.stop(timeout=None).result(STALL)
            except Exception as e:
                self.bad('stop', 'stop() of a server that was never started: %r' % (e,))
        for _ in range(rng.randrange(2, 5)):
            if not self.cycle():
                return
        # a restarted instance works as new
        self.steps.append('last-start')
        self.incarnation += 1
        s.leave_delay = 0
        s.start(timeout=STALL)
        p = self.peer()
        if p is None or not p.barrier():
            self.bad('restart', 'the restarted server does not answer')
            return
        reply, informs = p.call('client-list')
        if [i[3] for i in informs] != [[p.name.encode()]]:
            self.bad('restart', 'the restarted server lists clients %r' % (informs,))
        reply, _ = p.call('sensor-sampling', 's0')
        if reply is None or reply[3] != [b'ok', b's0', b'none']:
            self.bad('restart', 'the restarted server samples: %r' % (reply,))
        for kind in ('sync', 'fut', 'conc'):
            uid = b'u%d.%s' % (self.incarnation, kind.encode())
            reply, _ = p.call(kind, uid)
            if reply is None or reply[3][:2] != [b'ok', uid]:
                self.bad('restart', 'the restarted server replies %r' % (reply,))
        reply, _ = p.call('sensor-sampling', 's0', 'event')
        n = len(p.snapshot())
        srv.in_loop(s, lambda: s.get_sensor('s0').set_value(999))
        ok = p.wait(lambda lines: [l for l in lines[n:] if l.endswith(b' s0 nominal 999')])
        p.barrier()
        extra = [l for l in p.snapshot()[n:] if l.startswith(b'#sensor-status')]
        if not ok or len(extra) != 1:
            self.bad('restart', 'sampling on the restarted server gave %r' % (extra,))
        self.seen['restarts_that_worked'] += 1
        s.stop(timeout=STALL).result(STALL)
        s.join(STALL)
        if not p.ended():
            self.bad('connection', 'a connection stays open after the stop')
        p.close()
        self.check_trace()

    def finish(self):
        if self.problems and self.s.running():
            self.s.stop(timeout=None)
            self.s.join(2)
        if self.lt:
            self.lt.stop()
            self.lt.loop.close(all_fds=True)


class ClientThreads(Threaded):
    """A client with its own event loop thread, stopped with requests outstanding."""

    def setup(self):
        rng = self.rng
        self.lt = LoopThread()
        self.greet = rng.choice(['5-MI', '5.1-MIB', '4'])
        self.quiet = False
        self.peer = self.lt.do(lambda: adv.AdvServer(self.lt.loop, adv.GREETS[self.greet], self.on_request))
        kind = rng.choice([DeviceClient, AsyncClient, CallbackClient, BlockingClient, BlockingClient])
        self.async_ = kind is not DeviceClient
        scenario = self

        class Client(kind):
            def notify_connected(self, connected):
                scenario.told(connected)
                super(Client, self).notify_connected(connected)

        self.auto_reconnect = rng.random() < 0.8
        self.client = Client('127.0.0.1', self.peer.port, auto_reconnect=self.auto_reconnect,
                             logger=logging.getLogger('verif.client'))
        self.client.auto_reconnect_delay = 0.02
        self.notes = []
        self.alive = False
        self.steps.append('%s/%s' % (kind.__name__, self.greet))

    def told(self, connected):
        self.seen['notifications'] += 1
        if not self.alive:
            self.bad('notify', 'notify_connected(%r) after the client stopped' % (connected,))
        if connected != (len(self.notes) % 2 == 0):
            self.bad('notify', 'notify_connected(%r) follows %r' % (connected, self.notes))
        self.notes.append(connected)

    def on_request(self, conn, m):
        if not self.quiet:
            conn.say(wire.encode('reply', m[1], m[2], [b'ok'] + m[3]))

    def submit(self, fn, got):
        try:
            self.client.ioloop.add_callback(fn)
        except RuntimeError as e:
            # it stopped by itself, having lost its connection without auto-reconnect
            got.append(e)

    def requests(self):
        """Some requests; [(kind, results)] and the threads that wait for them."""
        rng, c = self.rng, self.client
        out, threads = [], []
        for _ in range(rng.randrange(6) if self.async_ else 0):
            kind = rng.choice(['callback', 'blocking', 'blocking', 'future'])
            got, msg = [], Message.request('x', 'y')
            if kind == 'callback':
                def send(got=got, msg=msg):
                    try:
                        c.callback_request(msg, reply_cb=got.append, timeout=60)
                    except Exception as e:
                        got.append(e)
                self.submit(send, got)
            elif kind == 'future':
                def send(got=got, msg=msg):
                    try:
                        f = c.future_request(msg, timeout=60)
                        f.add_done_callback(lambda f: got.append(f.exception() or f.result()[0]))
                    except Exception as e:
                        got.append(e)
                self.submit(send, got)
            else:
                def block(got=got, msg=msg):
                    try:
                        got.append(c.blocking_request(msg, timeout=60)[0])
                    except Exception as e:
                        got.append(e)
                t = threading.Thread(target=block)
                t.daemon = True
                t.start()
                threads.append(t)
            out.append((kind, got))
        return out, threads

    def stopper(self, timeout):
        try:
            self.client.stop(timeout=timeout)
        except Exception as e:
            self.bad('stop', 'stop() raised %r' % (e,))

    def cycle(self):
        rng, c = self.rng, self.client
        before = set(threading.enumerate())
        self.notes, self.alive = [], True
        self.quiet = rng.random() < 0.6
        if rng.random() < 0.85:
            self.lt.do(self.peer.up)
        else:
            self.lt.do(self.peer.down)
        how_start = rng.choice(['timeout', 'timeout', 'wait', 'no-wait'])
        self.steps.append('start-' + how_start)
        c.start(**({'timeout': STALL} if how_start == 'timeout' else {}))
        self.seen['starts'] += 1
        if how_start == 'wait' and not c.wait_running(STALL) and (self.auto_reconnect or self.peer.listening):
            self.bad('start', 'wait_running() of a started client is not true')
        if how_start == 'wait' and not self.peer.listening and c.wait_connected(0.02):
            self.bad('start', 'wait_connected() is true although nothing listens')
        requests, waiting, lossy = [], [], not (self.peer.listening or self.auto_reconnect)
        if how_start != 'no-wait' and c.running():
            if rng.random() < 0.2:
                try:
                    c.start()
                    self.bad('start', 'start() of a running client raised nothing')
                except RuntimeError:
                    self.seen['double_starts_refused'] += 1
            if rng.random() < 0.6 and self.peer.listening:
                if not c.wait_connected(STALL):
                    self.bad('start', 'not connected %d s after the start' % STALL)
            for _ in range(rng.randrange(3)):
                what = rng.choice(['nap', 'requests', 'requests', 'drop', 'down', 'up'])
                self.steps.append(what)
                if what in ('drop', 'down'):
                    lossy = lossy or not self.auto_reconnect
                if what == 'nap':
                    self.nap()
                elif what == 'requests':
                    if lossy:
                        continue          # it stops by itself
                    r, w = self.requests()
                    requests.extend(r)
                    waiting.extend(w)
                elif what == 'drop':
                    self.lt.do(self.peer.drop)
                elif what == 'down':
                    self.lt.do(self.peer.down)
                elif what == 'up':
                    self.lt.do(self.peer.up)
            if waiting:
                # these requests are made before the stop
                time.sleep(0.1)
        how = rng.choice(['timeout', 'none', 'none', 'twice', 'threads'])
        self.steps.append('stop-' + how)
        self.seen['stops_' + how] += 1
        if how == 'threads':
            ts = [threading.Thread(target=self.stopper, args=(rng.choice([None, 0.2]),)) for _ in range(3)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(STALL)
        else:
            self.stopper(2 if how == 'timeout' else None)
            if how == 'twice':
                self.nap()
                self.stopper(None)
        joined = []
        t = threading.Thread(target=lambda: (c.join(STALL), joined.append(True)))
        t.daemon = True
        t.start()
        t.join(2 * STALL)
        if not joined:
            self.bad('join', 'join() does not return')
            return False
        for t in waiting:
            t.join(STALL)
        self.alive = False
        self.threads_end(before, 'the client')
        if c.running():
            self.bad('stop', 'running() after stop() and join()')
            return False
        if c.is_connected():
            self.bad('connection', 'is_connected() after stop() and join()')
        if self.notes and self.notes[-1]:
            self.bad('notify', 'the last notification of a stopped client is notify_connected(True)')
        if not common.wait_until(lambda: self.lt.do(self.peer.current) is None, 5):
            self.bad('connection', 'a connection of the stopped client stays open')
        for kind, got in requests:
            self.seen['requests_judged'] += 1
            if len(got) != 1:
                self.bad('requests', 'a %s request outstanding at stop got %d replies' % (kind, len(got)))
        if rng.random() < 0.2:
            # once more
            try:
                c.stop()
            except Exception as e:
                self.bad('stop', 'stop() of a stopped client raised %r' % (e,))
        self.seen['stopped_points'] += 1
        return True

    def drive(self):
        self.setup()
        rng, c = self.rng, self.client
        for _ in range(rng.randrange(2, 5)):
            if not self.cycle():
                return
        self.steps.append('last-start')
        self.notes, self.quiet, self.alive = [], False, True
        self.lt.do(self.peer.up)
        c.start(timeout=STALL)
        if not c.wait_protocol(STALL):
            self.bad('restart', 'the restarted client does not connect')
            return
        if self.async_:
            reply, _ = c.blocking_request(Message.request('x', 'again'), timeout=STALL)
            if reply.arguments != [b'ok', b'again']:
                self.bad('restart', 'a request of the restarted client: %s' % (reply,))
        if self.notes != [True]:
            self.bad('restart', 'notifications of the restarted client: %r' % (self.notes,))
        self.seen['restarts_that_worked'] += 1
        c.stop(timeout=STALL)
        c.join(STALL)
        self.alive = False

    def finish(self):
        if self.problems and self.client.running():
            self.client.stop()
            self.client.join(2)
        self.lt.do(self.peer.finish)
        self.lt.stop()
        self.lt.loop.close(all_fds=True)


class ManagerThreads(Threaded):
    """The event loop manager on its own."""

    def drive(self):
        rng = self.rng
        m = IOLoopManager(managed_default=True)
        for cycle in range(rng.randrange(3, 8)):
            before = set(threading.enumerate())
            loop = m.get_ioloop()
            ran, calls, late = [], [], []
            loop.add_callback(ran.append, True)
            wait = rng.random() < 0.6
            self.steps.append('start-wait' if wait else 'start')
            up = m.start(timeout=STALL if wait else None)
            self.seen['starts'] += 1
            if wait and not up:
                self.bad('start', 'start(timeout) of an event loop says %r' % (up,))
            if rng.random() < 0.2:
                try:
                    m.start()
                    self.bad('start', 'an event loop was started twice')
                except RuntimeError:
                    self.seen['double_starts_refused'] += 1
            n = rng.choice([1, 1, 2, 3])
            slow = rng.choice([0, 0, 0.01])
            futs = []

            def callback(k):
                calls.append((k, threading.current_thread()))
                loop.add_callback(late.append, True)
                if slow:
                    return tornado.gen.sleep(slow)
                if k == 1:
                    raise ValueError('stop callback')

            def stop(k):
                try:
                    futs.append(m.stop(timeout=self.timeout, callback=lambda: callback(k)))
                except Exception as e:
                    self.bad('stop', 'stop() raised %r' % (e,))
            # (a stop() that comes too late waits in vain for the event loop to start)
            self.timeout = rng.choice([None, STALL if n == 1 else 0.2])
            ts = [threading.Thread(target=stop, args=(k,)) for k in range(n)]
            self.steps.append('stop*%d' % n)
            self.seen['stops'] += n
            for t in ts:
                t.start()
                if rng.random() < 0.3:
                    self.nap()
            for t in ts:
                t.join(STALL)
            if len(futs) != n:
                self.bad('stop', 'stop() does not return')
                return
            for f in futs:
                try:
                    f.result(STALL)
                except Exception as e:
                    self.bad('stop', 'the result of stop(): %r' % (e,))
                    return
            m.join(STALL)
            self.threads_end(before, 'the event loop')
            self.seen['stopped_points'] += 1
            counts = collections.Counter(k for k, _ in calls)
            if 0 not in counts and n == 1:
                self.bad('stop', 'the stop callback was not called')
            if n == 1 and calls and not late:
                self.bad('stop', 'what the stop callback had scheduled did not run before the event loop ended')
            if any(v > 1 for v in counts.values()):
                self.bad('stop', 'a stop callback was called %r times' % (counts,))
            if not ran:
                self.bad('start', 'a callback added before the start did not run')
            if rng.random() < 0.3:
                try:
                    m.stop().result(STALL)
                except Exception as e:
                    self.bad('stop', 'stop() of an ended event loop: %r' % (e,))


VIRTUAL = [ClientScenario, InspectingScenario, ServerScenario]
THREADED = [ServerThreads, ServerThreads, ClientThreads, ManagerThreads]
# violations that a very slow machine could cause
TIMED = ('connection', 'threads', 'resources')


def attempt(s):
    try:
        return s.run()
    except Exception as e:
        s.bad('exception', repr(e))
        return s.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by its kind and its sequence of operations, disturbances and ways to stop'
    ctx.assumptions = [
        'start() is called once the previous run was joined (until_stopped() on a shared event loop)',
        'requests outstanding at stop() were made before it',
        'suspicious virtual-time scenarios are repeated with a longer grace for the kernel, threaded ones twice, before they count']
    i = 0
    while ctx.more(i, 60, 1500, quick_s=80, thorough_s=600):
        todo = [(K, j, True) for K in VIRTUAL for j in (2 * i, 2 * i + 1)]
        todo += [(THREADED[j % len(THREADED)], j, False) for j in (2 * i, 2 * i + 1)]
        for K, j, virtual in todo:
            name = K.__name__
            args = (0.002,) if virtual else ()
            s = K(ctx, ctx.subrng(name, j), j, *args)
            v = attempt(s)
            if v:
                ctx.observe('scenarios_repeated')
                keys = set(k for k, _ in v)
                for _ in range(1 if virtual else 2):
                    s2 = K(ctx, ctx.subrng(name, j), j, *((0.1,) if virtual else ()))
                    v2 = attempt(s2)
                    if virtual or v2:
                        v, s = v2, s2
                        break
                else:
                    # once out of three: report what cannot be the machine's load
                    v = [x for x in v if x[0] not in TIMED]
            for key, text in v[:3]:
                ctx.violation('%s-%s' % (name, key), '%s %d: %s' % (name, j, text), steps=s.steps)
            for k, n in s.seen.items():
                ctx.observe(k, n)
            ctx.observe('scenarios_' + name)
            ctx.observe('oracle_evaluations', s.seen['stopped_points'] + s.seen['requests_judged'] + s.seen['connections_judged'])
            ctx.case((name, tuple(s.steps)))
            ctx.sample({'kind': name, 'steps': s.steps})
        i += 1
