"""C28: nothing accumulates in a process that keeps running.

Every kind of operation is repeated on a server, a client, an inspecting client, a resource client, a
container, a sensor or a tree that stays in use.  Between equal numbers of repetitions the monitor
takes a census of all the objects that are alive (by type, straight from the garbage collector), of
open files, threads, timers and handlers of the event loop.  A type that grows by at least one object
per repetition in every period is a leak.
"""
import collections
import gc
import os
import socket
import sys
import threading

import tornado.gen
from tornado.concurrent import Future
from tornado.iostream import IOStream

from katcp import Message, Sensor
from katcp import core, sampling
from katcp.client import AsyncClient, CallbackClient
from katcp.inspecting_client import InspectingClientAsync
from katcp.resource_client import (ClientGroup, KATCPClientResource, KATCPClientResourceContainer)
from katcp.sensortree import AggregateSensorTree, BooleanSensorTree

from .. import common, vloop
from . import adv, fakedev, srv, wire

# the census itself makes these
IGNORED = set(['builtins.int', 'builtins.float'])
SIZED = (list, dict, set, collections.deque)
NAMES = {}


def type_name(o):
    t = type(o)
    name = NAMES.get(t)
    if name is None:
        name = NAMES[t] = '%s.%s' % (t.__module__, t.__name__)
    return name


def census(loops):
    for _ in range(3):
        gc.collect()
    c = collections.Counter()
    n = 0
    objs = gc.get_objects()
    for o in objs:
        c[type_name(o)] += 1
        if isinstance(o, SIZED) and type(o) is not collections.Counter and o is not objs:
            n += len(o)
    del objs
    c['items in lists, dictionaries and sets'] = n
    for k in IGNORED:
        c.pop(k, None)
    c['open files'] = len(os.listdir('/proc/self/fd'))
    c['threads'] = threading.active_count()
    for loop in loops:
        # cancelled timers stay in the heap until they are due
        c['timers'] += sum(1 for t in loop._timeouts if t.callback is not None)
        c['loop handlers'] += len(loop._handlers)
        c['loop callbacks'] += len(loop._callbacks)
    return c


def growth(counts, k):
    """Types that grew by at least one object per repetition in every period."""
    steps = [(a, b) for a, b in zip(counts, counts[1:])]
    return dict((t, [b[t] - a[t] for a, b in steps]) for t in counts[-1]
                if all(b[t] - a[t] >= k for a, b in steps))


class Peer(object):
    """A client of a server in the same event loop."""

    def __init__(self, addr, mids=True):
        self.addr, self.mids = addr, mids
        self.n = 0

    @tornado.gen.coroutine
    def open(self):
        self.stream = IOStream(socket.socket(socket.AF_INET, socket.SOCK_STREAM))
        yield self.stream.connect(self.addr)
        yield self.ask('watchdog')
        raise tornado.gen.Return(self)

    @tornado.gen.coroutine
    def ask(self, name, *args):
        self.n += 1
        mid = b'%d' % self.n if self.mids else None
        yield self.stream.write(wire.encode('request', name, mid, [str(a).encode() for a in args]) + b'\n')
        head = b'!' + name.encode() + (b'[' + mid + b']' if mid else b'')
        while True:
            line = yield self.stream.read_until(b'\n')
            if line.startswith(head):
                raise tornado.gen.Return(line)

    def close(self, rst=False):
        if rst:
            self.stream.socket.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\x01\x00\x00\x00\x00\x00\x00\x00')
        self.stream.close()


@tornado.gen.coroutine
def until(pred, timeout=60, step=0.05):
    """Virtual-time wait; its truth."""
    for _ in range(int(timeout / step)):
        if pred():
            raise tornado.gen.Return(True)
        yield tornado.gen.sleep(step)
    raise tornado.gen.Return(bool(pred()))


class Rig(object):
    """Something that stays in use; its op_* methods are the operations that are repeated."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.clock = vloop.Clock(start=4000.0, grace=0.0005, idle_wait=0.005)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()

    @classmethod
    def ops(cls):
        return sorted(n for n in dir(cls) if n.startswith('op_') and getattr(cls, n))

    @tornado.gen.coroutine
    def setup(self):
        pass

    @tornado.gen.coroutine
    def teardown(self):
        pass

    def purge(self):
        """Forget what the harness recorded."""

    def run(self, fn, limit=100):
        fut = []

        def go():
            fut.append(fn())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(limit, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        if not fut or not fut[0].done():
            raise common.Inconclusive('%s did not end' % (fn,))
        return fut[0].result()

    def measure(self, names, k, warm=3, periods=2):
        """Repeat the operations `names` (in turn); (growth, error)"""
        counts = []

        @tornado.gen.coroutine
        def go():
            for i in range(warm):
                for n in names:
                    yield getattr(self, n)()
            for p in range(periods + 1):
                yield tornado.gen.sleep(0.3)
                self.purge()
                del self.ctx.logs.errors[:]
                counts.append(census([self.loop]))
                if p == periods:
                    break
                for i in range(k):
                    for n in names:
                        yield getattr(self, n)()
                        self.ctx.observe('operations')
        self.run(go)
        self.ctx.observe('objects_counted', sum(sum(c.values()) for c in counts))
        self.ctx.observe('censuses', len(counts))
        return growth(counts, k)

    def finish(self):
        self.run(self.teardown)
        self.loop.clear_current()
        self.loop.close(all_fds=False)


# -- servers -------------------------------------------------------------------------

STRATEGIES = [('event',), ('auto',), ('period', 0.5), ('event-rate', 0.1, 2), ('differential', 2),
              ('differential-rate', 2, 0.1, 2)]
LONG = [('event-rate', 5000, 9000), ('differential-rate', 2, 5000, 9000), ('period', 9000)]


class ServerRig(Rig):
    MAJOR, FLAGS = 5, 'IMB'

    @tornado.gen.coroutine
    def setup(self):
        s = self.server = srv.make_server('ioloop', self.MAJOR, self.FLAGS, minor=1 if self.MAJOR > 4 else 0, start=False)
        s.set_ioloop(self.loop)
        for n in ('a', 'b', 'c'):
            s.add_sensor(Sensor.integer(n, n, ''))
        s.start()
        yield tornado.gen.sleep(0.1)
        self.peer = yield self.client()
        self.other = yield self.client()
        self.i = 0

    @tornado.gen.coroutine
    def teardown(self):
        self.peer.close()
        self.other.close()
        self.server.stop()
        yield tornado.gen.sleep(1)

    def purge(self):
        del self.server.trace[:]

    @tornado.gen.coroutine
    def client(self):
        p = yield Peer(self.server.bind_address, self.MAJOR > 4).open()
        raise tornado.gen.Return(p)

    @tornado.gen.coroutine
    def gone(self, n=2):
        yield until(lambda: len(self.server._client_conns) == n, 5)

    @tornado.gen.coroutine
    def op_connect_close(self):
        p = yield self.client()
        p.close()
        yield self.gone()

    @tornado.gen.coroutine
    def op_connect_reset(self):
        p = yield self.client()
        p.close(rst=True)
        yield self.gone()

    @tornado.gen.coroutine
    def op_connect_malformed(self):
        p = yield self.client()
        yield p.stream.write(b'garbage\n?x[\n#inform y\n!reply z\n\n?watch')
        yield tornado.gen.sleep(0.01)
        p.close()
        yield self.gone()

    @tornado.gen.coroutine
    def op_malformed(self):
        yield self.peer.stream.write(b'garbage\n#inform y\n!reply z\n')
        yield self.peer.ask('watchdog')

    @tornado.gen.coroutine
    def op_sampling_and_close(self):
        p = yield self.client()
        for n, s in zip('abcabc', STRATEGIES):
            yield p.ask('sensor-sampling', n, *s)
            self.server.get_sensor(n).set_value(self.rng.randrange(1000))
        yield tornado.gen.sleep(0.3)
        p.close()
        yield self.gone()

    @tornado.gen.coroutine
    def op_sampling_and_reset(self):
        p = yield self.client()
        for n, s in zip('abcabc', self.rng.sample(STRATEGIES, len(STRATEGIES))):
            yield p.ask('sensor-sampling', n, *s)
        p.close(rst=True)
        for n in 'abc':
            self.server.get_sensor(n).set_value(self.rng.randrange(1000))
        yield self.gone()

    @tornado.gen.coroutine
    def op_replace_sampling(self):
        for s in STRATEGIES:
            yield self.peer.ask('sensor-sampling', 'a', *s)
            self.server.get_sensor('a').set_value(self.rng.randrange(1000))
        yield tornado.gen.sleep(1)
        yield self.peer.ask('sensor-sampling', 'a', 'none')

    @tornado.gen.coroutine
    def op_long_sampling(self):
        """Strategies that are ended while all of their timers are still to go off."""
        p = yield self.client()
        for q in (self.peer, p):
            for n, s in zip('abc', LONG):
                yield q.ask('sensor-sampling', n, *s)
        for _ in range(2):
            for n in 'abc':
                self.server.get_sensor(n).set_value(self.rng.randrange(1000))
            yield tornado.gen.sleep(0.01)
        p.close()
        yield self.gone()
        for n in 'abc':
            yield self.peer.ask('sensor-sampling', n, 'none')
        self.server.add_sensor(Sensor.integer('tmp', 'x', ''))
        yield self.peer.ask('sensor-sampling', 'tmp', *LONG[0])
        self.server.get_sensor('tmp').set_value(self.rng.randrange(1, 1000))
        yield tornado.gen.sleep(0.01)
        self.server.remove_sensor('tmp')
        yield self.peer.ask('watchdog')

    @tornado.gen.coroutine
    def op_same_sampling(self):
        for n in 'bc':
            yield self.peer.ask('sensor-sampling', n, *STRATEGIES[3])
            yield self.peer.ask('sensor-sampling', n)

    @tornado.gen.coroutine
    def op_refused_sampling(self):
        for args in (('a', 'period', -1), ('nope', 'event'), ('a', 'nonsense'), ('a', 'event-rate', 1), ('a,nope', 'event')):
            yield self.peer.ask('sensor-sampling', *args)

    @tornado.gen.coroutine
    def op_bulk_sampling(self):
        if self.FLAGS.find('B') >= 0:
            yield self.peer.ask('sensor-sampling', 'a,b,c', 'period', 0.5)
            yield tornado.gen.sleep(1)
            yield self.peer.ask('sensor-sampling', 'a,b,c', 'none')

    @tornado.gen.coroutine
    def op_updates(self):
        yield self.other.ask('sensor-sampling', 'a', 'event-rate', 0.2, 1)
        for _ in range(5):
            self.server.get_sensor('a').set_value(self.rng.randrange(1000))
            yield tornado.gen.sleep(0.01)
        yield tornado.gen.sleep(1.5)
        yield self.other.ask('watchdog')

    @tornado.gen.coroutine
    def op_sensor_added_and_removed(self):
        s = self.server
        s.add_sensor(Sensor.float('tmp', 'x', ''))
        yield self.peer.ask('sensor-sampling', 'tmp', 'period', 0.5)
        yield self.other.ask('sensor-sampling', 'tmp', 'event')
        s.get_sensor('tmp').set_value(2.5)
        yield tornado.gen.sleep(1)
        s.remove_sensor('tmp')
        s.mass_inform(Message.inform('interface-changed', 'sensor-list'))
        yield self.peer.ask('sensor-list')
        yield self.other.ask('watchdog')

    @tornado.gen.coroutine
    def op_new_sensor_each_time(self):
        s = self.server
        self.i += 1
        n = 'n%d' % self.i
        s.add_sensor(Sensor.float(n, 'x', ''))
        yield self.peer.ask('sensor-sampling', n, 'differential-rate', 2, 0.1, 2)
        s.get_sensor(n).set_value(2.5)
        yield tornado.gen.sleep(0.3)
        s.remove_sensor(n)
        yield self.peer.ask('sensor-value')

    @tornado.gen.coroutine
    def op_builtin_requests(self):
        for r in (('watchdog',), ('help',), ('help', 'watchdog'), ('help', 'nope'), ('sensor-list',), ('sensor-list', '/a/'),
                  ('sensor-value',), ('sensor-value', 'nope'), ('client-list',), ('version-list',), ('log-level',),
                  ('log-level', 'warn'), ('log-level', 'off'), ('log-level', 'nope'), ('nope', 1, 2), ('watchdog', 'too', 'many')):
            yield self.peer.ask(*r)

    @tornado.gen.coroutine
    def op_custom_requests(self):
        for kind in srv.SYNC_KINDS + srv.FUT_KINDS + srv.FREE_KINDS:
            if kind not in srv.NOT_IN_MODE['ioloop']:
                yield self.peer.ask(kind, 'u', *([1] if kind in srv.WITH_INFORMS or kind.startswith('typed') else []))

    @tornado.gen.coroutine
    def op_gone_while_pending(self):
        p = yield self.client()
        kind = self.rng.choice(['hold', 'hold-conc', 'hold-async'])
        for _ in range(3):
            yield p.stream.write(b'?%s k\n' % kind.encode())
        yield tornado.gen.sleep(0.02)
        p.close(rst=self.rng.random() < 0.5)
        yield self.gone()
        for _ in range(4):
            self.server.release(b'k')
            yield tornado.gen.sleep(0.02)

    @tornado.gen.coroutine
    def op_log_messages(self):
        for level in ('info', 'error', 'fatal'):
            getattr(self.server.log, level)('a text')
        yield self.peer.ask('watchdog')
        yield self.other.ask('watchdog')

    @tornado.gen.coroutine
    def op_restart(self):
        self.peer.close()
        self.other.close()
        self.server.stop()
        yield self.server.until_stopped() if hasattr(self.server, 'until_stopped') else tornado.gen.sleep(1)
        yield tornado.gen.sleep(1)
        self.server.start()
        yield tornado.gen.sleep(0.1)
        self.peer = yield self.client()
        self.other = yield self.client()


class OldServerRig(ServerRig):
    MAJOR, FLAGS = 4, 'M'


class NewServerRig(Rig):
    """Servers come and go in a process."""

    @tornado.gen.coroutine
    def op_server(self):
        s = srv.make_server('ioloop', 5, 'IMB', minor=1, start=False)
        s.set_ioloop(self.loop)
        s.add_sensor(Sensor.integer('a', 'a', ''))
        s.start()
        yield tornado.gen.sleep(0.01)
        p = yield Peer(s.bind_address).open()
        yield p.ask('sensor-sampling', 'a', 'period', 0.5)
        yield p.ask('sensor-sampling', 'a')
        s.stop()
        yield tornado.gen.sleep(1)
        p.close()
        yield tornado.gen.sleep(1)


class ThreadRig(Rig):
    """Servers and clients with threads of their own (real time)."""

    @tornado.gen.coroutine
    def op_threads(self):
        s = srv.make_server(self.rng.choice(list(srv.MODES)), 5, 'IM')
        c = adv_client(s.bind_address)
        c.start(timeout=common.STALL)
        if not c.wait_protocol(common.STALL):
            raise common.Inconclusive('no connection')
        c.blocking_request(Message.request('watchdog'), timeout=common.STALL)
        c.stop(timeout=common.STALL)
        c.join(common.STALL)
        srv.stop_server(s)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_clients_of_a_server(self):
        if not hasattr(self, 's'):
            self.s = srv.make_server('handler-thread', 5, 'IM')
        c = srv.RawClient(self.s.bind_address)
        c.barrier()
        c.req('sensor-sampling', 'a', 'event')
        c.barrier()
        c.close()
        c._thread.join(common.STALL)
        common.wait_until(lambda: not self.s._client_conns, 5)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def teardown(self):
        if hasattr(self, 's'):
            srv.stop_server(self.s)
        yield tornado.gen.moment


def adv_client(addr):
    from katcp.client import BlockingClient
    return BlockingClient(*addr)


# -- clients ------------------------------------------------------------------------------

class ClientRig(Rig):
    KIND = AsyncClient
    GREET = '5-MI'

    def on_request(self, conn, m):
        mtype, name, mid, args = m
        conn.hold = getattr(conn, 'hold', [])
        if name == 'ask':
            conn.say(wire.encode('inform', name, mid, [b'i']))
            conn.say(wire.encode('reply', name, mid, [b'ok'] + args))
        elif name == 'refuse':
            conn.say(wire.encode('reply', name, mid, [b'fail', b'no']))
        elif name == 'late':
            self.loop.call_later(2, lambda: conn.open and conn.say(wire.encode('reply', name, mid, [b'ok'])))
        elif name == 'drop':
            conn.close()

    @tornado.gen.coroutine
    def setup(self):
        self.server = adv.AdvServer(self.loop, adv.GREETS[self.GREET], self.on_request)
        self.server.up()
        c = self.client = self.new()
        c.start()
        yield c.until_protocol()

    def new(self):
        c = self.KIND(*self.server.addr)
        c.auto_reconnect_delay = 0.5
        c.set_ioloop(self.loop)
        return c

    @tornado.gen.coroutine
    def teardown(self):
        self.client.stop()
        yield tornado.gen.sleep(1)
        self.server.finish()

    def purge(self):
        purge(self.server)

    @tornado.gen.coroutine
    def connected(self):
        yield until(self.client.is_connected)
        yield self.client.until_protocol()

    @tornado.gen.coroutine
    def op_request(self):
        c = self.client
        for name in ('ask', 'refuse'):
            yield c.future_request(Message.request(name, 'x'))
            yield c.future_request(Message.request(name, 'x'), timeout=3)
            yield c.future_request(Message.request(name, 'x'), use_mid=False)
            c.callback_request(Message.request(name, 'x'), reply_cb=lambda m: None, inform_cb=lambda m: None)
        yield tornado.gen.sleep(0.1)

    @tornado.gen.coroutine
    def op_request_times_out(self):
        yield self.client.future_request(Message.request('silent'), timeout=1)

    @tornado.gen.coroutine
    def op_request_without_id_times_out(self):
        yield self.client.future_request(Message.request('silent'), timeout=1, use_mid=False)

    @tornado.gen.coroutine
    def op_late_reply(self):
        yield self.client.future_request(Message.request('late'), timeout=1)
        yield tornado.gen.sleep(2)

    @tornado.gen.coroutine
    def op_request_cut(self):
        f = [self.client.future_request(Message.request('silent')) for _ in range(3)]
        yield self.client.future_request(Message.request('drop'))
        yield f
        yield self.connected()

    @tornado.gen.coroutine
    def op_long_request_answered(self):
        yield self.client.future_request(Message.request('ask', 'x'), timeout=9000)
        self.client.callback_request(Message.request('refuse', 'x'), reply_cb=lambda m: None, timeout=9000)
        yield tornado.gen.sleep(0.1)

    @tornado.gen.coroutine
    def op_long_request_cut(self):
        f = [self.client.future_request(Message.request('silent'), timeout=9000) for _ in range(3)]
        self.client.callback_request(Message.request('silent', 'x'), reply_cb=lambda m: None, timeout=9000)
        yield self.client.future_request(Message.request('drop'), timeout=9000)
        yield f
        yield self.connected()

    @tornado.gen.coroutine
    def op_request_offline(self):
        self.server.down()
        yield until(lambda: not self.client.is_connected())
        try:
            yield self.client.future_request(Message.request('ask', 'x'))
        except Exception:
            pass
        self.client.callback_request(Message.request('ask', 'x'), reply_cb=lambda m: None)
        self.server.up()
        yield self.connected()

    @tornado.gen.coroutine
    def op_reconnect(self):
        self.server.drop(rst=self.rng.random() < 0.5)
        yield until(lambda: not self.client.is_connected())
        yield self.connected()

    @tornado.gen.coroutine
    def op_outage(self):
        self.server.down()
        yield tornado.gen.sleep(4)
        self.server.up()
        yield self.connected()

    @tornado.gen.coroutine
    def op_disconnect(self):
        self.client.disconnect()
        yield until(lambda: not self.client.is_connected())
        yield self.connected()

    @tornado.gen.coroutine
    def op_waits_offline(self):
        self.server.down()
        yield until(lambda: not self.client.is_connected())
        yield self.timed_waits()
        self.server.up()
        yield self.connected()

    @tornado.gen.coroutine
    def timed_waits(self):
        for w in (self.client.until_connected, self.client.until_protocol):
            try:
                yield w(timeout=0.2)
            except Exception:
                pass

    @tornado.gen.coroutine
    def op_waits_online(self):
        c = self.client
        for w in (c.until_connected, c.until_protocol, c.until_running):
            yield w()
            yield w(timeout=1)
        for w in (c.until_stopped,):
            try:
                yield w(timeout=0.2)
            except Exception:
                pass

    @tornado.gen.coroutine
    def op_stray(self):
        c = self.server.current()
        for l in (b'#stray x', b'!stray ok', b'!stray[77] ok', b'#stray[78] x', b'nonsense', b'?what', b'?what[3] x', b'',
                  b'#version-connect katcp-device a-1.2', b'#disconnect bye'):
            c.say(l)
        yield tornado.gen.sleep(0.05)

    @tornado.gen.coroutine
    def op_restart(self):
        c = self.client
        c.stop()
        yield c.until_stopped()
        yield tornado.gen.sleep(0.5)
        c.start()
        yield c.until_protocol()

    @tornado.gen.coroutine
    def op_new_client(self):
        c = self.new()
        c.start()
        yield c.until_protocol()
        f = c.future_request(Message.request('silent'))
        yield c.future_request(Message.request('ask', 'x'))
        c.stop()
        yield c.until_stopped()
        yield tornado.gen.sleep(0.5)

    @tornado.gen.coroutine
    def op_new_client_never_connects(self):
        self.server.down()
        c = self.new()
        c.start()
        yield tornado.gen.sleep(2)
        c.stop()
        yield c.until_stopped()
        yield tornado.gen.sleep(0.5)
        self.server.up()
        yield self.connected()


class ClientWithoutIdsRig(ClientRig):
    KIND = CallbackClient
    GREET = '5-M'


class OfflineRig(ClientRig):
    """The device is never there."""

    @tornado.gen.coroutine
    def setup(self):
        self.server = adv.AdvServer(self.loop, adv.GREETS[self.GREET], self.on_request)
        self.client = self.new()
        self.client.start()
        yield tornado.gen.sleep(1)

    op_request = op_request_times_out = op_request_without_id_times_out = op_late_reply = op_request_cut = None
    op_reconnect = op_disconnect = op_waits_online = op_stray = op_new_client = op_outage = op_restart = None
    op_request_offline = op_new_client_never_connects = op_waits_offline = None

    @classmethod
    def ops(cls):
        return ['op_attempts', 'op_waits', 'op_refused_requests']

    @tornado.gen.coroutine
    def op_attempts(self):
        yield tornado.gen.sleep(5)

    @tornado.gen.coroutine
    def op_waits(self):
        yield self.timed_waits()

    @tornado.gen.coroutine
    def op_refused_requests(self):
        for _ in range(2):
            try:
                yield self.client.future_request(Message.request('ask', 'x'), timeout=1)
            except Exception:
                pass


def purge(server):
    server.conns[:] = [c for c in server.conns if c.open]
    del server.connects[:], server.garbage[:]
    for c in server.conns:
        del c.lines[:], c.sent[:]


class DeviceRig(Rig):
    GREET = '5.1-MITB'

    def device(self):
        d = fakedev.FakeDevice(self.loop, self.GREET)
        d.fault = self.fault
        for n, t in (('s1', 'integer'), ('s2', 'integer'), ('s.3', 'float')):
            d.sensors[n] = fakedev.Sens('a sensor', '', t, [])
            d.values[n] = (1.0, b'nominal', b'1')
        d.requests['r1'] = fakedev.Req('A request.', 1.5)
        d.requests['silent'] = fakedev.Req('Is never answered.', None)
        d.handlers['r1'] = lambda conn, mid, args: d.reply(conn, 'r1', mid, [b'ok'] + args)
        d.handlers['silent'] = lambda conn, mid, args: None
        d.server.up()
        self.devices.append(d)
        return d

    def __init__(self, ctx, rng):
        super(DeviceRig, self).__init__(ctx, rng)
        self.devices = []
        self.faults = []

    def fault(self, conn, name, args):
        if self.faults and self.faults[0][0] == name:
            return self.faults.pop(0)[1]

    def purge(self):
        for d in self.devices:
            del d.full[:], d.log[:], d.sampling[:], d.sent_updates[:]
            purge(d.server)

    @tornado.gen.coroutine
    def finish_devices(self):
        for d in self.devices:
            d.server.finish()
        yield tornado.gen.sleep(0.1)


class InspectingRig(DeviceRig):
    @tornado.gen.coroutine
    def setup(self):
        self.dev = self.device()
        self.ic = self.new()
        self.ic.connect()
        yield self.ic.until_synced()
        self.i = 0

    def new(self):
        ic = InspectingClientAsync(*self.dev.server.addr, ioloop=self.loop)
        ic.katcp_client.auto_reconnect_delay = 0.5
        ic.set_state_callback(lambda s, c: None)
        return ic

    @tornado.gen.coroutine
    def teardown(self):
        self.ic.stop()
        yield self.ic.until_stopped()
        yield self.finish_devices()

    @tornado.gen.coroutine
    def resync(self):
        n = len(self.dev.full)
        yield until(lambda: len(self.dev.full) > n)
        yield self.ic.until_synced()

    @tornado.gen.coroutine
    def op_notified_without_change(self):
        self.dev.notify()
        yield self.resync()

    @tornado.gen.coroutine
    def op_change(self):
        d = self.dev
        self.i += 1
        d.sensors['tmp'] = fakedev.Sens('x%d' % self.i, '', 'integer', [])
        d.values['tmp'] = (1.0, b'nominal', b'1')
        d.requests['tmp-r'] = fakedev.Req('x%d' % self.i, None)
        d.notify()
        yield self.resync()
        yield self.ic.future_get_sensor('tmp')
        yield self.ic.future_get_request('tmp-r')
        d.report(d.current(), 'tmp')
        del d.sensors['tmp'], d.requests['tmp-r']
        d.notify()
        yield self.resync()

    @tornado.gen.coroutine
    def op_new_name_each_time(self):
        d = self.dev
        self.i += 1
        n, r = 'n%d' % self.i, 'r-%d' % self.i
        d.sensors[n] = fakedev.Sens('x', '', 'integer', [])
        d.values[n] = (1.0, b'nominal', b'1')
        d.requests[r] = fakedev.Req('x', None)
        yield self.ic.future_get_sensor(n)
        d.notify()
        yield self.resync()
        d.report(d.current(), n)
        yield self.ic.future_get_request(r)
        yield tornado.gen.sleep(0.01)
        del d.sensors[n], d.requests[r], d.values[n]
        d.notify()
        yield self.resync()

    @tornado.gen.coroutine
    def op_lookups(self):
        for n in ('s1', 's.3', 'never', 'nope-%d' % self.i):
            self.i += 1
            yield self.ic.future_get_sensor(n)
            yield self.ic.future_get_request(n)
        yield self.ic.future_get_request('r1')

    @tornado.gen.coroutine
    def op_unknown_reports(self):
        c = self.dev.current()
        self.i += 1
        c.say(b'#sensor-status 1.0 1 unknown-%d nominal 1' % self.i)
        c.say(b'#sensor-status 1.0 1 s1 nominal 5')
        c.say(b'#sensor-status 1.0 1 s1 nonsense 5')
        c.say(b'#sensor-status')
        yield tornado.gen.sleep(0.05)

    @tornado.gen.coroutine
    def op_failing_inspection(self):
        self.faults = [(self.rng.choice(['help', 'sensor-list']), ('fail',))]
        self.dev.notify()
        yield self.resync()

    @tornado.gen.coroutine
    def op_drop(self):
        self.dev.server.drop()
        yield until(lambda: not self.ic.synced)
        yield self.ic.until_synced()

    @tornado.gen.coroutine
    def op_cut_inspection(self):
        self.faults = [('sensor-list', ('partial',))]
        self.dev.notify()
        yield until(lambda: not self.ic.synced)
        yield self.ic.until_synced()

    @tornado.gen.coroutine
    def op_timed_waits(self):
        for w in (self.ic.until_not_synced, self.ic.until_stopped):
            try:
                yield w(timeout=0.2)
            except Exception:
                pass
        for w in (self.ic.until_synced, self.ic.until_connected, self.ic.until_data_synced):
            yield w(timeout=1)

    @tornado.gen.coroutine
    def op_requests(self):
        yield self.ic.simple_request('r1', 'x')
        yield self.ic.simple_request('silent', timeout=0.5)

    @tornado.gen.coroutine
    def op_new_client(self):
        ic = self.new()
        ic.connect()
        yield ic.until_synced()
        yield ic.future_get_sensor('s1')
        ic.stop()
        yield ic.until_stopped()
        yield tornado.gen.sleep(1)


class InspectingV4Rig(InspectingRig):
    GREET = '4'


class ResourceRig(DeviceRig):
    @tornado.gen.coroutine
    def setup(self):
        self.dev = self.device()
        self.res = self.new()
        self.res.start()
        yield self.res.until_synced()
        self.i = 0

    def new(self):
        r = KATCPClientResource(dict(name='res', address=self.dev.server.addr, controlled=True, auto_reconnect_delay=0.5))
        r.set_ioloop(self.loop)
        return r

    @tornado.gen.coroutine
    def teardown(self):
        self.res.stop()
        yield self.res.until_stopped()
        yield self.finish_devices()

    def sensor(self, n='s1'):
        return dict.__getitem__(self.res.sensor, n)

    @tornado.gen.coroutine
    def op_strategies(self):
        yield self.res.set_sampling_strategy('s1', 'event')
        yield self.res.set_sampling_strategies('s', 'period 2')
        yield self.res.set_sampling_strategy('s1', 'none')
        self.res.drop_sampling_strategy('s1')
        yield self.sensor().set_strategy('event')
        yield self.res.set_sampling_strategy('s1', 'nonsense')

    @tornado.gen.coroutine
    def op_strategies_of_unknown(self):
        yield self.res.set_sampling_strategy('absent', 'event')
        self.res.drop_sampling_strategy('absent')

    @tornado.gen.coroutine
    def op_listeners(self):
        f = lambda *a: None  # noqa: E731
        s = self.sensor()
        s.register_listener(f)
        s.register_listener(f, reading=True)
        self.dev.report(self.dev.current(), 's1')
        yield tornado.gen.sleep(0.01)
        s.unregister_listener(f)

    @tornado.gen.coroutine
    def op_reports(self):
        for i in range(3):
            self.dev.values['s1'] = (1.0 + i, b'nominal', b'%d' % i)
            self.dev.report(self.dev.current(), 's1')
        yield tornado.gen.sleep(0.01)

    @tornado.gen.coroutine
    def op_polls(self):
        s = self.sensor()
        yield s.get_reading()
        yield s.get_value()
        yield s.get_status()
        yield self.res.list_sensors()

    @tornado.gen.coroutine
    def op_waits(self):
        s = self.sensor()
        yield s.set_strategy('event')
        f = s.wait(77, timeout=10)
        self.dev.values['s1'] = (1.0, b'nominal', b'77')
        self.dev.report(self.dev.current(), 's1')
        yield f
        self.dev.values['s1'] = (1.0, b'nominal', b'78')
        self.dev.report(self.dev.current(), 's1')
        yield tornado.gen.sleep(0.01)

    @tornado.gen.coroutine
    def op_waits_in_vain(self):
        for _ in range(2):
            try:
                yield self.sensor().wait(1234567, timeout=0.2)
            except Exception:
                pass
            try:
                yield self.res.wait('s1', 1234567, timeout=0.2)
            except Exception:
                pass

    @tornado.gen.coroutine
    def op_requests(self):
        yield self.res.req.r1('x')
        yield self.res.req['r1']('x', timeout=2)
        yield self.res.req.silent(timeout=0.5)

    @tornado.gen.coroutine
    def op_timed_waits(self):
        for w in (lambda: self.res.until_not_synced(timeout=0.2), lambda: self.res.until_stopped(timeout=0.2),
                  lambda: self.res.until_state('disconnected', timeout=0.2)):
            try:
                yield w()
            except Exception:
                pass
        yield self.res.until_synced(timeout=1)
        yield self.res.wait_connected(timeout=1)

    @tornado.gen.coroutine
    def resync(self):
        n = len(self.dev.full)
        yield until(lambda: len(self.dev.full) > n)
        yield self.res.until_synced()

    @tornado.gen.coroutine
    def op_change(self):
        d = self.dev
        self.i += 1
        d.sensors['tmp'] = fakedev.Sens('x%d' % self.i, '', 'integer', [])
        d.values['tmp'] = (1.0, b'nominal', b'1')
        d.requests['tmp-r'] = fakedev.Req('x%d' % self.i, None)
        d.notify()
        yield self.resync()
        yield self.res.set_sampling_strategy('tmp', 'event')
        dict.__getitem__(self.res.sensor, 'tmp').register_listener(lambda *a: None)
        yield dict.__getitem__(self.res.sensor, 'tmp').get_value()
        del d.sensors['tmp'], d.requests['tmp-r']
        d.notify()
        yield self.resync()

    @tornado.gen.coroutine
    def op_new_name_each_time(self):
        d = self.dev
        self.i += 1
        n, r = 'n%d' % self.i, 'r-%d' % self.i
        d.sensors[n] = fakedev.Sens('x', '', 'integer', [])
        d.values[n] = (1.0, b'nominal', b'1')
        d.requests[r] = fakedev.Req('x', None)
        d.notify()
        yield self.resync()
        s = dict.__getitem__(self.res.sensor, n)
        s.register_listener(lambda *a: None)
        yield s.get_value()
        yield dict.__getitem__(self.res.req, r.replace('-', '_'))('x')
        list(self.res.sensor), list(self.res.req)
        del d.sensors[n], d.requests[r], d.values[n]
        d.notify()
        yield self.resync()

    @tornado.gen.coroutine
    def op_drop(self):
        yield self.res.set_sampling_strategy('s2', 'event')
        self.dev.server.drop()
        yield until(lambda: not self.res.is_connected())
        yield self.res.until_synced()

    @tornado.gen.coroutine
    def op_waits_offline(self):
        self.dev.server.down()
        yield until(lambda: not self.res.is_connected())
        for w in (lambda: self.res.until_synced(timeout=0.2), lambda: self.res.wait_connected(timeout=0.2)):
            try:
                yield w()
            except Exception:
                pass
        self.dev.server.up()
        yield self.res.until_synced()

    @tornado.gen.coroutine
    def op_new_client(self):
        r = self.new()
        r.start()
        yield r.until_synced()
        yield r.set_sampling_strategy('s1', 'event')
        r.stop()
        yield r.until_stopped()
        yield tornado.gen.sleep(1)


class ContainerRig(DeviceRig):
    @tornado.gen.coroutine
    def setup(self):
        self.i = 0
        self.device()
        self.device()
        self.top = self.new()
        self.top.start()
        yield self.top.until_synced()

    def new(self):
        top = KATCPClientResourceContainer(dict(name='top', clients=dict(
            ('m%d' % i, dict(address=d.server.addr, controlled=True, auto_reconnect_delay=0.5))
            for i, d in enumerate(self.devices[:2])), groups=dict(g=['m0', 'm1'])))
        top.set_ioloop(self.loop)
        return top

    @tornado.gen.coroutine
    def teardown(self):
        self.top.stop()
        yield tornado.gen.multi(list(self.top.until_stopped().values()))
        yield self.finish_devices()

    @tornado.gen.coroutine
    def op_member_drops(self):
        self.devices[0].server.drop()
        yield until(lambda: not self.top.is_connected())
        yield self.top.until_synced()

    @tornado.gen.coroutine
    def op_new_name_each_time(self):
        d = self.devices[0]
        self.i += 1
        n, r = 'n%d' % self.i, 'r-%d' % self.i
        d.sensors[n] = fakedev.Sens('x', '', 'integer', [])
        d.values[n] = (1.0, b'nominal', b'1')
        d.requests[r] = fakedev.Req('x', None)
        for present in (True, False):
            if not present:
                del d.sensors[n], d.requests[r], d.values[n]
            seen = len(d.full)
            d.notify()
            yield until(lambda: len(d.full) > seen)
            yield self.top.until_synced()
            list(self.top.sensor), list(self.top.req), list(self.top.groups['g'].req)

    @tornado.gen.coroutine
    def op_wait_until_a_member_drops(self):
        f = self.top.until_not_synced()
        g = self.top.until_any_child_in_state('disconnected')
        self.devices[0].server.drop()
        yield f
        yield g
        yield self.top.until_synced()

    @tornado.gen.coroutine
    def op_group_request(self):
        yield self.top.groups['g'].req.r1('x')
        yield self.top.groups['g'].req.silent(timeout=0.5)

    @tornado.gen.coroutine
    def op_group_wait(self):
        yield self.top.groups['g'].set_sampling_strategy('s1', 'event')
        yield self.top.groups['g'].wait('s1', 1, timeout=0.5)
        yield self.top.groups['g'].wait('s1', 77777, timeout=0.5)

    @tornado.gen.coroutine
    def op_views(self):
        list(self.top.sensor), list(self.top.req), list(self.top.children)
        yield self.top.list_sensors('s')
        yield self.top.set_sampling_strategies('s', 'event')
        yield self.top.groups['g'].set_sampling_strategy('s1', 'none')

    @tornado.gen.coroutine
    def op_timed_waits(self):
        for w in (lambda: self.top.until_not_synced(timeout=0.2), lambda: self.top.until_any_child_in_state('disconnected', timeout=0.2),
                  lambda: self.top.until_synced(timeout=0.2), lambda: self.top.until_all_children_in_state('synced', timeout=0.2),
                  lambda: self.top.until_all_children_in_state('disconnected', timeout=0.2)):
            try:
                yield w()
            except Exception:
                pass

    @tornado.gen.coroutine
    def op_sensor_comes_and_goes(self):
        d = self.devices[1]
        d.sensors['tmp'] = fakedev.Sens('x', '', 'integer', [])
        d.values['tmp'] = (1.0, b'nominal', b'1')
        n = len(d.full)
        d.notify()
        yield until(lambda: len(d.full) > n)
        yield self.top.until_synced()
        yield until(lambda: 'm1_tmp' in list(self.top.sensor), 5)
        del d.sensors['tmp']
        n = len(d.full)
        d.notify()
        yield until(lambda: len(d.full) > n)
        yield until(lambda: 'm1_tmp' not in list(self.top.sensor), 5)
        yield self.top.until_synced()

    @tornado.gen.coroutine
    def op_new_container(self):
        top = self.new()
        top.start()
        yield top.until_synced()
        top.stop()
        yield tornado.gen.multi(list(top.until_stopped().values()))
        yield tornado.gen.sleep(1)


# -- parts ------------------------------------------------------------------------------------

class PartsRig(Rig):
    @tornado.gen.coroutine
    def setup(self):
        self.sensor = Sensor.integer('i', 'i', '')
        self.event = core.AsyncEvent()
        self.state = core.AsyncState(('a', 'b', 'c'), 'a')
        self.never = Future()
        self.tree = AggregateSensorTree()
        self.agg = Sensor.integer('agg', '', '')
        self.kids = [Sensor.integer('k%d' % i, '', '') for i in range(4)]
        self.btree = BooleanSensorTree()
        self.top = Sensor.boolean('top', '', '')
        self.delayed = self.incomplete = False
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_sampling(self):
        for cls, args in ((sampling.SampleEvent, ()), (sampling.SampleAuto, ()), (sampling.SamplePeriod, (0.5,)),
                          (sampling.SampleEventRate, (0.1, 1)), (sampling.SampleDifferential, (2,)),
                          (sampling.SampleDifferentialRate, (2, 0.1, 1)), (sampling.SampleNone, ())):
            s = cls(lambda *a: None, self.sensor, *args)
            s.set_new_value_callback = None
            s.start()
            self.sensor.set_value(self.rng.randrange(1000))
            yield tornado.gen.sleep(0.05)
            s.cancel()
        yield tornado.gen.sleep(2)

    @tornado.gen.coroutine
    def op_long_sampling(self):
        for cls, args in ((sampling.SamplePeriod, (9000,)), (sampling.SampleEventRate, (5000, 9000)),
                          (sampling.SampleDifferentialRate, (2, 5000, 9000))):
            s = cls(lambda *a: None, self.sensor, *args)
            s.start()
            for _ in range(3):
                self.sensor.set_value(self.rng.randrange(1000))
                yield tornado.gen.sleep(0.01)
            s.cancel()

    @tornado.gen.coroutine
    def op_observers(self):
        class Obs(object):
            def update(self, s, r):
                pass
        o = Obs()
        self.sensor.attach(o)
        self.sensor.set_value(3)
        self.sensor.detach(o)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def waits(self, *fns):
        for fn in fns:
            try:
                yield fn()
            except Exception:
                pass

    @tornado.gen.coroutine
    def op_event_timeouts(self):
        yield self.waits(lambda: self.event.until_set(timeout=0.1))

    @tornado.gen.coroutine
    def op_event_cycles(self):
        f = self.event.until_set()
        self.event.set()
        yield f
        self.event.clear()

    @tornado.gen.coroutine
    def op_state_timeouts(self):
        yield self.waits(lambda: self.state.until_state('b', timeout=0.1))

    @tornado.gen.coroutine
    def op_state_in_timeouts(self):
        yield self.waits(lambda: self.state.until_state_in('b', 'c', timeout=0.1))

    @tornado.gen.coroutine
    def op_state_cycles(self):
        f = self.state.until_state('b')
        g = self.state.until_state_in('b', 'c')
        self.state.set_state('b')
        yield f
        yield g
        self.state.set_state('a')

    @tornado.gen.coroutine
    def op_until_any(self):
        yield core.until_any(self.never, tornado.gen.sleep(0.01))
        yield core.until_any(self.never, self.event.until_set(), self.state.until_state('c'), tornado.gen.sleep(0.01))

    @tornado.gen.coroutine
    def op_until_any_timeouts(self):
        yield self.waits(lambda: core.until_any(self.never, self.event.until_set(), timeout=0.1))

    @tornado.gen.coroutine
    def op_until_some_timeouts(self):
        yield self.waits(lambda: core.until_some(Future(), tornado.gen.sleep(0.05), done_at_least=2, timeout=0.1),
                         lambda: core.until_some(tornado.gen.sleep(0.05), tornado.gen.sleep(0.05), done_at_least=1))

    @tornado.gen.coroutine
    def op_future_timeouts(self):
        m = core.future_timeout_manager(0.1)
        yield self.waits(lambda: m(tornado.gen.sleep(5)))

    @tornado.gen.coroutine
    def op_aggregate_tree(self):
        self.tree.add(self.agg, lambda p, ks: None, self.kids[:2])
        self.kids[0].set_value(self.rng.randrange(1000))
        self.tree.remove(self.agg)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_new_aggregate_and_children(self):
        agg, kids = Sensor.integer('new', '', ''), [Sensor.integer('n%d' % i, '', '') for i in range(3)]
        self.tree.add(agg, lambda p, ks: None, kids)
        kids[0].set_value(self.rng.randrange(1000))
        self.tree.remove(agg)
        kids[0].set_value(self.rng.randrange(1000))
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_delayed_aggregate(self):
        agg, kids = Sensor.integer('new', '', ''), [Sensor.integer('n%d' % i, '', '') for i in range(3)]
        self.tree.add_delayed(agg, lambda p, ks: None, [k.name for k in kids])
        for k in kids:
            self.tree.register_sensor(k)
        kids[0].set_value(self.rng.randrange(1000))
        self.tree.remove(agg)
        for k in kids:
            self.tree.deregister_sensor(k)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_registered_again(self):
        if not self.delayed:
            self.delayed = True
            self.tree.add_delayed(self.agg, lambda p, ks: None, [k.name for k in self.kids[1:]])
            for k in self.kids[2:]:
                self.tree.register_sensor(k)
        k = Sensor.integer('k1', '', '')
        self.tree.register_sensor(k)
        k.set_value(self.rng.randrange(1000))
        self.tree.deregister_sensor(k)
        k.set_value(self.rng.randrange(1000))
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_registered_while_incomplete(self):
        if not self.incomplete:
            self.incomplete = True
            self.tree.add_delayed(Sensor.integer('waits', '', ''), lambda p, ks: None, ['w0', 'w1'])
        k = Sensor.integer('w0', '', '')
        self.tree.register_sensor(k)
        self.tree.deregister_sensor(k)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_boolean_tree(self):
        k = Sensor.boolean('kid', '', '')
        self.btree.add(self.top, k)
        k.set_value(self.rng.random() < 0.5)
        self.btree.remove(self.top, k)
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_boolean_branch(self):
        for order in ((0, 1, 2), (1, 2, 0), (1, 0, 2)):
            branch, k, l = [Sensor.boolean('kid%d' % i, '', '') for i in range(3)]
            links = [(self.top, branch), (branch, k), (branch, l)]
            for parent, child in links:
                self.btree.add(parent, child)
            k.set_value(self.rng.random() < 0.5)
            l.set_value(False)
            for i in order:
                self.btree.remove(*links[i])
        yield tornado.gen.moment

    @tornado.gen.coroutine
    def op_new_tree(self):
        t = BooleanSensorTree()
        a, b = Sensor.boolean('a', '', ''), Sensor.boolean('b', '', '')
        t.add(a, b)
        b.set_value(True)
        yield tornado.gen.moment


RIGS = [ServerRig, OldServerRig, NewServerRig, ClientRig, ClientWithoutIdsRig, OfflineRig, InspectingRig, InspectingV4Rig, ResourceRig,
        ContainerRig, PartsRig, ThreadRig]


def explain(name):
    """What holds one of the objects of a type."""
    objs = [o for o in gc.get_objects() if type_name(o) == name][-1:]
    out = []
    for o in objs:
        for _ in range(5):
            refs = [r for r in gc.get_referrers(o) if r is not objs and type(r).__name__ != 'frame'][:1]
            if not refs:
                break
            o = refs[0]
            out.append('%s %s' % (type_name(o), repr(o)[:160]))
    return out


def run(ctx):
    ctx.rule = 'a case is an operation (or a random sequence of operations) on a rig; repetitions within it are not counted'
    ctx.assumptions = ['a leak grows by at least one object, open file, thread or timer per repetition']
    only = os.environ.get('C28_ONLY')
    for cls in RIGS:
        for name in cls.ops():
            if only and only not in '%s.%s' % (cls.__name__, name):
                continue
            one(ctx, cls, [name], 6)
    i = 0
    while not only and ctx.more(i, 0, 400, thorough_s=560):
        rng = ctx.subrng('mix', i)
        cls = rng.choice(RIGS[:-1])
        ops = cls.ops()
        one(ctx, cls, [rng.choice(ops) for _ in range(rng.randrange(2, 6))], 5)
        i += 1


def one(ctx, cls, names, k):
    label = '%s.%s' % (cls.__name__, '+'.join(n[3:] for n in names))
    rig = cls(ctx, ctx.subrng(label))
    rig.run(rig.setup)
    try:
        grown = rig.measure(names, k)
        if grown:
            # again, for longer
            ctx.observe('repeated')
            grown = rig.measure(names, 4 * k, warm=0, periods=3)
        if grown:
            ctx.violation(label, '%s: repeated %d times, these grew each time: %s' % (label, 4 * k, grown),
                          held_by=dict((t, explain(t)) for t in list(grown)[:6]))
    finally:
        rig.finish()
    ctx.case(label)
    ctx.sample({'operation': label})
