"""C24: no peer can starve the others.

Server: a flood of lines of one client (already in the kernel's buffers when the server gets to it)
is interleaved with a request another client makes meanwhile; the order in which the server handles
them is recorded.  Also sustained floods by other processes, and floods of connections.
Client: a flood of lines from the server, during which callbacks, timers and another client on the
same event loop must get their turn; every inform handled takes a virtual millisecond.
"""
import resource
import socket
import subprocess
import sys
import threading
import time

from katcp import AsyncClient, Message
from katcp.inspecting_client import InspectingClientAsync

from .. import common, vloop
from . import adv, srv, wire

STALL = common.STALL

BAD = [b'bad', b'?', b'?1x', b'?x[', b'!x[0]', b'\xff\xfe', b'?a \\q', b'??', b'hello world', b'#a b\\']
LONGEST_WAIT = 100
KINDS = ['valid', 'async', 'failing', 'unknown', 'malformed', 'malformed', 'blank', 'informs', 'replies', 'mixed', 'crlf']


class FloodDev(srv.Dev):
    """Logs the order of the requests `trigger`, `probe` and `mark`."""

    def setup_sensors(self):
        super(FloodDev, self).setup_sensors()
        self.order = []
        self.on_trigger = None

        self.turns = []

        self.gate = threading.Event()

    def request_gate(self, req, msg):
        """Keeps the handler busy."""
        self.gate.wait(STALL)
        return req.make_reply('ok')

    def request_turn(self, req, msg):
        """Takes its time."""
        self.turns.append(int(msg.arguments[0]))
        time.sleep(0.0005)
        return req.make_reply('ok')

    def request_trigger(self, req, msg):
        """Something happens meanwhile."""
        self.order.append('trigger')
        self.on_trigger()
        return req.make_reply('ok')

    def request_probe(self, req, msg):
        """The other client's request."""
        self.order.append('probe')
        return req.make_reply('ok')

    def request_mark(self, req, msg):
        """The end of the flood."""
        self.order.append('mark')
        return req.make_reply('ok')


def flood_lines(rng, kind, n):
    one = {
        'valid': lambda: b'?sync u',
        'async': lambda: b'?async u',
        'failing': lambda: b'?failing u',
        'unknown': lambda: b'?nosuch',
        'malformed': lambda: rng.choice(BAD),
        'blank': lambda: b'',
        'crlf': lambda: b'\r',
        'informs': lambda: b'#x y',
        'replies': lambda: b'!x ok',
    }
    if kind == 'mixed':
        ks = rng.sample(sorted(one), 3)
        return [one[rng.choice(ks)]() for _ in range(n)]
    if kind == 'malformed' and rng.random() < 0.5:
        l = rng.choice(BAD)
        return [l] * n
    return [one[kind]() for _ in range(n)]


def server_order(ctx, rng, label):
    mode = rng.choice(list(srv.MODES))
    kind = rng.choice(KINDS)
    n = rng.choice([300, 1000, 2500])
    if kind in ('valid', 'async', 'failing', 'mixed') and mode != 'ioloop':
        n = 300
    s = srv.make_server(mode, rng.choice([4, 5]), cls=FloodDev)
    label = '%s: %s, %d x %s' % (label, mode, n, kind)
    try:
        a, b = srv.RawClient(s.bind_address), srv.RawClient(s.bind_address)
        srv.after_greeting(a)
        srv.after_greeting(b)
        s.on_trigger = lambda: b.send(b'?probe\n')
        blob = b'?trigger\n' + b'\n'.join(flood_lines(rng, kind, n)) + b'\n?mark\n'
        held, go = threading.Event(), threading.Event()

        def hold():
            held.set()
            go.wait(STALL)
        s.ioloop.add_callback(hold)
        held.wait(STALL)
        t = threading.Thread(target=a.send, args=(blob,))
        t.daemon = True
        t.start()
        t.join(0.2)              # the kernel takes it all, or at least a good deal
        go.set()
        ok = a.wait_line(b'!mark ok') is not None and b.wait_line(b'!probe ok') is not None
        order = list(s.order)
        if not ok or sorted(order) != ['mark', 'probe', 'trigger']:
            ctx.violation('flood-dead', '%s: not answered after the flood: %r' % (label, order))
        else:
            ctx.expect(order.index('probe') < order.index('mark'), 'starved', '%s: the request another client made after the '
                       'first line of the flood was only handled after its last line' % label)
        ctx.observe('server_floods_ordered')
        ctx.observe('flood_lines', n)
        ctx.case(('order', mode, kind, n, hash(blob)))
        a.close(), b.close()
    finally:
        srv.stop_server(s)


def server_turns(ctx, rng, label):
    """Several clients pipeline requests: they are served in turn."""
    mode = rng.choice(list(srv.MODES))
    k, m = rng.choice([(3, 150), (4, 120), (8, 60)])
    s = srv.make_server(mode, rng.choice([4, 5]), cls=FloodDev)
    label = '%s: %s, %d clients with %d requests each' % (label, mode, k, m)
    cs = []
    try:
        for i in range(k):
            cs.append(srv.after_greeting(srv.RawClient(s.bind_address)))
        held, go = threading.Event(), threading.Event()

        def hold():
            held.set()
            go.wait(STALL)
        s.ioloop.add_callback(hold)
        held.wait(STALL)
        for i, c in enumerate(cs):
            c.send(b''.join(b'?turn %d %d\n' % (i, j) for j in range(m)))
        go.set()
        for i, c in enumerate(cs):
            if not c.wait(lambda lines: sum(l.startswith(b'!turn ok') for l in lines) >= m):
                ctx.violation('flood-dead', '%s: client %d got %d replies' % (label, i, sum(
                    l.startswith(b'!turn') for l in c.snapshot())))
                return
        turns = list(s.turns)
        ctx.expect(len(turns) == k * m, 'flood-dead', '%s: %d handled' % (label, len(turns)))
        worst = 0
        for i in range(k):
            at = [-1] + [p for p, x in enumerate(turns) if x == i]
            worst = max(worst, max(b - a for a, b in zip(at, at[1:])))
        ctx.expect(worst <= LONGEST_WAIT, 'starved', '%s: between two requests of one client, %d of the others were handled'
                   % (label, worst))
        ctx.observe('turns_recorded', len(turns))
        ctx.extra_max = max(getattr(ctx, 'extra_max', 0), worst)
        ctx.case(('turns', mode, k, m, tuple(turns)))
    finally:
        for c in cs:
            c.close()
        srv.stop_server(s)


def server_crowd(ctx, rng, label):
    """So many clients that not all of their requests can be queued: each gets one answer."""
    n = rng.choice([290, 310, 330])
    if resource.getrlimit(resource.RLIMIT_NOFILE)[0] < 2 * n + 100:
        return
    s = srv.make_server('handler-thread', 5, cls=FloodDev)
    label = '%s: %d clients' % (label, n)
    ss = []
    try:
        b = srv.after_greeting(srv.RawClient(s.bind_address))
        b.send(b'?gate\n')
        for i in range(n):
            time.sleep(0.003)          # the backlog is short
            k = socket.create_connection(s.bind_address, STALL)
            ss.append(k)
            k.sendall(b'?turn[7] %d\n' % i)
        time.sleep(0.5)
        s.gate.set()
        refused = 0
        for i, k in enumerate(ss):
            k.settimeout(STALL)
            k.sendall(b'?watchdog[8]\n')
            data = b''
            try:
                while b'!watchdog[8] ok\n' not in data:
                    x = k.recv(65536)
                    if not x:
                        break
                    data += x
            except socket.timeout:
                pass
            got = [l for l in data.split(b'\n') if l.startswith((b'!turn', b'!watchdog'))]
            if len(got) != 2 or not got[0].startswith((b'!turn[7] ok', b'!turn[7] fail ')) or got[1] != b'!watchdog[8] ok':
                ctx.violation('flood-dead', '%s: client %d got the replies %r' % (label, i, got))
                return
            refused += got[0].startswith(b'!turn[7] fail')
        ctx.expect(b.barrier(), 'flood-dead', '%s: the first client is not answered' % label)
        b.close()
        ctx.observe('crowd_requests', n)
        ctx.observe('crowd_requests_refused', refused)
        ctx.case(('crowd', n, refused))
    finally:
        s.gate.set()
        for k in ss:
            k.close()
        srv.stop_server(s)


FLOODER = r"""
import socket, sys, threading, time
port, secs, line = int(sys.argv[1]), float(sys.argv[2]), eval(sys.argv[3])
end = time.time() + secs
if line is None:
    while time.time() < end:
        try:
            socket.create_connection(('127.0.0.1', port), 5).close()
        except OSError:
            pass
    sys.exit()
s = socket.create_connection(('127.0.0.1', port))
def drain():
    try:
        while s.recv(1 << 20):
            pass
    except OSError:
        pass
t = threading.Thread(target=drain)
t.daemon = True
t.start()
blob = (line + b'\n') * 4000
s.settimeout(secs)
try:
    print('flooding')
    sys.stdout.flush()
    while time.time() < end:
        s.sendall(blob)
except OSError:
    pass
"""


def server_sustained(ctx, rng, label):
    """Another process floods the server as fast as it can; other clients must get answers meanwhile."""
    mode = rng.choice(list(srv.MODES))
    line = rng.choice([rng.choice(BAD), rng.choice(BAD), b'', b'?watchdog', b'?nosuch', b'#x', b'!y ok', None])
    s = srv.make_server(mode, 5, cls=FloodDev)
    label = '%s: %s, endless %r' % (label, mode, line)
    procs = []
    try:
        b = srv.RawClient(s.bind_address)
        srv.after_greeting(b)
        for _ in range(rng.choice([1, 2])):
            procs.append(subprocess.Popen([sys.executable, '-c', FLOODER, str(s.bind_address[1]), str(3 * STALL), repr(line)],
                                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
        if line is not None:
            for p in procs:
                p.stdout.readline()
        time.sleep(0.3)
        n = 0
        for k in range(30):
            if not b.barrier():
                ctx.violation('starved', '%s: another client got no answer for %g s (after %d)' % (label, STALL, n))
                return
            n += 1
        c = srv.RawClient(s.bind_address)
        ctx.expect(c.barrier(), 'starved', '%s: a new client got no answer for %g s' % (label, STALL))
        c.close()
        ctx.expect(all(p.poll() is None for p in procs), 'flooder', '%s: the flooding process ended early' % label) \
            if line is None else None
        ctx.observe('answers_during_floods', n)
        ctx.case(('sustained', mode, line))
        b.close()
    finally:
        for p in procs:
            p.kill()
        for p in procs:
            p.wait()
            p.stdout.close()
        srv.stop_server(s)


def flooded(base, scenario):
    class Client(base):
        def unhandled_inform(self, msg):
            if msg.name == 'tick':
                scenario.tick()
    Client.__name__ = 'Flooded' + base.__name__
    return Client


class ClientFlood(object):
    """A server floods a client with informs (and rubbish) that are all there at once."""

    LIMIT = 0.1           # the documented MAX_LOOP_LATENCY is 0.03 s

    def __init__(self, ctx, rng, label):
        self.ctx, self.rng = ctx, rng
        self.clock = vloop.Clock(start=5000.0, grace=0.002)
        self.clock.max_spins = 10 ** 7
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.cost = rng.choice([0.001, 0.002, 0.005])
        self.n = int(rng.choice([0.5, 1.0]) / self.cost)
        self.base = rng.choice([AsyncClient, AsyncClient, InspectingClientAsync])
        self.kind = rng.choice(['informs', 'informs', 'mixed', 'crlf'])
        self.label = '%s: %s, %d x %s of %g s' % (label, self.base.__name__, self.n, self.kind, self.cost)
        self.server = adv.AdvServer(self.loop, adv.GREETS[rng.choice(['5-MI', '4'])], self.on_request)
        self.server.up()
        if self.base is AsyncClient:
            self.client = self.sub = flooded(AsyncClient, self)(*self.server.addr)
            self.client.set_ioloop(self.loop)
            self.other = AsyncClient(*self.server.addr)
            self.other.set_ioloop(self.loop)
        else:
            self.client = InspectingClientAsync(self.server.addr[0], self.server.addr[1], initial_inspection=False, ioloop=self.loop)
            self.client.katcp_client.hook_inform('tick', lambda m: self.tick())
            self.other = AsyncClient(*self.server.addr)
            self.other.set_ioloop(self.loop)
        self.ticks = 0
        self.seen = {}
        self.done = False

    def on_request(self, conn, m):
        conn.say(wire.encode('reply', m[1], m[2], [b'ok', b'0']))

    def note(self, what):
        if what not in self.seen:
            self.seen[what] = (self.ticks, self.loop.time())

    def tick(self):
        self.ticks += 1
        self.clock.now += self.cost
        if self.ticks == 5:
            self.t5 = self.loop.time()
            self.loop.add_callback(self.note, 'callback')
            self.loop.call_later(0.0, self.note, 'timer')
            self.other.ioloop.add_callback(self.ask)
        if self.ticks == self.n:
            self.note('end')

    def ask(self):
        f = self.other.future_request(Message.request('ask'))
        f.add_done_callback(lambda f: self.note('other client'))

    def wait(self, cond, secs):
        """Run the loop until cond() or that much virtual time has passed."""
        end = self.loop.time() + secs

        def poll():
            if cond() or self.loop.time() > end:
                self.loop.stop()
            else:
                self.loop.call_later(0.05, poll)
        self.loop.add_callback(poll)
        self.loop.start()
        return cond()

    def go(self):
        ctx, rng = self.ctx, self.rng
        self.other.start()
        if self.base is AsyncClient:
            self.client.start()
            up = lambda: self.client.is_connected() and self.other.is_connected()
        else:
            self.client.connect()
            up = lambda: self.client.katcp_client.is_connected() and self.other.is_connected()
        if not self.wait(up, 30):
            raise common.Inconclusive('client does not connect')
        self.wait(lambda: False, 2)
        conn = next(c for c in self.server.conns if c.open and c.sock.getpeername()[1] == self.local_port())
        lines = []
        for i in range(self.n):
            lines.append(b'#tick')
            if self.kind == 'mixed':
                lines.extend(rng.choice([b'#other', b'bad', b'!gone[99] ok', b'', b'?x']) for _ in range(rng.choice([0, 1, 2])))
        eol = b'\r\n' if self.kind == 'crlf' else b'\n'
        conn.write(eol.join(lines) + eol)
        self.wait(lambda: 'end' in self.seen and 'other client' in self.seen, 60)
        if 'end' not in self.seen:
            ctx.violation('client-lost', '%s: %d of %d informs were handled' % (self.label, self.ticks, self.n))
            return
        for what in ('callback', 'timer'):
            k, t = self.seen.get(what, (None, None))
            ctx.expect(t is not None and t - self.t5 <= self.LIMIT + 1e-9, 'client-starved', '%s: the %s due at inform 5 only ran '
                       'at inform %r, %r s later' % (self.label, what, k, t and t - self.t5))
        k = self.seen.get('other client', (None,))[0]
        ctx.expect(k is not None and k < self.n, 'client-starved', '%s: the request of another client of the loop was only answered '
                   'after the flood (%r)' % (self.label, k))
        ctx.observe('client_floods')
        ctx.observe('informs_flooded', self.n)
        ctx.case(('client', self.base.__name__, self.kind, self.n, self.cost, self.seen.get('callback', (0,))[0], k))

    def local_port(self):
        c = self.client if self.base is AsyncClient else self.client.katcp_client
        return c._stream.socket.getsockname()[1]

    def close(self):
        self.other.stop()
        self.client.stop()
        self.server.finish()
        self.wait(lambda: False, 3)
        self.loop.clear_current()
        self.loop.close()


def run(ctx):
    ctx.rule = ('one case = one flood (of lines or connections) with the turns that others got meanwhile')
    ctx.assumptions = ['a client may keep its event loop for up to 0.1 s (documented: 0.03 s)',
                       'the server may handle any number of lines of one client before others get their turn, but not thousands']
    i = 0
    while ctx.more(i, 144, 3000, quick_s=60, thorough_s=400):
        label = 'flood %d' % i
        if i % 24 == 12:
            server_sustained(ctx, ctx.rng, label)
        elif i % 100 == 34:
            server_crowd(ctx, ctx.rng, label)
        elif i % 8 == 3:
            server_turns(ctx, ctx.rng, label)
        elif i % 2:
            server_order(ctx, ctx.rng, label)
        else:
            c = ClientFlood(ctx, ctx.rng, label)
            try:
                c.go()
            finally:
                c.close()
        i += 1
        if len(ctx.violations) > 3:
            break
