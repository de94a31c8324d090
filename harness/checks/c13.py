"""C13: clients are greeted, listed, broadcast to and told about shutdown."""
import re
import socket
import threading
import time

import tornado.ioloop

from katcp import Message, Sensor

from .. import common, perturb
from . import srv, wire

STALL = common.STALL


class Host(srv.Dev):
    def setup_sensors(self):
        super(Host, self).setup_sensors()
        self.hooks = []
        self.conns = {}
        self.hook_lock = threading.Lock()
        self.ticker = Sensor.integer('ticker', '', '')
        self.add_sensor(self.ticker)

    def on_client_connect(self, conn):
        with self.hook_lock:
            self.hooks.append(('connect', conn.address, None, None))
            self.conns[conn.address] = conn
        return super(Host, self).on_client_connect(conn)

    def on_client_disconnect(self, conn, msg, valid):
        with self.hook_lock:
            self.hooks.append(('disconnect', conn.address, msg, valid))
        return super(Host, self).on_client_disconnect(conn, msg, valid)

    def request_broadcast(self, req, msg):
        """Send some mass informs, then reply."""
        who, first, n = msg.arguments[0], int(msg.arguments[1]), int(msg.arguments[2])
        for i in range(first, first + n):
            if i % 2:
                self.mass_inform(Message.inform('bc', who, i))
            else:
                req.client_connection.mass_inform(Message.inform('bc', who, i))
        return req.make_reply('ok', who, first)

    def request_tell(self, req, msg):
        """Send an inform to one other client."""
        self.inform(self.conns[msg.arguments[0].decode()], Message.inform('told', msg.arguments[1]))
        return req.make_reply('ok')


def greeting_of(major, minor, flags):
    if major >= 5:
        pv = '%d.%d' % (major, minor) + ('-' + ''.join(sorted(flags)) if flags else '')
        return [b'#version-connect katcp-protocol ' + pv.encode(), b'#version-connect katcp-library katcp-python-',
                b'#version-connect katcp-device verif-dev-1.2 verif-build-3.4rc5']
    return [b'#version verif-dev-1.2', b'#build-state verif-build-3.4rc5']


def check_greeting(ctx, lab, c, want):
    lines = c.snapshot()[:len(want) + 1]
    ok = len(lines) >= len(want) and all(
        (g == w if not w.endswith(b'-') else g.startswith(w)) for g, w in zip(lines, want))
    ctx.expect(ok and not (len(lines) > len(want) and lines[len(want)].startswith((b'#version', b'#build-state'))),
               'greeting', '%s: connection starts with %r' % (lab, lines))
    ctx.observe('greetings')


BC = re.compile(br'^#bc (\S+) (\d+)(?: p*)?$')
PAD = b'p' * 50000


class Sender(object):
    """One numbered stream of mass informs with the recipients that must get each."""

    def __init__(self, name):
        self.name = name
        self.n = 0           # informs known to have been issued
        self.begun = 0       # a background sender may just be issuing one more


class Client(srv.RawClient):
    def __init__(self, addr, rcvbuf=None, reading=True):
        self.since = {}       # sender -> first number that must arrive
        self.until = {}       # sender -> one past the last number that must arrive
        self.told = []
        self.stalled = not reading
        super(Client, self).__init__(addr, rcvbuf=rcvbuf, reading=reading)


def check_streams(ctx, lab, c, final):
    """`final`: {sender: numbers sent}; everything in [since, until) is there, once, in order."""
    got = {}
    for x in c.snapshot():
        m = BC.match(x)
        if m:
            got.setdefault(m.group(1).decode(), []).append(int(m.group(2)))
        elif x.startswith(b'#bc'):
            ctx.violation('mass-inform', '%s: mangled inform %r' % (lab, x))
    for s, sent in final.items():
        g = got.get(s, [])
        lo, hi = c.since.get(s, sent), c.until.get(s, sent)
        ctx.expect(all(b == a + 1 for a, b in zip(g, g[1:])), 'mass-inform-order', '%s: %s got %s.. of sender %s'
                   % (lab, c.name, [(a, b) for a, b in zip(g, g[1:]) if b != a + 1][:3], s))
        ctx.expect(lo >= hi or (g and g[0] <= lo and g[-1] >= hi - 1), 'mass-inform-lost',
                   '%s: %s must get [%d, %d) of sender %s, got %s' % (lab, c.name, lo, hi, s, (g[0], g[-1]) if g else None))
        ctx.observe('mass_informs_received', len(g))


def churn(ctx, rng, mode, label):
    major, minor, flags = rng.choice([(4, 0, 'M'), (5, 0, 'IM'), (5, 0, 'M'), (5, 1, 'IMTB'), (5, 0, '')])
    loop_thread, attrs = None, {}
    server = srv.make_server(mode, major, flags, cls=Host, minor=minor, start=False, **attrs)
    if rng.random() < 0.3:
        loop_thread = shared_loop(server)
    server.start(timeout=STALL)
    lab = '%s v%d.%d%s' % (label, major, minor, flags)
    want = greeting_of(major, minor, flags)
    ids = 'I' in flags
    cs, gone = [], []
    senders = [Sender('m'), Sender('h'), Sender('l')]
    threads, stop = [], threading.Event()
    try:
        def background(s, pause):
            while not stop.is_set():
                s.begun = s.n + 1
                server.mass_inform(Message.inform('bc', s.name, s.n))
                s.n += 1
                if s.n % 10 == 0:
                    server.sync_with_ioloop()      # never more than a few are waiting
                time.sleep(pause)

        for k in range(rng.choice([0, 1, 2])):
            s = Sender('t%d' % k)
            senders.append(s)
            threads.append(threading.Thread(target=background, args=(s, rng.choice([0.0005, 0.003]))))
        for t in threads:
            t.daemon = True
            t.start()

        def mark_connected(c):
            for s in senders:
                c.since[s.name] = max(s.begun, s.n)

        def barrier(c):
            if ids:
                return c.barrier()
            start = len(c.snapshot())
            uid = b'bar%d' % start
            c.send(b'?echo ' + uid + b'\n')
            return c.wait_line(b'!echo ok ' + uid, start) is not None

        def connect():
            pre = rng.random() < 0.4
            c = Client(server.bind_address)
            if pre:
                c.send(b'?echo early\n')
            if not ctx.expect(barrier(c), 'no-answer', '%s: fresh connection is not served' % lab):
                raise common.Violated('fresh connection')
            mark_connected(c)
            check_greeting(ctx, lab, c, want)
            cs.append(c)

        def settle_until(c):
            """Everything sent so far is out to c."""
            marks = dict((s.name, s.n) for s in senders)
            # an inform from a thread is queued; one request may still overtake it, the next cannot
            ok = barrier(c) and barrier(c)
            ctx.expect(ok, 'no-answer', '%s: connected client is not served' % lab)
            return marks

        connect()
        for k in range(rng.choice([12, 30])):
            op = rng.choice(['connect', 'connect', 'close', 'kick', 'main', 'main', 'handler', 'loop', 'list', 'list', 'tell', 'stall', 'junk'])
            if op == 'connect' and len(cs) < 12:
                connect()
            elif op == 'close' and len(cs) > 1:
                c = cs.pop(rng.randrange(len(cs)))
                c.until = settle_until(c)
                how = rng.choice(['fin', 'rst', 'half', 'pending'])
                if how == 'half':
                    c.half_close()
                elif how == 'pending':
                    c.send(b'?fut bye 2\n?broadcast')
                    c.close()
                else:
                    c.close(rst=how == 'rst')
                gone.append(c)
            elif op == 'kick' and len(cs) > 1:
                c = cs.pop(rng.randrange(len(cs)))
                conn = server.conns[c.name]
                c.until = settle_until(c)
                reason = rng.choice(['go away', 'x', 'caf\xe9 \\ \n'])
                srv.in_loop(server, lambda: conn.disconnect(reason))
                ctx.expect(c.wait(lambda _: c.eof) or c.eof, 'kick-no-close', '%s: client told to go is still connected' % lab)
                check_goodbye(ctx, lab, c, reason)
                gone.append(c)
            elif op in ('main', 'loop'):
                s = senders[0] if op == 'main' else senders[2]
                n = rng.choice([1, 2, 7])

                def emit(s=s, n=n):
                    for _ in range(n):
                        server.mass_inform(Message.inform('bc', s.name, s.n))
                        s.n += 1
                if op == 'main':
                    emit()
                else:
                    srv.in_loop(server, emit)
            elif op == 'handler':
                s, n = senders[1], rng.choice([1, 3])
                c = rng.choice(cs)
                start = len(c.snapshot())
                c.send(b'?broadcast h %d %d\n' % (s.n, n))
                i = c.wait_line(b'!broadcast', start)
                ctx.expect(i is not None and wire.decode(c.lines[i])[3][0] == b'ok', 'broadcast', '%s: mass inform in a handler failed: %r'
                           % (lab, i and c.lines[i]))
                got = [x for x in c.snapshot()[start:i] if x.startswith(b'#bc h ') and int(x.split()[2]) >= s.n]
                ctx.expect(i is not None and len(got) == n, 'mass-inform-reply-order', '%s: %d of %d mass informs before the reply' % (lab, len(got), n))
                s.n += n
            elif op == 'tell':
                a, b = rng.choice(cs), rng.choice(cs)
                uid = 'u%d' % k
                start = len(a.snapshot())
                a.send(b'?tell %s %s\n' % (b.name.encode(), uid.encode()))
                a.wait_line(b'!tell', start)
                barrier(b)
                b.told.append(uid.encode())
            elif op == 'stall' and len(cs) < 12:
                # does not read for a while; nothing may be lost below the buffer limit
                heavy = rng.random() < 0.2      # more than the kernel buffers
                c = Client(server.bind_address, rcvbuf=4096 if heavy else None, reading=False)
                c.send(b'?echo up\n')
                c.pull(b'!echo')
                head = c.buf
                c.buf, c.lines = head.split(b'\n')[-1], head.split(b'\n')[:-1]
                mark_connected(c)
                if heavy:
                    for other in cs:
                        barrier(other)
                    for _ in range(68):
                        server.mass_inform(Message.inform('bc', 'm', senders[0].n, PAD))
                        senders[0].n += 1
                    for other in cs:
                        barrier(other)
                    ctx.observe('broadcasts_to_full_buffers')
                for _ in range(rng.choice([50, 300])):
                    server.mass_inform(Message.inform('bc', 'm', senders[0].n))
                    senders[0].n += 1
                c.start_reading()
                cs.append(c)
            elif op == 'junk':
                rng.choice(cs).send(rng.choice([b'\n\n', b'junk\n', b'\xff\n', b'?nosuch\n', b'#what ever\n', b'!re ply\n']))
            if op == 'list' or rng.random() < 0.15:
                names = sorted(c.name.encode() for c in cs)
                last = [None]

                def agrees():
                    c = rng.choice(cs)
                    start = len(c.snapshot())
                    uid = b'l%d' % start
                    c.send(b'?client-list\n?echo ' + uid + b'\n')
                    if c.wait_line(b'!echo ok ' + uid, start) is None:
                        last[0] = 'no answer'
                        return False
                    seen = c.snapshot()[start:]
                    got = sorted(wire.decode(x)[3][0] for x in seen if x.startswith(b'#client-list'))
                    rep = [wire.decode(x)[3] for x in seen if x.startswith(b'!client-list')]
                    last[0] = (got, rep)
                    return got == names and rep == [[b'ok', b'%d' % len(names)]]
                # closed peers need a moment until the server noticed
                ctx.expect(common.wait_until(agrees, step=0.01), 'client-list', '%s: connected %r, listed %r' % (lab, names, last[0]))
                ctx.observe('client_lists')
            ctx.case('%s %s %d %d' % (label, op, k, len(cs)))
        stop.set()
        for t in threads:
            t.join(STALL)
        final = dict((s.name, s.n) for s in senders)
        for c in cs:
            ctx.expect(barrier(c), 'no-answer', '%s: connected client is not served' % lab)
            ctx.expect(barrier(c), 'no-answer', '%s: connected client is not served' % lab)
        for c in cs + gone:
            check_streams(ctx, lab, c, final)
            told = [wire.decode(x)[3][0] for x in c.snapshot() if x.startswith(b'#told')]
            ctx.expect(told == c.told, 'inform-one', '%s: %s was told %r, expected %r' % (lab, c.name, told, c.told))
        check_hooks(ctx, lab, server, [c.name for c in cs], [c.name for c in gone])
        shutdown(ctx, rng, lab, server, cs, mode, ids, final)
        check_hooks(ctx, lab, server, [], [c.name for c in cs + gone])
    finally:
        stop.set()
        for c in cs + gone:
            c.close()
        end_server(server, loop_thread)


def check_goodbye(ctx, lab, c, reason=None):
    lines = [x for x in c.snapshot() if x.strip()]
    ok = bool(lines) and lines[-1].startswith(b'#disconnect') and sum(x.startswith(b'#disconnect') for x in lines) == 1
    if ok and reason is not None:
        ok = wire.decode(lines[-1])[3] == [reason.encode('utf-8')]
    elif ok:
        ok = len(wire.decode(lines[-1])[3]) == 1
    ctx.expect(ok and not c.buf.strip(), 'goodbye', '%s: %s ends with %r %r (%d disconnect informs)'
               % (lab, c.name, lines[-2:], c.buf, sum(x.startswith(b'#disconnect') for x in lines)))
    ctx.observe('goodbyes')


def check_hooks(ctx, lab, server, here, gone):
    def agrees():
        with server.hook_lock:
            h = list(server.hooks)
        a = sorted(x[1] for x in h if x[0] == 'connect')
        b = sorted(x[1] for x in h if x[0] == 'disconnect')
        return a == sorted(here + gone) and b == sorted(gone)
    ctx.expect(common.wait_until(agrees), 'hooks', '%s: connect/disconnect hooks %r for open %r and closed %r'
               % (lab, [x[:2] for x in server.hooks], here, gone))
    h = list(server.hooks)
    for a in here + gone:
        seq = [x[0] for x in h if x[1] == a]
        ctx.expect(seq == ['connect', 'disconnect'][:len(seq)], 'hooks', '%s: %s had hooks %r' % (lab, a, seq))


def shared_loop(server):
    loop = tornado.ioloop.IOLoop()

    def go():
        loop.make_current()
        loop.start()
        loop.close(all_fds=True)
    t = threading.Thread(target=go)
    t.daemon = True
    t.start()
    server.set_ioloop(loop)
    return t, loop


def end_server(server, loop_thread):
    try:
        if server.running():
            f = server.stop(timeout=STALL)
            f.result(STALL)
        server.join(STALL)
    finally:
        if loop_thread:
            loop_thread[1].add_callback(loop_thread[1].stop)
            loop_thread[0].join(STALL)


def shutdown(ctx, rng, lab, server, cs, mode, ids, final):
    """Every client is told before its connection closes."""
    how = rng.choice(['stop', 'stop', 'halt', 'restart'])
    for c in cs:
        if rng.random() < 0.3:
            c.send(b'?hold held%d\n' % rng.randrange(1000))
        if rng.random() < 0.3:
            c.send(b'?sensor-sampling ticker event\n')
    stop = threading.Event()

    def noise():
        i = 0
        while not stop.is_set():
            i += 1
            try:
                server.ticker.set_value(i)
                server.mass_inform(Message.inform('noise', i))
                if i % 10 == 0:
                    server.sync_with_ioloop(1)
            except Exception:    # the event loop is gone
                pass
            time.sleep(0.001)
    ts = []
    slow = None
    if rng.random() < 0.6:
        ts.append(threading.Thread(target=noise))
    if how != 'halt' and rng.random() < 0.5:
        # a client whose output is still queued when the server stops, and then reads on
        slow = Client(server.bind_address, rcvbuf=4096, reading=False)
        slow.send(b'?echo up\n')
        slow.pull(b'!echo')
        pad = b'p' * 1000
        n = rng.choice([400, 4500])
        for i in range(n):
            server.inform(server.conns[slow.name], Message.inform('pad', i, pad)) if mode != 'ioloop' else None
        if mode == 'ioloop':
            srv.in_loop(server, lambda: [server.inform(server.conns[slow.name], Message.inform('pad', i, pad)) for i in range(n)])
        cs.append(slow)
    for t in ts:
        t.daemon = True
        t.start()
    if ts:
        time.sleep(rng.choice([0, 0.003]))
    try:
        if how == 'halt':
            c = rng.choice(cs)
            # earlier requests may be held; the halt request uses a connection of its own
            c = Client(server.bind_address)
            cs.append(c)
            c.send(b'?halt\n')
            ctx.expect(c.wait_line(b'!halt ok') is not None, 'halt-reply', '%s: ?halt not answered' % lab)
        elif how == 'restart':
            import queue
            q = queue.Queue()
            server.set_restart_queue(q)
            c = Client(server.bind_address)
            cs.append(c)
            c.send(b'?restart\n')
            ctx.expect(c.wait_line(b'!restart ok') is not None, 'restart-reply', '%s: ?restart not answered' % lab)
            who = q.get(timeout=STALL)
            ctx.expect(who is server, 'restart-queue', '%s: restart queue got %r' % (lab, who))
            server.stop(timeout=STALL)
        else:
            server.stop(timeout=STALL)
        if slow:
            slow.start_reading()
        for c in cs:
            c.wait(lambda _: c.eof)
            ctx.expect(c.eof, 'not-closed', '%s: connection still open after %s' % (lab, how))
        stop.set()
        for c in cs:
            check_goodbye(ctx, '%s %s%s%s' % (lab, how, ' slow' if c is slow else '', ' noisy' if ts else ''), c)
        server.join(STALL)
        ctx.expect(not server.running(), 'still-running', '%s: running after %s' % (lab, how))
        s = socket.socket()
        try:
            s.connect(server.bind_address)
            ctx.violation('still-listening', '%s: accepts connections after %s' % (lab, how))
        except OSError:
            pass
        finally:
            s.close()
    finally:
        stop.set()
        for t in ts:
            t.join(STALL)
    ctx.observe('shutdowns_' + how)


def run(ctx):
    ctx.rule = 'one case = one operation of a connect/close/broadcast/list/shutdown history'
    ctx.assumptions = ['clients that are behind at shutdown read on within the disconnect timeout']
    done = 0
    for i in range(10 ** 6):
        if not ctx.more(done, 90, 3000, 40, 400):
            break
        mode = list(srv.MODES)[i % 3]
        with perturb.Perturb(ctx, ctx.subrng('p', i), on=i % 4 == 3):
            churn(ctx, ctx.subrng('q', i), mode, '%s %d' % (mode, i))
        done += 1
        if ctx.violations and done > 3:
            break
