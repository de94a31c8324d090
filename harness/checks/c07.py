"""C07: hostile or broken clients never take the server down."""
import time

import katcp.server
from katcp import Sensor

from .. import common
from . import srv, wire

MAXMSG = 128 * 1024
MAXWRITE = 256 * 1024
# What the kernel may hold of a loopback connection beyond the server's own buffer.
KERNEL = 12 * 1024 * 1024


class Dev(srv.Dev):
    def setup_sensors(self):
        srv.Dev.setup_sensors(self)
        for i, t in enumerate((Sensor.INTEGER, Sensor.FLOAT, Sensor.BOOLEAN, Sensor.STRING)):
            self.add_sensor(Sensor(t, 'sens%d' % i, 'Sensor %d' % i, '', None))

    def request_flood(self, req, msg):
        """Send many informs."""
        n, size = int(msg.arguments[1]), int(msg.arguments[2])
        for i in range(n):
            req.inform(msg.arguments[0], i, b'x' * size)
        return req.make_reply('ok', msg.arguments[0], n)

    def inform_told(self, conn, msg):
        """An inform handler that fails."""
        raise ValueError(msg.arguments[0])

    def reply_told(self, conn, msg):
        """A reply handler that fails."""
        raise ValueError(msg.arguments[0])


class World(object):
    """A server, a witness client that must always be served, and nobody else's business."""

    def __init__(self, ctx, rng, mode, label):
        self.ctx, self.label, self.mode = ctx, label, mode
        katcp.server.KATCPServer.MAX_MSG_SIZE = MAXMSG
        katcp.server.KATCPServer.MAX_WRITE_BUFFER_SIZE = MAXWRITE
        self.server = srv.make_server(mode, rng.choice([5, 5, 4]), cls=Dev)
        self.witness = srv.after_greeting(srv.RawClient(self.server.bind_address))
        self.mark = len(self.witness.snapshot())
        self.clients = []

    def client(self, **kw):
        c = srv.RawClient(self.server.bind_address, **kw)
        self.clients.append(c)
        return c

    def probe(self, why):
        """The witness and a newcomer are served, and the witness heard nothing that is not its own."""
        ctx = self.ctx
        ctx.require(self.witness.barrier(), 'dead-for-others', '%s: the server no longer answers another client after %s'
                    % (self.label, why))
        fresh = srv.RawClient(self.server.bind_address)
        ok = fresh.barrier()
        fresh.close()
        ctx.require(ok, 'dead-for-new', '%s: the server does not serve a new client after %s' % (self.label, why))
        lines = self.witness.snapshot()[self.mark:]
        alien = [x for x in lines if not x.startswith((b'!watchdog[99', b'!client-list[88', b'#client-list[88'))]
        ctx.expect(not alien, 'leaked-to-others', '%s: another client was sent %r after %s' % (self.label, alien[:3], why))
        ctx.observe('liveness_probes')

    def listed(self):
        rep, informs = self.witness.call('client-list')
        return [i[3][0].decode() for i in informs]

    def close(self):
        for c in self.clients:
            c.close()
        self.witness.close()
        for uid in list(self.server.held):
            self.server.release(uid)
        srv.stop_server(self.server)


def bad_line(rng):
    """A line (no terminators inside) that the reference parser refuses."""
    while True:
        k = rng.random()
        if k < 0.3:
            line = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
        elif k < 0.6:
            good = bytearray(wire.encode(*wire.gen_msg(rng)))
            for _ in range(rng.choice([1, 1, 2, 5])):
                p = rng.randrange(len(good))
                if rng.random() < 0.5:
                    good[p] = rng.randrange(256)
                else:
                    del good[p:p + 1]
                if not good:
                    break
            line = bytes(good)
        elif k < 0.8:
            line = rng.choice([b'foo', b'?', b'!', b'#', b'?1', b'?foo[', b'?foo[]', b'?foo[x]', b'?foo[1', b'?foo \\q',
                               b'?foo \\', b'?foo\x00', b'?foo a\x1b', b' ?foo', b'\xff\xfe', b'?f\xc3\xa9', b'?foo[-1]',
                               b'?foo_bar', b'-', b'?echo \\x', b'?echo a\\', b'\t', b' ', b'?foo[\xd9\xa1]', b'?echo%s', b'%s%n'])
        else:
            line = rng.choice([b'?', b'x', b'\\', b'\xff']) * rng.choice([10, 5000, 30000])
        line = line.replace(b'\n', b'').replace(b'\r', b'')
        if not line:
            continue
        try:
            wire.decode(line)
        except wire.Bad:
            return line


def weird_args(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        out.append(rng.choice([b'\xff\xfe', b'\xc3', b'', b'/\xff/', b'/[/', b'/(/', b'//', b'sens0', b'sens0,sens1', b',',
                               b'auto', b'period', b'none', b'nan', b'-1', b'1e400', b'0', b'%s', b'watchdog', b'help',
                               b'\x00', b'a' * 3000, b'/.*/', b'event', b'differential', wire.gen_arg(rng)]))
    return out


def garbage(ctx, rng, w):
    """Malformed lines between good requests."""
    n = rng.choice([1, 2, 3])
    cs = [srv.after_greeting(w.client()) for _ in range(n)]
    marks = [len(c.snapshot()) for c in cs]
    want = [[] for _ in cs]
    bad = [0] * n
    rounds = rng.choice([1, 3])
    uid = 0
    for _ in range(rounds):
        for ci, c in enumerate(cs):
            data = b''
            for _ in range(rng.choice([1, 4, 12])):
                k = rng.random()
                if k < 0.45:
                    data += bad_line(rng) + rng.choice([b'\n', b'\r', b'\r\n'])
                    bad[ci] += 1
                elif k < 0.55:
                    data += rng.choice([b'\n', b'\r\n', b'#told you\n', b'!told \xff\n', b'#unheard \xff\n', b'!echo ok x\n',
                                        b'#told[3]\n', b'!told\n', b'#version-connect katcp-protocol 5.0-IM\n'])
                else:
                    args = [b'g%d-%d' % (ci, uid)] + weird_args(rng)
                    name = rng.choice(['echo', 'echo', 'sync', 'boom', 'failing'])
                    if name != 'echo':
                        args = args[:1]
                    uid += 1
                    mid = b'%d' % uid if rng.random() < 0.6 else None
                    data += wire.encode('request', name, mid, args) + b'\n'
                    want[ci].append((name, mid, args))
            for piece in [data[:len(data) // 2], data[len(data) // 2:]] if rng.random() < 0.5 else [data]:
                c.send(piece)
        for ci, c in enumerate(cs):
            ctx.require(c.barrier(), 'dead-for-client', '%s: client that sent malformed lines is no longer served' % w.label)
            lines = c.snapshot()[marks[ci]:]
            errs = [x for x in lines if x.startswith(b'#log error ')]
            ctx.expect(len(errs) == bad[ci], 'error-informs', '%s: %d malformed lines sent, %d error log informs received'
                       % (w.label, bad[ci], len(errs)))
            replies = [wire.decode(x) for x in lines if x.startswith(b'!') and not x.startswith(b'!watchdog[99')]
            ctx.expect([(r[1], r[2]) for r in replies] == [x[:2] for x in want[ci]], 'replies',
                       '%s: replies %r, requests %r' % (w.label, [(r[1], r[2]) for r in replies][:8], [x[:2] for x in want[ci]][:8]))
            for r, (name, mid, args) in zip(replies, want[ci]):
                exp = {'echo': [b'ok'] + args, 'sync': [b'ok', args[0], b'sync']}.get(name)
                ctx.expect(r[3] == exp if exp else r[3][:1] == [b'fail'], 'reply-content',
                           '%s: %r answered with %r' % (w.label, (name, args), r[3][:4]))
            others = [x for x in lines if not x.startswith((b'!', b'#log error ', b'#sync', b'#boom', b'#failing'))]
            ctx.expect(not others, 'unexpected-lines', '%s: client was sent %r' % (w.label, others[:3]))
        ctx.observe('malformed_lines', sum(bad))
        ctx.observe('good_requests', sum(len(x) for x in want))
        w.probe('malformed lines')
    for c in cs:
        c.close()
    ctx.case('%s %r' % (w.label, bad))


def hostile_arguments(ctx, rng, w):
    """Every built-in request with arguments nobody expects: one reply, server alive."""
    rep, informs = w.witness.call('help')
    names = sorted(i[3][0].decode() for i in informs)
    w.mark = len(w.witness.snapshot())
    builtin = [n for n in ('help', 'log-level', 'restart', 'client-list', 'sensor-list', 'sensor-sampling', 'sensor-value',
                           'watchdog', 'version-list', 'sensor-sampling-clear', 'request-timeout-hint', 'typed', 'nosuch')
               if n in names or n == 'nosuch']
    ctx.require(len(builtin) > 8, 'help', '%s: built-in requests missing from ?help: %r' % (w.label, names))
    c = srv.after_greeting(w.client())
    sent = []
    level0 = w.witness.call('log-level')[0]
    w.mark = len(w.witness.snapshot())
    for i in range(rng.choice([5, 25])):
        name = rng.choice(builtin)
        args = weird_args(rng)
        mid = b'%d' % (i + 1)
        c.send(wire.encode('request', name, mid, args) + b'\n')
        sent.append((name, mid, args))
        if rng.random() < 0.2:
            w.probe('hostile arguments %r' % (sent[-1],))
    ctx.require(c.barrier(), 'dead-for-client', '%s: client is not served after %r' % (w.label, sent))
    replies = {}
    for x in c.snapshot():
        if x.startswith(b'!') and not x.startswith(b'!watchdog[99'):
            t, n, m, a = wire.decode(x)
            replies.setdefault((n, m), []).append(a)
    for name, mid, args in sent:
        got = replies.pop((name, mid), [])
        ctx.expect(len(got) == 1 and got[0][:1] in ([b'ok'], [b'fail'], [b'invalid']), 'one-reply',
                   '%s: ?%s %r got %d replies %r' % (w.label, name, args, len(got), got[:2]))
        ctx.case('args %s %r' % (name, args))
    ctx.expect(not replies, 'alien-reply', '%s: replies without request: %r' % (w.label, list(replies.items())[:2]))
    w.probe('hostile arguments')
    if level0 and level0[3][:1] == [b'ok']:
        w.witness.call('log-level', level0[3][1].decode())
        w.mark = len(w.witness.snapshot())
    c.close()


def oversize(ctx, rng, w):
    """Lines around and over the limit."""
    c = srv.after_greeting(w.client())
    for i in range(rng.choice([1, 2, 4])):
        size = rng.choice([1, 1000, 65535, 65536, MAXMSG // 2])
        c.send(wire.encode('request', 'echo', b'%d' % i, [b'o%d' % i, b'y' * size]) + b'\n')
        idx = c.wait_line(b'!echo[%d] ok ' % i)
        ctx.require(idx is not None and len(c.snapshot()[idx]) == len(b'!echo[%d] ok o%d ' % (i, i)) + size, 'large-line',
                    '%s: a line of %d bytes (limit %d) was not handled' % (w.label, size, MAXMSG))
        ctx.observe('large_lines_handled')
    head = wire.encode('request', 'echo', b'77', [b'over']) + b' '
    total = rng.choice([2 * MAXMSG, 4 * MAXMSG, 12 * MAXMSG])
    junk = rng.choice([b'z', b'\\_', b'\xff'])
    style = rng.choice(['blast', 'trickle', 'terminated'])
    step = 8192 if style == 'trickle' else 1 << 20
    left = total
    alive = c.send(head)
    while left > 0 and alive:
        k = min(step, left)
        alive = c.send((junk * k)[:k])
        left -= k
    if style == 'terminated':
        c.send(b'\n?echo[78] after\n')
    ctx.expect(c.wait(lambda lines: c.eof) or c.eof, 'not-closed', '%s: connection with a line of %d bytes (limit %d) is not '
               'closed (%s)' % (w.label, total, MAXMSG, style))
    got = [x[:80] for x in c.snapshot() if x.startswith(b'!echo[77]')]
    ctx.expect(not got, 'handled-oversize', '%s: an oversized line was handled: %r' % (w.label, got))
    with w.server.trace_lock:
        over = [t for t in w.server.trace if t[0] == 'echo' and t[2][:1] == (b'over',)]
        ctx.expect(not over, 'handled-oversize', '%s: handler was run for an oversized line' % w.label)
    errs = [x for x in c.snapshot() if x.startswith(b'#log error')]
    ctx.expect(len(errs) <= 1, 'error-flood', '%s: %d error informs for one oversized line' % (w.label, len(errs)))
    ctx.observe('oversize_lines')
    w.probe('an oversized line (%s)' % style)
    ctx.case('%s %s %d %r' % (w.label, style, total, junk))


def dropouts(ctx, rng, w):
    """Clients that vanish at any point of their dialogue."""
    plan = []
    keep = [srv.after_greeting(w.client())]
    base = len(w.clients)
    for i in range(rng.choice([3, 8, 20])):
        how = rng.choice(['fin', 'rst', 'half', 'fin', 'rst'])
        doing = rng.choice(['nothing', 'unread', 'partial', 'sync', 'fut', 'async', 'hold', 'hold-async', 'hold-conc', 'flood',
                            'sampling', 'garbage', 'pipeline'])
        c = w.client(reading=doing not in ('unread', 'flood', 'nothing'))
        plan.append((how, doing))
        if doing == 'partial':
            c.send(rng.choice([b'?ec', b'?echo \\', b'?echo[1', b'\xff', b'?echo p']))
        elif doing in ('sync', 'fut', 'async', 'hold', 'hold-async', 'hold-conc'):
            c.send(wire.encode('request', doing, b'1', [b'd%d' % i]) + b'\n')
        elif doing == 'flood':
            c.send(b'?flood[1] f 50 2000\n')
        elif doing == 'sampling':
            c.send(b'?sensor-sampling[1] sens%d %s\n' % (rng.randrange(4), rng.choice([b'auto', b'event', b'period 50'])))
        elif doing == 'garbage':
            c.send(bad_line(rng) + b'\n')
        elif doing == 'pipeline':
            c.send(b''.join(b'?sync[%d] d%d-%d\n' % (k, i, k) for k in range(50)))
        if rng.random() < 0.4:
            time.sleep(rng.choice([0.0005, 0.003]))
        if how == 'half':
            c.half_close()
        else:
            c.close(rst=how == 'rst')
        if rng.random() < 0.2:
            # values for the clients that sample
            sens = w.server.get_sensor('sens0')
            srv.in_loop(w.server, lambda: sens.set_value(rng.randrange(100)))
        if rng.random() < 0.15:
            w.probe('dropouts %r' % (plan,))
    # let held requests of vanished clients finish
    for uid in list(w.server.held):
        w.server.release(uid)
    if rng.random() < 0.5:
        sens = w.server.get_sensor('sens0')
        srv.in_loop(w.server, lambda: sens.set_value(rng.randrange(100)))
    w.probe('dropouts %r' % (plan,))
    for c in keep:
        ctx.require(c.barrier(), 'dead-for-others', '%s: client not served after dropouts %r' % (w.label, plan))

    def settled():
        for uid in list(w.server.held):
            w.server.release(uid)
        return sorted(w.listed()) == sorted([w.witness.name] + [c.name for c in keep])
    ctx.expect(common.wait_until(settled, step=0.01), 'ghost-clients', '%s: closed connections remain: %r'
               % (w.label, [(p, n) for p, n in zip(plan, [c.name for c in w.clients[base:]]) if n in w.listed()] or w.listed()))
    w.mark = len(w.witness.snapshot())
    for c in keep:
        c.close()
    ctx.observe('dropouts', len(plan))
    ctx.case('%s %r' % (w.label, plan))


def stalled(ctx, rng, w):
    """A client that does not read."""
    c = w.client(reading=False)
    c.pull(b'\n')
    small = rng.random() < 0.4
    if small:
        n, size = rng.choice([(10, 5000), (40, 2000), (3, 40000), (1, 100000)])
    else:
        size = rng.choice([1000, 8000, 60000])
        n = (KERNEL + 2 * MAXWRITE) // size
    burst = 1 if small or size > 2000 else rng.choice([1, 4])
    for k in range(burst):
        c.send(b'?flood[%d] st %d %d\n' % (k + 1, n // burst, size))
    # the witness is served meanwhile
    w.probe('a client that does not read (%d x %d)' % (n, size))
    if small:
        c.start_reading()
        ctx.expect(c.wait_line(b'!flood[1] ok') is not None, 'lost-output', '%s: %d bytes of pending output (limit %d) were not '
                   'delivered to a slow reader' % (w.label, n * size, MAXWRITE))
        ctx.expect(len([x for x in c.snapshot() if x.startswith(b'#flood[1]')]) == n, 'lost-output',
                   '%s: informs missing for a slow reader' % w.label)
        ctx.require(c.barrier(), 'dead-for-client', '%s: slow reader is not served any more' % w.label)
        ctx.observe('slow_readers_served')
    else:
        gone = common.wait_until(lambda: c.name not in w.listed(), step=0.02)
        ctx.expect(gone, 'not-closed-stalled', '%s: a client that left %d bytes unread (limit %d) is still connected'
                   % (w.label, n * size, MAXWRITE))
        w.mark = len(w.witness.snapshot())
        c.start_reading()
        ctx.expect(c.wait(lambda lines: c.eof) or c.eof, 'not-closed-stalled', '%s: the connection of a stalled client was '
                   'not closed' % w.label)
        lines = c.snapshot()
        idx = [int(wire.decode(x)[3][1]) for x in lines if x.startswith(b'#flood[1]')]
        ctx.expect(idx == list(range(len(idx))), 'stream-gap', '%s: stalled client received a stream with gaps' % w.label)
        ctx.observe('stalled_closed')
    w.probe('a client that does not read')
    c.close()
    ctx.case('%s %d %d %d' % (w.label, n, size, burst))


SCENARIOS = [garbage, hostile_arguments, dropouts, oversize, garbage, dropouts, hostile_arguments, stalled]


def run(ctx):
    ctx.rule = ('one case = one scenario with its fault sequence, or one hostile argument list for a built-in request; '
                'every scenario ends with liveness probes of an old and a new client')
    ctx.assumptions = ['lines between half the size limit and twice the limit are not judged',
                       'a stalled connection is closed once %d bytes beyond the limits were sent (kernel buffers)' % KERNEL]
    done = 0
    for rnd in range(10 ** 6):
        if not ctx.more(done, 120, 3000, 50, 420):
            break
        mode = list(srv.MODES)[rnd % 3]
        rng = ctx.subrng('round', rnd)
        w = World(ctx, rng, mode, '%s round %d' % (mode, rnd))
        try:
            for k in range(8):
                fn = SCENARIOS[k]
                w.label = '%s round %d %s' % (mode, rnd, fn.__name__)
                fn(ctx, rng, w)
                ctx.observe('scenario_' + fn.__name__)
                done += 1
                if ctx.violations:
                    break
        finally:
            w.close()
