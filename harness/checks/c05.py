"""C05: every request gets exactly one matching reply, on its own connection."""
import time

from .. import common, perturb
from . import srv, wire


def build(rng, cidx, n, mode, use_mids):
    reqs = []
    kinds = srv.SYNC_KINDS + srv.FUT_KINDS + srv.FREE_KINDS
    kinds = [k for k in kinds if k not in srv.NOT_IN_MODE[mode]]
    focus = rng.sample(kinds, rng.randrange(2, len(kinds)))
    for i in range(n):
        kind = rng.choice(focus)
        uid = b'u%d-%d' % (cidx, i)
        args = [uid]
        extra = None
        ninf = 0
        if kind in srv.WITH_INFORMS:
            ninf = rng.choice([0, 0, 1, 2, 5])
            args.append(b'%d' % ninf)
        elif kind in ('typed', 'typed-coro'):
            style = rng.randrange(4)
            if style == 0:
                args.append(b'junk')
            elif style == 1:
                pass                     # too few arguments
            else:
                extra = rng.randrange(-3, 14)
                args.append(b'%d' % extra)
        mid = b'%d' % (i + 1) if (use_mids and rng.random() < 0.9) else None
        reqs.append(dict(kind=kind, uid=uid, args=args, ninf=ninf, mid=mid, extra=extra,
                         line=wire.encode('request', kind, mid, args) + b'\n'))
    return reqs


def judge(ctx, c, reqs, label, everything):
    """History checker on the byte stream one client received."""
    msgs = []
    for line in c.snapshot():
        if not line:
            continue
        try:
            msgs.append(wire.decode(line))
        except wire.Bad as e:
            ctx.violation('garbled-line', '%s: client received malformed line %r (%s)' % (label, line, e))
            return
    names = set(r['kind'] for r in reqs)
    by_mid = dict((r['mid'], r) for r in reqs if r['mid'] is not None)
    no_mid = {}
    for r in reqs:
        if r['mid'] is None:
            no_mid.setdefault(r['kind'], []).append(r)
    for r in reqs:
        r['replies'] = 0
        r['seen_inf'] = 0
    ctx.observe('lines_checked', len(msgs))
    for mtype, name, mid, args in msgs:
        if mtype == 'request':
            ctx.violation('request-from-server', '%s: got a request %s' % (label, name))
            continue
        if mtype == 'inform':
            if name not in names and not name.startswith(('late',)):
                for a in args:
                    if a in everything and everything[a] != id(c):
                        ctx.violation('cross-talk', '%s: inform of another client: %r' % (label, (name, mid, args)))
                continue
            if mid is not None:
                r = by_mid.get(mid)
            else:
                r = next((x for x in no_mid.get(name, []) if x['uid'] == (args or [None])[0]), None)
            if r is None or r['kind'] != name or (args or [b''])[0] != r['uid']:
                ctx.violation('foreign-inform', '%s: inform %r belongs to no request of this client'
                              % (label, (name, mid, args)))
                continue
            if r['replies']:
                ctx.violation('inform-after-reply', '%s: inform %r after its reply' % (label, (name, mid, args)))
            if name != 'coro-async' and args[1:] != [b'%d' % r['seen_inf'], b'%d' % r['ninf']]:
                ctx.violation('inform-order', '%s: inform %r out of order, expected index %d of %d'
                              % (label, (name, mid, args), r['seen_inf'], r['ninf']))
            r['seen_inf'] += 1
            ctx.observe('informs_matched')
            continue
        if name == 'watchdog':
            continue
        if mid is not None:
            r = by_mid.get(mid)
            if r is None or r['kind'] != name:
                ctx.violation('foreign-reply', '%s: reply %r matches no request of this client'
                              % (label, (name, mid, args)))
                continue
        else:
            cands = [x for x in no_mid.get(name, []) if not x['replies']]
            r = next((x for x in cands if srv.expected(x['kind'], x['uid'], x['extra'])(args)),
                     cands[0] if cands else None)
            if r is None:
                ctx.violation('foreign-reply', '%s: reply without id %r matches no request (or a second reply)'
                              % (label, (name, args)))
                continue
        r['replies'] += 1
        if r['replies'] > 1:
            ctx.violation('second-reply', '%s: request %s[%s] of kind %s got reply number %d: %r'
                          % (label, name, mid, r['kind'], r['replies'], args))
            continue
        ctx.observe('replies_matched')
        if not srv.expected(r['kind'], r['uid'], r['extra'])(args):
            ctx.violation('wrong-reply', '%s: request %r got reply %r' % (label, r['line'], (name, mid, args)))
        if r['seen_inf'] != r['ninf'] and name != 'coro-async':
            ctx.violation('missing-inform', '%s: request %r replied after %d of %d informs'
                          % (label, r['line'], r['seen_inf'], r['ninf']))
    for r in reqs:
        ctx.observe('kind_' + r['kind'])
        if r['replies'] == 0:
            ctx.violation('no-reply', '%s: request %r never got a reply' % (label, r['line']))


def scenario(ctx, rng, server, mode, use_mids, label):
    nclients = rng.choice([1, 2, 3, 5])
    n = rng.choice([4, 10, 25])
    maxd = rng.choice([0, 0, 0.001, 0.004])
    server.delay = srv.Delays(rng, [0, 0, maxd / 2, maxd])
    clients, everything = [], {}
    droppers = []
    try:
        for ci in range(nclients):
            c = srv.RawClient(server.bind_address)
            clients.append(c)
            srv.after_greeting(c)
        plans = []
        for ci, c in enumerate(clients):
            reqs = build(rng, ci, n, mode, use_mids)
            plans.append(reqs)
            for r in reqs:
                everything[r['uid']] = id(c)
        # clients that vanish with requests outstanding
        for d in range(rng.choice([0, 0, 1, 2])):
            c = srv.RawClient(server.bind_address)
            droppers.append((c, build(rng, 100 + d, n, mode, True)))
        # interleaved sending, in chunks of whole or split lines
        streams = [b''.join(r['line'] for r in p) for p in plans]
        pos = [0] * len(clients)
        step = rng.choice([7, 40, 200, 10 ** 6])
        for c, reqs in droppers:
            c.send(b''.join(r['line'] for r in reqs[:rng.randrange(1, len(reqs) + 1)]))
        drop_at = rng.randrange(3)
        turn = 0
        while any(pos[i] < len(streams[i]) for i in range(len(clients))):
            i = rng.randrange(len(clients))
            k = rng.randrange(1, step + 1)
            clients[i].send(streams[i][pos[i]:pos[i] + k])
            pos[i] += k
            if turn == drop_at:
                for c, _ in droppers:
                    c.close(rst=rng.random() < 0.5)
            turn += 1
        for c, _ in droppers:
            c.close()
        done = True
        for c, reqs in zip(clients, plans):
            want = len(reqs)

            def have(lines, want=want):
                return sum(1 for x in lines if x.startswith(b'!') and not x.startswith(b'!watchdog')) >= want
            done = c.wait(have, timeout=common.STALL if done else 2.0) and done
        for c in clients:
            if not c.barrier(timeout=common.STALL if done else 2.0):
                ctx.violation('dead-connection', '%s: client got no answer to a final request' % label)
        if maxd:
            time.sleep(maxd * 2)
        for c in clients:
            c.barrier(timeout=2.0)
        for ci, (c, reqs) in enumerate(zip(clients, plans)):
            judge(ctx, c, reqs, '%s client %d' % (label, ci), everything)
            ctx.case('%s %s' % (mode, [(r['kind'], r['ninf'], r['mid'] is None) for r in reqs]))
        ctx.sample({'mode': mode, 'requests': [r['line'] for r in plans[0][:6]],
                    'received': clients[0].snapshot()[3:12]})
    finally:
        for c in clients:
            c.close()
        for c, _ in droppers:
            c.close()


def queue_full(ctx):
    """More simultaneous clients than the handler thread queues: still one reply each."""
    server = srv.make_server('handler-thread')
    clients = []
    try:
        blocker = srv.after_greeting(srv.RawClient(server.bind_address))
        clients.append(blocker)
        import threading
        gate = threading.Event()
        server.delay = lambda: (gate.wait(60), 0)[1]
        blocker.req('sync', 'block', 0, mid=b'1')
        common.wait_until(lambda: any(t[2] == b'block' for t in server.trace))
        for i in range(330):
            c = srv.RawClient(server.bind_address, reading=False)
            clients.append(c)
            c.pull(b'katcp-device')      # accepted (the listen backlog is short)
            c.req('echo', 'x%d' % i, mid=b'5')
        # let the event loop read all of them before the handler goes on
        for _ in range(3):
            server.sync_with_ioloop(common.STALL)
            time.sleep(0.05)
        gate.set()
        answered = full = 0
        for c in clients[1:]:
            c.start_reading()
        for i, c in enumerate(clients[1:]):
            k = c.wait_line(b'!echo[5]')
            if k is None:
                ctx.violation('no-reply', 'queue overload: client %d of 330 simultaneous clients got no reply' % i)
                break
            answered += 1
            if b' fail ' in c.lines[k]:
                full += 1
        ctx.observe('overload_clients_answered', answered)
        ctx.observe('overload_refused', full)
        ctx.case('overload')
    finally:
        for c in clients:
            c.close()
        srv.stop_server(server)


def run(ctx):
    ctx.rule = ('one case = one client connection with its random request list (handler kinds, informs, ids); '
                'the history oracle matches every line it received')
    ctx.assumptions = ['handlers answer by one documented way each (a handler that both replies itself and returns a '
                       'reply is misuse)', 'replies are awaited for at most %gs' % common.STALL]
    configs = [(m, maj) for m in srv.MODES for maj in (5, 4)]
    done = 0
    for rnd in range(10 ** 6):
        rng = ctx.subrng('round', rnd)
        if not ctx.more(done, 120, 2500, 45, 400):
            break
        mode, major = configs[rnd % len(configs)]
        slow = perturb.Perturb(ctx, rng)
        if rnd // 6 % 2:
            slow.__enter__()
        server = srv.make_server(mode, major, flags='IM' if major == 5 else '')
        try:
            for k in range(4):
                slow.again()
                scenario(ctx, rng, server, mode, rng.random() < 0.8, '%s/v%d round %d.%d' % (mode, major, rnd, k))
                done += 1
        finally:
            server.delay = lambda: 0
            srv.stop_server(server)
            slow.__exit__()
    queue_full(ctx)
