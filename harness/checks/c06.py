"""C06: requests on one connection are handled once each, in order."""
import time

from .. import common, perturb
from . import srv, wire

ENDS = [b'\n', b'\r', b'\r\n', b'\n\n', b'\r\r', b'\n\r\n', b'\r\n\r\n', b'\n\n\n']


def chunks(rng, data):
    style = rng.choice(['all', 'bytes', 'small', 'mixed', 'lineedge', 'big'])
    out, i = [], 0
    while i < len(data):
        if style == 'all':
            k = len(data)
        elif style == 'bytes':
            k = 1
        elif style == 'small':
            k = rng.randrange(1, 8)
        elif style == 'big':
            k = rng.randrange(1, 5000)
        elif style == 'lineedge':
            j = data.find(b'\n', i)
            k = (j - i + rng.choice([0, 1, 1, 2])) if j >= 0 else len(data)
            k = max(1, k)
        else:
            k = rng.choice([1, 2, 3, 30, 300, 3000])
        out.append(data[i:i + k])
        i += k
    return out


def segmentation(ctx, rng, server, mode, label):
    """Echo requests under hostile segmentation: the server sees exactly the lines, once, in order."""
    nclients = rng.choice([1, 2, 4])
    cs, sent, pieces = [], [], []
    del server.trace[:]
    server.delay = srv.Delays(rng, [0])
    try:
        for ci in range(nclients):
            cs.append(srv.after_greeting(srv.RawClient(server.bind_address)))
            reqs, data = [], b''
            for i in range(rng.choice([3, 12, 40])):
                args = [b'c%d' % ci, b'%d' % i] + [wire.gen_arg(rng) for _ in range(rng.choice([0, 1, 2]))]
                if rng.random() < 0.03:
                    args.append(bytes(rng.randrange(97, 122) for _ in range(20)) * rng.choice([500, 4000]))
                kind = rng.choice(['echo', 'echo', 'echo', 'sync', 'fut'])
                if kind != 'echo':
                    args = [b'c%d-%d' % (ci, i), b'1']
                mid = b'%d' % (i + 1) if rng.random() < 0.5 else None
                reqs.append((kind, mid, args))
                data += wire.encode('request', kind, mid, args) + rng.choice(ENDS)
                if rng.random() < 0.1:
                    # interleaved informs and replies are not requests and get no answer
                    data += rng.choice([b'#hello there\n', b'!echo ok\n', b'!sync[%d] ok\r' % (i + 1)])
            sent.append(reqs)
            pieces.append(chunks(rng, data))
        order = [i for i in range(nclients) for _ in pieces[i]]
        rng.shuffle(order)
        pos = [0] * nclients
        pause = rng.choice([0, 0, 0.0005])
        npieces = len(order)
        for i in order:
            cs[i].send(pieces[i][pos[i]])
            pos[i] += 1
            if pause and npieces < 400:
                time.sleep(pause)
        for ci, c in enumerate(cs):
            if not c.barrier():
                ctx.violation('stalled', '%s client %d: no answer after its stream' % (label, ci))
                continue
            got = []
            for line in c.snapshot():
                if line.startswith(b'!') and not line.startswith((b'!watchdog', b'!version')):
                    got.append(wire.decode(line))
            want = []
            for kind, mid, args in sent[ci]:
                if kind == 'echo':
                    want.append(('reply', 'echo', mid, [b'ok'] + args))
                else:
                    want.append(('reply', kind, mid, [b'ok', args[0], kind.encode()]))
            if got != want:
                bad = next((k for k in range(max(len(got), len(want)))
                            if k >= len(got) or k >= len(want) or got[k] != want[k]), None)
                ctx.violation('wrong-sequence', '%s client %d: reply %d of %d (got %d): got %r, expected %r'
                              % (label, ci, bad, len(want), len(got), got[bad:bad + 2], want[bad:bad + 2]))
            ctx.observe('replies_in_order', len(got))
        # what handlers saw
        seen = {}
        with server.trace_lock:
            for ev in server.trace:
                if ev[0] == 'echo':
                    seen.setdefault(ev[2][0], []).append(list(ev[2]))
        for ci in range(nclients):
            want = [args for kind, _m, args in sent[ci] if kind == 'echo']
            ctx.expect(seen.get(b'c%d' % ci, []) == want, 'handled-sequence',
                       '%s client %d: the echo handler saw %d requests, %d were sent (or other arguments/order)'
                       % (label, ci, len(seen.get(b'c%d' % ci, [])), len(want)))
        ctx.case('%s %r' % (mode, [(len(p), [len(x) for x in p[:30]]) for p in pieces]))
        ctx.observe('segments_sent', npieces)
        ctx.sample({'mode': mode, 'first_segments': pieces[0][:5]})
    finally:
        for c in cs:
            c.close()


def overlap(ctx, rng, server, mode, label):
    """Handlers not declared concurrent never overlap on one connection; replies come in request order."""
    nclients = rng.choice([1, 2, 3, 5])
    maxd = rng.choice([0, 0.001, 0.003])
    server.delay = srv.Delays(rng, [0, maxd / 3, maxd])
    kinds = [k for k in ('sync', 'fut', 'coro', 'failing', 'boom') if k not in srv.NOT_IN_MODE[mode]]
    cs, plans = [], []
    del server.trace[:]
    try:
        for ci in range(nclients):
            cs.append(srv.after_greeting(srv.RawClient(server.bind_address)))
            plans.append([(rng.choice(kinds), b'w%d-%d' % (ci, i), rng.choice([0, 1, 3]))
                          for i in range(rng.choice([5, 20]))])
        for ci, c in enumerate(cs):
            c.send(b''.join(wire.encode('request', k, b'%d' % i, [u, b'%d' % n]) + b'\n'
                            for i, (k, u, n) in enumerate(plans[ci])))
        for ci, c in enumerate(cs):
            if not c.barrier():
                ctx.violation('stalled', '%s client %d: no answer after its stream' % (label, ci))
            got = [wire.decode(x) for x in c.snapshot() if x.startswith((b'!', b'#'))]
            got = [g for g in got if g[1] in kinds]
            want = []
            for i, (k, u, n) in enumerate(plans[ci]):
                want += [('inform', k, b'%d' % i, u)] * n + [('reply', k, b'%d' % i, None)]
            have = [(t, nm, mid, a[0] if t == 'inform' else None) for t, nm, mid, a in got]
            ctx.expect(have == want, 'reply-order', '%s client %d: replies/informs not in request order: %r'
                       % (label, ci, [h for h, w in zip(have, want) if h != w][:4] or (len(have), len(want))))
        open_, last = {}, {}
        active = 0
        with server.trace_lock:
            trace = list(server.trace)
        for what, _conn, uid, _thr in trace:
            ci, i = [int(x) for x in uid[1:].split(b'-')]
            if what == 'enter':
                ctx.expect(ci not in open_, 'overlap', '%s: handler for request %d of client %d entered while request %r '
                           'of the same connection was being handled' % (label, i, ci, open_.get(ci)))
                ctx.expect(last.get(ci, -1) + 1 == i, 'handling-order', '%s: client %d request %d handled after request %r'
                           % (label, ci, i, last.get(ci, -1)))
                last[ci] = i
                open_[ci] = i
                active = max(active, len(open_))
            else:
                open_.pop(ci, None)
        for ci in range(nclients):
            ctx.expect(last.get(ci, -1) + 1 == len(plans[ci]), 'handled-count', '%s: client %d had %d of %d requests handled'
                       % (label, ci, last.get(ci, -1) + 1, len(plans[ci])))
        ctx.observe('handler_events', len(trace))
        ctx.observe('max_connections_in_handlers_%d' % active)
        ctx.case('%s overlap %r' % (mode, [[p[0] for p in pl] for pl in plans]))
    finally:
        for c in cs:
            c.close()


def progress(ctx, rng, server, mode, label):
    """Held requests: only non-concurrent ones block, and only their own connection."""
    n = rng.choice([1, 2, 3])
    cs = []
    server.delay = srv.Delays(rng, [0])
    del server.trace[:]
    server.held.clear()
    try:
        other = srv.after_greeting(srv.RawClient(server.bind_address))
        queues = []
        for ci in range(n):
            cs.append(srv.after_greeting(srv.RawClient(server.bind_address)))
            queues.append([])
        released = set()
        model_replied = [[] for _ in range(n)]      # in the order they must/may arrive

        def due(ci):
            """uids that must have been answered by now."""
            out = set()
            for kind, uid in queues[ci]:
                if kind == 'sync':
                    out.add(uid)
                elif uid in released:
                    out.add(uid)
                elif kind == 'hold':
                    return out, False
            return out, True

        def replied(ci):
            return [wire.decode(x)[3][1] for x in cs[ci].snapshot()
                    if x.startswith(b'!') and b' p' in x and not x.startswith(b'!watchdog')]

        counter = 0
        steps = rng.choice([4, 8, 14])
        for step in range(steps):
            if rng.random() < 0.65:
                ci = rng.randrange(n)
                burst = b''
                for _ in range(rng.choice([1, 1, 2, 4])):
                    kind = rng.choice(['hold', 'hold-conc', 'hold-async', 'sync'])
                    uid = b'p%d-%d' % (ci, counter)
                    counter += 1
                    queues[ci].append((kind, uid))
                    burst += wire.encode('request', kind, b'%d' % counter, [uid]) + b'\n'
                cs[ci].send(burst)
            else:
                started = [(k, u) for q in queues for k, u in q if k != 'sync' and u not in released]
                # only ones whose handler must have been entered
                ok = []
                for ci in range(n):
                    for kind, uid in queues[ci]:
                        if kind != 'sync' and uid not in released:
                            ok.append(uid)
                        if kind == 'hold' and uid not in released:
                            break
                if not ok:
                    continue
                uid = rng.choice(ok)
                if not common.wait_until(lambda: uid in server.held):
                    ctx.violation('not-started', '%s: request %r was not started although nothing before it on its '
                                  'connection blocks (%r)' % (label, uid, queues))
                    return
                released.add(uid)
                server.release(uid)
            # the connections that do not wait for anything still answer
            if not other.barrier():
                ctx.violation('blocked-others', '%s: a client without requests gets no answer while others wait (%r, '
                              'released %r)' % (label, queues, sorted(released)))
                return
            for ci in range(n):
                must, free = due(ci)
                if not cs[ci].wait(lambda lines: must <= set(replied(ci))):
                    ctx.violation('no-progress', '%s: replies %r are due but missing (queue %r, released %r)'
                                  % (label, sorted(must - set(replied(ci))), queues[ci], sorted(released)))
                    return
                if free and not cs[ci].barrier():
                    ctx.violation('no-progress', '%s: connection does not answer though nothing blocks it (%r, released %r)'
                                  % (label, queues[ci], sorted(released)))
                    return
                extra = set(replied(ci)) - must
                if extra:
                    ctx.violation('overtook', '%s: %r answered although an earlier non-concurrent request of the connection '
                                  'is still being handled (%r, released %r)' % (label, sorted(extra), queues[ci], sorted(released)))
                    return
                ctx.observe('progress_states')
        # no handler ran behind a blocked one
        with server.trace_lock:
            entered = [t[2] for t in server.trace if t[0] == 'enter']
        for ci in range(n):
            mine = [u for u in entered if u.startswith(b'p%d-' % ci)]
            order = [u for _k, u in queues[ci]]
            ctx.expect(mine == order[:len(mine)], 'handling-order', '%s: handlers entered as %r, sent as %r' % (label, mine, order))
        ctx.case('%s progress %r %r' % (mode, [[k for k, _ in q] for q in queues], len(released)))
    finally:
        for uid in list(server.held):
            server.release(uid)
        for c in cs:
            c.close()
        other.close()


def run(ctx):
    ctx.rule = ('one case = one scenario: a set of client streams with their segmentation, a handler mix, or a '
                'hold/release history; ordering oracles over handler events and received lines')
    ctx.assumptions = ['coroutine handlers only in modes whose handlers run in the event loop']
    done = 0
    for rnd in range(10 ** 6):
        if not ctx.more(done, 200, 4000, 45, 420):
            break
        mode = list(srv.MODES)[rnd % 3]
        rng = ctx.subrng('round', rnd)
        slow = perturb.Perturb(ctx, rng)
        if rnd % 6 >= 3 or rnd % 12 == 0:
            slow.__enter__()
        server = srv.make_server(mode, rng.choice([5, 5, 4]))
        try:
            for k in range(6):
                fn = [segmentation, overlap, progress][k % 3]
                slow.again()
                fn(ctx, rng, server, mode, '%s round %d.%d %s' % (mode, rnd, k, fn.__name__))
                done += 1
                if ctx.violations:
                    break
        finally:
            for uid in list(server.held):
                server.release(uid)
            server.delay = lambda: 0
            srv.stop_server(server)
            slow.__exit__()
