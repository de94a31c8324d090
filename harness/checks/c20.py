"""C20: device log informs respect the level and reach all clients."""
import logging
import threading
import time

from katcp import DeviceLogger

from .. import common, perturb
from . import srv, wire

LEVELS = ['all', 'trace', 'debug', 'info', 'warn', 'error', 'fatal', 'off']
METHODS = ['trace', 'debug', 'info', 'warn', 'error', 'fatal']
PYLEVEL = {'all': 0, 'trace': 0, 'debug': logging.DEBUG, 'info': logging.INFO, 'warn': logging.WARNING, 'error': logging.ERROR,
           'fatal': logging.CRITICAL}


class Sink(logging.Handler):
    def __init__(self):
        super(Sink, self).__init__(level=0)
        self.got = []

    def emit(self, record):
        try:
            self.got.append((record.levelno, record.getMessage()))
        except Exception as e:
            self.got.append((record.levelno, 'bad %r' % (e,)))


class Logdev(srv.Dev):
    def request_say(self, req, msg):
        """Log at a level, then reply."""
        getattr(self.log, msg.arguments[0].decode())(msg.arguments[1].decode())
        return req.make_reply('ok')


def message(rng, uid):
    """(format, args, expected text or predicate)"""
    t = rng.choice(['', 'plain ', 'caf\xe9 ', 'a\\b\tc ', 'line\nbreak ', '#log ', '\u4e2d '])
    k = rng.randrange(9)
    if k < 3:
        return t + 'u' + uid, (), t + 'u' + uid
    if k == 3:
        return t + '%s-u%s', ('x y', uid), t + 'x y-u' + uid
    if k == 4:
        return t + '%d%% u%s', (50, uid), t + '50%% u%s' % uid
    if k == 5:
        d = {'a': 3, 'u': uid}       # only the fall-back text is promised
        return t + 'u' + uid + ' %(a)03d %(u)s', (d,), None
    if k == 6:
        # not a valid format: the text must at least be there
        return t + '100% u' + uid, (), None
    if k == 7:
        return t + 'u' + uid + ' %s %s', ('one',), None
    return t + 'u' + uid, ('surplus',), None


def listen(c):
    """[(level, timestamp, name, text)] of the #log informs of a client."""
    out = []
    for x in c.snapshot():
        if x.startswith(b'#log'):
            f = wire.decode(x)
            out.append(tuple(f[3]) if f[1] == 'log' or f[1] == b'log' else ('bad', x))
    return out


def history(ctx, rng, mode, label, enumerate_pairs):
    major, minor, flags = rng.choice([(4, 0, 'M'), (5, 0, 'IM'), (5, 1, 'IMTB')])
    sink, pylog = Sink(), logging.getLogger('verif.log.%s' % label.replace(' ', '.'))
    pylog.propagate = False
    pylog.handlers[:] = [sink]
    use_py = rng.random() < 0.6
    server = srv.make_server(mode, major, flags, cls=Logdev, minor=minor, logger=pylog if use_py else srv.quiet_logger())
    lab = '%s v%d' % (label, major)
    cs = []
    try:
        level = 'warn'
        pyset = False      # the Python logger has no level of its own yet
        want = {}          # client -> list of expected (level, ts or None, name, text or uid)
        pywant = []

        def connect():
            c = srv.after_greeting(srv.RawClient(server.bind_address))
            want[c] = []
            cs.append(c)

        def expect_log(lv, name, ts, text, uid, t0, t1):
            if LEVELS.index(lv) >= LEVELS.index(level):
                for c in cs:
                    want[c].append((lv, name, ts, text, uid, t0, t1))
        connect()
        if rng.random() < 0.7:
            connect()
        ops = [('set', lv) for lv in LEVELS] if enumerate_pairs else []
        if enumerate_pairs:
            rng.shuffle(ops)
            plan = []
            for o in ops:
                plan.append(o)
                plan += [('log', m) for m in METHODS] + [('log-any', lv) for lv in LEVELS[1:7]]
        else:
            plan = [rng.choice([('set', rng.choice(LEVELS)), ('set', rng.choice(['debug', 'info', 'warn'])), ('bad', None), ('ask', None), ('log', rng.choice(METHODS)),
                                ('log', rng.choice(METHODS)), ('log', rng.choice(METHODS)), ('log-any', rng.choice(LEVELS[1:7])),
                                ('burst', None), ('threads', None), ('connect', None), ('close', None), ('say', rng.choice(METHODS))])
                    for _ in range(rng.choice([20, 50]))]
        n = 0
        for op, arg in plan:
            if op == 'set':
                how = rng.choice(['request', 'request', 'api', 'name'])
                if how == 'request':
                    rep, informs = cs[0].call('log-level', arg) if major >= 5 else midless(rng.choice(cs), 'log-level', arg)
                    ctx.expect(rep is not None and rep[3] == [b'ok', arg.encode()] and not informs, 'set-level', '%s: ?log-level %s -> %r' % (lab, arg, rep))
                elif how == 'api':
                    server.log.set_log_level(getattr(DeviceLogger, arg.upper()))
                else:
                    server.log.set_log_level_by_name(arg if rng.random() < 0.5 else arg.encode())
                level = arg
                pyset = level in ('debug', 'info', 'warn', 'error', 'fatal')
                ctx.expect(server.log.level_name() == arg, 'level-name', '%s: level_name() %r after %s' % (lab, server.log.level_name(), arg))
            elif op == 'ask':
                rep, _ = midless(rng.choice(cs), 'log-level')
                ctx.expect(rep is not None and rep[3] == [b'ok', level.encode()], 'ask-level', '%s: level %s, ?log-level -> %r' % (lab, level, rep))
            elif op == 'bad':
                b = rng.choice([b'', b'WARN', b'warning', b'none', b'\xff', b'4', b'warn ', b'critical', b'All'])
                rep, informs = midless(rng.choice(cs), 'log-level', b)
                ctx.expect(rep is not None and rep[3][0] == b'fail', 'bad-level', '%s: ?log-level %r -> %r' % (lab, b, rep))
                rep, _ = midless(rng.choice(cs), 'log-level')
                ctx.expect(rep is not None and rep[3] == [b'ok', level.encode()], 'bad-level-changed', '%s: level %s, after refused %r: %r' % (lab, level, b, rep))
            elif op in ('log', 'log-any', 'burst', 'say'):
                for _ in range(rng.choice([3, 20]) if op == 'burst' else 1):
                    n += 1
                    lv = rng.choice(METHODS) if op == 'burst' else arg
                    fmt, args, text = message(rng, '%d.' % n)
                    kw = {}
                    if rng.random() < 0.3:
                        kw['name'] = rng.choice(['dev.sub', 'x', 'caf\xe9'])
                    if rng.random() < 0.3:
                        kw['timestamp'] = rng.choice([0, 0.0, 0.5, 1e9 + rng.randrange(10 ** 7) / 64.0])
                    t0 = time.time()
                    if op == 'say':
                        kw = {}
                        fmt, args, text = 'u%d. said' % n, (), 'u%d. said' % n
                        midless(rng.choice(cs), 'say', lv, fmt)
                    elif op == 'log-any':
                        server.log.log(getattr(DeviceLogger, lv.upper()), fmt, *args, **kw)
                    elif rng.random() < 0.2:
                        srv.in_loop(server, lambda: getattr(server.log, lv)(fmt, *args, **kw))
                    else:
                        getattr(server.log, lv)(fmt, *args, **kw)
                    expect_log(lv, kw.get('name') or 'root', kw.get('timestamp'), text, 'u%d.' % n, t0, time.time())
                    if text is not None and op != 'say' and pyset and PYLEVEL[lv] >= PYLEVEL[level]:
                        pywant.append((PYLEVEL[lv], 'u%d.' % n))
                    ctx.case('%s %s %s %s %d' % (lab, level, lv, op, n))
                server.sync_with_ioloop(common.STALL)
            elif op == 'threads':
                # per-thread order, each exactly once
                if LEVELS.index(level) > LEVELS.index('fatal'):
                    continue
                k, per = rng.choice([2, 4]), rng.choice([5, 30])
                base = n + 1
                n += k * per
                ths = []

                def work(j):
                    for i in range(per):
                        server.log.fatal('u%d. thread', base + j * per + i) if i % 2 else server.log.fatal('u%d. thread' % (base + j * per + i))
                for j in range(k):
                    ths.append(threading.Thread(target=work, args=(j,)))
                for t in ths:
                    t.start()
                for t in ths:
                    t.join(common.STALL)
                for c in cs:
                    want[c].append(('threads', base, k, per))
                ctx.case('%s threads %d %d' % (lab, k, per))
                for _ in range(k * per):
                    pass
                server.sync_with_ioloop(common.STALL)
            elif op == 'connect' and len(cs) < 5:
                connect()
            elif op == 'close' and len(cs) > 1:
                c = cs.pop()
                settle(c)
                judge(ctx, lab, major, c, want.pop(c))
                c.close()
        for c in cs:
            settle(c)
            judge(ctx, lab, major, c, want[c])
        if use_py:
            import re
            got = [(lv, m.group(0)) for lv, t in sink.got for m in [re.search(r'u\d+\.', t)] if m and 'thread' not in t and 'said' not in t]
            got_ok = [g for g in got if g in set(pywant)]
            ctx.expect(got_ok == pywant, 'python-log', '%s: the python logger saw %r.., expected %r..' % (lab, got_ok[:6], pywant[:6]))
            ctx.observe('python_log_records', len(got_ok))
    finally:
        for c in cs:
            c.close()
        srv.stop_server(server)


def settle(c):
    midless(c, 'watchdog')
    midless(c, 'watchdog')


def midless(c, name, *args):
    """One request without id on an otherwise idle connection."""
    start = len(c.snapshot())
    c.req(name, *args)
    i = c.wait_line(b'!' + name.encode() + b' ', start)
    if i is None:
        return None, []
    return wire.decode(c.lines[i]), [x for x in c.snapshot()[start:i] if x.startswith(b'#' + name.encode())]


def judge(ctx, lab, major, c, want):
    got = listen(c)
    pos = 0
    for w in want:
        if w[0] == 'threads':
            _, base, k, per = w
            seen = got[pos:pos + k * per]
            pos += k * per
            seqs = dict((j, []) for j in range(k))
            for g in seen:
                t = g[3].decode('utf-8', 'replace') if len(g) == 4 else ''
                if g[0] != b'fatal' or not t.endswith('thread'):
                    ctx.violation('log-threads', '%s: %r among the informs of concurrent loggers' % (lab, g))
                    return
                num = int(t.split('.')[0][1:]) - base
                seqs.setdefault(num // per, []).append(num % per)
            ctx.expect(all(seqs[j] == list(range(per)) for j in range(k)) and len(seqs) == k, 'log-threads',
                       '%s: informs of concurrent loggers %r' % (lab, seqs))
            ctx.observe('log_informs', k * per)
            continue
        lv, name, ts, text, uid, t0, t1 = w
        g = got[pos] if pos < len(got) else None
        pos += 1
        ok = g is not None and len(g) == 4 and g[0] == lv.encode() and g[2] == name.encode('utf-8')
        if ok:
            if text is not None:
                ok = g[3] == text.encode('utf-8')
            else:
                ok = uid.encode() in g[3]
        if not ok:
            ctx.violation('log-inform', '%s: inform %d is %r, expected %r' % (lab, pos - 1, g, w))
            return
        try:
            sec = float(g[1]) if major >= 5 else int(g[1]) / 1000.0
        except ValueError:
            sec = None
        tol = 0.000002 if major >= 5 else 0.001001
        if sec is None or (b'.' in g[1]) != (major >= 5):
            ctx.violation('log-timestamp', '%s: timestamp %r in v%d' % (lab, g[1], major))
        elif ts is not None:
            ctx.expect(abs(sec - ts) <= tol, 'log-timestamp', '%s: timestamp %r for %r' % (lab, g[1], ts))
        else:
            ctx.expect(t0 - tol <= sec <= t1 + tol, 'log-timestamp', '%s: timestamp %r not in [%r, %r]' % (lab, g[1], t0, t1))
        ctx.observe('log_informs')
    ctx.expect(len(got) == pos, 'log-surplus', '%s: unexpected log informs %r' % (lab, got[pos:pos + 3]))


def run(ctx):
    ctx.rule = 'one case = one log call or level change checked on every connected client'
    ctx.assumptions = ['texts that are not valid for their arguments only need to contain the message',
                       'v4 timestamps may be rounded or truncated to the millisecond']
    done = 0
    for i in range(10 ** 6):
        if not ctx.more(done, 120, 5000, 30, 400):
            break
        mode = list(srv.MODES)[i % 3]
        with perturb.Perturb(ctx, ctx.subrng('p', i), on=i % 4 == 3):
            history(ctx, ctx.subrng('q', i), mode, '%s %d' % (mode, i), i % 5 == 0)
        done += 1
        if ctx.violations and done > 3:
            break
