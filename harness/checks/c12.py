"""C12: built-in requests report exactly the current device state."""
import re
import threading
import time

import katcp
from katcp import Sensor
from katcp.kattypes import Int, Str, request, request_timeout_hint, return_reply

from .. import common
from . import srv, wire

STATUSES = {Sensor.UNKNOWN: b'unknown', Sensor.NOMINAL: b'nominal', Sensor.WARN: b'warn', Sensor.ERROR: b'error',
            Sensor.FAILURE: b'failure', Sensor.UNREACHABLE: b'unreachable', Sensor.INACTIVE: b'inactive'}
BUILTIN = ['halt', 'help', 'log-level', 'restart', 'client-list', 'sensor-list', 'sensor-sampling', 'sensor-sampling-clear',
           'sensor-value', 'watchdog']


class Plain(katcp.DeviceServer):
    VERSION_INFO = ("verif-dev", 1, 2)
    BUILD_INFO = ("verif-build", 3, 4, "rc5")

    def setup_sensors(self):
        pass


def query(c, v5, name, *args, **kw):
    """(reply arguments, [inform arguments]) of one request on an otherwise quiet connection."""
    c.nbar += 1
    mid = b'5%06d' % c.nbar if v5 and c.nbar % 3 else None
    tag = name.encode() + (b'[' + mid + b']' if mid else b'')
    start = len(c.snapshot())
    c.send(wire.encode('request', name, mid, [a if isinstance(a, bytes) else a.encode() for a in args]) + b'\n')
    i = c.wait_line(b'!' + tag + b' ', start, kw.get('timeout'))
    if i is None:
        return None, []
    lines = c.snapshot()
    informs = [wire.decode(x)[3] for x in lines[start:i] if x.startswith((b'#' + tag + b' ', b'#' + tag + b'\n')) or x == b'#' + tag]
    stray = [x for x in lines[start:i] if not x.startswith((b'#' + tag, b'#sensor-status', b'#log', b'#client-'))]
    if stray:
        informs.append([b'<stray>'] + stray)
    return wire.decode(lines[i])[3], informs


def text(rng):
    return ''.join(rng.choice(['a', 'B', ' ', '\\', '\t', 'e', '\n', '0', '.', '_', 'é', '[', '%s', '#'])
                   for _ in range(rng.choice([0, 1, 5, 20])))


def sensor_name(rng):
    return '.'.join(rng.choice(['ant', 'rx', 'temp', 'a', 'm063', 'volt-age', 'x_y', 'T', '1', 'é'])
                    for _ in range(rng.choice([1, 1, 2, 3]))) + rng.choice(['', str(rng.randrange(30))])


def make_sensor(rng, name):
    """(sensor, expected description arguments, value generator with its wire form per major)."""
    kind = rng.choice(['integer', 'float', 'boolean', 'string', 'discrete', 'lru', 'timestamp', 'address'])
    desc, unit = text(rng), rng.choice(['', 'V', 'deg C', 'm/s', '%'])
    params, fp = None, []
    if kind == 'integer' and rng.random() < 0.6:
        params = sorted([rng.randrange(-100, 100), rng.randrange(-100, 100)])
        fp = [b'%d' % p for p in params]
    elif kind == 'float' and rng.random() < 0.6:
        params = sorted([rng.choice([-1.5, 0.0, 2.25]), rng.choice([3.0, 1e6])])
        fp = params
    elif kind == 'discrete':
        params = rng.sample(['on', 'off', 'stand by', 'x', 'err\\or'], rng.choice([1, 2, 4]))
        fp = [p.encode() for p in params]
    if kind == 'timestamp':
        unit = ''
    args = dict(integer=Sensor.INTEGER, float=Sensor.FLOAT, boolean=Sensor.BOOLEAN, string=Sensor.STRING, discrete=Sensor.DISCRETE,
                lru=Sensor.LRU, timestamp=Sensor.TIMESTAMP, address=Sensor.ADDRESS)
    s = Sensor(args[kind], name, desc, unit, params)

    def gen():
        if kind == 'integer':
            v = rng.choice([0, 1, -7, 10 ** 20, rng.randrange(-1000, 1000)])
            return v, {4: b'%d' % v, 5: b'%d' % v}
        if kind == 'float':
            v = rng.choice([0.0, 1.5, -2.75, 1e300, rng.random()])
            return v, {4: v, 5: v}
        if kind == 'boolean':
            v = rng.random() < 0.5
            return v, {4: b'%d' % v, 5: b'%d' % v}
        if kind == 'string':
            v = text(rng)
            return v, {4: v.encode(), 5: v.encode()}
        if kind == 'discrete':
            v = rng.choice(params)
            return v, {4: v.encode(), 5: v.encode()}
        if kind == 'lru':
            v = rng.choice([Sensor.LRU_NOMINAL, Sensor.LRU_ERROR])
            t = b'nominal' if v == Sensor.LRU_NOMINAL else b'error'
            return v, {4: t, 5: t}
        if kind == 'timestamp':
            v = 1000.0 + rng.randrange(10 ** 6) / 8.0
            return v, {4: b'%d' % (v * 1000), 5: b'%.6f' % v}
        v = ('10.0.0.%d' % rng.randrange(256), rng.choice([None, 80, 65535]))
        t = v[0].encode() + (b'' if v[1] is None else b':%d' % v[1])
        return v, {4: t, 5: t}
    return s, [name.encode(), desc.encode(), unit.encode(), kind.encode()], fp, gen


def same_fields(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, float):
            try:
                if float(g) != w:
                    return False
            except ValueError:
                return False
        elif g != w:
            return False
    return True


def make_class(rng, major, minor, flags):
    """A device with generated requests; {name: (doc, hint)}."""
    ns, reqs = {}, {}
    for n in BUILTIN:
        reqs[n] = (None, None)
    if major >= 5:
        reqs['version-list'] = (None, None)
    if 'T' in flags:
        reqs['request-timeout-hint'] = (None, None)
    for i in range(rng.choice([0, 2, 6])):
        pn = rng.choice(['do', 'get', 'set_mode', 'x']) + str(i)
        doc = 'Request %d %s.\n\n  More text.' % (i, text(rng)) if rng.random() < 0.7 else 'One line'
        hint = rng.choice([None, None, 0, 2.5, 100])

        def handler(self, req, msg):
            return req.make_reply('ok')
        handler.__doc__ = doc
        handler.__name__ = 'request_' + pn
        if hint is not None or rng.random() < 0.3:
            handler = request_timeout_hint(hint)(handler)
        if rng.random() < 0.3:
            def typed(self, req, a):
                return ('ok', a)
            typed.__doc__ = doc
            typed.__name__ = 'request_' + pn
            handler = request(Str(optional=True))(return_reply(Str())(typed))
            if hint is not None:
                handler = request_timeout_hint(hint)(handler)
        ns['request_' + pn] = handler
        reqs[pn.replace('_', '-')] = (doc, hint)
    return type('Gen', (Plain,), ns), reqs


def static(ctx, rng, mode, label):
    major, minor, flags = rng.choice([(4, 0, 'M'), (5, 0, 'IM'), (5, 0, 'M'), (5, 1, 'IMTB'), (5, 1, 'IMT')])
    v5 = 'I' in flags
    cls, reqs = make_class(rng, major, minor, flags)
    server = srv.make_server(mode, major, flags, cls=cls, minor=minor)
    cs = []
    try:
        model = {}           # name -> [sensor, desc, params, gen, reading, wirevalue]
        for _ in range(rng.choice([0, 1, 5, 15])):
            name = sensor_name(rng)
            if name in model:
                continue
            s, desc, fp, gen = make_sensor(rng, name)
            server.add_sensor(s)
            model[name] = [s, desc, fp, gen, None, None]
            setv(rng, model[name])
        for _ in range(rng.choice([1, 2, 4])):
            cs.append(srv.after_greeting(srv.RawClient(server.bind_address)))
        extra = {}
        for k in range(rng.choice([10, 25])):
            what = rng.choice(['sensor-list', 'sensor-list', 'sensor-value', 'sensor-value', 'help', 'client-list', 'version-list',
                               'request-timeout-hint', 'change', 'change'])
            c = rng.choice(cs)
            lab = '%s v%d %s' % (label, major, what)
            if what == 'change':
                kind = rng.choice(['set', 'set', 'add', 'remove', 'connect', 'close', 'extra'])
                if kind == 'set' and model:
                    setv(rng, rng.choice(list(model.values())))
                elif kind == 'add':
                    name = sensor_name(rng)
                    if name not in model:
                        s, desc, fp, gen = make_sensor(rng, name)
                        server.add_sensor(s)
                        model[name] = [s, desc, fp, gen, None, None]
                        setv(rng, model[name])
                elif kind == 'remove' and model:
                    name = rng.choice(list(model))
                    server.remove_sensor(name if rng.random() < 0.5 else model[name][0])
                    del model[name]
                elif kind == 'connect':
                    cs.append(srv.after_greeting(srv.RawClient(server.bind_address)))
                elif kind == 'close' and len(cs) > 1:
                    x = cs.pop(rng.randrange(len(cs)))
                    x.close(rst=rng.random() < 0.5)
                    names = sorted(y.name.encode() for y in cs)

                    def settled():
                        return sorted(i[0] for i in query(cs[0], v5, 'client-list')[1]) == names
                    ctx.expect(common.wait_until(settled, step=0.01), 'client-list', '%s: closed client stays listed' % lab)
                elif kind == 'extra':
                    extra['role%d' % rng.randrange(4)] = (text(rng) or 'v', rng.choice([None, '', text(rng), text(rng)]))
                    server.extra_versions.clear()
                    server.extra_versions.update(extra)
                continue
            if what in ('sensor-list', 'sensor-value'):
                names, args, fail = pick_filter(rng, model)
                rep, informs = query(c, v5, what, *args)
                if fail:
                    ctx.expect(rep is not None and rep[0] == b'fail' and len(rep) == 2 and not informs, 'filter-not-refused', '%s %r: %r %r'
                               % (lab, args, rep, informs[:2]))
                else:
                    want = []
                    for n in names:
                        m = model[n]
                        if what == 'sensor-list':
                            want.append(m[1] + m[2])
                        else:
                            ts = m[4][0]
                            want.append([b'%.6f' % ts if major >= 5 else b'%d' % round(ts * 1000), b'1', n.encode(), STATUSES[m[4][1]],
                                         m[5][major]])
                    compare(ctx, lab, args, rep, informs, want, 0 if what == 'sensor-list' else 2)
            elif what == 'help':
                if rng.random() < 0.5:
                    rep, informs = query(c, v5, 'help')
                    got = [i[0].decode() for i in informs]
                    ctx.expect(sorted(got) == sorted(reqs), 'help-set', '%s: lists %r, expected %r' % (lab, sorted(got), sorted(reqs)))
                    ctx.expect(rep == [b'ok', b'%d' % len(informs)], 'help-count', '%s: %r for %d informs' % (lab, rep, len(informs)))
                    for i in informs:
                        doc = reqs.get(i[0].decode(), (None, None))[0]
                        ctx.expect(len(i) == 2 and i[1] and (doc is None or i[1].strip() == doc.encode().strip()), 'help-doc', '%s: %r' % (lab, i))
                else:
                    n = rng.choice(list(reqs) + ['nosuch', '', '/help/', 'HELP', 'help '])
                    rep, informs = query(c, v5, 'help', n)
                    if n in reqs:
                        doc = reqs[n][0]
                        ctx.expect(rep == [b'ok', b'1'] and len(informs) == 1 and informs[0][0] == n.encode() and
                                   (doc is None or informs[0][1].strip() == doc.encode().strip()), 'help-one', '%s %r: %r %r' % (lab, n, rep, informs[:2]))
                    else:
                        ctx.expect(rep is not None and rep[0] == b'fail' and not informs, 'help-unknown', '%s %r: %r %r' % (lab, n, rep, informs[:2]))
            elif what == 'client-list':
                rep, informs = query(c, v5, 'client-list')
                ctx.expect(rep == [b'ok', b'%d' % len(cs)] and sorted(i[0].decode() for i in informs if len(i) == 1) == sorted(x.name for x in cs),
                           'client-list', '%s: %r %r, connected %r' % (lab, rep, informs, [x.name for x in cs]))
            elif what == 'version-list':
                rep, informs = query(c, v5, 'version-list')
                if major < 5:
                    ctx.expect(rep is not None and rep[0] == b'invalid', 'version-list', '%s: %r' % (lab, rep))
                else:
                    want = [[b'katcp-protocol', ('%d.%d' % (major, minor) + ('-' + ''.join(sorted(flags)) if flags else '')).encode()],
                            None, [b'katcp-device', b'verif-dev-1.2', b'verif-build-3.4rc5']]
                    for n in extra:
                        v, b = extra[n]
                        want.append([n.encode(), v.encode()] + ([] if b is None else [b.encode()]))
                    got = sorted(i for i in informs if i[0] != b'katcp-library')
                    ctx.expect(rep == [b'ok', b'%d' % len(informs)] and got == sorted(w for w in want if w) and len(informs) == len(want),
                               'version-list', '%s: %r %r, expected %r' % (lab, rep, informs, want))
            elif what == 'request-timeout-hint':
                hints = dict((n.encode(), h) for n, (_d, h) in reqs.items() if h)
                one = rng.random() < 0.5
                n = rng.choice(list(reqs) + ['nosuch', 'x y']) if one else None
                rep, informs = query(c, v5, what, *([n] if one else []))
                if 'T' not in flags:
                    ctx.expect(rep is not None and rep[0] == b'invalid', 'hint', '%s: %r' % (lab, rep))
                elif one and n not in reqs:
                    ctx.expect(rep is not None and rep[0] == b'fail' and not informs, 'hint-unknown', '%s %r: %r' % (lab, n, rep))
                else:
                    want = {n.encode(): reqs[n][1] or 0} if one else hints
                    ctx.expect(rep == [b'ok', b'%d' % len(want)] and len(informs) == len(want) and
                               dict((i[0], float(i[1])) for i in informs) == want, 'hint', '%s %r: %r %r, expected %r' % (lab, n, rep, informs, want))
            ctx.observe('query_' + what)
            ctx.case('%s %d %s %d %d' % (mode, major, what, rnd_id(label), k))
        ctx.case('%s %r' % (label, sorted(model)))
    finally:
        for c in cs:
            c.close()
        srv.stop_server(server)


def rnd_id(label):
    return int(label.split()[-1])


def setv(rng, m):
    v, w = m[3]()
    ts = 1e9 + rng.randrange(10 ** 8) / 8.0
    st = rng.choice(list(STATUSES))
    if rng.random() < 0.5:
        m[0].set(ts, st, v)
    else:
        m[0].set_value(v, st, ts)
    m[4], m[5] = (ts, st, v), w


def pick_filter(rng, model):
    """(names that match, arguments, must fail)"""
    k = rng.random()
    names = sorted(model)
    if k < 0.25:
        return names, [], False
    if k < 0.5 and names:
        n = rng.choice(names)
        return [n], [n], False
    if k < 0.65:
        n = rng.choice(['nosuch', '', 'ant*', '.*', 'ANT', ' ', 'a/', '/a'])
        if names:
            n = rng.choice([n, names[0][:-1], names[0] + 'x', names[0].upper(), names[0] + ' '])
        return ([n], [n], False) if n in model else ([], [n], True)
    if k < 0.72:
        return [], [rng.choice(['/[/', '/(/', '/*/', '/a\\/', '/(?P<x/'])], True
    pats = ['a', '^a', 't$', '.', 'ant|rx', r'\.', r'^[^.]*$', 'nothing', '', r'\d', '[A-Z]', 'x_y', '(ant)', 'é']
    if names:
        n = rng.choice(names)
        pats += [re.escape(n), '^' + re.escape(n) + '$', re.escape(n[1:]), re.escape(n[:2])]
    p = rng.choice(pats)
    r = re.compile(p)
    return [n for n in names if r.search(n)], ['/' + p + '/'], False


def compare(ctx, lab, args, rep, informs, want, pos):
    ctx.expect(rep == [b'ok', b'%d' % len(want)], 'count', '%s %r: reply %r, %d items match' % (lab, args, rep, len(want)))
    byname = {}
    for i in informs:
        ctx.expect(len(i) > pos and i[pos] not in byname, 'duplicate', '%s %r: %r twice or malformed' % (lab, args, i))
        if len(i) > pos:
            byname[i[pos]] = i
    wanted = dict((w[pos], w) for w in want)
    ctx.expect(set(byname) == set(wanted), 'items', '%s %r: extra %r, missing %r'
               % (lab, args, sorted(set(byname) - set(wanted))[:4], sorted(set(wanted) - set(byname))[:4]))
    for n in set(byname) & set(wanted):
        ctx.expect(same_fields(byname[n], wanted[n]), 'content', '%s: reported %r, expected %r' % (lab, byname[n], wanted[n]))
    ctx.observe('items_compared', len(wanted))


def torn(ctx, rng, mode, label):
    """Readings whose three fields belong together, updated while they are queried and sampled."""
    major = rng.choice([5, 4])
    server = srv.make_server(mode, major, cls=Plain)
    cs, stop = [], threading.Event()
    try:
        sts = sorted(STATUSES)
        ns = rng.choice([1, 3])
        sensors = [Sensor.integer('t%d' % i, '', '') for i in range(ns)]
        done = [0] * ns           # index of the last completed set
        begun = [0] * ns
        hows = [rng.choice(['set', 'set_value', 'set_formatted']) for _ in range(ns)]

        def reading(i):
            return 1e6 + i * 0.125, sts[i % 7], i

        def put(k, i):
            ts, st, v = reading(i)
            begun[k] = i
            if hows[k] == 'set':
                sensors[k].set(ts, st, v)
            elif hows[k] == 'set_value':
                sensors[k].set_value(v, st, ts)
            else:
                sensors[k].set_formatted(b'%.6f' % ts, STATUSES[st], b'%d' % v, 5)
            done[k] = i
        for k in range(ns):
            put(k, 0)
            server.add_sensor(sensors[k])

        def writer(k):
            i = 0
            while not stop.is_set():
                i += 1
                put(k, i)
                if i % 50 == 0:
                    time.sleep(0.0001)
        direct_bad = []
        reads = [0]

        def reader(k):
            last = -1
            while not stop.is_set():
                for _ in range(50):
                    ts, st, v = sensors[k].read()
                    fts, fst, fv = sensors[k].read_formatted()
                    reads[0] += 2
                    for a, b, c in ((ts, STATUSES[st], v), (float(fts), fst, int(fv))):
                        if (a, b) != (reading(c)[0], STATUSES[reading(c)[1]]) or c < last:
                            direct_bad.append((a, b, c, last))
                        last = c
                time.sleep(0.0001)
        churn_bad = []

        def churner():
            i = 0
            while not stop.is_set():
                i += 1
                try:
                    server.add_sensor(Sensor.integer('volatile%d' % (i % 5), '', ''))
                    if i % 2:
                        server.remove_sensor('volatile%d' % (i % 5))
                except Exception as e:
                    churn_bad.append(repr(e))
                time.sleep(0.0001)
        ths = [threading.Thread(target=writer, args=(k,)) for k in range(ns)]
        ths += [threading.Thread(target=reader, args=(k,)) for k in range(ns)]
        if rng.random() < 0.5:
            ths.append(threading.Thread(target=churner))
        cs = [srv.after_greeting(srv.RawClient(server.bind_address)) for _ in range(2)]
        if rng.random() < 0.4:
            for k in range(ns):
                cs[1].send(b'?sensor-sampling t%d period %s\n' % (k, b'0.002' if major >= 5 else b'2'))
        for t in ths:
            t.daemon = True
            t.start()
        c = cs[0]

        def decode(i):
            v = int(i[4])
            want = reading(v)
            ts = b'%.6f' % want[0] if major >= 5 else b'%d' % round(want[0] * 1000)
            return v, i[0] == ts and i[3] == STATUSES[want[1]]
        for q in range(rng.choice([20, 60])):
            lo = list(done)
            args = rng.choice([[], ['t0'], ['/t/'], ['/^t\\d+$/']])
            rep, informs = query(c, major >= 5, 'sensor-value', *args)
            hi = list(begun)
            if rep is None or rep[0] != b'ok':
                ctx.violation('query-failed', '%s: ?sensor-value %r under concurrent updates: %r' % (label, args, rep))
                break
            mine = [i for i in informs if len(i) == 5 and re.match(br't\d$', i[2])]
            names = [i[2] for i in informs if len(i) == 5]
            ctx.expect(len(set(names)) == len(names) and rep[1] == b'%d' % len(informs), 'count', '%s: %r for %r' % (label, rep, names))
            ctx.expect(len(mine) == (1 if args == ['t0'] else ns), 'items', '%s: %r reports %r' % (label, args, names))
            for i in mine:
                k = int(i[2][1:])
                v, whole = decode(i)
                ctx.expect(whole, 'torn', '%s: %r mixes readings (value %d belongs to %r)' % (label, i, v, reading(v)))
                ctx.expect(lo[k] <= v <= hi[k], 'not-current', '%s: reading %d reported; %d was complete before the request, %d after the reply'
                           % (label, v, lo[k], hi[k]))
                ctx.observe('concurrent_readings')
            if rng.random() < 0.3:
                rep, informs = query(c, major >= 5, 'sensor-list')
                names = [i[0] for i in informs]
                ctx.expect(rep is not None and rep[0] == b'ok' and len(set(names)) == len(names) and rep[1] == b'%d' % len(names) and
                           all(b't%d' % k in names for k in range(ns)), 'list-under-churn', '%s: %r %r' % (label, rep, names))
        stop.set()
        for t in ths:
            t.join(common.STALL)
        ctx.expect(not direct_bad, 'torn-read', '%s: read()/read_formatted() gave %r' % (label, direct_bad[:3]))
        ctx.expect(not churn_bad, 'churn', '%s: add/remove_sensor failed: %r' % (label, churn_bad[:2]))
        cs[1].barrier()
        n = 0
        for x in cs[1].snapshot():
            if x.startswith(b'#sensor-status'):
                v, whole = decode(wire.decode(x)[3])
                ctx.expect(whole, 'torn', '%s: %r mixes readings' % (label, x))
                n += 1
        ctx.observe('sampled_readings', n)
        ctx.observe('direct_reads', reads[0])
        ctx.case('torn %s %d %r' % (mode, rnd_id(label), hows))
    finally:
        stop.set()
        for c in cs:
            c.close()
        srv.stop_server(server)


def run(ctx):
    ctx.rule = ('one case = one query compared with the model of the device, or one population/concurrent-update run')
    ctx.assumptions = ['filter "/" alone is ambiguous and not used', 'docstrings are compared without surrounding blanks']
    done = 0
    for i in range(10 ** 6):
        if not ctx.more(done, 180, 6000, 40, 400):
            break
        mode = list(srv.MODES)[i % 3]
        fn = torn if i % 6 == 5 or i % 6 == 2 and i % 4 == 0 else static
        fn(ctx, ctx.subrng('q', i), mode if fn is static else ctx.subrng('m', i).choice(list(srv.MODES)), '%s %s %d' % (mode, fn.__name__, i))
        done += 1
        if ctx.violations and done > 3:
            break
