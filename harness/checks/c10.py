"""C10: sampling strategies deliver exactly the updates they promise."""
import threading
import time

from katcp import Sensor
from katcp.sampling import SampleStrategy

from .. import common, vloop
from . import srv, wire

EPS = 1e-6
NUMERIC = ('integer', 'float', 'timestamp')


class Trace(object):
    """All events of one run in the order they happened."""

    def __init__(self):
        self.ev = []

    def add(self, *e):
        self.ev.append(e)


class Boom(Exception):
    pass


def make_sensor(rng, stype):
    if stype == 'integer':
        return Sensor.integer('s', 'd', '')
    if stype == 'float':
        return Sensor.float('s', 'd', '')
    if stype == 'timestamp':
        return Sensor.timestamp('s', 'd', '')
    if stype == 'boolean':
        return Sensor.boolean('s', 'd', '')
    if stype == 'discrete':
        return Sensor.discrete('s', 'd', '', params=['a', 'b', 'c'])
    return Sensor.string('s', 'd', '')


def value_source(rng, stype, thresholds):
    """A function giving the next value, biased to sit at distances around the thresholds."""
    th = thresholds or [1]
    if stype == 'integer':
        state = [rng.choice([0, 0, 0, 7, 7, -3, -3, 10 ** 12, 10 ** 400])]

        def nxt():
            d = rng.choice([0, 0, 1, -1] + [int(s * t + e) for t in th for s in (1, -1) for e in (-1, 0, 1)])
            state[0] += d
            if rng.random() < 0.05:
                state[0] = rng.choice([0, 10 ** 15, -10 ** 15, 0, 10 ** 15, -10 ** 320])
            return state[0]
        return nxt
    if stype in ('float', 'timestamp'):
        state = [rng.choice([0.0, 1.5, 100.0])]

        def nxt():
            t = rng.choice(th)
            state[0] += rng.choice([0, 0, t, -t, t / 2, -t / 2, t * 1.001, -t * 1.001, t * 0.999, 3 * t])
            if rng.random() < 0.03:
                state[0] = rng.choice([0.0, 1e15, 1e-9, 99.5])
            return float(state[0])
        return nxt
    if stype == 'boolean':
        return lambda: rng.random() < 0.5
    if stype == 'discrete':
        return lambda: rng.choice('abc')
    return lambda: rng.choice(['', 'x', 'y', 'long text'])


def pick_strategy(rng, stype):
    names = ['auto', 'event', 'period', 'event-rate', 'event-rate']
    if stype in NUMERIC:
        names += ['differential'] * 2
    if stype in ('integer', 'float'):
        names += ['differential-rate'] * 3
    name = rng.choice(names)

    def diff():
        return rng.choice([1, 2, 5, 1000]) if stype == 'integer' else rng.choice([0.5, 1, 2.25, 0.1, 1e-3])
    if name == 'differential':
        p = [diff()]
    elif name == 'period':
        p = [rng.choice([0.1, 0.25, 1, 3.7, 10])]
    elif name in ('event-rate', 'differential-rate'):
        short = rng.choice([0, 0.1, 0.5, 1, 1, 2])
        long_ = rng.choice([short or 0.3, short + 0.5, 2 * short or 1, 5, 50, 1e99])
        p = ([diff()] if name == 'differential-rate' else []) + [short, long_]
    else:
        p = []
    form = rng.choice(['native', 'bytes', 'str'])
    if form == 'bytes':
        sent = [repr(x).encode() for x in p]
    elif form == 'str':
        sent = [repr(x) for x in p]
    else:
        sent = list(p)
    return name, p, sent


def differs(name, params, a, b):
    """Does reading a differ from reading b in the sense of the strategy?"""
    if b is None:
        return True
    if a[1] != b[1]:
        return True
    if name in ('differential', 'differential-rate'):
        return abs(a[2] - b[2]) > params[0]
    return a[2] != b[2]


def judge(ctx, label, sid, name, params, trace, initial, end, stalls):
    """Replay the trace against the specification of one strategy."""
    key = name
    hist = [(None, initial)]             # (time, reading)
    start_k = live_k = None
    reps, cancel_k, t_cancel, t_live, early = [], None, None, None, False
    log = []                             # (time, kind, reading) in order
    for e in trace.ev:
        if e[0] == 'set':
            hist.append((e[1], e[2]))
            if live_k is not None and cancel_k is None:
                log.append((e[1], 0, e[2]))
        elif len(e) > 1 and e[1] == sid:
            if e[0] == 'start':
                start_k = len(hist) - 1
            elif e[0] == 'live':
                live_k, t_live = len(hist) - 1, e[2]
                early = cancel_k is not None
            elif e[0] == 'rep':
                if cancel_k is not None:
                    ctx.violation(key + '-after-cancel', '%s: reported %r after it was cancelled' % (label, e[3]))
                    return
                reps.append((e[2], e[3], len(hist)))
                log.append((e[2], 1, e[3]))
            elif e[0] == 'cancel':
                cancel_k, t_cancel = len(hist), e[2]
    ctx.observe('reports_judged', len(reps))
    if start_k is None:
        return
    if live_k is None:                  # cancelled before it ever ran
        return
    stop_t = end if t_cancel is None else t_cancel
    stop_k = len(hist) if cancel_k is None else cancel_k
    if early:
        ctx.expect(not reps, key + '-after-cancel', '%s: reports of a strategy cancelled before it started' % label)
        return
    ctx.expect(bool(reps), key + '-no-initial', '%s: nothing was reported at all' % label)
    if not reps:
        return
    # readings the sensor had, at that time, in order
    prev = -1
    for t, r, n in reps:
        now = [k for k in range(n) if hist[k][1] is not None and tuple(hist[k][1]) == tuple(r)]
        if not now:
            ctx.violation(key + '-invented', '%s: reported %r, a reading the sensor never had' % (label, r))
            return
        k = max(now)
        if k < prev:
            ctx.violation(key + '-reordered', '%s: reported reading %d after reading %d' % (label, k, prev))
            return
        prev = k
        nxt_t = hist[k + 1][0] if k + 1 < n else None
        ctx.expect(nxt_t is None or nxt_t >= t - EPS, key + '-stale', '%s: at %.6f reported %r, which was replaced at %s'
                   % (label, t, r, nxt_t))
    if name in ('auto', 'event', 'differential'):
        best = None
        for k0 in range(start_k, live_k + 1):
            exp, last = [], None
            for k in range(k0, stop_k):
                t, r = hist[k]
                if name == 'auto' or differs(name, params, r, last):
                    exp.append((k, t, r))
                    last = r
            ok = [tuple(x[2]) for x in exp] == [tuple(x[1]) for x in reps]
            if ok and all(abs(rt - max(t or 0, t_live if k == k0 else 0)) < EPS
                          for (k, t, _r), (rt, _x, _n) in zip(exp, reps)):
                return
            best = exp
        got, exp = [tuple(x[1]) for x in reps], [tuple(x[2]) for x in best]
        bad = next((i for i in range(max(len(got), len(exp))) if i >= len(got) or i >= len(exp) or got[i] != exp[i]), None)
        ctx.violation(key + '-sequence', '%s: %d reports, %d expected; at %r got %r, expected %r (times %r)'
                      % (label, len(got), len(exp), bad, got[bad:bad + 3] if bad is not None else '', exp[bad:bad + 3]
                         if bad is not None else 'late', [x[0] for x in reps][:6]))
        return
    if name == 'period':
        p = params[0]
        times = [t for t, _r, _n in reps]
        if not stalls:
            n = int((stop_t - t_live) / p + 1e-9)
            exp = [t_live + i * p for i in range(n + 1)]
            # the report that coincides with the end or the cancellation may or may not be made
            ctx.expect(len(times) in (len(exp), len(exp) - (abs(exp[-1] - stop_t) < 1e-4)), 'period-count',
                       '%s: %d reports in %.3f s, %d expected' % (label, len(times), stop_t - t_live, len(exp)))
            off = [(a, b) for a, b in zip(times, exp) if abs(a - b) > 1e-4]
            ctx.expect(not off, 'period-times', '%s: report at %r, expected at %r' % ((label,) + (off[0] if off else (0, 0))))
        else:
            pts = times + [stop_t]
            for a, b in zip(pts, pts[1:]):
                late = sum(max(0, min(b, s1) - max(a, s0)) for s0, s1 in stalls)
                ctx.expect(b - a <= p + late + 1e-4, 'period-gap', '%s: no report for %.4f s (period %s, stalled %.4f)'
                           % (label, b - a, p, late))
            for a, b in zip(pts, pts[2:len(times)]):
                ctx.expect(b - a >= p - 1e-4, 'period-burst', '%s: three reports in %.4f s (period %s)' % (label, b - a, p))
            for a, b, c in zip(times, times[1:], times[2:]):
                ctx.expect(b - a <= 2 * p + EPS or c > b, 'period-burst', '%s: two reports at %.6f after a gap of %.4f s'
                           % (label, b, b - a))
            total = sum(s1 - s0 for s0, s1 in stalls)
            ctx.expect(len(times) <= (stop_t - t_live) / p + 2 + len(stalls), 'period-count', '%s: %d reports in %.3f s (period %s, '
                       'stalled %.3f)' % (label, len(times), stop_t - t_live, p, total))
        return
    # event-rate, differential-rate
    short, long_ = params[-2:]
    # group by instants
    instants = []
    for t, kind, x in log:
        if instants and t - instants[-1][0] < EPS / 2:
            instants[-1][1].append((kind, x))
        else:
            instants.append((t, [(kind, x)]))
    instants.append((stop_t, []))
    cur = hist[live_k][1]
    last, last_t = None, None
    prev_t = t_live

    def relax(due):
        for s0, s1 in stalls:
            if s0 - EPS <= due <= s1 + EPS:
                due = s1
        return due
    for t, evs in instants:
        if last is not None:
            if differs(name, params, cur, last):
                due = relax(max(prev_t, last_t + short))
                if due < t - EPS:
                    ctx.violation(key + '-lost', '%s: the sensor shows %r since %.6f, last report %r at %.6f; the next report, due '
                                  'at %.6f, was not made before %.6f' % (label, cur, prev_t, last, last_t, due, t))
                    return
            due = relax(last_t + long_)
            if due < t - EPS:
                ctx.violation(key + '-silent', '%s: nothing was reported between %.6f and %.6f (longest period %s)'
                              % (label, last_t, t, long_))
                return
        for kind, x in evs:
            if kind == 0:
                cur = x
            else:
                r = x
                if last is not None:
                    gap = t - last_t
                    ctx.expect(gap >= short - EPS, key + '-too-fast', '%s: reports %.6f s apart (shortest period %s)'
                               % (label, gap, short))
                    ctx.expect(differs(name, params, r, last) or gap >= long_ - EPS, key + '-unneeded',
                               '%s: %r reported after %r without reason (gap %.6f)' % (label, r, last, gap))
                last, last_t = r, t
        prev_t = t
        ctx.observe('instants_judged')


def scenario(ctx, rng, label):
    clock = vloop.Clock(start=rng.choice([0.0, 1000.0, 1e6]))
    loop = vloop.VLoop(clock=clock)
    mine = []
    try:
        stype = rng.choice(['integer', 'float', 'float', 'integer', 'timestamp', 'boolean', 'discrete', 'string'])
        sensor = make_sensor(rng, stype)
        specs = [pick_strategy(rng, stype) for _ in range(rng.choice([1, 1, 2, 4]))]
        ths = [s[1][0] for s in specs if s[0].startswith('differential')]
        nextval = value_source(rng, stype, ths)
        initial = (clock.now - 5, rng.choice(list(Sensor.STATUSES)), nextval())
        sensor.set(*initial)
        trace = Trace()
        t0 = clock.now + 1
        horizon = rng.choice([5, 12, 40])
        end = t0 + horizon
        grid = sorted(set(x for s in specs for x in s[1] if 0 < x < 100)) or [1.0]
        # --- update times: on and around multiples of the periods, bursts, coincidences
        times = []
        base = rng.choice([x for x in grid])
        for _ in range(rng.choice([3, 10, 30, 60])):
            k = rng.random()
            if k < 0.35:
                times.append(t0 + rng.choice(grid) * rng.randrange(0, 8) + rng.choice([0, 0, 1e-4, -1e-4]))
            elif k < 0.5 and times:
                times.append(times[-1])
            elif k < 0.75 and times:
                times.append(times[-1] + base * rng.choice([0.1, 0.5, 0.9, 1.0, 1.1]))
            else:
                times.append(t0 + rng.random() * horizon)
        quiet = rng.random() < 0.5
        times = sorted(t for t in times if t0 - 0.5 <= t < end - (horizon * 0.3 if quiet else 0))
        count = [0]

        def do_set(steps):
            for _ in range(steps):
                count[0] += 1
                k = rng.random()
                status = Sensor.NOMINAL if k < 0.7 else rng.choice(list(Sensor.STATUSES))
                v = nextval() if rng.random() < 0.85 else sensor.read().value
                reading = (1e9 + count[0], status, v)
                trace.add('set', clock.now, reading)
                how = rng.random()
                if how < 0.6:
                    sensor.set(*reading)
                elif how < 0.9:
                    sensor.set_value(v, status, reading[0])
                else:
                    sensor.set_formatted(b'%.6f' % reading[0], Sensor.STATUSES_RAW[status],
                                         sensor.format_reading(reading)[2])
                    if stype in ('float', 'timestamp'):
                        # the formatted value is what the sensor now has
                        trace.ev[:] = [e if e[0] != 'set' or e[2] != reading else ('set', e[1], tuple(sensor.read()))
                                       for e in trace.ev]
        for t in times:
            mine.append(loop.call_at(t, do_set, rng.choice([1, 1, 1, 2, 3])))
        # --- stalls: callbacks that keep the loop busy
        stalls = []
        if rng.random() < 0.2:
            for _ in range(rng.choice([1, 3])):
                d = rng.choice(grid) * rng.choice([0.3, 1.0, 2.7])

                def stall(d=d):
                    stalls.append((clock.now, clock.now + d))
                    clock.now += d
                mine.append(loop.call_at(t0 + rng.random() * horizon * 0.8, stall))
        noisy = rng.random() < 0.15
        strategies = []
        for sid, (name, params, sent) in enumerate(specs):
            def cb(s, reading, sid=sid):
                trace.add('rep', sid, clock.now, tuple(reading))
                if s is not sensor:
                    ctx.violation('wrong-sensor', '%s: callback for %r' % (label, s))
                if noisy and rng.random() < 0.3:
                    raise Boom()
            try:
                st = SampleStrategy.get_strategy(name if rng.random() < 0.5 else name.encode(), cb, sensor, *sent, ioloop=loop)
            except ValueError as e:
                ctx.violation('refused', '%s: %s %r refused for %s sensor: %s' % (label, name, sent, stype, e))
                continue
            got = st.get_sampling_formatted()
            ctx.expect(got[0] == name.encode() and [float(x) for x in got[1]] == [float(x) for x in params], 'formatted',
                       '%s: %s %r describes itself as %r' % (label, name, sent, got))
            strategies.append(st)

            def start(st=st, sid=sid):
                trace.add('start', sid, clock.now)
                st.start()
                loop.add_callback(lambda: trace.add('live', sid, clock.now))

            def cancel(st=st, sid=sid):
                trace.add('cancel', sid, clock.now)
                st.cancel()
            ts = t0 + rng.choice([0, 0, rng.random() * 3])
            mine.append(loop.call_at(ts, start))
            if rng.random() < 0.3:
                mine.append(loop.call_at(ts + rng.choice([rng.random() * horizon, rng.choice(grid), 3 * rng.choice(grid)]), cancel))
        mine.append(loop.call_at(end, loop.stop))
        loop.start()
        end = clock.now
        if clock.runaway:
            ctx.violation('busy-loop', '%s: the strategies keep the event loop busy: %r' % (label, specs))
            return
        for sid, (name, params, sent) in enumerate(specs):
            judge(ctx, '%s %s%r on %s' % (label, name, sent, stype), sid, name, params, trace, initial, end, stalls)
        for st in strategies:
            st.cancel()
        n = len(trace.ev)
        for _ in range(3):
            loop.add_callback(loop.stop)
            loop.start()
        # (removed timers stay in the heap without their callback)
        left = [x for x in loop._timeouts if x.callback is not None and x not in mine]
        ctx.expect(not left, 'leftover-timer', '%s: timers left after everything was cancelled: %r' % (
            label, [(x.deadline - clock.now, x.callback) for x in left][:3]))
        ctx.expect(len(trace.ev) == n or all(e[0] != 'rep' for e in trace.ev[n:]), 'after-cancel', '%s: reports after cancel' % label)
        ctx.case('%s %r %r' % (stype, specs, [e[1:] for e in trace.ev if e[0] == 'set'][:60]))
        ctx.observe('updates', count[0])
        ctx.observe('virtual_seconds', int(horizon))
        for name, _p, _s in specs:
            ctx.observe('strategy_' + name)
        if stalls:
            ctx.observe('runs_with_stalls')
        ctx.sample({'sensor': stype, 'strategies': [list(map(str, s[:2])) for s in specs],
                    'trace_head': [repr(e) for e in trace.ev[:8]]})
    finally:
        loop.close(all_fds=True)


def formatted(sensor_type, major, value):
    if sensor_type == 'integer':
        return b'%d' % value
    if sensor_type == 'boolean':
        return b'1' if value else b'0'
    if sensor_type == 'float':
        return repr(value).encode()
    return value.encode()


class Dev(srv.Dev):
    def setup_sensors(self):
        srv.Dev.setup_sensors(self)
        self.add_sensor(Sensor.integer('num', 'a number', ''))
        self.add_sensor(Sensor.float('flt', 'a float', ''))
        self.add_sensor(Sensor.string('txt', 'a text', ''))
        self.add_sensor(Sensor.boolean('flag', 'a flag', ''))


def over_the_wire(ctx, rng, label):
    """Updates from threads reach sampling clients in the protocol's format."""
    major = rng.choice([5, 5, 4])
    mode = rng.choice(list(srv.MODES))
    server = srv.make_server(mode, major, cls=Dev)
    cs = []
    try:
        names = {'num': 'integer', 'flt': 'float', 'txt': 'string', 'flag': 'boolean'}
        sname = rng.choice(sorted(names))
        stype = names[sname]
        sensor = server.get_sensor(sname)
        strategies = []
        initial = (1000.25, Sensor.NOMINAL, {'integer': 5, 'float': 5.5, 'string': 'start', 'boolean': True}[stype])
        sensor.set(*initial)
        allowed = ['auto', 'event'] + (['event-rate 0.005 1000'] if major >= 5 else [])
        if stype in ('integer', 'float'):
            allowed += ['differential 3'] + (['differential-rate 3 0.005 1000'] if major >= 5 else [])
        for _ in range(rng.choice([1, 2, 4])):
            c = srv.after_greeting(srv.RawClient(server.bind_address))
            cs.append(c)
            st = rng.choice(allowed).split()
            rep, _ = c.call('sensor-sampling', sname, *st)
            ctx.expect(rep is not None and rep[3][:1] == [b'ok'], 'refused', '%s: ?sensor-sampling %s %r: %r' % (label, sname, st, rep))
            strategies.append(st)
        n = rng.choice([5, 50, 200])
        nextval = value_source(rng, stype, [3])
        pauses = [rng.choice([0, 0, 0, 0.0005, 0.004]) if n < 100 else 0 for _ in range(n)]
        readings = []
        for i in range(n):
            readings.append((2000.0 + i * 0.125, rng.choice([Sensor.NOMINAL] * 5 + [Sensor.WARN, Sensor.ERROR]), nextval()))
        # a final reading that differs from the one before for every strategy
        last = readings[-1]
        readings.append((5000.5, Sensor.FAILURE if last[1] != Sensor.FAILURE else Sensor.WARN, last[2]))

        def feed():
            for r, p in zip(readings, pauses + [0]):
                sensor.set(*r)
                if p:
                    time.sleep(p)
        where = rng.choice(['thread', 'thread', 'loop'])
        if where == 'thread':
            t = threading.Thread(target=feed)
            t.daemon = True
            t.start()
            t.join(common.STALL * 3)
        else:
            srv.in_loop(server, feed, common.STALL * 3)

        def fmt(r):
            ts = b'%.6f' % r[0] if major >= 5 else b'%d' % round(r[0] * 1000)
            return [ts, b'1', sname.encode(), Sensor.STATUSES[r[1]].encode(), formatted(stype, major, r[2])]
        final = fmt(readings[-1])
        for c, st in zip(cs, strategies):
            def got_all(lines):
                return any(x.startswith(b'#sensor-status ') and wire.decode(x)[3] == final for x in lines[-3:])
            if not c.wait(got_all):
                ctx.violation('wire-final-lost', '%s: %r: the final reading was never reported (%s, %s): %r'
                              % (label, st, mode, where, [x for x in c.snapshot() if b'sensor-status' in x][-2:]))
                continue
            c.barrier()
            got = [wire.decode(x)[3] for x in c.snapshot() if x.startswith(b'#sensor-status ')]
            allr = [initial] + readings
            texts = [fmt(r) for r in allr]
            if st[0] in ('auto', 'event', 'differential'):
                exp, prev = [], None
                for r in allr:
                    if st[0] == 'auto' or differs(st[0], [float(x) for x in st[1:]], r, prev):
                        exp.append(fmt(r))
                        prev = r
                bad = next((i for i in range(max(len(got), len(exp))) if got[i:i + 1] != exp[i:i + 1]), None)
                ctx.expect(got == exp, 'wire-' + st[0], '%s: %s: %d reports, %d expected; difference at %r: %r / %r'
                           % (label, st, len(got), len(exp), bad, got[bad or 0:][:2], exp[bad or 0:][:2]))
            else:
                pos = -1
                for g in got:
                    k = next((i for i in range(pos + 1, len(texts)) if texts[i] == g), None)
                    if k is None:
                        ctx.violation('wire-order', '%s: %s: report %r is not a later reading of the sensor' % (label, st, g))
                        break
                    pos = k
            ctx.observe('wire_reports', len(got))
        ctx.case('wire %s %s %s %r %d' % (mode, sname, where, strategies, n))
    finally:
        for c in cs:
            c.close()
        srv.stop_server(server)


def run(ctx):
    ctx.rule = ('one case = one update history with its strategies on a virtual-time loop (every report is judged against the '
                'strategy\'s specification), or one burst of updates observed by raw clients')
    ctx.assumptions = ['sensor values are comparable (no NaN)', 'longest period above zero']
    done = 0
    for i in range(10 ** 7):
        if not ctx.more(done, 2500, 200000, 25, 300):
            break
        scenario(ctx, ctx.subrng('v', i), 'history %d' % i)
        done += 1
    done = 0
    t = ctx.elapsed()
    for i in range(10 ** 6):
        if not ctx.more(done, 40, 3000, t + 15, t + 150):
            break
        over_the_wire(ctx, ctx.subrng('w', i), 'burst %d' % i)
        done += 1
