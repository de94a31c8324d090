"""C17: asynchronous primitives neither lose nor invent wake-ups.

Random programs of sets, clears, waits and timeouts run on a virtual-time loop.  Every operation is
logged with its virtual time and position; each wait is judged afterwards against the log.
"""
import threading
import time

import tornado.gen
import tornado.ioloop
from tornado.concurrent import Future
from tornado.gen import TimeoutError

from katcp.core import (AsyncCallbackEvent, AsyncEvent, AsyncState, LatencyTimer, future_timeout_manager, until_any, until_later, until_some)

from .. import common, vloop

PENDING = 'pending'


class World(object):
    def __init__(self, rng):
        self.rng = rng
        self.clock = vloop.Clock(start=rng.choice([0.0, 1000.0, 1e6]))
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.seq = 0
        self.waits = []
        self.k = 0

    def now(self):
        return self.loop.time()

    def tick(self):
        self.seq += 1
        return self.seq

    def when(self, span):
        """A time that no other operation or deadline shares, unless coincidence is harmless."""
        return self.rng.randrange(0, int(span * 8)) / 8.0

    def odd(self, lo, hi):
        """A timeout such that deadlines never coincide with operations."""
        self.k += 1
        return self.rng.randrange(int(lo * 8), int(hi * 8)) / 8.0 + 0.03 + (self.k % 997) * 1e-5

    def run(self, span):
        self.loop.call_later(span, self.loop.stop)
        self.loop.start()

    def close(self):
        self.loop.clear_current()
        self.loop.close()


class Wait(object):
    def __init__(self, w, what, timeout, hit_now, key):
        self.what, self.timeout, self.hit_now, self.key = what, timeout, hit_now, key
        self.t0, self.s0 = w.now(), w.tick()
        self.out = PENDING
        self.t1 = None
        self.calls = 0

    def follow(self, w, f):
        def done(f):
            self.calls += 1
            if self.t1 is not None:
                return
            self.t1, self.s1 = w.now(), w.tick()
            try:
                self.out = ('ok', f.result())
            except TimeoutError:
                self.out = 'timeout'
            except Exception as e:
                self.out = ('exc', e)
        f.add_done_callback(done)
        w.waits.append(self)
        return f


def judge(ctx, lab, w, wt, due_at, value, end):
    """`due_at`: virtual time at which the awaited thing first happened (None: never)."""
    ddl = wt.t0 + wt.timeout if wt.timeout else None
    if due_at is not None and (ddl is None or due_at < ddl):
        ctx.expect(wt.out != PENDING, 'lost-wakeup', '%s: %s started at %r is still pending; it was due at %r' % (lab, wt.what, wt.t0, due_at))
        if wt.out != PENDING:
            ctx.expect(isinstance(wt.out, tuple) and wt.out[0] == 'ok' and (value is None or value(wt.out[1])) and wt.t1 == due_at, 'wrong-wakeup',
                       '%s: %s started at %r gave %r at %r; due at %r' % (lab, wt.what, wt.t0, wt.out, wt.t1, due_at))
    elif ddl is not None and ddl < end:
        ctx.expect(wt.out == 'timeout' and abs(wt.t1 - ddl) < 1e-6, 'timeout', '%s: %s started at %r with timeout %r gave %r at %r (happened: %r)'
                   % (lab, wt.what, wt.t0, wt.timeout, wt.out, wt.t1, due_at))
    elif ddl is None or ddl > end:
        ctx.expect(wt.out == PENDING, 'invented-wakeup', '%s: %s started at %r gave %r at %r, but was never due'
                   % (lab, wt.what, wt.t0, wt.out, wt.t1))
    ctx.expect(wt.calls <= 1, 'resolved-twice', '%s: %s resolved %d times' % (lab, wt.what, wt.calls))
    ctx.observe('waits_judged')
    ctx.observe('outcome_' + (wt.out if isinstance(wt.out, str) else wt.out[0]))


def events(ctx, rng, label):
    """Events and states under one random program, including waiters that react."""
    w = World(rng)
    try:
        hist = {}               # key -> [(seq, time)] at which it was entered/set
        flags = {}
        cblog = {}
        evs, sts = [], []
        for i in range(rng.choice([1, 2])):
            if rng.random() < 0.5:
                evs.append(AsyncEvent(w.loop) if rng.random() < 0.5 else AsyncEvent())
            else:
                cblog[i] = []
                bad = rng.random() < 0.3

                def cb(x, i=i, bad=bad):
                    cblog[i].append(x)
                    if bad:
                        raise ValueError('from the callback')
                evs.append(AsyncCallbackEvent(cb))
            flags[i] = []
        for i in range(rng.choice([1, 2])):
            names = ['s%d' % j for j in range(rng.choice([2, 3, 4]))]
            init = rng.choice([None, rng.choice(names)])
            sts.append((AsyncState(names, init), names))
            hist[('st', i, init or names[0])] = []
            ctx.expect(sts[i][0].state == (init or names[0]) and sts[i][0].valid_states == frozenset(names), 'state', '%s: initial state' % label)
        budget = [120]
        lastset, inline = {}, [0]

        def do(op):
            kind = op[0]
            if inline[0] and kind in ('set', 'clear') and op[1] in cblog:
                return      # the order of change callbacks is not promised in this case
            if kind == 'set':
                i = op[1]
                hist.setdefault(('ev', i), []).append((w.tick(), w.now()))
                flags[i].append(True)
                evs[i].set()
                ctx.expect(i not in cblog or cblog[i][-1:] == [True], 'callback', '%s: set() called back %r' % (label, cblog.get(i, [])[-1:]))
            elif kind == 'clear':
                i = op[1]
                flags[i].append(False)
                evs[i].clear()
                ctx.expect(i not in cblog or cblog[i][-1:] == [False], 'callback', '%s: clear() called back %r' % (label, cblog.get(i, [])[-1:]))
            elif kind == 'state':
                st, names = sts[op[1]]
                s = rng.choice(names)
                hist.setdefault(('st', op[1], s), []).append((w.tick(), w.now()))
                mine = lastset[op[1]] = w.seq
                st.set_state(s)
                ctx.expect(st.state == s or lastset[op[1]] != mine, 'state', '%s: state %r after set_state(%r)' % (label, st.state, s))
            elif kind == 'badstate':
                for f in (lambda: sts[op[1]][0].set_state('nosuch'), lambda: sts[op[1]][0].until_state('nosuch')):
                    try:
                        f()
                    except ValueError:
                        pass
                    else:
                        ctx.violation('bad-state', '%s: illegal state accepted' % label)
            elif kind == 'wait':
                i = op[1]
                to = w.odd(0.1, 20) if rng.random() < 0.5 else None
                wt = Wait(w, 'until_set', to, evs[i].isSet(), [('ev', i)])
                f = wt.follow(w, evs[i].until_set(to) if to or rng.random() < 0.5 else evs[i].until_set())
                ctx.expect(not wt.hit_now or f.done(), 'late-wakeup', '%s: event is set but until_set() not resolved' % label)
            elif kind == 'waitstate':
                st, names = sts[op[1]]
                to = w.odd(0.1, 20) if rng.random() < 0.5 else None
                if rng.random() < 0.5:
                    s = rng.choice(names)
                    wt = Wait(w, 'until_state', to, st.state == s, [('st', op[1], s)])
                    f = wt.follow(w, st.until_state(s, to))
                else:
                    some = [rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3]))]
                    wt = Wait(w, 'until_state_in', to, st.state in some, [('st', op[1], s) for s in some])
                    f = wt.follow(w, st.until_state_in(*some, timeout=to) if to else st.until_state_in(*some))
                ctx.expect(not wt.hit_now or f.done(), 'late-wakeup', '%s: state holds but the wait is not resolved' % label)
            elif kind == 'react':
                react(op[1])
            elif kind == 'inline':
                # changes things while the primitive is still busy waking up its waiters
                if rng.random() < 0.5:
                    i = op[1] % len(evs)
                    wt = Wait(w, 'until_set', None, evs[i].isSet(), [('ev', i)])
                    f = wt.follow(w, evs[i].until_set())
                else:
                    st, names = sts[op[1] % len(sts)]
                    s = rng.choice(names)
                    wt = Wait(w, 'until_state', None, st.state == s, [('st', op[1] % len(sts), s)])
                    f = wt.follow(w, st.until_state(s))
                todo = [pick() for _ in range(rng.choice([1, 2, 3]))]

                def react_inline(_f):
                    for o in todo:
                        budget[0] -= 1
                        if budget[0] > 0:
                            inline[0] += 1
                            try:
                                do(o)
                            finally:
                                inline[0] -= 1
                f.add_done_callback(react_inline)

        @tornado.gen.coroutine
        def react(i):
            """Waits, and changes things as soon as it is woken up."""
            for _ in range(rng.choice([1, 3])):
                to = w.odd(0.1, 20) if rng.random() < 0.3 else None
                wt = Wait(w, 'until_set', to, evs[i].isSet(), [('ev', i)])
                try:
                    yield wt.follow(w, evs[i].until_set(to))
                except TimeoutError:
                    return
                for _ in range(rng.choice([0, 1, 2])):
                    budget[0] -= 1
                    if budget[0] > 0:
                        do(pick())

        def pick():
            return rng.choice([('set', rng.randrange(len(evs))), ('clear', rng.randrange(len(evs))), ('set', rng.randrange(len(evs))),
                               ('state', rng.randrange(len(sts))), ('state', rng.randrange(len(sts))), ('wait', rng.randrange(len(evs))),
                               ('waitstate', rng.randrange(len(sts))), ('waitstate', rng.randrange(len(sts))), ('react', rng.randrange(len(evs))),
                               ('badstate', rng.randrange(len(sts))), ('inline', rng.randrange(4)), ('inline', rng.randrange(4))])
        span = 20.0
        trace = []
        for _ in range(rng.choice([5, 15, 40])):
            op = pick()
            t = w.when(span)
            trace.append((op[0], op[1]))
            w.loop.call_later(t, do, op)
        w.run(span + 10.0)
        ctx.expect(not w.clock.runaway, 'runaway', '%s: the loop never rested' % label)
        end = w.now()
        for wt in w.waits:
            due = wt.t0 if wt.hit_now else None
            if due is None:
                times = [t for k in wt.key for s, t in hist.get(k, []) if s > wt.s0]
                due = min(times) if times else None
            judge(ctx, label, w, wt, due, lambda v: v is True, end)
        for i in range(len(evs)):
            want = flags[i][-1] if flags[i] else False
            ctx.expect(evs[i].isSet() == want and evs[i].is_set() == want, 'flag', '%s: flag %r, expected %r' % (label, evs[i].isSet(), want))
            if i in cblog:
                ctx.expect(len(cblog[i]) == len(flags[i]) and cblog[i][-1:] == flags[i][-1:], 'callback',
                           '%s: %d callbacks for %d changes' % (label, len(cblog[i]), len(flags[i])))
        ctx.case(repr(trace))
    finally:
        w.close()


def combine(ctx, rng, label):
    """until_any / until_some / timeouts over plain and shared futures."""
    w = World(rng)
    try:
        futs, at, cbs = [], [], []
        ev = AsyncEvent(w.loop)
        n = rng.choice([1, 2, 3, 5, 8])
        order, evi = [], []
        span = 20.0
        ev_at = w.when(span) + 0.0625 if rng.random() < 0.8 else None
        for i in range(n):
            if rng.random() < 0.2:
                f = ev.until_set()
                t = ev_at
                evi.append(i)
            else:
                f = Future()
                t = None if rng.random() < 0.2 else rng.choice([0, w.when(span)]) or None
                r = rng.random()
                if r < 0.2:
                    t = 'now'
            futs.append(f)
            at.append(t)
            cbs.append([])
        exc = {}
        t_start = w.when(5) + 0.25

        def resolve(i):
            if not futs[i].done():
                order.append((i, w.now(), w.tick()))
                if i in exc:
                    futs[i].set_exception(exc[i])
                else:
                    futs[i].set_result(('v', i))
        shared = set(i for i in range(n) if any(futs[i] is futs[j] for j in range(n) if j != i))
        plain = [i for i in range(n) if i not in evi]
        for i in plain:
            if rng.random() < 0.2 and at[i] is not None:
                exc[i] = ValueError('e%d' % i)
        for i in plain:
            if at[i] == 'now':
                resolve(i)
                order[-1] = (i, -1.0, order[-1][2])
            elif at[i] is not None:
                w.loop.call_later(at[i], resolve, i)
        base = w.now()
        if ev_at is not None:
            w.loop.call_later(ev_at, ev.set)

        def ready_time(i):
            """Absolute virtual time at which future i is resolved (None: never)."""
            if i in evi:
                return None if ev_at is None else base + ev_at
            if at[i] == 'now':
                return base - 1.0
            return None if at[i] is None else base + at[i]

        def value(i):
            return True if i in evi else ('v', i)
        results = []

        def any_of(idx, to, kw):
            wt = Wait(w, 'until_any%r' % (idx,), to, False, None)
            wt.idx, wt.kind, wt.need = idx, 'any', 1
            results.append(wt)
            wt.follow(w, until_any(*[futs[i] for i in idx], **kw))

        def some_of(idx, to, need, named):
            wt = Wait(w, 'until_some%r>=%r' % (idx, need), to, False, None)
            wt.idx, wt.kind, wt.need, wt.named = idx, 'some', need, named
            results.append(wt)
            kw = {}
            if need is not None:
                kw['done_at_least'] = need
            if to is not None:
                kw['timeout'] = to
            if named:
                kw.update(('f%d' % i, futs[i]) for i in idx)
                wt.follow(w, until_some(**kw))
            else:
                wt.follow(w, until_some(*[futs[i] for i in idx], **kw))

        for _ in range(rng.choice([1, 2, 4])):
            idx = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))] if rng.random() < 0.5 else rng.sample(range(n), rng.randrange(1, n + 1))
            to = w.odd(0.1, 12) if rng.random() < 0.5 else None
            t = rng.choice([0.01, t_start, w.when(15) + 0.25])
            if rng.random() < 0.5:
                kw = dict(timeout=to) if to else {}
                if rng.random() < 0.3:
                    kw['ioloop'] = w.loop
                w.loop.call_later(t, any_of, idx, to, kw)
            else:
                idx = sorted(set(i for i in idx if i not in exc and i not in shared))
                if idx:
                    need = rng.choice([None, 1, rng.randrange(1, len(idx) + 1)])
                    w.loop.call_later(t, some_of, idx, to, need, rng.random() < 0.5)
        # bystanders on the same futures must be told too, whatever the combinators do
        bys = []
        for i in range(n):
            if rng.random() < 0.7:
                def later(i=i):
                    futs[i].add_done_callback(lambda f: cbs[i].append(w.now()))
                    bys.append((i, w.now()))
                w.loop.call_later(rng.choice([0.02, t_start + 0.01, 16.3]), later)
        steps = []
        mt = [None, None]
        manager_run(w, rng, steps, mt)
        laters = []
        for _ in range(rng.choice([0, 2])):
            d = rng.choice([0.5, 3.25, 0])
            wt = Wait(w, 'until_later', None, False, None)
            wt.kind, wt.due = 'later', w.now() + d
            laters.append(wt)
            wt.follow(w, until_later(d) if rng.random() < 0.5 else until_later(d, ioloop=w.loop))
        w.run(span + 15.0)
        ctx.expect(not w.clock.runaway, 'runaway', '%s: the loop never rested' % label)
        end = w.now()
        for wt in laters:
            judge(ctx, label, w, wt, wt.due, lambda v: v is None, end)
        for i, t in bys:
            r = ready_time(i)
            want = [] if r is None else [max(r, t)]
            ctx.expect(cbs[i].count(max(r, t)) >= 1 if r is not None else not cbs[i], 'bystander',
                       '%s: other callback of future %d called at %r, expected %r' % (label, i, cbs[i], want))
        for wt in results:
            times = {}
            for i in wt.idx:
                r = ready_time(i)
                if r is not None:
                    times[i] = max(r, wt.t0)
            if wt.kind == 'any':
                due = min(times.values()) if times else None
                firsts = [i for i in times if times[i] == due]
                ddl = wt.t0 + wt.timeout if wt.timeout else None
                if due is not None and (ddl is None or due < ddl):
                    ok = wt.out != PENDING and wt.t1 == due
                    if ok:
                        vals = []
                        for i in firsts:
                            vals.append(('exc', exc[i]) if i in exc else ('ok', value(i)))
                        ok = any(wt.out[0] == v[0] and (wt.out[1] is v[1] if v[0] == 'exc' else wt.out[1] == v[1]) for v in vals)
                    ctx.expect(ok, 'until-any', '%s: %s started at %r gave %r at %r; futures due %r' % (label, wt.what, wt.t0, wt.out, wt.t1, times))
                    ctx.observe('until_any_judged')
                else:
                    judge(ctx, label, w, wt, None, None, end)
            else:
                need = len(wt.idx) if wt.need is None else wt.need
                ts = sorted(times.values())
                due = ts[need - 1] if len(ts) >= need else None

                def good(v, wt=wt, times=times, need=need, due=due):
                    keys = [k for k, _ in v]
                    names = dict((('f%d' % i) if wt.named else p, i) for p, i in enumerate(wt.idx))
                    return (len(v) >= need and len(set(keys)) == len(keys) and all(k in names and x == value(names[k]) and times.get(names[k], 1e99) <= due
                                                                                  for k, x in v))
                judge(ctx, label, w, wt, due, good, end)
        judge_manager(ctx, label, w, steps, mt)
        ctx.case('%r %r %r' % (at, sorted(exc), [(x.what, x.timeout) for x in results]))
    finally:
        w.close()


def manager_run(w, rng, steps, mt):
    """A sequence of operations under one cumulative timeout."""
    to = rng.choice([None, w.odd(1, 15)])
    durations = [rng.choice([0, 0.5, 2.25, 6.0]) for _ in range(rng.choice([1, 3, 6]))]
    mt[0], mt[1] = to, durations

    @tornado.gen.coroutine
    def go():
        t0 = w.now()
        m = future_timeout_manager(to) if rng.random() < 0.5 else future_timeout_manager(to, w.loop)
        for d in durations:
            f = until_later(d)
            try:
                yield m(f)
                steps.append(('ok', w.now() - t0, m.remaining()))
            except TimeoutError:
                steps.append(('timeout', w.now() - t0, m.remaining()))
                return
    w.loop.add_callback(go)


def judge_manager(ctx, label, w, steps, mt):
    to, durations = mt
    total, want = 0.0, []
    for d in durations:
        total += d
        if to is not None and total > to:
            want.append(('timeout', to))
            break
        want.append(('ok', total))
    ok = len(steps) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-6 for a, b in zip(steps, want))
    if ok:
        ok = all((s[2] is None) if to is None else abs(s[2] - (to - s[1])) < 1e-6 for s in steps)
    ctx.expect(ok, 'cumulative-timeout', '%s: timeout %r over %r gave %r, expected %r' % (label, to, durations, steps, want))
    ctx.observe('managed_steps', len(steps))


def latency(ctx, rng, label):
    w = World(rng)
    try:
        lim = rng.choice([0.05, 1.0])
        lt = LatencyTimer(lim) if rng.random() < 0.5 else LatencyTimer(lim, w.loop)
        since, prev = None, False
        done, pend = Future(), Future()
        done.set_result(1)
        for i in range(30):
            w.clock.now += rng.choice([0, 0.01, 0.03, 0.3, 0.7, 2.0])
            d = rng.random() < 0.75
            lt.check_future(done if d else pend)
            if d and not prev:
                since = w.now()
            prev = d
            want = d and w.now() - since > lim
            got = lt.time_to_yield()
            ctx.expect(bool(got) == want or d and abs(w.now() - since - lim) < 1e-6, 'latency', '%s: time_to_yield() %r, resolved futures since %r, now %r, limit %r'
                       % (label, got, since, w.now(), lim))
        ctx.case(label)
    finally:
        w.close()


def blocking(ctx, rng, label):
    """wait_with_ioloop from other threads."""
    loop = tornado.ioloop.IOLoop()
    t = threading.Thread(target=lambda: (loop.make_current(), loop.start()))
    t.daemon = True
    t.start()
    try:
        ev = AsyncEvent(loop)
        n = rng.choice([1, 3])
        got = []
        how = rng.choice(['before', 'after', 'pulse', 'never'])

        def wait(timeout):
            got.append(ev.wait_with_ioloop(loop, timeout))
        if how == 'before':
            loop.add_callback(ev.set)
        ths = [threading.Thread(target=wait, args=(0.02 if how == 'never' else common.STALL,)) for _ in range(n)]
        for x in ths:
            x.daemon = True
            x.start()
        if how in ('after', 'pulse'):
            time.sleep(0.05)      # mostly: they are waiting now

            def pulse():
                ev.set()
                if how == 'pulse':
                    loop.call_later(0.2, ev.clear)
            loop.add_callback(pulse)
        for x in ths:
            x.join(common.STALL * 1.5)
        want = [how != 'never'] * n
        ctx.expect(got == want, 'blocking-wait', '%s: %s: waits returned %r' % (label, how, got))
        ctx.observe('blocking_waits', n)
        ctx.case('%s %s %d' % (label, how, n))
    finally:
        loop.add_callback(loop.stop)
        t.join(common.STALL)
        loop.close()


def run(ctx):
    ctx.rule = 'one case = one random program of sets, clears, waits, combinators and timeouts on a virtual-time loop'
    ctx.assumptions = ['timeout 0 means no timeout', 'all calls in the event-loop thread', 'deadlines never coincide with operations']
    done = 0
    for i in range(10 ** 6):
        if not ctx.more(done, 6000, 200000, 30, 400):
            break
        rng = ctx.subrng('q', i)
        fn = latency if i % 29 == 7 else blocking if i % 300 == 11 else [events, combine][i % 2]
        fn(ctx, rng, '%s %d' % (fn.__name__, i))
        done += 1
        if ctx.violations and done > 3:
            break
