"""C11: sampling requests take effect atomically and end when told to."""
import threading
import time

from katcp import Sensor

from .. import common, perturb
from . import srv, wire

FAST = 0.01     # a period short enough to be waited for


class Probe(Sensor):
    """A sensor that knows who observes and reads it."""

    def __init__(self, *a, **kw):
        self.obs_lock = threading.Lock()
        self.obs = {}
        self.reads = 0
        super(Probe, self).__init__(*a, **kw)

    def attach(self, observer):
        super(Probe, self).attach(observer)
        with self.obs_lock:
            self.obs[id(observer)] = observer

    def detach(self, observer):
        super(Probe, self).detach(observer)
        with self.obs_lock:
            self.obs.pop(id(observer), None)

    def read(self):
        self.reads += 1
        return super(Probe, self).read()


KINDS = {'int': Sensor.INTEGER, 'flt': Sensor.FLOAT, 'txt': Sensor.STRING, 'bool': Sensor.BOOLEAN, 'dis': Sensor.DISCRETE,
         'int2': Sensor.INTEGER}


def make_sensor(name):
    t = KINDS[name.split('.')[0]]
    return Probe(t, name, 'sensor ' + name, '', ['a', 'b', 'c'] if t == Sensor.DISCRETE else None)


class Sub(object):
    def __init__(self, strategy, params):
        self.strategy, self.params, self.last = strategy, params, None

    exact = property(lambda self: self.strategy in ('auto', 'event', 'differential'))

    def differs(self, r):
        if self.strategy == 'auto' or self.last is None or r[1] != self.last[1]:
            return True
        if self.strategy.startswith('differential'):
            return abs(r[2] - self.last[2]) > self.params[0]
        return r[2] != self.last[2]


def goods(name, major):
    numeric = name[:3] in ('int', 'flt')
    ms = 1000 if major == 4 else 1
    out = [('auto', []), ('event', []), ('period', [FAST * ms]), ('period', [50 * ms])]
    if numeric:
        out += [('differential', [1]), ('differential', [5])]
    if major >= 5:
        out += [('event-rate', [0.005, 1000]), ('event-rate', [0, 1000])]
        if numeric:
            out += [('differential-rate', [5, 0.005, 1000])]
    return out


def bads(rng, name, major):
    numeric = name[:3] in ('int', 'flt')
    out = [[b'foo'], [b''], [b'AUTO'], [b'\xff'], [b'auto', b'1'], [b'event', b'1'], [b'none', b'1'], [b'period'], [b'period', b'0'],
           [b'period', b'-1'], [b'period', b'nan'], [b'period', b'inf'], [b'period', b'abc'], [b'period', b''],
           [b'period', b'50', b'2'], [b'differential'], [b'differential', b'0'], [b'differential', b'-2'],
           [b'differential', b'nan'], [b'differential', b'inf'], [b'differential', b'1', b'2'], [b'differential', b'x'],
           [b'event-rate'], [b'event-rate', b'1'], [b'event-rate', b'3', b'2'], [b'event-rate', b'-1', b'2'],
           [b'event-rate', b'nan', b'2'], [b'event-rate', b'1', b'nan'], [b'event-rate', b'1', b'2', b'3'],
           [b'differential-rate', b'1', b'2'], [b'differential-rate', b'0', b'1', b'2'], [b'differential-rate', b'-3', b'1', b'2'],
           [b'differential-rate', b'nan', b'1', b'2'], [b'differential-rate', b'1', b'3', b'2'],
           [b'differential-rate', b'inf', b'1', b'2'], [b'differential-rate', b'x', b'1', b'2']]
    if not numeric:
        out += [[b'differential', b'1']] * 3 + [[b'differential-rate', b'1', b'1', b'2']] * 3
    if major == 4:
        out += [[b'event-rate', b'1', b'2']] * 3 + [[b'differential-rate', b'1', b'1', b'2']]
    return rng.choice(out)


class World(object):
    def __init__(self, ctx, rng, mode, label):
        self.ctx, self.rng, self.label = ctx, rng, label
        self.major, minor, flags = rng.choice([(4, 0, 'M'), (5, 0, 'IM'), (5, 1, 'IMB'), (5, 1, 'IMTB')])
        self.bulk = 'B' in flags
        self.server = srv.make_server(mode, self.major, flags, minor=minor)
        self.sensors, self.cur, self.removed = {}, {}, []
        self.ts = 5000
        for n in KINDS:
            self.add(n)
        self.clients, self.subs, self.pos = [], {}, {}
        for _ in range(rng.choice([1, 2, 3])):
            self.connect()
        self.trail = []

    # -- helpers ----------------------------------------------------------
    def add(self, name):
        s = make_sensor(name)
        self.sensors[name] = s
        self.cur[name] = None
        self.server.add_sensor(s)
        self.update(name, check=False)

    def connect(self):
        c = srv.after_greeting(srv.RawClient(self.server.bind_address))
        self.clients.append(c)
        self.subs[c] = {}
        self.pos[c] = len(c.snapshot())
        return c

    def fail(self, key, what):
        self.ctx.violation(key, '%s: %s; history %r' % (self.label, what, self.trail[-8:]))
        raise common.Violated(key)

    def expect(self, cond, key, what):
        self.ctx.observe('oracle_evaluations')
        if not cond:
            self.fail(key, what)

    def reading(self, name, big=False):
        rng = self.rng
        self.ts += 1
        old = self.cur[name]
        k = name[:3]
        st = rng.choice([Sensor.NOMINAL] * 4 + [Sensor.WARN, Sensor.ERROR])
        if big:
            st = Sensor.FAILURE if old is None or old[1] != Sensor.FAILURE else Sensor.UNREACHABLE
        if k == 'int':
            v = (old[2] if old else 0) + rng.choice([0, 1, -1, 2, 5, 6, -6])
        elif k == 'flt':
            v = (old[2] if old else 0.0) + rng.choice([0, 0.5, 1.0, 1.25, 5.0, 5.5, -7.0])
        elif k == 'txt':
            v = rng.choice(['', 'a b', 'text', 'more'])
        elif k == 'boo':
            v = rng.random() < 0.5
        else:
            v = rng.choice('abc')
        return (float(self.ts), st, v)

    def stamp(self, r):
        return b'%.6f' % r[0] if self.major >= 5 else b'%d' % round(r[0] * 1000)

    def fmt(self, r):
        v = r[2]
        text = (b'1' if v else b'0') if isinstance(v, bool) else v.encode() if isinstance(v, str) else repr(v).encode()
        return [self.stamp(r), b'1', None, Sensor.STATUSES[r[1]].encode(), text]

    def apply(self, name, r, how):
        s = self.sensors[name]
        if how == 'loop':
            srv.in_loop(self.server, lambda: s.set(*r))
        else:
            s.set(*r)
            self.server.sync_with_ioloop(common.STALL)
        self.cur[name] = r

    def slice(self, c):
        """Reports by sensor that arrived at c since the last look."""
        if not c.barrier():
            self.fail('dead', 'client got no answer')
        lines = c.snapshot()
        new = lines[self.pos[c]:]
        self.pos[c] = len(lines)
        out = {}
        for x in new:
            if x.startswith(b'#sensor-status '):
                a = wire.decode(x)[3]
                out.setdefault(a[2].decode(), []).append(a)
        return out

    def check(self, updates, fresh=()):
        """updates: {name: [readings applied since the last check]}; fresh: (client, name) just (re)started."""
        for c in self.clients:
            # timed strategies: the current reading must come
            for name, sub in self.subs[c].items():
                if not sub.exact:
                    self.settle(c, name, sub, (c, name) in fresh)
            got = self.slice(c)
            for name in set(list(got) + list(self.subs[c])):
                reports = got.get(name, [])
                sub = self.subs[c].get(name)
                if sub is None:
                    self.expect(not reports, 'unwanted-report', 'client without strategy for %s was sent %r' % (name, reports[:2]))
                    continue
                ups = updates.get(name, [])
                if sub.exact:
                    exp = []
                    for r in ([self.base[name]] if (c, name) in fresh else []) + ups:
                        if sub.differs(r):
                            exp.append(r)
                            sub.last = r
                    self.expect([x[0] for x in reports] == [self.stamp(r) for r in exp], 'reports',
                                '%s %s %r: reported %r, expected %r' % (name, sub.strategy, sub.params, reports[:6], [self.fmt(r) for r in exp][:6]))
                    for x, r in zip(reports, exp):
                        f = self.fmt(r)
                        self.expect(x[1] == b'1' and x[3:] == f[3:], 'report-text', '%s: %r reported as %r' % (name, r, x))
                else:
                    known = [self.stamp(r) for r in self.hist.get(name, [])]
                    idx = [known.index(x[0]) if x[0] in known else None for x in reports]
                    self.expect(None not in idx and idx == sorted(idx), 'report-order',
                                '%s %s: reports %r are not readings in order' % (name, sub.strategy, reports[:6]))
                    if reports:
                        sub.last = self.hist[name][idx[-1]]
                self.ctx.observe('reports', len(reports))
        for name in self.sensors:
            self.leak(name)

    def settle(self, c, name, sub, fresh):
        cur = self.cur[name]
        if sub.strategy == 'period' and sub.params[0] > (1000 if self.major == 4 else 1) and not fresh:
            return
        start = self.pos[c]
        head = b' 1 ' + name.encode() + b' '
        byts = dict((self.stamp(r), r) for r in self.hist[name])

        def current(lines):
            for x in reversed(lines[start:]):
                if x.startswith(b'#sensor-status ') and head in x:
                    r = byts.get(wire.decode(x)[3][0])
                    break
            else:
                r = None if fresh else sub.last
            if r is None:
                return False
            if sub.strategy == 'period':
                return r == cur
            probe = Sub(sub.strategy, sub.params)
            probe.last = r
            return not probe.differs(cur)
        self.expect(c.wait(current), 'not-reported', '%s %s %r: the current reading %r is not reported'
                    % (name, sub.strategy, sub.params, cur))

    def leak(self, name, sensor=None):
        s = sensor or self.sensors[name]
        n = 0 if sensor else sum(1 for c in self.clients if name in self.subs[c])
        ok = common.wait_until(lambda: len(s.obs) <= n, timeout=5)
        self.expect(ok, 'observer-leak', 'sensor %s has %d observers, %d clients sample it' % (name, len(s.obs), n))
        self.ctx.observe('leak_probes')

    @property
    def base(self):
        return self._base

    def run(self, fn):
        self._base = dict(self.cur)
        self.hist = getattr(self, 'hist', {})
        fn()

    # -- operations ---------------------------------------------------------
    def call(self, c, *args):
        rep, _ = c.call(*args) if self.major >= 5 else self.call4(c, *args)
        if rep is None:
            self.fail('no-reply', '%r got no reply' % (args,))
        return rep[3]

    def call4(self, c, *args):
        start = len(c.snapshot())
        c.req(*args)
        i = c.wait_line(b'!' + args[0].encode() + b' ', start)
        return (wire.decode(c.snapshot()[i]) if i is not None else None), []

    def in_force(self, c, name):
        sub = self.subs[c].get(name)
        a = self.call(c, 'sensor-sampling', name)
        want = ('none', []) if sub is None else (sub.strategy, sub.params)
        self.expect(a[:3] == [b'ok', name.encode(), want[0].encode()] and [float(x) for x in a[3:]] == [float(x) for x in want[1]],
                    'query', 'strategy in force on %s is %r, the query says %r' % (name, want, a))
        self.ctx.observe('queries')

    def op_set(self):
        c, name = self.rng.choice(self.clients), self.rng.choice(list(self.sensors))
        st, params = self.rng.choice(goods(name, self.major) + [('none', [])] * 2)
        self.trail.append(('set', self.clients.index(c), name, st, params))
        a = self.call(c, 'sensor-sampling', name, st, *[repr(p) for p in params])
        self.expect(a[:3] == [b'ok', name.encode(), st.encode()] and [float(x) for x in a[3:]] == [float(x) for x in params], 'reply',
                    '?sensor-sampling %s %s %r answered %r' % (name, st, params, a))
        self.start(c, name, st, params)

    def start(self, c, name, st, params):
        if st == 'none':
            was = self.subs[c].pop(name, None)
            # what the old strategy may still have sent before the reply
            lines = c.snapshot()
            i = max(k for k, x in enumerate(lines) if x.startswith(b'!sensor-sampling'))
            if was is not None and not was.exact:
                self.pos[c] = max(self.pos[c], i)
            self.check({})
        else:
            old = self.subs[c].get(name)
            if old is not None and not old.exact:
                # skip reports of the old strategy: everything before this request
                lines = c.snapshot()
                first = next((k for k in range(self.pos[c], len(lines)) if lines[k].startswith(b'!sensor-sampling')), self.pos[c])
                mine = [k for k in range(self.pos[c], first) if b' 1 ' + name.encode() + b' ' in lines[k]]
                if mine and st in ('auto', 'event', 'differential'):
                    # the last of them is the new strategy's first report unless it follows the reply
                    after = [k for k in range(first, len(lines)) if b' 1 ' + name.encode() + b' ' in lines[k]]
                    self.pos[c] = mine[-1] if not after else first
            self.subs[c][name] = Sub(st, params)
            self.check({}, [(c, name)])

    def op_bad(self):
        c, name = self.rng.choice(self.clients), self.rng.choice(list(self.sensors))
        if self.rng.random() < 0.15:
            name = self.rng.choice(['nosuch', '', 'int,', '/int/', 'INT', 'int\xff'])
            args = self.rng.choice([[], [b'auto'], [b'none']])
        else:
            args = bads(self.rng, name, self.major)
        self.trail.append(('bad', self.clients.index(c), name, args))
        a = self.call(c, 'sensor-sampling', name, *args)
        self.expect(a[:1] == [b'fail'] and len(a) == 2, 'not-refused', '?sensor-sampling %s %r answered %r' % (name, args, a))
        if name in self.sensors:
            self.in_force(c, name)
        self.check({})
        self.ctx.observe('refusals')

    def op_query(self):
        c, name = self.rng.choice(self.clients), self.rng.choice(list(self.sensors))
        self.in_force(c, name)
        self.check({})

    def op_update(self):
        ups = {}
        n = self.rng.choice([1, 1, 2, 5])
        how = self.rng.choice(['loop', 'thread'])
        self.trail.append(('update', n, how))
        for _ in range(n):
            name = self.rng.choice(list(self.sensors))
            self.update(name, how=how)
            ups.setdefault(name, []).append(self.cur[name])
        self.check(ups)

    def update(self, name, check=True, how='loop'):
        r = self.reading(name)
        self.hist = getattr(self, 'hist', {})
        self.hist.setdefault(name, []).append(r)
        self.apply(name, r, how)

    def op_clear(self):
        c = self.rng.choice(self.clients)
        self.trail.append(('clear', self.clients.index(c)))
        a = self.call(c, 'sensor-sampling-clear')
        self.expect(a == [b'ok'], 'clear', '?sensor-sampling-clear answered %r' % (a,))
        lines = c.snapshot()
        i = max(k for k, x in enumerate(lines) if x.startswith(b'!sensor-sampling-clear'))
        if any(not s.exact for s in self.subs[c].values()):
            self.pos[c] = max(self.pos[c], i)
        self.subs[c].clear()
        self.check({})
        if self.rng.random() < 0.5:
            self.in_force(c, self.rng.choice(list(self.sensors)))

    def op_disconnect(self):
        c = self.rng.choice(self.clients)
        self.trail.append(('disconnect', self.clients.index(c)))
        had = list(self.subs[c])
        self.clients.remove(c)
        del self.subs[c]
        c.close(rst=self.rng.random() < 0.5)
        if not self.clients:
            self.connect()
        name = c.name.encode()
        other = self.clients[0]

        def gone():
            start = len(other.snapshot())
            self.call(other, 'client-list')
            return not any(x.endswith(b' ' + name) for x in other.snapshot()[start:] if x.startswith(b'#client-list'))
        self.expect(common.wait_until(gone, step=0.005), 'ghost', 'a closed connection stays in the client list')
        for n in had:
            self.leak(n)
        self.check({})
        if self.rng.random() < 0.3:
            self.quiet_reads(had)
        if len(self.clients) < 3:
            self.connect()

    def quiet_reads(self, names):
        """Nothing samples a sensor nobody asked for."""
        for n in names:
            if n in self.sensors and not any(n in self.subs[c] for c in self.clients):
                self.server.sync_with_ioloop(common.STALL)
                self.server.sync_with_ioloop(common.STALL)
                r0 = self.sensors[n].reads
                time.sleep(5 * FAST)
                self.expect(self.sensors[n].reads == r0, 'still-sampled', 'sensor %s is read although no client samples it' % n)

    def op_remove(self):
        name = self.rng.choice(list(self.sensors))
        self.trail.append(('remove', name))
        s = self.sensors[name]
        self.server.remove_sensor(name if self.rng.random() < 0.5 else s)
        self.server.sync_with_ioloop(common.STALL)
        for c in self.clients:
            timed = name in self.subs[c] and not self.subs[c][name].exact
            if timed:
                self.slice(c)
            self.subs[c].pop(name, None)
        self.leak(name, s)
        # the device still updates its sensor object
        for _ in range(2):
            r = self.reading(name, big=True)
            srv.in_loop(self.server, lambda: s.set(*r))
        hist = self.hist.pop(name)
        del self.sensors[name]
        self.check({})
        a = self.call(self.rng.choice(self.clients), 'sensor-sampling', name, 'auto')
        self.expect(a[:1] == [b'fail'], 'not-refused', 'sampling a removed sensor answered %r' % (a,))
        if self.rng.random() < 0.7:
            self.add(name)
            c = self.rng.choice(self.clients)
            self.in_force(c, name)
            self.check({})

    def op_bulk(self):
        if not self.bulk:
            return self.op_set()
        c = self.rng.choice(self.clients)
        names = self.rng.sample(list(self.sensors), min(len(self.sensors), self.rng.choice([1, 2, 3])))
        common_st = [g for g in goods(names[0], self.major) if all(g in goods(n, self.major) for n in names)]
        st, params = self.rng.choice(common_st + [('none', [])])
        asked = list(names)
        if self.rng.random() < 0.45:
            asked.append(self.rng.choice(names))
        self.trail.append(('bulk', self.clients.index(c), asked, st, params))
        # start from a known state: replaced timed strategies make the stream hard to judge
        for n in names:
            if n in self.subs[c] and not self.subs[c][n].exact:
                self.expect(self.call(c, 'sensor-sampling', n, 'none')[0] == b'ok', 'reply', 'none refused')
                self.slice(c)
                del self.subs[c][n]
        a = self.call(c, 'sensor-sampling', ','.join(asked), st, *[repr(p) for p in params])
        self.expect(a[:1] == [b'ok'] and a[2:3] == [st.encode()] and set(a[1].decode().split(',')) == set(names)
                    and [float(x) for x in a[3:]] == [float(x) for x in params], 'reply', 'bulk %r %s %r answered %r' % (asked, st, params, a))
        for n in names:
            if st == 'none':
                self.subs[c].pop(n, None)
            else:
                self.subs[c][n] = Sub(st, params)
        self.check({}, [(c, n) for n in names] if st != 'none' else [])
        self.ctx.observe('bulk_requests')

    def op_bad_bulk(self):
        if not self.bulk:
            return self.op_bad()
        c = self.rng.choice(self.clients)
        names = self.rng.sample(list(self.sensors), min(len(self.sensors), 2))
        if self.rng.random() < 0.5:
            names.insert(self.rng.randrange(3), 'nosuch')
            args = self.rng.choice([[b'auto'], [b'none'], [b'event'], [b'period', b'50']])
        else:
            names = self.rng.choice([['int', 'txt'], ['txt', 'int'], ['flt', 'int', 'bool'], ['int', 'flt', 'dis']])
            if not all(n in self.sensors for n in names):
                return
            args = self.rng.choice([[b'differential', b'1'], [b'differential-rate', b'1', b'1', b'5'], [b'foo'], [], [b'period', b'0']])
        self.trail.append(('bad-bulk', self.clients.index(c), names, args))
        a = self.call(c, 'sensor-sampling', ','.join(names), *args)
        self.expect(a[:1] == [b'fail'], 'not-refused', 'bulk %r %r answered %r' % (names, args, a))
        for n in names:
            if n in self.sensors:
                self.in_force(c, n)
        self.check({})
        self.ctx.observe('bulk_refusals')

    def op_burst(self):
        """Pipelined requests for one sensor while another thread updates it: the last one counts."""
        c, name = self.rng.choice(self.clients), self.rng.choice(list(self.sensors))
        if self.major < 5:
            return self.op_update()
        s = self.sensors[name]
        plan = []
        for _ in range(self.rng.choice([2, 5, 12])):
            k = self.rng.random()
            if k < 0.2:
                plan.append((b'clear', None))
            elif k < 0.35:
                plan.append((b'bad', bads(self.rng, name, self.major)))
            else:
                st, p = self.rng.choice(goods(name, self.major) + [('none', [])] * 2)
                plan.append((b'set', (st, p)))
        self.trail.append(('burst', self.clients.index(c), name, plan))
        data = b''
        for i, (k, x) in enumerate(plan):
            if k == b'clear':
                data += b'?sensor-sampling-clear[%d]\n' % (70000 + i)
            else:
                args = x if k == b'bad' else [x[0].encode()] + [repr(p).encode() for p in x[1]]
                data += wire.encode('request', 'sensor-sampling', b'%d' % (70000 + i), [name.encode()] + args) + b'\n'
        rs = [self.reading(name) for _ in range(self.rng.choice([0, 3, 20]))]
        nap = self.rng.choice([0, 0.0005])

        def feed():
            for r in rs:
                s.set(*r)
                self.cur[name] = r
                if nap:
                    time.sleep(nap)
        self.hist[name].extend(rs)
        t = threading.Thread(target=feed)
        t.daemon = True
        t.start()
        c.send(data)
        t.join(common.STALL)
        if rs:
            self.cur[name] = rs[-1]
        last = b'[%d]' % (70000 + len(plan) - 1)
        start = self.pos[c]
        if not c.wait(lambda lines: any(x.startswith((b'!sensor-sampling' + last, b'!sensor-sampling-clear' + last)) for x in lines[start:])):
            self.fail('no-reply', 'the last of %r got no reply' % (plan,))
        # replies in order, each what it should be
        lines = c.snapshot()[start:]
        reps = [wire.decode(x) for x in lines if x.startswith((b'!sensor-sampling[7', b'!sensor-sampling-clear[7'))]
        self.expect([r[2] for r in reps] == [b'%d' % (70000 + i) for i in range(len(plan))], 'burst-replies',
                    'replies %r to %r' % ([(r[1], r[2]) for r in reps], plan))
        sub = self.subs[c].get(name)
        for (k, x), r in zip(plan, reps):
            if k == b'clear':
                self.expect(r[3] == [b'ok'], 'clear', 'answered %r' % (r,))
                self.subs[c].clear()
                sub = None
            elif k == b'bad':
                self.expect(r[3][0] == b'fail', 'not-refused', '%r answered %r' % (x, r))
            else:
                self.expect(r[3][0] == b'ok', 'reply', '%r answered %r' % (x, r))
                sub = Sub(*x) if x[0] != 'none' else None
        if sub is None:
            self.subs[c].pop(name, None)
        else:
            self.subs[c][name] = sub
        self.server.sync_with_ioloop(common.STALL)
        # readings reported are readings the sensor had
        c.barrier()
        lines = c.snapshot()
        known = set(self.stamp(r) for r in self.hist[name])
        for x in lines[start:]:
            if x.startswith(b'#sensor-status ') and b' 1 ' + name.encode() + b' ' in x:
                self.expect(wire.decode(x)[3][0] in known, 'report-invented', '%r was never a reading of the sensor' % x)
        if sub is None:
            end = max(k for k in range(len(lines)) if lines[k].startswith(b'!sensor-sampling'))
            late = [x for x in lines[end:] if x.startswith(b'#sensor-status ') and b' 1 ' + name.encode() + b' ' in x]
            # is the last reply the one that ended it?
            if plan[-1][0] == b'clear' or plan[-1][0] == b'set':
                self.expect(not late, 'report-after-end', 'reported %r after the reply that ended the sampling' % late[:2])
        # get every stream to a known state: a reading that every strategy reports
        for cc in self.clients:
            self.slice(cc)
        r = self.reading(name, big=True)
        self.hist[name].append(r)
        self.apply(name, r, 'loop')
        want = b'#sensor-status ' + self.stamp(r) + b' 1 ' + name.encode() + b' '
        for cc in self.clients:
            sb = self.subs[cc].get(name)
            if sb is not None and not (sb.strategy == 'period' and sb.params[0] > 1):
                self.expect(cc.wait_line(want, self.pos[cc]) is not None, 'final-lost', '%s %r after burst: reading %r is not reported'
                            % (name, (sb.strategy, sb.params), r))
                sb.last = r
            got = self.slice(cc).get(name, [])
            if sb is None:
                self.expect(not got, 'unwanted-report', 'client without strategy was sent %r after a burst' % got[:2])
            elif sb.exact:
                self.expect([x[0] for x in got] == [self.stamp(r)], 'burst-duplicates', '%s %r: one update reported as %r'
                            % (name, (sb.strategy, sb.params), got))
        self.in_force(c, name)
        self.check({})
        self.ctx.observe('bursts')

    def close(self):
        for c in self.clients:
            c.close()
        srv.stop_server(self.server)


OPS = (['op_set'] * 6 + ['op_update'] * 8 + ['op_bad'] * 3 + ['op_query'] + ['op_clear'] * 2 + ['op_disconnect'] * 2 +
       ['op_remove'] * 2 + ['op_bulk'] * 3 + ['op_bad_bulk'] + ['op_burst'] * 3)


def run(ctx):
    ctx.rule = ('one case = one history of sampling requests, updates, removals and disconnects over 1-3 raw clients, with the '
                'reports of every client checked after every step')
    ctx.assumptions = ['a sensor keeps one type while it is registered under a name']
    done = 0
    for i in range(10 ** 6):
        if not ctx.more(done, 150, 6000, 90, 420):
            break
        rng = ctx.subrng('h', i)
        mode = list(srv.MODES)[i % 3]
        slow = perturb.Perturb(ctx, ctx.subrng('p', i), 0.1, on=i % 5 == 3)
        slow.__enter__()
        w = World(ctx, rng, mode, '%s history %d' % (mode, i))
        try:
            for k in range(rng.choice([10, 25, 40])):
                if not w.sensors:
                    w.add('int')
                op = rng.choice(OPS)
                slow.again()
                w.run(getattr(w, op))
                ctx.observe(op)
        except common.Violated:
            if not ctx.violations:
                raise
        finally:
            w.close()
            slow.__exit__()
        done += 1
        ctx.case('%s %d %r' % (mode, w.major, w.trail))
        ctx.sample({'mode': mode, 'major': w.major, 'history': [repr(t) for t in w.trail[:6]]})
