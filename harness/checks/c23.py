"""C23: sensors hold the reading last set and tell every observer of it once.

Random sensors of all types are driven through histories of sets, formatted sets, illegal sets,
attachments and detachments, also from inside observers (which set and detach in turn) and from
several threads.  Monitors: the reading after every operation, what each observer was told, the
formatted readings against an independent formatter, and readings read concurrently.
"""
import math
import sys
import threading
import time

from katcp import Sensor

from .. import perturb

TYPES = ['integer', 'float', 'boolean', 'lru', 'discrete', 'string', 'timestamp', 'address']
CONST = dict(integer=Sensor.INTEGER, float=Sensor.FLOAT, boolean=Sensor.BOOLEAN, lru=Sensor.LRU, discrete=Sensor.DISCRETE,
             string=Sensor.STRING, timestamp=Sensor.TIMESTAMP, address=Sensor.ADDRESS)
STATUS = ['unknown', 'nominal', 'warn', 'error', 'failure', 'unreachable', 'inactive']
STATUS_CONST = dict((n, getattr(Sensor, n.upper())) for n in STATUS)


def wire_time(t, major):
    """The set of acceptable wire texts of a time."""
    if major >= 5:
        return set([('%.6f' % t).encode()])
    return set([('%d' % int(t * 1000 + d)).encode() for d in (-0.001, 0, 0.001, 0.5)])


def wire_value(stype, v, major):
    if stype == 'integer':
        return set([('%d' % v).encode()])
    if stype == 'float':
        return set([repr(float(v)).encode(), ('%.17g' % v).encode()])
    if stype == 'boolean':
        return set([b'1' if v else b'0'])
    if stype == 'lru':
        return set([b'nominal' if v == Sensor.LRU_NOMINAL else b'error'])
    if stype in ('discrete', 'string'):
        return set([v.encode('utf-8')])
    if stype == 'timestamp':
        return wire_time(v, major)
    host, port = v
    host = '[%s]' % host if ':' in host else host
    return set([(host if port is None else '%s:%d' % (host, port)).encode()])


class Obs(object):
    """An observer: logs what it is told and then does what the scenario told it to do."""

    def __init__(self, run, name):
        self.run, self.name = run, name
        self.seen = []
        self.todo = []

    def update(self, sensor, reading):
        self.seen.append((sensor, reading))
        self.run.told(self, sensor, reading)
        if self.todo and self.run.depth < 3:
            self.todo.pop(0)()


class Model(object):
    """One sensor and what is known of it."""

    def __init__(self, ctx, rng, k):
        self.k = k
        self.stype = t = rng.choice(TYPES)
        self.name = rng.choice(['s%d', 'a.b-%d', 'x_%d']) % k
        self.values = dict(
            integer=[0, 1, -5, 2 ** 40, -3], float=[0.0, 1.5, -2.25, 1e300, 1e-7], boolean=[True, False],
            lru=[Sensor.LRU_NOMINAL, Sensor.LRU_ERROR], discrete=['on', 'off', 'st \u00e9'], string=['', 'a b', 'x\\_\n', '\u20ac'],
            timestamp=[0.0, 1500000000.25, 12.5], address=[('1.2.3.4', 5), ('::1', None), ('0.0.0.0', None)])[t]
        params, expect_default = None, dict(integer=0, float=0.0, boolean=False, lru=Sensor.LRU_NOMINAL, discrete='on', string='',
                                            timestamp=0.0).get(t)
        if t == 'discrete':
            params = list(self.values)
        elif t in ('integer', 'float') and rng.random() < 0.6:
            lo = rng.choice([-10, 0, 3])
            params = [lo, lo + rng.choice([0, 4, 20])]
            if t == 'float':
                params = [x + 0.5 for x in params]
            if not params[0] <= expect_default <= params[1]:
                expect_default = params[0]
        kw = {}
        if rng.random() < 0.4:
            kw['default'] = expect_default = rng.choice(self.values)
        status = 'unknown'
        if rng.random() < 0.4:
            status = rng.choice(STATUS)
            kw['initial_status'] = STATUS_CONST[status]
        unit = rng.choice(['', 'm/s', 'deg']) if t != 'timestamp' else ''
        desc = rng.choice(['A sensor.', '', 'two words \u00e9'])
        t0 = time.time()
        if rng.random() < 0.5:
            if params is not None:
                kw['params'] = params
            if unit or rng.random() < 0.5:
                kw['unit'] = unit
            if t == 'timestamp':
                kw.pop('unit', None)
            self.sensor = getattr(Sensor, t)(self.name, desc, **kw)
        else:
            kind = CONST[t]
            if rng.random() < 0.3:
                kind = dict(integer=int, float=float, boolean=bool, string=str).get(t, kind)
            self.sensor = Sensor(kind, self.name, desc, unit, params, **kw)
        t1 = time.time()
        s = self.sensor
        ctx.expect((s.name, s.description, s.units, s.type, s.stype) == (self.name, desc, unit, t, t), 'attributes',
                   'sensor %s(%r, %r, %r) has %r' % (t, self.name, desc, unit, (s.name, s.description, s.units, s.type, s.stype)))
        ctx.expect(list(s.params) == (params or []), 'params', '%s: params %r became %r' % (t, params, s.params))
        ctx.expect(Sensor.parse_params(CONST[t], s.formatted_params) == (params or []) and Sensor.parse_type(s.stype) == CONST[t], 'params',
                   '%s: params %r travel as %r' % (t, params, s.formatted_params))
        r = s.read()
        ok = r.status == STATUS_CONST[status] and t0 - 0.01 <= r.timestamp <= t1 + 0.01
        if t != 'address' or 'default' in kw:
            ok = ok and r.value == expect_default and type(r.value) == type(expect_default)
        ctx.expect(ok, 'initial', '%s with params %r, %r starts as %r' % (t, params, kw, r))
        self.current = tuple(r)
        self.attached = []

    def legal(self, rng):
        t = self.stype
        if t == 'integer' and rng.random() < 0.5:
            return rng.randrange(-10 ** 9, 10 ** 9)
        if t == 'float' and rng.random() < 0.5:
            return rng.uniform(-1e6, 1e6)
        if t == 'timestamp' and rng.random() < 0.5:
            return rng.randrange(10 ** 12) / 1000.0
        return rng.choice(self.values)

    def bad_wire(self, rng):
        return rng.choice(dict(integer=[b'x', b'', b'1.5', b'1 2'], float=[b'x', b'', b'1,5'], boolean=[b'true', b'', b'2', b'x'],
                               lru=[b'', b'ok', b'NOMINAL'], discrete=[b'', b'On', b'o'], string=[b'\xff', b'a\xc3'],
                               timestamp=[b'', b'x', b'1.2.3'], address=[b'1.2.3.4:x', b'[::1', b':x'])[self.stype])


class Run(object):
    def __init__(self, ctx, rng, label):
        self.ctx, self.rng, self.label = ctx, rng, label
        self.depth = 0
        self.sets = []       # open and closed sets: dict(model, reading, due: observers, maybe: observers, told: list)
        self.open = []
        self.trail = []
        self.models = [Model(ctx, rng, k) for k in range(rng.choice([1, 2, 3]))]
        self.obs = [Obs(self, 'o%d' % i) for i in range(rng.choice([1, 2, 4]))]

    def bad(self, key, what):
        self.ctx.violation(key, '%s: %s; history %r' % (self.label, what, self.trail[-10:]))

    def told(self, obs, sensor, reading):
        self.ctx.observe('notifications')
        m = next((m for m in self.models if m.sensor is sensor), None)
        if m is None:
            return self.bad('wrong-sensor', 'observer was given %r' % (sensor,))
        if not (isinstance(reading, tuple) and len(reading) == 3):
            return self.bad('reading', 'observer was given %r' % (reading,))
        for s in self.open:
            if s['m'] is m and self.match(m, s['reading'], tuple(reading)) and obs not in s['told']:
                s['told'].append(obs)
                if obs not in s['due'] and obs not in s['maybe']:
                    self.bad('told-detached', '%s was told of %r although not attached' % (obs.name, tuple(reading)))
                s['got'].append(tuple(reading))
                if not self.match(m, m.current, tuple(sensor.read())):
                    self.bad('read-back', 'sensor %s reads %r inside an observer, last set %r' % (m.name, tuple(sensor.read()), m.current))
                return
        self.bad('invented', '%s was told %r by sensor %s, no such update is under way (or it was told already)'
                 % (obs.name, tuple(reading), m.name))

    def match(self, m, want, got):
        ts, st, v = want
        if st != got[1]:
            return False
        if isinstance(ts, tuple):
            if not ts[0] - 0.01 <= got[0] <= time.time() + 0.01:
                return False
        elif abs(ts - got[0]) > 1e-9 + abs(ts) * 1e-15:
            return False
        if isinstance(v, float):
            return isinstance(got[2], float) and (abs(v - got[2]) <= 1e-9 + abs(v) * 1e-15)
        return v == got[2] and type(v) == type(got[2])

    def do_set(self):
        """Set a sensor in one of the documented ways and judge what happened."""
        rng = self.rng
        m = rng.choice(self.models)
        value = m.legal(rng)
        st = rng.choice(STATUS)
        ts = len(self.sets) * 10.0 + rng.choice([0, 0.5, 0.001, 1400000000]) if self.sets else 0.0    # never the same time twice
        how = rng.choice(['set', 'set_value', 'formatted4', 'formatted5'] + (['set_value_now'] if not self.depth else []))
        if how == 'set_value_now':
            ts = (time.time(),)
            if rng.random() < 0.5:
                st = 'nominal'
        reading = (ts, STATUS_CONST[st], value)
        rec = dict(m=m, reading=reading, due=list(m.attached), maybe=[], told=[], got=[])
        self.sets.append(rec)
        self.open.append(rec)
        self.trail.append((how, m.name, st, value, len(m.attached)))
        before = m.current
        m.current = reading
        self.depth += 1
        s = m.sensor
        try:
            if how == 'set':
                s.set(ts, STATUS_CONST[st], value)
            elif how == 'set_value':
                s.set_value(value, STATUS_CONST[st], ts, *([rng.choice([4, 5])] if rng.random() < 0.5 else []))
            elif how == 'set_value_now':
                s.set_value(value, *([STATUS_CONST[st]] if st != 'nominal' else []))
            else:
                major = int(how[-1])
                raw = ([('%d' % round(ts * 1000)).encode() if major == 4 else ('%.6f' % ts).encode(), st.encode()]
                       + [sorted(wire_value(m.stype, value, major))[-1]])
                if m.stype == 'timestamp' and major == 4:
                    raw[2] = ('%d' % round(value * 1000)).encode()
                s.set_formatted(*(raw + ([major] if major != 5 or rng.random() < 0.5 else [])))
        except Exception as e:
            self.bad('refused', '%s of %s to %r raised %r' % (how, m.stype, reading, e))
            m.current = tuple(s.read())
        self.depth -= 1
        self.open.remove(rec)
        for o in rec['due']:
            if o not in rec['told'] and o not in rec['maybe']:
                self.bad('not-told', '%s was not told of %r set on %s' % (o.name, reading, m.name))
        if len(set(rec['got'])) > 1:
            self.bad('reading', 'observers of one update were told different readings: %r' % (rec['got'],))
        self.rest(m)

    def rest(self, m):
        got = tuple(m.sensor.read())
        if not self.match(m, m.current, got):
            self.bad('read-back', 'sensor %s reads %r, last set %r' % (m.name, got, m.current))
        if (m.sensor.value(), m.sensor.status()) != (got[2], got[1]):
            self.bad('read-back', 'value() and status() give %r for %r' % ((m.sensor.value(), m.sensor.status()), got))
        for major in (4, 5, None):
            raw = m.sensor.read_formatted(*([major] if major else []))
            mj = major or 5
            st = STATUS[[STATUS_CONST[x] for x in STATUS].index(got[1])].encode()
            if (raw[0] not in wire_time(got[0], mj) or raw[1] != st or raw[2] not in wire_value(m.stype, got[2], mj)
                    or not all(isinstance(x, bytes) for x in raw)):
                self.bad('formatted', '%s reading %r is formatted as %r for major %r' % (m.stype, got, raw, major))
        self.ctx.observe('states_checked')

    def do_attach(self):
        m, o = self.rng.choice(self.models), self.rng.choice(self.obs)
        self.trail.append(('attach', m.name, o.name))
        if o not in m.attached:
            m.attached.append(o)
        for s in self.open:
            if s['m'] is m:
                s['maybe'].append(o)
        m.sensor.attach(o)

    def do_detach(self):
        m, o = self.rng.choice(self.models), self.rng.choice(self.obs)
        self.trail.append(('detach', m.name, o.name))
        if o in m.attached:
            m.attached.remove(o)
        for s in self.open:
            if s['m'] is m:
                s['maybe'].append(o)
        m.sensor.detach(o)

    def do_illegal(self):
        """Refused updates leave the reading and the observers alone."""
        rng = self.rng
        m = rng.choice(self.models)
        before, n = m.sensor.read(), sum(len(o.seen) for o in self.obs)
        how = rng.choice(['value', 'wire', 'status', 'time', 'text'])
        self.trail.append(('illegal', how, m.name))
        ok = [b'1.0', b'nominal', sorted(wire_value(m.stype, m.legal(rng), 5))[0]]
        major = rng.choice([4, 5])
        if major == 4:
            ok[0] = b'1000'
            if m.stype == 'timestamp':
                ok[2] = b'2000'
        try:
            if how == 'value':
                if m.stype != 'discrete':
                    return
                m.sensor.set_value(rng.choice(['On', '', 'of', 'unknown']))
            elif how == 'wire':
                ok[2] = m.bad_wire(rng)
                m.sensor.set_formatted(*(ok + [major]))
            elif how == 'status':
                ok[1] = rng.choice([b'', b'ok', b'Nominal', b'nominal '])
                m.sensor.set_formatted(*(ok + [major]))
            elif how == 'time':
                ok[0] = rng.choice([b'', b'now', b'x', b'1.2.3'])
                m.sensor.set_formatted(*(ok + [major]))
            else:
                m.sensor.parse_value(rng.choice(['on', '1', u'x', None, 5]))
        except (ValueError, KeyError, TypeError):
            pass
        else:
            self.bad('illegal-accepted', 'illegal %s accepted by a %s sensor: %r' % (how, m.stype, ok))
        if m.sensor.read() is not before and m.sensor.read() != before:
            self.bad('illegal-changed', 'a refused update changed %s to %r' % (m.name, m.sensor.read()))
        if sum(len(o.seen) for o in self.obs) != n:
            self.bad('illegal-told', 'a refused update of %s was told to observers' % m.name)
        self.ctx.observe('refusals')

    def do_plan(self):
        """Let an observer act when it is told of an update."""
        o = self.rng.choice(self.obs)
        o.todo.append(self.rng.choice([self.do_set, self.do_set, self.do_attach, self.do_detach, self.do_illegal]))

    def go(self):
        for _ in range(self.rng.choice([10, 30, 80])):
            self.rng.choice([self.do_set, self.do_set, self.do_set, self.do_attach, self.do_attach, self.do_detach,
                             self.do_illegal, self.do_plan])()
            if self.ctx.violations:
                return
        for m in self.models:
            self.rest(m)


class Sink(object):
    def __init__(self):
        self.seen = []

    def update(self, sensor, reading):
        self.seen.append(tuple(reading))


def threads(ctx, rng, label):
    """Writers in several threads, others attach, detach and read all the while."""
    stype = rng.choice(['integer', 'string'])
    s = getattr(Sensor, stype)('t', 'd')
    nw, per = rng.choice([2, 3, 4]), rng.choice([100, 300])
    fixed = [Sink() for _ in range(3)]
    for o in fixed:
        s.attach(o)
    s.set(0.0, 0, 0 if stype == 'integer' else '0')
    for o in fixed:
        del o.seen[:]
    errors, stop = [], threading.Event()

    def reading(w, i):
        n = w * 100000 + i
        return float(n), n % 7, (n if stype == 'integer' else str(n))

    def whole(r):
        return r[0] == float(int(r[2])) and r[1] == int(r[2]) % 7

    def guard(fn):
        def body():
            try:
                fn()
            except Exception as e:
                errors.append(repr(e))
        return body

    def writer(w):
        def body():
            for i in range(1, per + 1):
                r = reading(w, i)
                if i % 3 == 0:
                    s.set_value(r[2], r[1], r[0])
                elif i % 3 == 1:
                    s.set(*r)
                else:
                    s.set_formatted(('%.6f' % r[0]).encode(), STATUS[r[1]].encode(), str(r[2]).encode())
        return guard(body)
    torn, reads, extra = [], [0], []

    def reader():
        while not stop.is_set():
            r = tuple(s.read())
            reads[0] += 1
            if not whole(r):
                torn.append(r)
            f = s.read_formatted()
            if not (float(f[0]) == float(f[2]) and f[1].decode() == STATUS[int(f[2]) % 7]):
                torn.append(f)

    def churn():
        while not stop.is_set():
            o = Sink()
            extra.append(o)
            s.attach(o)
            time.sleep(0)
            s.detach(o)
            n = len(o.seen)
    ws = [threading.Thread(target=writer(w)) for w in range(1, nw + 1)]
    hs = [threading.Thread(target=guard(f)) for f in (reader, churn, churn)]
    for t in ws + hs:
        t.daemon = True
        t.start()
    for t in ws:
        t.join(60)
    stop.set()
    for t in hs:
        t.join(60)
    if any(t.is_alive() for t in ws + hs):
        ctx.violation('threads-stuck', '%s: a thread setting or reading a sensor does not come back' % label)
        return
    ctx.expect(not errors, 'threads-error', '%s: %r' % (label, errors[:3]))
    ctx.expect(not torn, 'torn', '%s: mixed readings %r' % (label, torn[:3]))
    want = sorted(reading(w, i) for w in range(1, nw + 1) for i in range(1, per + 1))
    for k, o in enumerate(fixed):
        if ctx.expect(sorted(o.seen) == want, 'threads-told', '%s: observer %d was told %d of %d readings, %d distinct'
                      % (label, k, len(o.seen), len(want), len(set(o.seen)))):
            for w in range(1, nw + 1):
                mine = [r for r in o.seen if int(r[0]) // 100000 == w]
                ctx.expect(mine == sorted(mine), 'threads-order', '%s: readings of one thread out of order' % label)
    for o in extra:
        if len(set(o.seen)) != len(o.seen) or not all(whole(r) for r in o.seen):
            ctx.violation('threads-told', '%s: a passing observer was told %r' % (label, o.seen[:5]))
    last = tuple(s.read())
    ctx.expect(last in [reading(w, per) for w in range(1, nw + 1)], 'threads-last', '%s: the final reading is %r' % (label, last))
    n = [len(o.seen) for o in extra]
    s.set(*reading(9, 1))
    ctx.expect(n == [len(o.seen) for o in extra], 'told-detached', '%s: detached observers were told' % label)
    ctx.expect(all(o.seen[-1] == reading(9, 1) for o in fixed), 'not-told', '%s: observers were not told of the last update' % label)
    ctx.observe('threaded_updates', nw * per)
    ctx.observe('concurrent_reads', reads[0])
    ctx.case(('threads', stype, tuple(fixed[0].seen[:200])))


def run(ctx):
    ctx.rule = 'one case = one history of a set of sensors and observers, or one run of concurrent writers, readers and attachers'
    ctx.assumptions = ['the order of nested updates between observers is not promised',
                       'an observer attached or detached while an update is being told may or may not hear of that update',
                       'values of types without a declared set are not checked by set_value']
    old = sys.getswitchinterval()
    i = 0
    try:
        while ctx.more(i, 2500, 120000, quick_s=30, thorough_s=300):
            if i % 50 == 0:
                sys.setswitchinterval(ctx.rng.choice([1e-5, 1e-4, 5e-3]))
                with perturb.Perturb(ctx, ctx.subrng('p', i), 1.0, on=i % 100 == 50):
                    threads(ctx, ctx.rng, 'threads %d' % i)
            else:
                r = Run(ctx, ctx.rng, 'history %d' % i)
                r.go()
                ctx.case(('history', tuple((m.stype, m.name) for m in r.models), tuple(map(str, r.trail))))
            i += 1
            if len(ctx.violations) > 3:
                break
    finally:
        sys.setswitchinterval(old)
