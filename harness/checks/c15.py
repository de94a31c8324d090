"""C15: the sensors of a resource client keep their strategy and mirror the device across outages.

A real KATCPClientResource runs on a virtual-time loop against a scripted device.  A random history
sets, changes and drops strategies (known and unknown sensors, connected or not, through the
resource and through sensor objects), registers and removes listeners, polls and waits, while the
device updates, adds, removes and modifies sensors, refuses requests and loses connections.

Monitors: the device's sampling state against the strategies last asked for, every listener call
against the updates the device put on the wire (exactly once, in order), readings at rest against
the last report, results of polls, waits and strategy requests against what the device did.
"""
import threading

import tornado.gen

from katcp import Sensor, resource
from katcp.resource_client import KATCPClientResource

from .. import vloop
from . import fakedev, wire
from .fakedev import Req, Sens

STATUSES = ['unknown', 'nominal', 'warn', 'error', 'failure', 'unreachable', 'inactive']
SNAMES = ['s%d' % i for i in range(5)] + ['a.b-c', 'dev.temp', 'items', 'pop', 'x-y.z', 'keys']
RNAMES = ['r%d' % i for i in range(4)] + ['set-level', 'keys', 'a-b-c', 'items']
STRATEGIES = ['event', 'auto', 'period 2.5', 'period 10', 'event-rate 0.5 10', ('event',), ('period', 3), ('period', '0.25'),
              ('event-rate', 0.5, 20), 'differential 2', 'none', 'none', ('none',)]


def esc(name):
    return name.replace('.', '_').replace('-', '_')


def numeric(strategy):
    """Strategy as comparable tuple, whichever way it was written."""
    parts = strategy.split(' ') if isinstance(strategy, str) else [str(p) for p in strategy]
    out = []
    for p in parts:
        try:
            out.append(float(p))
        except ValueError:
            out.append(p)
    return tuple(out)


def parse(stype, raw):
    if stype == 'integer':
        return int(raw)
    if stype == 'float':
        return float(raw)
    if stype == 'boolean':
        return raw == b'1'
    if stype == 'lru':
        return {b'nominal': Sensor.LRU_NOMINAL, b'error': Sensor.LRU_ERROR}[raw]
    return raw.decode()


class Update(object):
    __slots__ = 't conn name gen ts status value n faults ver known'.split()

    def what(self, stype):
        return (self.ts, self.status, parse(stype, self.value))


class Listener(object):
    """Callable that records what it is told, with the scenario's event counter."""

    def __init__(self, sc, name, reading, raises=False):
        self.sc, self.name, self.reading, self.raises = sc, name, reading, raises
        self.calls = []            # (event, time, obj or None, (ts, status, value), received)
        self.start = self.end = None

    def __call__(self, *args):
        sc = self.sc
        sc.event += 1
        if self.reading:
            obj, r = args
            rec = (sc.event, sc.loop.time(), obj, (r.timestamp, r.status, r.value), r.received_timestamp)
        else:
            received, ts, status, value = args
            rec = (sc.event, sc.loop.time(), None, (ts, status, value), received)
        self.calls.append(rec)
        if self.raises:
            raise RuntimeError('a listener of a scenario raises')


class Scenario(object):
    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=3000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.greet = rng.choice(['5-MI', '5-MI', '5.1-MITB', '5-M', '4'])
        self.ids = self.greet in ('5-MI', '5.1-MITB')
        self.dev = fakedev.FakeDevice(self.loop, self.greet)
        self.dev.fault = self.fault
        self.dev.suffix = rng.choice([b'', b' \xff\xfe'])
        self.dev.report = self.report
        self.dev.do_sensor_value = self.sensor_value
        self.controlled = rng.random() < 0.6
        self.allowed = set(n for n in RNAMES + ['help'] if rng.random() < 0.3)
        self.excluded = set(n for n in RNAMES + ['sensor-list'] if rng.random() < 0.2)
        form = rng.choice([esc, lambda n: n])
        self.dummy = rng.random() < 0.15
        self.res = KATCPClientResource(dict(
            name='res', address=self.dev.server.addr, controlled=self.controlled,
            always_allowed_requests=[form(n) for n in self.allowed],
            always_excluded_requests=[form(n) for n in self.excluded],
            auto_reconnect_delay=0.5, dummy_unknown_requests=self.dummy))
        self.res.set_ioloop(self.loop)
        self.problems = []
        self.steps = []
        self.event = 0
        self.n_ts = 0
        self.updates = []
        self.gen = {}                 # name -> generation of its definition
        self.version = 0
        self.n_faults = 0
        self.faults = []
        self.want = {}                # escaped name -> (strategy or None, time)
        self.attempts = {}            # (conn idx, name) -> (strategy, action)
        self.persist = []             # persistent listeners
        self.objlist = []             # (listener, sensor object)
        self.tasks = []
        self.waits = []
        self.started = False
        self.settled_marks = []       # (time, conn idx, {name: gen})
        self.n_settled = 0
        self.n_compared = 0
        self.n_strategies = 0
        self.n_results = 0
        self.unnotified = False
        self.slow = rng.choice([0, 0, 0.01, 0.3])

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- the device's side ------------------------------------------------------------
    def fault(self, conn, name, args):
        act = None
        if self.faults:
            want, a = self.faults[0]
            if want == name and (self.ids or getattr(conn, 'busy', 0) < self.loop.time()):
                # (peers without message ids answer in order)
                self.faults.pop(0)
                act = a
                self.n_faults += 1
        if name == 'sensor-sampling' and len(args) > 1:
            self.attempts[conn.idx, args[0].decode()] = (numeric([x.decode() for x in args[1:]]), act)
            if self.slow and act is None:
                # a device that takes its time for each, in order
                conn.busy = max(getattr(conn, 'busy', 0), self.loop.time()) + self.slow
                return ('delay', conn.busy - self.loop.time())
        return act

    def stamp(self):
        self.n_ts += 1
        return 1000 + self.n_ts * 0.25

    def fresh(self, name):
        """The device's sensor takes a new reading, unlike every earlier one."""
        s = self.dev.sensors[name]
        n = self.n_ts
        v = {'integer': b'%d' % (n % 11 - 5), 'float': b'%r' % (n * 0.125), 'boolean': b'%d' % (n % 2),
             'discrete': None, 'string': b'text %d' % n, 'lru': [b'nominal', b'error'][n % 2]}[s.stype]
        if s.stype == 'discrete':
            v = s.params[n % len(s.params)].encode()
        self.dev.values[name] = (self.stamp(), self.rng.choice(STATUSES).encode(), v)

    def note(self, conn, name):
        u = Update()
        u.t, u.conn, u.name, u.gen = self.loop.time(), conn, name, self.gen.get(name)
        u.ts, u.status, u.value = self.dev.values[name]
        u.status = u.status.decode()
        u.n, u.faults, u.ver = len(self.updates), self.n_faults, self.version
        full = self.dev.full
        u.known = bool(full) and full[-1]['conn'] == conn.idx and \
            full[-1]['model'][1].get(name) == self.dev.model()[1].get(name)
        self.updates.append(u)

    def report(self, conn, name, more=()):
        """One #sensor-status inform about one or several sensors."""
        names = (name,) + tuple(more)
        ts = self.dev.values[name][0]
        args = [self.dev.fmt_time(ts), b'%d' % len(names)]
        for n in names:
            _, status, value = self.dev.values[n]
            self.dev.values[n] = (ts, status, value)
            args += [n.encode(), status, value]
        ok = conn.say(wire.encode('inform', 'sensor-status', None, args))
        if ok:
            for n in names:
                self.note(conn, n)
        return ok

    def sensor_value(self, conn, mid, args, cut=False):
        n = args[0].decode() if args else ''
        if n not in self.dev.sensors:
            return self.dev.reply(conn, 'sensor-value', mid, [b'fail', b'Unknown sensor name.' + self.dev.suffix])
        self.dev.inform(conn, 'sensor-value', mid, self.dev.reading_args(n))
        self.note(conn, n)
        self.served = (n, self.updates[-1])
        self.dev.reply(conn, 'sensor-value', mid, [b'ok', b'1'])

    def new_sensor(self):
        stype, params = self.rng.choice([('integer', ['-5', '5']), ('integer', []), ('float', []), ('boolean', []),
                                         ('discrete', ['on', 'off', 'half way']), ('string', []), ('lru', [])])
        return Sens('A sensor %d' % self.rng.randrange(3), self.rng.choice(['', 'K', 'm s']), stype, params)

    def define(self, name, s):
        self.dev.sensors[name] = s
        self.gen[name] = self.gen.get(name, 0) + 1
        self.version += 1
        self.fresh(name)
        for c in self.dev.server.conns:
            self.dev.conn_sampling(c).pop(name, None)

    def undefine(self, name):
        del self.dev.sensors[name]
        self.gen[name] = self.gen.get(name, 0) + 1
        self.version += 1
        for c in self.dev.server.conns:
            self.dev.conn_sampling(c).pop(name, None)

    def change(self):
        rng, d = self.rng, self.dev
        done = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.75:
                name = rng.choice(SNAMES)
                if name not in d.sensors:
                    self.define(name, self.new_sensor())
                    done.append('add ' + name)
                elif rng.random() < 0.5:
                    self.undefine(name)
                    done.append('remove ' + name)
                else:
                    self.define(name, self.new_sensor())
                    done.append('modify ' + name)
            else:
                name = rng.choice(RNAMES)
                self.version += 1
                if name in d.requests and rng.random() < 0.5:
                    del d.requests[name]
                else:
                    d.requests[name] = Req('Doc %d.' % rng.randrange(9),
                                           rng.choice([None, 1.5, 8.0]) if d.hints else None)
                    d.handlers[name] = self.echo
                done.append('request ' + name)
        return done

    def echo(self, conn, mid, args):
        name = self.dev.log[-1][2]
        if args[:1] == [b'mute']:
            return
        self.dev.reply(conn, name, mid, [b'ok', name.encode()] + args)

    def push(self, n=1):
        """The device reports readings of sampled sensors."""
        rng, d = self.rng, self.dev
        c = d.current()
        for _ in range(n):
            if not d.sensors:
                return
            name = rng.choice(sorted(d.sensors))
            self.fresh(name)
            if c is not None and d.conn_sampling(c).get(name, ('none',))[0] != 'none':
                more = [x for x in rng.sample(sorted(d.sensors), min(2, len(d.sensors)))
                        if x != name and d.conn_sampling(c).get(x, ('none',))[0] != 'none']
                self.report(c, name, more if rng.random() < 0.2 else ())

    # -- the client's side ---------------------------------------------------------------
    def spelled(self, name):
        return self.rng.choice([name, esc(name)])

    @tornado.gen.coroutine
    def set_strategy(self, name, strategy, how):
        """Ask for a strategy and judge what is said about it."""
        res, d = self.res, self.dev
        key = esc(name)
        obj = dict.get(res.sensor, key)
        if how != 'resource' and obj is None:
            how = 'resource'
        c0 = d.current()
        ver0 = self.version
        n0 = len(d.log)
        self.want[key] = (numeric(strategy), self.loop.time())
        err = result = None
        try:
            if how == 'resource':
                result = yield res.set_sampling_strategy(self.spelled(name), strategy)
            elif how == 'sensor':
                result = yield obj.set_sampling_strategy(strategy)
            else:
                parts = strategy.split(' ') if isinstance(strategy, str) else list(strategy)
                params = parts[1:]
                if self.rng.random() < 0.5:
                    params = ' '.join(str(p) for p in params)
                result = yield obj.set_strategy(parts[0], params or None)
        except Exception as e:
            err = e
        if err is not None:
            self.bad('strategy-result', 'setting %r on %r (%s) raised %r' % (strategy, name, how, err))
            return
        if self.stopped or d.current() is not c0 or c0 is None or ver0 != self.version:
            return
        asked = [r for r in d.log[n0:] if r[2] == 'sensor-sampling' and r[4][:1] == [name.encode()] and
                 numeric([x.decode() for x in r[4][1:]]) == numeric(strategy)]
        got = d.conn_sampling(c0).get(name)
        if how == 'resource' and obj is None:
            if result:
                self.bad('strategy-result', 'setting %r on unknown %r resulted in %r' % (strategy, name, result))
            return
        ok = [t for t in d.sampling if t[1] == c0.idx and t[2] == name and t[4] and numeric(t[3]) == numeric(strategy) and
              t[0] >= self.want[key][1] - 1000]
        self.n_results += 1
        if how == 'resource':
            if sorted(result) != [key]:
                self.bad('strategy-result', 'setting %r on %r resulted in %r' % (strategy, name, result))
                return
            claimed = result[key] == strategy
        else:
            claimed = bool(result[0])
            if claimed and numeric(result[1]) != numeric(strategy):
                self.bad('strategy-result', 'setting %r on %r resulted in %r' % (strategy, name, result))
        if claimed and not ok:
            self.bad('strategy-result', 'setting %r on %r: success is reported (%r), the device has %r' % (
                strategy, name, result, got))
        refused = self.attempts.get((c0.idx, name))
        if not claimed and len(asked) == 1 and refused == (numeric(strategy), None) and name in d.sensors:
            self.bad('strategy-result', 'setting %r on %r (%s): failure is reported (%r), the device accepted' % (
                strategy, name, how, result))

    def drop_strategy(self, name, how):
        obj = dict.get(self.res.sensor, esc(name))
        self.want[esc(name)] = (None, self.loop.time())
        if how == 'sensor' and obj is not None:
            obj.drop_sampling_strategy()
        else:
            self.res.drop_sampling_strategy(self.spelled(name))

    @tornado.gen.coroutine
    def add_persistent(self, name):
        l = Listener(self, name, True, self.rng.random() < 0.15)
        self.event += 1
        l.start = (self.event, self.loop.time(), len(self.updates))
        self.persist.append(l)
        result = yield self.res.set_sensor_listener(self.spelled(name), l)
        del result

    def add_listener(self, obj):
        l = Listener(self, obj.name, self.rng.random() < 0.5, self.rng.random() < 0.1)
        self.event += 1
        l.start = self.event
        l.n_updates = len(self.updates)
        obj.register_listener(l, reading=l.reading)
        if self.rng.random() < 0.2:
            obj.register_listener(l, reading=l.reading)      # registering again changes nothing
        if not obj.is_listener(l):
            self.bad('listeners', 'is_listener() is false after registering')
        self.objlist.append((l, obj))

    def remove_listener(self):
        live = [x for x in self.objlist if x[0].end is None]
        if live:
            l, obj = self.rng.choice(live)
            self.event += 1
            l.end = self.event
            obj.unregister_listener(l)
            if obj.is_listener(l):
                self.bad('listeners', 'is_listener() is true after unregistering')

    @tornado.gen.coroutine
    def poll(self, obj, how):
        d = self.dev
        c0, ver0, t0, n0, f0 = d.current(), self.version, self.loop.time(), len(self.updates), self.n_faults
        conns0 = len(d.server.connects)
        know = self.same_def(obj)
        try:
            r = yield getattr(obj, how)()
        except resource.KATCPSensorError:
            if c0 is not None and d.current() is c0 and self.version == ver0 and f0 == self.n_faults and know and \
                    not self.faults and self.res.is_connected() and self.loop.time() < t0 + 4:
                self.bad('poll', '%s of %r failed although the device answered' % (how, obj.name))
            return
        except Exception as e:
            self.bad('poll', '%s of %r raised %r' % (how, obj.name, e))
            return
        ups = [u for u in self.updates[n0:] if u.name == obj.name]
        if not ups or self.version != ver0 or not know or conns0 != len(d.server.connects):
            if not ups and conns0 == len(d.server.connects) and self.version == ver0 and know:
                self.bad('poll', '%s of %r gave %r without asking the device' % (how, obj.name, r))
            return
        self.n_results += 1
        stype = obj.type
        pick = {'get_reading': lambda w: w, 'get_value': lambda w: w[2], 'get_status': lambda w: w[1]}[how]
        got = (r.timestamp, r.status, r.value) if how == 'get_reading' else r
        if got not in [pick(u.what(stype)) for u in ups]:
            self.bad('poll', '%s of %r gave %r, the device reported %r' % (
                how, obj.name, got, [u.what(stype) for u in ups]))

    def same_def(self, obj):
        s = self.dev.sensors.get(obj.name)
        return s is not None and (s.desc, s.units, s.stype) == (obj.description, obj.units, obj.type) and \
            self.settled_gens.get(obj.name) == self.gen.get(obj.name)

    settled_gens = {}
    stopped = False

    def start_wait(self, obj):
        rng = self.rng
        rec = {'t': self.loop.time(), 'obj': obj, 'timeout': rng.choice([0.5, 3, 20, None]), 'event': self.event,
               'done': None, 'reading': (obj.reading.timestamp, obj.reading.status, obj.reading.value)}
        if rng.random() < 0.5:
            rec['cond'] = rec['val'] = {'integer': 3, 'float': -1.0, 'boolean': True, 'discrete': 'off', 'string': 'x',
                                        'lru': Sensor.LRU_ERROR}[obj.type]
            rec['test'] = lambda r: r[2] == rec['val']
        else:
            st = rng.choice(STATUSES)
            rec['cond'] = lambda reading: reading.status == st
            rec['test'] = lambda r: r[1] == st
        if obj.sampling_strategy == ('none',):
            try:
                obj.wait(rec['cond'], timeout=rec['timeout'])
                self.bad('wait', 'wait() without a strategy did not raise')
            except resource.KATCPSensorError:
                self.n_results += 1
            return
        try:
            f = obj.wait(rec['cond'], timeout=rec['timeout'])
        except Exception as e:
            self.bad('wait', 'wait() raised %r' % (e,))
            return
        self.waits.append(rec)

        def done(f):
            self.event += 1
            rec['end_event'] = self.event
            rec['end'] = self.loop.time()
            rec['done'] = f.exception() or f.result()
        f.add_done_callback(done)

    def sync_monitor(self):
        """Looks at the resource the moment it says that it is synchronised."""
        @tornado.gen.coroutine
        def go():
            while not self.stopped:
                yield self.res.until_synced()
                if self.stopped:
                    return
                self.n_synced += 1
                full = self.dev.full
                if not full:
                    self.bad('state', 'synced although no inspection was served')
                elif not self.res.synced:
                    pass
                elif full[-1]['conn'] == self.dev.server.conns[-1].idx and self.dev.server.conns[-1].open:
                    self.check_names(full[-1]['model'], 'when synced')
                yield self.res.until_not_synced()
        go()
    n_synced = 0

    def expect_names(self, model):
        reqs, sens = model
        excluded, allowed = set(esc(n) for n in self.excluded), set(esc(n) for n in self.allowed)
        r = set(esc(n) for n in reqs)
        r = set(n for n in r if n not in excluded and (self.controlled or n in allowed))
        return r, set(esc(n) for n in sens)

    def check_names(self, model, where):
        r, s = self.expect_names(model)
        if set(dict.keys(self.res.req)) - (set(['no_such_request']) if self.dummy else set()) != r:
            self.bad('requests', 'requests %s: %r, expected %r' % (where, sorted(dict.keys(self.res.req)), sorted(r)))
        if set(dict.keys(self.res.sensor)) != s:
            self.bad('sensors', 'sensors %s: %r, expected %r' % (where, sorted(dict.keys(self.res.sensor)), sorted(s)))

    @tornado.gen.coroutine
    def settle(self, limit=200):
        d, res = self.dev, self.res
        self.faults = []
        d.server.up()
        if self.unnotified:
            d.notify()
            self.unnotified = False
        t0 = self.loop.time()
        good = 0
        while self.loop.time() < t0 + limit:
            yield tornado.gen.sleep(0.5)
            good = good + 1 if res.synced and res.is_connected() and d.current() and d.full and \
                d.full[-1]['conn'] == d.current().idx and d.full[-1]['model'] == d.model() else 0
            if good > 14:
                break
        else:
            self.bad('converge', 'not synchronised %d s after %s; state %s' % (limit, self.steps[-4:], res.state))
            raise tornado.gen.Return(False)
        c = d.current()
        self.n_settled += 1
        self.check_names(d.model(), 'at rest')
        self.settled_gens = dict(self.gen)
        self.settled_marks.append((self.loop.time() + 1e-6, c.idx, dict(self.gen), self.n_faults, len(self.updates)))
        # strategies in force on the device
        for name in sorted(d.sensors):
            key = esc(name)
            obj = dict.get(res.sensor, key)
            if obj is None:
                continue
            s = d.sensors[name]
            if (obj.name, obj.description, obj.units, obj.type) != (name, s.desc, s.units, s.stype):
                self.bad('sensors', 'sensor %r is %r, the device has %r' % (
                    name, (obj.name, obj.description, obj.units, obj.type), s))
            have = d.conn_sampling(c).get(name, ('none',))
            want = self.want.get(key)
            if want is not None and want[0] is not None:
                att = self.attempts.get((c.idx, name))
                if att is None or att[1] is None:
                    self.n_strategies += 1
                    if numeric(have) != want[0] and not (att is None and want[0] == ('none',)):
                        self.bad('strategy', 'sensor %r: the strategy asked for (at %.2f) is %r, the device has %r' % (
                            name, want[1], want[0], have))
                if numeric(obj.sampling_strategy) != want[0]:
                    self.bad('strategy', 'sensor %r: the strategy asked for is %r, .sampling_strategy is %r' % (
                        name, want[0], obj.sampling_strategy))
            elif c.t_open > (want[1] if want else 0) and have != ('none',):
                self.n_strategies += 1
                self.bad('strategy', 'sensor %r: nobody asked for a strategy since it was dropped at %r, the device has %r' % (
                    name, want and want[1], have))
            elif want is not None or True:
                if obj.sampling_strategy != ('none',):
                    self.bad('strategy', 'sensor %r: .sampling_strategy is %r although %s' % (
                        name, obj.sampling_strategy, 'it was dropped' if want else 'nobody set one'))
            # readings
            ups = [u for u in self.updates if u.name == name and u.conn is c and u.gen == self.gen.get(name)]
            if ups and self.required(ups[-1]):
                self.n_compared += 1
                got = (obj.reading.timestamp, obj.reading.status, obj.reading.value)
                if got != ups[-1].what(obj.type):
                    self.bad('reading', 'sensor %r: the reading is %r, the last report was %r' % (
                        name, got, ups[-1].what(obj.type)))
                if (obj.value, obj.status) != (got[2], got[1]):
                    self.bad('reading', 'sensor %r: value, status %r with reading %r' % (name, (obj.value, obj.status), got))
        raise tornado.gen.Return(True)

    @tornado.gen.coroutine
    def call_request(self):
        """A request made through .req reaches the device and gives its reply."""
        names = [n for n in RNAMES if n in self.dev.requests and esc(n) in dict.keys(self.res.req)]
        if self.dummy:
            reply = yield self.res.req.no_such_request('x')
            if not reply.succeeded:
                self.bad('requests', 'a dummy request fails: %s' % (reply,))
        if not names:
            return
        name = self.rng.choice(names)
        req = dict.get(self.res.req, esc(name))
        n0 = len(self.dev.log)
        arg = 'x %d' % self.n_ts
        self.n_results += 1
        if self.rng.random() < 0.2:
            self.res.set_active(False)
            try:
                req(arg)
                self.bad('requests', 'a request of an inactive resource does not raise')
            except resource.KATCPResourceInactive:
                if len(self.dev.log) != n0:
                    self.bad('requests', 'a request of an inactive resource was sent')
            self.res.set_active(True)
        hint = self.dev.requests[name].hint if self.dev.hints else None
        if self.ids and self.rng.random() < 0.25:
            t0 = self.loop.time()
            timeout = self.rng.choice([None, 2.0])
            reply = yield req('mute', timeout=timeout)
            limit = timeout or hint or 5
            if reply.succeeded or abs(self.loop.time() - t0 - limit) > 0.2:
                self.bad('requests', 'unanswered request (hint %r, timeout %r) gave %s after %.2f s' % (
                    hint, timeout, reply.reply, self.loop.time() - t0))
            return
        reply = yield req(arg, 5)
        sent = [r for r in self.dev.log[n0:] if r[2] == name]
        if [r[4] for r in sent] != [[arg.encode(), b'5']]:
            self.bad('requests', '%s(%r, 5) sent %r' % (name, arg, sent))
        if not reply.succeeded or reply.reply.arguments[1:] != [name.encode(), arg.encode(), b'5']:
            self.bad('requests', '%s(%r) gave %s' % (name, arg, reply.reply))
        if req.name != name or req.description != self.dev.requests[name].doc or req.timeout_hint != hint:
            self.bad('requests', 'request %r has %r' % (name, (req.name, req.description, req.timeout_hint)))

    def task(self, what, fut):
        self.tasks.append((what, fut))
        return fut

    @tornado.gen.coroutine
    def drive(self):
        rng, d, res = self.rng, self.dev, self.res
        d.server.up()
        if rng.random() < 0.2:
            d.server.down()
        for _ in range(rng.randrange(1, 5)):
            self.change()
        for name in SNAMES:
            if rng.random() < 0.5:
                self.add_persistent(name)
            if rng.random() < 0.25:
                self.task('set', self.set_strategy(name, rng.choice(STRATEGIES), 'resource'))
            if rng.random() < 0.15:
                try:
                    self.drop_strategy(name, 'resource')
                except Exception as e:
                    self.bad('strategy-result', 'dropping a strategy before the start raised %r' % (e,))
        res.start()
        self.started = True
        self.sync_monitor()
        if rng.random() < 0.7:
            yield self.settle()
        for step in range(rng.randrange(6, 18)):
            what = rng.choice(['set', 'set', 'set', 'set', 'drop-strategy', 'push', 'push', 'push', 'push', 'change', 'change',
                               'silent-change', 'drop', 'outage', 'fault', 'listener', 'listener', 'unlisten', 'persist',
                               'poll', 'poll', 'wait', 'stray', 'request', 'filter', 'racing-set', 'early-push', 'comeback', 'comeback', 'racing-set'])
            note = what
            objs = [o for o in dict.values(res.sensor)]
            if what == 'set':
                for _ in range(rng.choice([1, 1, 3])):
                    name, strat = rng.choice(SNAMES), rng.choice(STRATEGIES)
                    how = rng.choice(['resource', 'resource', 'sensor', 'compat'])
                    note += ':%s=%s(%s)' % (name, strat, how)
                    self.task('set', self.set_strategy(name, strat, how))
            elif what == 'filter':
                filt, strat = rng.choice(['', 's', '^s[0-2]$', 'temp']), rng.choice(STRATEGIES)
                import re
                hit = [n for n in dict.keys(res.sensor) if re.search(filt, n)]
                for n in hit:
                    self.want[n] = (numeric(strat), self.loop.time())
                note += ':%s=%s' % (filt, strat)
                t = self.task('filter', res.set_sampling_strategies(filt, strat))
                try:
                    r = yield t
                    if sorted(r) != sorted(hit):
                        self.bad('strategy-result', 'set_sampling_strategies(%r) covered %r, matching are %r' % (filt, sorted(r), hit))
                except Exception as e:
                    self.bad('strategy-result', 'set_sampling_strategies(%r, %r) raised %r' % (filt, strat, e))
            elif what == 'drop-strategy':
                for _ in range(rng.choice([1, 2, 4])):
                    asked = [n for n in SNAMES if self.want.get(esc(n), (None, 0))[0] is not None]
                    name = rng.choice(asked) if asked and rng.random() < 0.7 else rng.choice(SNAMES)
                    how = rng.choice(['resource', 'sensor'])
                    note += ':%s(%s)' % (name, how)
                    self.drop_strategy(name, how)
            elif what == 'comeback':
                # sensors whose strategies are set, set anew or dropped in several ways, go and return
                ok = yield self.settle()
                if not ok:
                    break
                names = rng.sample(SNAMES, rng.randrange(1, 4))
                was_there = [n for n in names if n in d.sensors or rng.random() < 0.7]
                for n in was_there:
                    if n not in d.sensors:
                        self.define(n, self.new_sensor())
                d.notify()
                yield self.settle()
                for _ in range(rng.randrange(1, 4)):
                    acts = []
                    for n in names:
                        for _ in range(rng.choice([0, 1, 1, 2])):
                            how = rng.choice(['resource', 'sensor'])
                            if rng.random() < 0.3:
                                self.drop_strategy(n, how)
                                acts.append('%s dropped (%s)' % (n, how))
                            else:
                                # (often of the same length as the one before)
                                strat = rng.choice(['period 2.5', ('period', 3), 'period 10'] if rng.random() < 0.5 else STRATEGIES)
                                acts.append('%s=%s (%s)' % (n, strat, how))
                                yield self.set_strategy(n, strat, how)
                        if rng.random() < 0.6:
                            if n in d.sensors:
                                self.undefine(n)
                                acts.append('remove ' + n)
                            else:
                                self.define(n, self.new_sensor())
                                acts.append('add ' + n)
                            self.unnotified = True
                    if rng.random() < 0.4:
                        d.server.drop()
                        acts.append('drop')
                    elif rng.random() < 0.5:
                        self.unnotified = not d.notify()
                    note += ':' + ','.join(acts)
                    if self.dev.server.conns and rng.random() < 0.7:
                        ok = yield self.settle()
                        if not ok:
                            break
                for n in names:
                    if n not in d.sensors:
                        self.define(n, self.new_sensor())
                d.notify()
                self.steps.append(note)
                note = 'comeback end'
                ok = yield self.settle()
                if not ok:
                    break
            elif what == 'racing-set':
                # the strategy changes while strategies are applied again
                note += ':' + ('drop' if rng.random() < 0.5 else 'notify')
                if note.endswith('drop'):
                    d.server.drop()
                    yield tornado.gen.sleep(rng.choice([0.5, 0.5001, 0.501]))
                else:
                    self.change()
                    self.unnotified = not d.notify()
                if rng.random() < 0.5 and d.server.conns:
                    # while the first strategies are applied again
                    n0 = len(d.log)
                    for _ in range(400):
                        if any(r[2] == 'sensor-sampling' for r in d.log[n0:]):
                            break
                        yield tornado.gen.sleep(0.005)
                    asked = [n for n in d.sensors if self.want.get(esc(n), (None, 0))[0] not in (None, ('none',))]
                    for n in rng.sample(asked, min(len(asked), rng.randrange(1, 3))):
                        self.drop_strategy(n, rng.choice(['resource', 'sensor']))
                elif self.slow:
                    yield tornado.gen.sleep(rng.random() * 8 * self.slow)
                for _ in range(rng.randrange(1, 30)):
                    yield tornado.gen.moment
                for _ in range(rng.randrange(1, 5)):
                    asked = [n for n in SNAMES if self.want.get(esc(n), (None, 0))[0] is not None]
                    name = rng.choice(asked) if asked and rng.random() < 0.5 else rng.choice(SNAMES)
                    if rng.random() < 0.4:
                        self.drop_strategy(name, rng.choice(['resource', 'sensor']))
                    else:
                        self.task('set', self.set_strategy(name, rng.choice(STRATEGIES), rng.choice(['resource', 'sensor'])))
                    for _ in range(rng.choice([0, 1, 5])):
                        yield tornado.gen.moment
                self.unnotified = self.unnotified or rng.random() < 0.3     # (or else a notification hides what was left undone)
            elif what == 'push':
                self.push(rng.choice([1, 3, 10]))
            elif what == 'early-push':
                # reports that race with the client learning about the sensor
                note += ':' + ','.join(self.change())
                d.notify()
                c = d.current()
                if c is not None and d.sensors:
                    for _ in range(rng.randrange(1, 6)):
                        name = rng.choice(sorted(d.sensors))
                        self.fresh(name)
                        self.report(c, name)
                        if rng.random() < 0.4:
                            yield tornado.gen.moment
            elif what in ('change', 'silent-change'):
                note += ':' + ','.join(self.change())
                self.unnotified = True
                if what == 'change':
                    self.unnotified = not d.notify()
            elif what == 'drop':
                d.server.drop(rst=rng.random() < 0.3)
            elif what == 'outage':
                was = res.synced
                before = dict((n, o.sampling_strategy) for n, o in dict.items(res.sensor))
                d.server.down()
                yield tornado.gen.sleep(rng.choice([0.01, 0.6, 3]))
                yield tornado.gen.sleep(0.4)
                if was and (res.state != 'disconnected' or res.is_connected()):
                    self.bad('state', 'state %r %r 0.4 s after the connection was lost' % (res.state, res.is_connected()))
                after = dict((n, o.sampling_strategy) for n, o in dict.items(res.sensor))
                if was and after != before:
                    self.bad('strategy', 'the strategies are %r after the connection was lost, and were %r' % (after, before))
                if rng.random() < 0.5:
                    note += ':' + ','.join(self.change())
                for _ in range(rng.randrange(3)):
                    name, strat = rng.choice(SNAMES), rng.choice(STRATEGIES)
                    note += ':%s=%s' % (name, strat)
                    self.task('set', self.set_strategy(name, strat, rng.choice(['resource', 'sensor'])))
                d.server.up()
            elif what == 'fault':
                for _ in range(rng.choice([1, 1, 3])):
                    req = rng.choice(['sensor-sampling', 'sensor-sampling', 'sensor-value', 'sensor-value', 'sensor-list', 'help'])
                    acts = [('fail',), ('fail',), ('invalid',), ('drop', False)]
                    if self.ids:
                        acts.append(('silent',))
                    act = rng.choice(acts)
                    self.faults.append((req, act))
                    note += ':%s=%s' % (req, act[0])
                    if req == 'sensor-sampling':
                        self.task('set', self.set_strategy(rng.choice(SNAMES), rng.choice(STRATEGIES), 'resource'))
                    elif req == 'sensor-value' and objs:
                        obj = rng.choice(objs)
                        self.task('poll', self.poll(obj, rng.choice(['get_reading', 'get_value', 'get_status'])))
            elif what == 'listener' and objs:
                self.add_listener(rng.choice(objs))
            elif what == 'unlisten':
                self.remove_listener()
            elif what == 'persist':
                self.add_persistent(rng.choice(SNAMES))
            elif what == 'poll' and objs:
                for _ in range(rng.choice([1, 1, 4])):
                    obj = rng.choice(objs)
                    self.task('poll', self.poll(obj, rng.choice(['get_reading', 'get_value', 'get_status'])))
            elif what == 'wait' and objs:
                # prefer sensors that get reports
                live = [o for o in objs if o.sampling_strategy != ('none',)] or objs
                self.start_wait(rng.choice(live))
            elif what == 'stray':
                c = d.current()
                if c is not None:
                    c.say(wire.encode('inform', 'sensor-status', None, [
                        d.fmt_time(1.0), b'1', b'no-such-sensor', b'nominal', b'1']))
            elif what == 'request' and res.synced:
                ok = yield self.settle()
                if not ok:
                    break
                yield self.call_request()
            self.steps.append(note)
            yield tornado.gen.sleep(rng.choice([0, 0, 0.001, 0.05, 0.5, 2, 7]))
            if rng.random() < 0.35:
                ok = yield self.settle()
                if not ok:
                    break
                if rng.random() < 0.7:
                    self.push(rng.choice([1, 4, 12]))
                    yield tornado.gen.sleep(rng.choice([0.001, 0.01]))
        yield self.settle()
        self.push(10)
        yield tornado.gen.sleep(30)
        yield self.settle()
        for what, f in self.tasks:
            if not f.done():
                self.bad('never-ends', 'a call (%s) never ended' % what)
            elif f.exception():
                self.bad('never-ends', 'a call (%s) raised %r' % (what, f.exception()))
        self.stopped = True
        self.judge_listeners()
        self.judge_waits()
        res.stop()
        try:
            yield res.until_stopped(timeout=10)
        except Exception as e:
            self.bad('stop', 'until_stopped(): %r' % (e,))

    # -- judging recorded calls ---------------------------------------------------------------
    def required(self, u):
        """The client had, or soon got, everything that is needed to tell its listeners about it."""
        if u.conn.t_close is not None and u.conn.t_close <= u.t + 0.002:
            return False
        prev = [m for m in self.settled_marks if m[0] <= u.t]
        if prev and prev[-1][1] == u.conn.idx and prev[-1][2].get(u.name) == u.gen:
            return True
        nxt = [m for m in self.settled_marks if m[0] > u.t]
        if nxt and nxt[0][1] == u.conn.idx and nxt[0][2].get(u.name) == u.gen and nxt[0][3] == u.faults and u.known:
            return True
        return False

    def judge_listeners(self):
        types = {}
        for l in self.persist:
            ups = [u for u in self.updates if u.name == l.name]
            calls = [c for c in l.calls]
            for ev, t, obj, got, received in calls:
                if obj is None or obj.name != l.name:
                    self.bad('listeners', 'a listener of %r was called with sensor %r' % (l.name, obj and obj.name))
                    return
            # in order, every call is a report and every required report is a call; equal
            # reports can be told apart only by trying (reach: numbers of calls explained so far)
            reach = set([0])
            for u in ups:
                need = u.n >= l.start[2] and self.required(u)
                nxt = set() if need else set(reach)
                for k in reach:
                    if k < len(calls) and self.what(u, calls[k][2].type) == calls[k][3] and \
                            u.t - 1e-6 <= calls[k][4] <= calls[k][1] + 1e-6:
                        nxt.add(k + 1)
                if not nxt:
                    k = max(reach)
                    self.bad('listeners', 'listener of %r: report %r at %.4f (conn %d) should be call %d; the calls are %r' % (
                        l.name, (u.ts, u.status, u.value), u.t, u.conn.idx, k, [c[3] for c in calls[max(0, k - 2):k + 3]]))
                    return
                reach = nxt
            self.n_compared += len(calls)
            if len(calls) not in reach:
                k = max(reach)
                self.bad('listeners', 'listener of %r: call %d of %d at %.4f, %r, is not a report of the device in this order; the reports are %r' % (
                    l.name, k, len(calls), calls[k][1], calls[k][3], [(u.ts, u.status, u.value) for u in ups][-6:]))
                return
        for l, obj in self.objlist:
            if l.end is not None and any(c[0] > l.end for c in l.calls):
                self.bad('listeners', 'a listener removed from %r was called afterwards' % l.name)
            refs = [p for p in self.persist if p.name == l.name and p.start[0] < l.start]
            if not refs:
                continue
            ref = [c[3] for c in refs[0].calls if c[2] is obj and l.start < c[0] < (l.end or 1e18)]
            got = [c[3] for c in l.calls]
            self.n_compared += 1
            if ref != got:
                self.bad('listeners', 'listener registered on %r was told %r, the persistent one meanwhile %r' % (
                    l.name, got[-5:], ref[-5:]))

    def what(self, u, stype):
        try:
            return u.what(stype)
        except (ValueError, KeyError):
            return None

    def judge_waits(self):
        for rec in self.waits:
            obj = rec['obj']
            refs = [p for p in self.persist if p.name == obj.name and p.start[0] <= rec['event']]
            end = rec['t'] + rec['timeout'] if rec['timeout'] else None
            done = rec['done']
            self.n_results += 1
            if done is True:
                if not refs:
                    continue
                seen = [rec['reading']] + [c[3] for c in refs[0].calls if c[2] is obj and rec['event'] < c[0] <= rec['end_event']]
                if not any(rec['test'](r) for r in seen):
                    self.bad('wait', 'wait() on %r ended although no reading %r satisfied it' % (obj.name, seen[-4:]))
                if end is not None and rec['end'] > end + 0.01:
                    self.bad('wait', 'wait() on %r ended after its timeout' % obj.name)
            elif isinstance(done, tornado.gen.TimeoutError):
                if end is None or abs(rec['end'] - end) > 0.01:
                    self.bad('wait', 'wait() with timeout %r timed out after %.3f s' % (rec['timeout'], rec['end'] - rec['t']))
                if refs:
                    seen = [rec['reading']] + [c[3] for c in refs[0].calls
                                               if c[2] is obj and c[0] > rec['event'] and c[1] < end - 0.001]
                    if any(rec['test'](r) for r in seen):
                        self.bad('wait', 'wait() on %r timed out although a reading of %r satisfied it' % (obj.name, seen[-4:]))
            elif done is None:
                if end is not None and end < self.loop.time():
                    self.bad('wait', 'wait() with timeout %r did not end' % rec['timeout'])
                if refs:
                    seen = [rec['reading']] + [c[3] for c in refs[0].calls
                                               if c[2] is obj and c[0] > rec['event'] and c[1] < self.loop.time() - 1]
                    if any(rec['test'](r) for r in seen):
                        self.bad('wait', 'wait() on %r did not end although a reading satisfied it' % obj.name)
            else:
                self.bad('wait', 'wait() gave %r' % (done,))

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(100, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.dev.server.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        else:
            fut[0].result()
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        for g in self.dev.server.garbage:
            self.bad('garbled', 'the device received a malformed line %r' % (g[:60],))
        return self.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by its sequence of operations, disturbances and the reports made'
    ctx.assumptions = [
        'devices list well-formed items of known sensor types, report values of the listed type and forget a strategy with its sensor',
        'sensor names do not collide once escaped; differential and rate parameters are within what the device accepts',
        'peers without message ids answer in order and never after the request timed out',
        'suspicious runs are repeated with a longer grace for the kernel before they count']
    i = 0
    while ctx.more(i, 130, 2000, quick_s=75, thorough_s=560):
        s = Scenario(ctx, ctx.subrng('s', i), i, 0.002)
        v = s.run()
        if v:
            ctx.observe('scenarios_repeated_with_longer_grace')
            s = Scenario(ctx, ctx.subrng('s', i), i, 0.1)
            v = s.run()
            for key, text in v[:3]:
                ctx.violation(key, 'scenario %d (%s): %s' % (i, s.greet, text), steps=s.steps)
        ctx.observe('reports_by_device', len(s.updates))
        ctx.observe('listener_calls', sum(len(l.calls) for l in s.persist) + sum(len(l.calls) for l, _ in s.objlist))
        ctx.observe('calls_and_readings_compared', s.n_compared)
        ctx.observe('strategies_compared', s.n_strategies)
        ctx.observe('results_judged', s.n_results)
        ctx.observe('quiescent_points', s.n_settled)
        ctx.observe('synchronisations_seen', s.n_synced)
        ctx.observe('faults_injected', s.n_faults)
        ctx.observe('connections', len(s.dev.server.connects))
        ctx.observe('oracle_evaluations', s.n_compared + s.n_strategies + s.n_results + s.n_settled)
        ctx.case((s.greet, tuple(s.steps), len(s.updates)))
        ctx.sample({'steps': s.steps, 'greet': s.greet, 'reports': len(s.updates)})
        i += 1
