"""C14: an inspecting client mirrors the device interface exactly.

The real inspecting client runs on a virtual-time loop against a scripted device whose interface,
notifications, connections and answers a random history disturbs.  Monitors: every reported change
against the difference of two successive inspections *as served*, the model against the device at
quiescent points, the objects handed out, the reported states, and the retry times.
"""
import threading

import tornado.gen

from katcp import Message, Sensor  # noqa: F401
from katcp.inspecting_client import InspectingClientAsync, InspectingClientStateType as State

from .. import vloop
from . import fakedev
from .fakedev import Req, Sens, diff

TYPES = [('integer', ['-5', '5']), ('integer', []), ('float', ['0.5', '2.25']), ('float', []), ('boolean', []),
         ('discrete', ['on', 'off', 'half way']), ('discrete', ['a']), ('string', []), ('lru', []), ('address', [])]
SNAMES = ['s%d' % i for i in range(6)] + ['a.b-c', 'dev.temp', 'items', 'x-y.z']
RNAMES = ['r%d' % i for i in range(6)] + ['set-level', 'keys', 'a-b-c']
WORDS = ['', 'plain', 'two words', 'K', 'tab\there', 'back\\slash', 'line\nbreak', 'caf\u00e9', '#5?']


STATUSES = ['unknown', 'nominal', 'warn', 'error', 'failure', 'unreachable', 'inactive']


class Obj(object):
    def __init__(self, **kw):
        self.kw = kw
        self.sets = []

    def set_formatted(self, *args):
        self.sets.append(args)


def reading_of(stype, params, n):
    """(text on the wire, value a user gets)"""
    if stype == 'integer':
        return b'%d' % (n % 11 - 5), n % 11 - 5
    if stype == 'float':
        return b'%r' % (n * 0.125), n * 0.125
    if stype == 'boolean':
        return b'%d' % (n % 2), n % 2 == 1
    if stype == 'discrete':
        v = params[n % len(params)]
        return v.encode(), v
    if stype == 'lru':
        return (b'nominal', Sensor.LRU_NOMINAL) if n % 2 else (b'error', Sensor.LRU_ERROR)
    if stype == 'address':
        return b'10.0.0.%d:%d' % (n % 250, n), ('10.0.0.%d' % (n % 250), n)
    return b'text %d' % n, 'text %d' % n


class Scenario(object):
    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=3000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.greet = rng.choice(['5-MI', '5.1-MITB', '5.1-MITB', '5-M', '4'])
        slow = rng.random() < 0.3
        self.dev = fakedev.FakeDevice(self.loop, self.greet, (lambda: rng.choice([0, 0.05, 0.7])) if slow else None)
        self.dev.fault = self.fault
        self.dev.suffix = rng.choice([b'', b'', b' \xff\xfe', b' caf\xc3\xa9'])
        self.faults = []
        self.initial = rng.random() < 0.88
        self.ic = InspectingClientAsync(*self.dev.server.addr, ioloop=self.loop,
                                        initial_inspection=None if self.initial else False)
        self.ic.katcp_client.auto_reconnect_delay = 0.5
        self.own_factories = rng.random() < 0.5
        if self.own_factories:
            self.ic.sensor_factory = lambda **kw: Obj(**kw)
            self.ic.request_factory = lambda **kw: Obj(**kw)
        self.cb_delays = rng.choice([[0], [0], [0, 0.3], [0, 1.2, 2.5]])
        self.cb_kind = rng.choice(['plain', 'coro'])
        self.cb_raise = rng.choice([0, 0, 0, 0.06])
        self.ic.set_state_callback(self.cb)
        self.problems = []
        self.steps = []
        self.states = []
        self.prev = ({}, {})
        self.reports = 0
        self.changed_reports = 0
        self.lookups = []
        self.inspected = set()       # single items inspected since the last report
        self.version = 0             # of the device's interface
        self.settled = 0
        self.n_faults = 0
        self.retry_gaps = 0
        self.quiet = False
        self.unsynced = 0            # states reported that are not synced
        self.waits = []              # futures of until_not_synced(), with the number of such states before

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- the device's side ------------------------------------------------------------
    def fault(self, conn, name, args):
        if self.faults and name in ('help', 'sensor-list', 'request-timeout-hint'):
            want, act = self.faults[0]
            if want is None or want == name:
                self.faults.pop(0)
                self.n_faults += 1
                if act[0] == 'late-drop':
                    # answered completely, then gone
                    self.loop.add_callback(self.loop.add_callback, conn.close)
                    return None
                if act[0] == 'change-after':
                    # the notification comes right behind the answer, or a little later
                    def later():
                        self.change()
                        self.dev.notify()
                    if act[1]:
                        self.loop.call_later(act[1], later)
                    else:
                        self.loop.add_callback(later)
                    return None
                if act[0] == 'change':
                    # the interface changes in the middle of an inspection
                    self.change()
                    self.dev.notify()
                    return None
                return act
        return None

    def new_sensor(self):
        stype, params = self.rng.choice(TYPES)
        return Sens(self.rng.choice(WORDS) + ' %d' % self.rng.randrange(3), self.rng.choice(WORDS), stype, params)

    def new_req(self):
        return Req(self.rng.choice(WORDS) + ' %d' % self.rng.randrange(3),
                   self.rng.choice([None, None, 0.25, 1.0, 1.5, 30.0]) if self.dev.hints else None)

    def change(self, n=None):
        rng, d = self.rng, self.dev
        self.version += 1
        done = []
        for _ in range(n or rng.choice([1, 1, 1, 2, 4])):
            if rng.random() < 0.6:
                table, names, new = d.sensors, SNAMES, self.new_sensor
            else:
                table, names, new = d.requests, RNAMES, self.new_req
            name = rng.choice(names)
            what = rng.choice(['add', 'remove', 'modify', 'modify'])
            if name not in table or what == 'modify':
                new = new()
                if name in table and rng.random() < 0.6:
                    # change one attribute only
                    f = rng.choice(new._fields)
                    if f in ('stype', 'params'):
                        new = table[name]._replace(stype=new.stype, params=new.params)
                    else:
                        new = table[name]._replace(**{f: getattr(new, f)})
                done.append(('modify ' if name in table else 'add ') + name)
                table[name] = new
            else:
                del table[name]
                done.append('remove ' + name)
        return done

    # -- the client's side ---------------------------------------------------------------
    def cb(self, state, changes):
        self.states.append((self.loop.time(), state, None if changes is None else
                            dict((k, (sorted(v.added), sorted(v.removed))) for k, v in changes.items())))
        self.check_state(state, changes)
        if self.rng.random() < self.cb_raise and not self.quiet:
            raise RuntimeError('state callback of a scenario raises')
        d = self.rng.choice(self.cb_delays)
        if self.cb_kind == 'coro' or d:
            return tornado.gen.sleep(d)

    def check_state(self, state, changes):
        if not state.synced:
            self.unsynced += 1
        if state != self.ic.state:
            self.bad('state', 'the callback got %s while .state is %s' % (state, self.ic.state))
        if bool(state.synced) != bool(self.ic.synced):
            self.bad('state', 'synced is %r in state %s' % (self.ic.synced, state))
        if state not in self.ic.valid_states:
            self.bad('state', 'undefined state %s' % (state,))
        if state == self.ic.state:
            for wait, holds in (('until_synced', state.synced), ('until_not_synced', not state.synced),
                                ('until_data_synced', state.data_synced)):
                if getattr(self.ic, wait)().done() != bool(holds):
                    self.bad('state', '%s() called in state %s is %s' % (wait, state, 'pending' if holds else 'done'))
        full = self.dev.full
        if state.data_synced and not state.synced:
            self.reports += 1
            if not full:
                return self.bad('sync-claim', 'data synced although no inspection was served')
            new = full[-1]['model']
            changed_back = False
            exp = {}
            for kind, old_m, new_m in zip(('requests', 'sensors'), self.prev, new):
                a, r = diff(old_m, new_m)
                if a or r:
                    exp[kind] = (a, r)
            got = dict((k, (set(v.added), set(v.removed))) for k, v in (changes or {}).items())
            for k, name in self.inspected:
                # its intermediate state was reported to the caller, it may be called changed although it changed back
                what = ('requests', 'sensors')[k]
                both = got.get(what, (set(), set()))
                if name in new[k] and name in self.prev[k] and new[k][name] == self.prev[k][name] and name in both[0] and name in both[1]:
                    both[0].discard(name)
                    both[1].discard(name)
                    changed_back = True
            self.inspected = set()
            got = dict((k, v) for k, v in got.items() if v[0] or v[1])
            if got != exp:
                self.bad('difference', 'reported changes %r, but the inspections differ by %r' % (got, exp))
            if not changed_back and bool(state.model_changed) != bool(exp):
                self.bad('difference', 'model_changed is %r with changes %r' % (state.model_changed, exp))
            if exp:
                self.changed_reports += 1
            self.prev = new
        elif changes:
            self.bad('difference', 'changes %r reported in state %s' % (changes, state))
        if state.data_synced and not state.synced:      # later on, lookups may add to it
            self.check_names('in state %s' % (state,))
        if state.synced and (self.initial or self.dev.full):
            if not full:
                self.bad('sync-claim', 'synced although no inspection was served')
            elif self.dev.server.conns and full[-1]['conn'] != self.dev.server.conns[-1].idx:
                self.bad('sync-claim', 'synced on connection %d, last inspected on connection %d' % (
                    self.dev.server.conns[-1].idx, full[-1]['conn']))

    def check_names(self, where):
        reqs, sens = self.prev
        for got, want, what in ((self.ic.requests, reqs, 'requests'), (self.ic.sensors, sens, 'sensors')):
            if sorted(got) != sorted(want):
                self.bad('names', '%s %s: has %r, the device listed %r' % (
                    what, where, sorted(set(got) - set(want)), sorted(set(want) - set(got))))

    def sensor_is(self, obj, name, s):
        if self.own_factories:
            kw = dict(obj.kw)
            got = (kw['name'], kw['description'], kw['units'], dict((v, k) for k, v in Sensor.SENSOR_TYPE_LOOKUP.items())[
                kw['sensor_type']])
            params = list(kw['params'] or [])
        else:
            got = (obj.name, obj.description, obj.units, obj.stype)
            params = list(obj.params)
        if got != (name, s.desc, s.units, s.stype):
            return 'it is %r, the device has %r' % (got, (name, s.desc, s.units, s.stype))
        params = [p.decode() if isinstance(p, bytes) else p for p in params]
        want = [int(p) if s.stype == 'integer' else float(p) if s.stype == 'float' else p for p in s.params]
        if params != want:
            return 'its parameters are %r, the device has %r' % (params, want)

    def request_is(self, obj, name, r):
        if self.own_factories:
            if set(obj.kw) != set(['name', 'description', 'timeout_hint']):
                return 'the factory got the arguments %r' % (sorted(obj.kw),)
            got = tuple(obj.kw[k] for k in ('name', 'description', 'timeout_hint'))
        else:
            got = (obj.name, obj.description, obj.timeout_hint)
        want = (name, r.doc, r.hint if self.dev.hints else None)
        if got != want:
            return 'it is %r, the device has %r' % (got, want)

    @tornado.gen.coroutine
    def lookup(self, kind, name):
        """Look an item up at any time; judged if nothing moved meanwhile."""
        v0 = self.version
        f0 = self.n_faults
        conns0 = len(self.dev.server.connects)
        rec = {'kind': kind, 'name': name, 't': self.loop.time(), 'done': False}
        self.lookups.append(rec)
        try:
            get = self.ic.future_get_sensor if kind == 'sensor' else self.ic.future_get_request
            obj = yield get(name)
        except Exception as e:
            rec['done'] = True
            rec['result'] = repr(e)
            if v0 == self.version and f0 == self.n_faults and conns0 == len(self.dev.server.connects) and \
                    self.dev.current() is not None and not self.faults and self.ic.state.synced:
                self.bad('lookup', 'looking up %s %r raised %r' % (kind, name, e))
            raise tornado.gen.Return(None)
        rec['done'] = True
        rec['result'] = 'none' if obj is None else 'object'
        if v0 == self.version and conns0 == len(self.dev.server.connects) and self.ic.state.synced and \
                f0 == self.n_faults and self.settled_version == v0:
            self.judge(kind, name, obj, 'looked up')
        raise tornado.gen.Return(obj)

    settled_version = -1

    @tornado.gen.coroutine
    def offline_lookup(self, kind, name):
        """Looked up while there is no connection: answered once the next connection is inspected."""
        v0, f0, conns0 = self.version, self.n_faults, len(self.dev.server.connects)
        offline = not (self.ic.connected or self.ic.state.data_synced or self.ic.state.connected)
        k = len(self.lookups)
        obj = yield self.lookup(kind, name)
        if not offline or self.lookups[k].get('result') not in ('none', 'object'):
            return
        if v0 == self.version and f0 == self.n_faults and len(self.dev.server.connects) <= conns0 + 1:
            self.ctx.observe('lookups_made_offline')
            self.judge(kind, name, obj, 'looked up while disconnected')

    def check_waits(self):
        for fut, n, t in self.waits:
            if fut.done() != (self.unsynced > n):
                self.bad('state', 'until_not_synced() of a synchronised client (%.3f) is %s after %d other states' % (
                    t, 'done' if fut.done() else 'pending', self.unsynced - n))
            self.ctx.observe('unsynced_waits_checked')
        self.waits = [w for w in self.waits if not w[0].done()][-3:]

    @tornado.gen.coroutine
    def inspect_one(self, name, version):
        """Inspecting one item tells how it differs from what was known; nothing is lost for the next synchronisation."""
        d = self.dev
        kind = 'request' if name in RNAMES else 'sensor'
        k = 0 if kind == 'request' else 1
        known, n = self.prev[k], len(d.full)
        try:
            changes = yield (self.ic.inspect_requests if k == 0 else self.ic.inspect_sensors)(name)
        except Exception as e:
            if version == self.version and d.current() is not None and not self.faults:
                self.bad('inspect-one', 'inspecting %s %r raised %r' % (kind, name, e))
            return
        if version != self.version or n != len(d.full):
            return
        self.ctx.observe('items_inspected')
        a, r = diff(dict((x, y) for x, y in known.items() if x == name), dict((x, y) for x, y in d.model()[k].items() if x == name))
        got = (set(changes.added), set(changes.removed)) if changes else (set(), set())
        if got != (a, r):
            self.bad('inspect-one', 'inspecting %s %r reported %r, it differs by %r' % (kind, name, got, (a, r)))
        if a or r:
            self.inspected.add((k, name))
        if name in d.model()[k]:
            obj = yield self.lookup(kind, name)
            if version == self.version and n == len(d.full):
                self.judge(kind, name, obj, 'after it was inspected')

    def judge(self, kind, name, obj, where):
        table = self.dev.sensors if kind == 'sensor' else self.dev.requests
        self.ctx.observe('objects_compared')
        if name not in table:
            if obj is not None:
                self.bad('objects', '%s %r %s: the device does not have it' % (kind, name, where))
        elif obj is None:
            self.bad('objects', '%s %r %s: not found, the device has it' % (kind, name, where))
        else:
            err = (self.sensor_is if kind == 'sensor' else self.request_is)(obj, name, table[name])
            if err:
                self.bad('objects', '%s %r %s: %s' % (kind, name, where, err))

    def same(self):
        reqs, sens = self.dev.model()
        return sorted(self.ic.requests) == sorted(reqs) and sorted(self.ic.sensors) == sorted(sens)

    @tornado.gen.coroutine
    def settle(self, limit=260):
        """Without further disturbance the client gets to the device's current interface."""
        self.quiet = True
        self.faults = []
        self.dev.server.accept_mode = 'normal'
        self.dev.server.up()
        if self.unnotified:
            if not self.dev.notify(self.rng.choice(['interface-changed', 'device-changed'])):
                pass                      # not connected: the next connection is inspected anyway
            self.unnotified = False
        t0 = self.loop.time()
        good = 0
        while self.loop.time() < t0 + limit:
            yield tornado.gen.sleep(0.5)
            # at rest for longer than any state callback takes
            good = good + 1 if self.ic.synced and self.ic.is_connected() and (
                self.prev == self.dev.model() or (not self.initial and not self.dev.full)) else 0
            if good > 12:
                break
        else:
            self.bad('converge', 'not synchronised %ds after %s; state %s, connected %s, last inspection %s' % (
                limit, self.steps[-4:], self.ic.state, self.ic.is_connected(),
                self.dev.full[-1]['t'] if self.dev.full else None))
            raise tornado.gen.Return(False)
        yield tornado.gen.sleep(1.0)
        v = self.version
        self.settled += 1
        if not (self.ic.synced and self.ic.connected and self.ic.is_connected()):
            self.bad('converge', 'not synchronised any more although nothing happened: %s' % (self.ic.state,))
        if not self.initial and not self.dev.full:
            self.quiet = False
            raise tornado.gen.Return(True)
        if not self.same():
            self.check_names('at rest')
            self.bad('converge', 'the client has %r, the device %r' % (
                (sorted(self.ic.requests), sorted(self.ic.sensors)), [sorted(x) for x in self.dev.model()]))
        self.settled_version = v
        reqs, sens = self.dev.model()
        some = [('sensor', n) for n in list(sens) + SNAMES[:2] + ['never']] + \
            [('request', n) for n in list(reqs) + RNAMES[:2] + ['never']]
        for kind, name in some:
            if kind == 'sensor' and name in sens and self.rng.random() < 0.4:
                yield self.deliver(name, v)
            if self.rng.random() < 0.75:
                obj = yield self.lookup(kind, name)
                if self.version == v:
                    self.judge(kind, name, obj, 'at rest')
        # looking things up changes nothing that is known
        if not self.same():
            self.bad('converge', 'lookups changed the client\'s model')
        try:
            yield self.ic.until_synced(timeout=1)
        except Exception as e:
            self.bad('state', 'until_synced() on a synchronised client: %r' % (e,))
        self.check_waits()
        if self.ic.synced:
            fut = self.ic.until_not_synced()
            if not tornado.gen.is_future(fut):
                self.bad('state', 'until_not_synced() returned %r' % (fut,))
            else:
                self.waits.append((fut, self.unsynced, self.loop.time()))
        self.quiet = False
        raise tornado.gen.Return(True)

    @tornado.gen.coroutine
    def deliver(self, name, version):
        """What the device reports is what the sensor object tells."""
        d, s = self.dev, self.dev.sensors[name]
        told = []
        others = {}

        def fresh(n=name):
            self.n_values += 1
            sens = d.sensors[n]
            raw, value = reading_of(sens.stype, sens.params, self.n_values)
            status = self.rng.choice(STATUSES)
            # sensors reported together have one timestamp
            t = 1000 + self.n_values * 0.25 if n == name else d.values[name][0]
            d.values[n] = (t, status.encode(), raw)
            if n == name:
                told.append((t, status, value, raw))
            else:
                others[n] = (t, status, value, raw)

        def report():
            fresh()
            more = self.rng.sample(sorted(set(d.sensors) - set([name])), min(len(d.sensors) - 1, self.rng.choice([0, 0, 0, 1, 2, 4])))
            for n in more:
                fresh(n)
            more.insert(self.rng.randrange(len(more) + 1), name)
            d.report(d.current(), *more)
            self.ctx.observe('sensors_in_status_informs', len(more))
        early = None
        if self.rng.random() < 0.5:
            early = yield self.lookup('sensor', name)
        n0 = len(early.sets) if self.own_factories and early is not None else 0
        for _ in range(self.rng.choice([0, 0, 1, 3])):
            # several arrive together, maybe before the object exists
            report()
        fresh()
        try:
            reply, _ = yield self.ic.katcp_client.future_request(Message.request('sensor-sampling', name, 'event'))
        except Exception as e:
            return self.bad('values', 'setting a strategy at rest raised %r' % (e,))
        for _ in range(self.rng.randrange(3)):
            report()
        d.conn_sampling(d.current()).pop(name, None)
        yield tornado.gen.sleep(0.1)
        obj = yield self.lookup('sensor', name)
        if self.version != version or d.current() is None or obj is None:
            return
        if early is not None and obj is not early:
            self.bad('objects', 'two objects for the unchanged sensor %r' % (name,))
        self.ctx.observe('values_delivered', len(told))
        if self.own_factories:
            got = [(a[0], a[1], a[2]) for a in obj.sets]
            want = [(d.fmt_time(t), st.encode(), raw) for t, st, _, raw in told]
            if got[n0 if early is not None else -len(want):] != want:
                self.bad('values', 'the object of sensor %r was told %r, the device reported %r' % (name, got[-4:], want))
        else:
            self.reads(name, obj, told[-1])
        for n, reading in sorted(others.items()):
            obj = yield self.lookup('sensor', n)
            if self.version != version or d.current() is None or obj is None:
                return
            if self.own_factories:
                if not obj.sets or tuple(obj.sets[-1][:3]) != (d.fmt_time(reading[0]), reading[1].encode(), reading[3]):
                    self.bad('values', 'the object of sensor %r was told %r, the device reported %r' % (n, obj.sets[-1:], reading))
            else:
                self.reads(n, obj, reading)

    @tornado.gen.coroutine
    def report_while_syncing(self):
        """What is reported about sensors while the client inspects is told by their objects afterwards, in order."""
        rng, d = self.rng, self.dev
        quick = rng.random() < 0.3
        before = dict(d.sensors)
        self.change(rng.choice([1, 3]))
        v, conn = self.version, d.current()
        # a changed sensor gets a new object, but the old one is told until the change is known
        same = [n for n in sorted(d.sensors) if n not in before or d.sensors[n] == before[n]]
        self.unnotified = not d.notify()
        if not same or self.unnotified:
            return
        if not quick:
            self.faults = [('sensor-list', ('delay', 0.2))]
            yield tornado.gen.sleep(rng.choice([0, 0.01, 0.1]))
        told = {}
        for _ in range(rng.choice([2, 4, 7])):
            names = rng.sample(same, min(len(same), rng.choice([1, 1, 2, 3])))
            self.n_values += 1
            t = 1000 + self.n_values * 0.25
            for n in names:
                self.n_values += 4
                raw, value = reading_of(d.sensors[n].stype, d.sensors[n].params, self.n_values)
                status = rng.choice(STATUSES)
                d.values[n] = (t, status.encode(), raw)
                told.setdefault(n, []).append((t, status, value, raw))
            if not d.report(conn, *names):
                return
            yield tornado.gen.sleep(rng.choice([0, 0, 0.01]))
        ok = yield self.settle()
        if not ok or v != self.version or conn is not d.current():
            return
        for n, readings in sorted(told.items()):
            last = d.values[n]
            obj = yield self.lookup('sensor', n)
            if obj is None or v != self.version or conn is not d.current():
                return
            self.ctx.observe('values_reported_while_syncing', len(readings))
            if self.own_factories:
                got = [tuple(a[:3]) for a in obj.sets]
                want = [(d.fmt_time(t), st.encode(), raw) for t, st, _, raw in readings]
                k = len(want) - 1
                at = [i for i in range(len(got)) if got[i] == want[0]]
                if not any(got[i:i + len(want)] == want for i in at):
                    self.bad('values', 'the object of sensor %r (%s) was told %r, the device reported %r while it was inspected' % (
                        n, 'known' if n in before else 'new', got[-k - 3:], want))
            elif readings[-1][0] == last[0]:
                self.reads(n, obj, readings[-1])

    def reads(self, name, obj, told):
        got = obj.read()
        t, st, value, _ = told
        if got[0] != t or Sensor.STATUSES[got[1]] != st or got[2] != value or type(got[2]) is not type(value):
            self.bad('values', 'sensor %r (%s) reads %r, the device reported %r' % (name, self.dev.sensors[name].stype, got, told))

    n_values = 0
    unnotified = False

    @tornado.gen.coroutine
    def drive(self):
        rng, d = self.rng, self.dev
        d.server.up()
        if rng.random() < 0.25:
            d.server.down()
        self.change(rng.randrange(1, 8))
        self.ic.start() if rng.random() < 0.7 else self.ic.connect()
        if rng.random() < 0.6:
            yield self.settle()
        for step in range(rng.randrange(3, 9)):
            what = rng.choice(['change', 'change', 'change', 'burst', 'drop', 'outage', 'fault', 'fault', 'fault', 'nothing',
                               'lookup', 'silent-change', 'disconnect', 'spurious', 'flap', 'early-lookup', 'offline-change',
                               'inspect-one', 'inspect-one', 'report-while-syncing', 'report-while-syncing'])
            note = what
            if what in ('change', 'burst'):
                for _ in range(1 if what == 'change' else rng.randrange(2, 6)):
                    note += ':' + ','.join(self.change())
                    self.unnotified = not d.notify(rng.choice(['interface-changed', 'interface-changed', 'device-changed']))
                    yield tornado.gen.sleep(rng.choice([0, 0, 0.001, 0.02, 0.4]))
            elif what == 'silent-change':
                note += ':' + ','.join(self.change())
                self.unnotified = True
            elif what == 'spurious':
                d.notify()
            elif what == 'drop':
                d.server.drop(rst=rng.random() < 0.4)
            elif what == 'flap':
                for _ in range(rng.randrange(2, 5)):
                    d.server.drop()
                    yield tornado.gen.sleep(rng.choice([0.001, 0.52, 0.6, 1.1]))
            elif what == 'disconnect':
                self.ic.katcp_client.disconnect()
            elif what in ('outage', 'offline-change'):
                d.server.down(rst=rng.random() < 0.3)
                pause = rng.choice([0.01, 0.6, 3])
                yield tornado.gen.sleep(pause)
                if what == 'offline-change':
                    note += ':' + ','.join(self.change())
                if pause == 3 and (self.ic.connected or self.ic.is_connected()):
                    self.bad('state', 'connected while the device is down')
                if rng.random() < 0.5:
                    note += ':lookup'
                    for _ in range(rng.randrange(1, 3)):
                        kind = rng.choice(['sensor', 'request'])
                        table = d.sensors if kind == 'sensor' else d.requests
                        self.offline_lookup(kind, rng.choice(sorted(table) + ['never']))
                d.server.up()
            elif what == 'fault':
                for _ in range(rng.choice([1, 1, 2, 4])):
                    act = rng.choice([('fail',), ('fail',), ('invalid',), ('drop', False), ('drop', True), ('silent',),
                                      ('partial',), ('malformed',), ('malformed-late',), ('malformed-late',), ('delay', rng.choice([0.2, 5.5])), ('late-drop',),
                                      ('change',), ('change',), ('change-after', 0), ('change-after', 0),
                                      ('change-after', 0.05)])
                    req = rng.choice([None, 'help', 'sensor-list', 'sensor-list'] +
                                     (['request-timeout-hint'] if d.hints else []))
                    self.faults.append((req, act))
                    note += ':%s=%s' % (req, act[0])
                if rng.random() < 0.7:
                    note += ':' + ','.join(self.change())
                    self.unnotified = not d.notify()
                else:
                    d.server.drop()
            elif what == 'lookup':
                for _ in range(rng.randrange(1, 5)):
                    kind = rng.choice(['sensor', 'request'])
                    self.lookup(kind, rng.choice((SNAMES if kind == 'sensor' else RNAMES) + ['never']))
            elif what == 'early-lookup':
                # an item is looked up before its addition or change is notified
                note += ':' + ','.join(self.change(3))
                for _ in range(rng.randrange(1, 4)):
                    kind = rng.choice(['sensor', 'sensor', 'request'])
                    table = d.sensors if kind == 'sensor' else d.requests
                    self.lookup(kind, rng.choice(list(table) or ['never']))
                    if rng.random() < 0.5:
                        yield tornado.gen.sleep(rng.choice([0, 0.05]))
                self.unnotified = not d.notify()
            elif what == 'report-while-syncing':
                if (yield self.settle()):
                    yield self.report_while_syncing()
            elif what == 'inspect-one':
                if (yield self.settle()) and d.full:
                    v = self.version
                    done = self.change(rng.choice([1, 3]))
                    note += ':' + ','.join(done)
                    names = set(x.split(' ', 1)[1] for x in done)
                    some = rng.sample(sorted(names), min(len(names), 2))
                    for name in some + [rng.choice(sorted(set(['never', 's1', 'r1']) - set(some)))]:
                        yield self.inspect_one(name, v + 1)
                self.unnotified = not d.notify()
            self.steps.append(note)
            yield tornado.gen.sleep(rng.choice([0, 0.001, 0.05, 0.5, 2, 7]))
            if rng.random() < 0.45:
                ok = yield self.settle()
                if not ok:
                    break
        yield self.settle()
        for rec in self.lookups:
            if not rec['done']:
                self.bad('lookup', 'looking up %s %r at %.3f never ended' % (rec['kind'], rec['name'], rec['t']))
        self.ic.stop()
        try:
            yield self.ic.until_stopped(timeout=10)
        except Exception as e:
            self.bad('stop', 'until_stopped(): %r' % (e,))
        yield tornado.gen.sleep(0.5)
        if self.ic.connected:
            self.bad('stop', 'connected after stop')
        n = len(d.log), len(d.server.connects)
        yield tornado.gen.sleep(100)      # the state callback may be at work, or a retry be due
        n += (len(self.states),)
        if self.ic.connected or self.ic.synced or self.ic.state.connected:
            self.bad('stop', 'state %s, connected %s after stop' % (self.ic.state, self.ic.connected))
        yield tornado.gen.sleep(100)
        if (len(d.log), len(d.server.connects), len(self.states)) != n:
            self.bad('stop', 'still active after it was stopped')

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(100, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.dev.server.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        else:
            fut[0].result()
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        for g in self.dev.server.garbage:
            self.bad('garbled', 'the device received a malformed line %r' % (g[:60],))
        return self.problems


class Retry(Scenario):
    """Failures and successes of inspections on a connection that stays up."""

    @tornado.gen.coroutine
    def drive(self):
        rng, d = self.rng, self.dev
        self.cb_delays, self.cb_kind, self.cb_raise, self.cb_kind = [0], 'plain', 0, 'plain'
        d.server.up()
        self.change(4)
        self.ic.start()
        yield self.settle()
        for rnd in range(rng.randrange(2, 5)):
            fails = rng.choice([1, 1, 2, 3, 5])
            self.steps.append('fail %d' % fails)
            self.faults = [(rng.choice(['help', 'sensor-list']), ('fail',)) for _ in range(fails)]
            n0 = len(d.log)
            self.change()
            d.notify()
            t0 = self.loop.time()
            while self.faults and self.loop.time() < t0 + 1000:
                yield tornado.gen.sleep(1)
            if self.faults:
                self.bad('retry', '%d of %d failing inspections were never retried' % (len(self.faults), fails))
                break
            ok = yield self.settle()
            if not ok:
                break
            helps = [t for t, _, name, _, args in d.log[n0:] if name == 'help' and not args]
            for k, (a, b) in enumerate(zip(helps, helps[1:])):
                if k >= fails:
                    break
                self.retry_gaps += 1
                limit = min(5 * 3 ** k, 90)
                if not 0.05 * limit - 0.01 <= b - a <= limit + 0.5:
                    self.bad('retry', 'failure %d after the last success is retried after %.2f s, expected at most %.1f s' % (
                        k + 1, b - a, limit))
            if len(d.server.connects) > 1:
                self.bad('retry', 'a new connection after failures of inspections')
                break
        self.ic.stop()
        yield self.ic.until_stopped(timeout=10)


def run(ctx):
    ctx.rule = 'a scenario is distinct by its sequence of disturbances and the states and changes the client reported'
    ctx.assumptions = [
        'devices list well-formed items, of sensor types known to the library',
        'peers without message ids answer in order and never after the request timed out',
        'suspicious runs are repeated with a longer grace for the kernel before they count']
    i = 0
    while ctx.more(i, 110, 1500, quick_s=75, thorough_s=560):
        cls = Retry if i % 8 == 7 else Scenario
        s = cls(ctx, ctx.subrng('s', i), i, 0.002)
        v = s.run()
        if v:
            ctx.observe('scenarios_repeated_with_longer_grace')
            s = cls(ctx, ctx.subrng('s', i), i, 0.1)
            v = s.run()
            for key, text in v[:3]:
                ctx.violation(key, 'scenario %d (%s%s): %s' % (i, s.greet, '' if s.initial else ', no initial inspection', text),
                              steps=s.steps, states=[repr(x) for x in s.states[-12:]])
        ctx.observe('states_reported', len(s.states))
        ctx.observe('inspections_served', len(s.dev.full))
        ctx.observe('diffs_compared', s.reports)
        ctx.observe('diffs_with_changes', s.changed_reports)
        ctx.observe('quiescent_points', s.settled)
        ctx.observe('faults_injected', s.n_faults)
        ctx.observe('retry_times_checked', s.retry_gaps)
        ctx.observe('lookups', len(s.lookups))
        ctx.observe('connections', len(s.dev.server.connects))
        ctx.observe('oracle_evaluations', s.reports + len(s.states) + s.settled)
        ctx.case((cls.__name__, s.greet, tuple(s.steps), tuple(repr(x[1:]) for x in s.states)))
        ctx.sample({'steps': s.steps, 'greet': s.greet, 'states': [repr(x) for x in s.states[:6]]})
        i += 1
