"""C22: container and group views equal the union of their members.

A real KATCPClientResourceContainer runs on a virtual-time loop against several scripted devices.
A random history changes their interfaces and connections, adds children and groups, sets
strategies and listeners, makes group requests with scripted outcomes and waits with quorums.

Monitors: the views (whichever is read first, at arbitrary loop iterations) against the members',
group requests against what each device received and answered, waits against the readings of the
members over time, listings against the sensors, and the reported synchronisation.
"""
import math
import re
import threading

import tornado.gen

from katcp import resource, resource_client
from katcp.core import AsyncEvent

from .. import vloop
from . import fakedev, wire
from .c15 import esc, numeric
from .fakedev import Req, Sens

STATUSES = ['unknown', 'nominal', 'warn', 'error', 'failure']
CHILDREN = ['aa', 'm-1', 'dev.x', 'zed', 'late-2', 'late.3']
COMMON = ['temp', 'a.b-c', 'mode', 's0', 'items', 'keys']
RNAMES = ['halt', 'set-level', 'r0', 'a-b-c', 'keys', 'items', 'pop']
STRATEGIES = ['event', 'auto', 'period 2.5', ('event-rate', 0.5, 20), 'none']


class Member(object):
    """A device and what it is scripted to do."""

    def __init__(self, sc, name):
        self.sc, self.name, self.key = sc, name, esc(name)
        self.greet = sc.rng.choice(['5-MI', '5-MI', '5.1-MITB', '4'])
        self.ids = self.greet in ('5-MI', '5.1-MITB')
        self.dev = fakedev.FakeDevice(sc.loop, self.greet)
        self.outcome = ('ok',)
        self.refuse = False
        self.slow = sc.rng.choice([0, 0.02, 0.3]) if self.ids else 0
        self.dev.fault = self.fault
        self.n = 0
        self.calls = []
        self.history = []             # (time, sensor, value, status)
        for n in ['temp', 'a.b-c']:
            self.add_sensor(n, 'integer')
        self.add_sensor('agg_' + self.key, 'integer')
        for n in ['halt', 'set-level']:
            self.add_request(n)

    def fault(self, conn, name, args):
        if self.refuse and name == 'sensor-sampling':
            return ('fail',)
        if self.slow and name == 'sensor-sampling':
            return ('delay', self.slow)

    def add_sensor(self, n, stype=None):
        stype = stype or self.sc.rng.choice(['integer', 'float', 'string'])
        self.dev.sensors[n] = Sens('Sensor %s %d.' % (n, self.sc.rng.randrange(3)), 'K', stype, [])
        self.dev.values[n] = (500.0, b'nominal', b'0')
        for c in self.dev.server.conns:
            self.dev.conn_sampling(c).pop(n, None)

    def add_request(self, n):
        self.dev.requests[n] = Req('Request %s %d.' % (n, self.sc.rng.randrange(3)),
                                   self.sc.rng.choice([None, 2.0]) if self.dev.hints else None)
        self.dev.handlers[n] = self.serve

    def serve(self, conn, mid, args):
        name = self.dev.log[-1][2]
        what = self.outcome[0]
        self.calls.append((name, list(args), what))
        if what == 'ok':
            for k in range(self.sc.rng.randrange(3)):
                self.dev.inform(conn, name, mid, [b'%d' % k])
            self.dev.reply(conn, name, mid, [b'ok', self.name.encode()] + args)
        elif what == 'fail':
            self.dev.reply(conn, name, mid, [b'fail', self.name.encode()])
        elif what == 'late':
            self.sc.loop.call_later(self.outcome[1], lambda: conn.open and self.dev.reply(
                conn, name, mid, [b'ok', self.name.encode()] + args))
        elif what == 'drop':
            conn.close()

    def change(self):
        rng, d = self.sc.rng, self.dev
        if rng.random() < 0.6:
            n = rng.choice(COMMON[2:] + ['agg2_' + self.key, 'agg_more_' + self.key])
            if n in d.sensors and rng.random() < 0.6:
                del d.sensors[n]
                for c in d.server.conns:
                    d.conn_sampling(c).pop(n, None)
            else:
                self.add_sensor(n)
        else:
            n = rng.choice(RNAMES[1:])
            if n in d.requests and rng.random() < 0.6:
                del d.requests[n]
            else:
                self.add_request(n)
        return '%s:%s' % (self.name, n)

    def set(self, n, value, status='nominal'):
        self.n += 1
        self.dev.update(n, b'%d' % value, status.encode(), t=1000 + self.n * 0.25)
        self.history.append((self.sc.loop.time(), n, value, status))


class Scenario(object):
    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=3000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.problems, self.steps = [], []
        self.n_views = self.n_requests = self.n_waits = self.n_lists = self.n_settled = self.n_strategies = 0
        self.waits_true = self.waits_false = 0
        self.changed_views = 0
        self.last_view = {}
        names = rng.sample(CHILDREN[:4], rng.randrange(2, 5))
        self.members = [Member(self, n) for n in names]
        spec = dict(name='top', clients=dict((m.name, self.spec(m)) for m in self.members))
        self.group_names = {}
        if rng.random() < 0.85:
            spec['groups'] = {}
            for g in rng.sample(['all', 'grp-1', 'grp.two', 'pair', 'grp_3'], rng.randrange(1, 4)):
                mem = rng.sample(names, rng.randrange(1, len(names) + 1))
                spec['groups'][g] = mem
                self.group_names[g] = mem
        self.top = resource_client.KATCPClientResourceContainer(spec)
        self.top.set_ioloop(self.loop)
        self.stopped = False
        self.listened = []
        self.synced_calls = []
        self.wants = {}               # (member name, sensor) -> strategy
        self.pushing = False

    def spec(self, m):
        return dict(address=m.dev.server.addr, controlled=True, auto_reconnect_delay=0.5)

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- views ------------------------------------------------------------------------------
    def union(self, attr):
        out = {}
        for key, child in dict.items(self.top.children):
            for n, item in dict.items(getattr(child, attr)):
                out[n if n.startswith('agg_') else key + '_' + n] = item
        return out

    def check_views(self, where):
        try:
            self.compare_views(where)
        except Exception as e:
            self.bad('views', 'reading the views %s raised %r' % (where, e))

    def compare_views(self, where):
        """Whichever attribute is read first, and whether or not the others are read."""
        for attr in self.rng.sample(['req', 'sensor', 'sensors', 'groups', 'children'], self.rng.randrange(1, 6)):
            self.n_views += 1
            if attr == 'children':
                want = sorted(m.key for m in self.members)
                if sorted(dict.keys(self.top.children)) != want:
                    self.bad('children', 'children %s: %r, expected %r' % (where, sorted(dict.keys(self.top.children)), want))
                continue
            if attr == 'groups':
                self.check_groups(where)
                continue
            want = self.union('sensor' if attr == 'sensors' else attr)
            got = dict(dict.items(getattr(self.top, attr)))
            if self.last_view.get(attr) != sorted(want):
                self.last_view[attr] = sorted(want)
                self.changed_views += 1
            if got != want or any(got[n] is not want[n] for n in want):
                extra, missing = sorted(set(got) - set(want)), sorted(set(want) - set(got))
                stale = sorted(n for n in want if n in got and got[n] is not want[n])
                self.bad('views', '.%s %s: has %r, lacks %r, stale %r' % (attr, where, extra, missing, stale))
                return

    def check_groups(self, where):
        if sorted(dict.keys(self.top.groups)) != sorted(esc(g) for g in self.group_names):
            self.bad('groups', 'groups %s: %r, expected %r' % (where, sorted(dict.keys(self.top.groups)), sorted(self.group_names)))
            return
        for g, names in self.group_names.items():
            group = dict.__getitem__(self.top.groups, esc(g))
            kids = [dict.__getitem__(self.top.children, esc(n)) for n in names]
            if list(group) != kids or len(group) != len(kids) or group[0] is not kids[0] or group.name != g:
                self.bad('groups', 'group %r %s: members %r, expected %r' % (g, where, [c.name for c in group], names))
            want = set()
            for k in kids:
                want |= set(dict.keys(k.req))
            got = set(dict.keys(group.req))
            if got != want:
                self.bad('groups', 'group %r %s: requests %r, its members have %r' % (
                    g, where, sorted(got - want) or sorted(got), sorted(want - got)))
                return
            if group.is_connected() != all(k.is_connected() for k in kids):
                self.bad('groups', 'group %r is_connected()' % g)

    @tornado.gen.coroutine
    def watch(self):
        """Reads views at arbitrary iterations of the loop."""
        while not self.stopped:
            self.check_views('at any point')
            if self.top.is_connected() != all(c.is_connected() for c in dict.values(self.top.children)):
                self.bad('views', 'is_connected() differs from the children\'s')
            for _ in range(self.rng.choice([1, 3, 40])):
                yield tornado.gen.moment
            yield tornado.gen.sleep(self.rng.choice([0.0005, 0.01, 0.1, 0.5]))

    def check_devices(self):
        try:
            self.compare_devices()
        except Exception as e:
            self.bad('views', 'reading the views at rest raised %r' % (e,))

    def compare_devices(self):
        """At rest the children show their device."""
        for m in self.members:
            child = dict.__getitem__(self.top.children, m.key)
            if set(dict.keys(child.sensor)) != set(esc(n) for n in m.dev.sensors) or \
                    set(dict.keys(child.req)) != set(esc(n) for n in m.dev.requests):
                self.bad('views', 'child %r differs from its device at rest' % m.name)
        for attr, table in (('sensor', 'sensors'), ('req', 'requests')):
            want = set()
            for m in self.members:
                want |= set(esc(n) if n.startswith('agg_') else m.key + '_' + esc(n) for n in getattr(m.dev, table))
            if set(dict.keys(getattr(self.top, attr))) != want:
                self.bad('views', '.%s at rest: %r, the devices have %r' % (
                    attr, sorted(set(dict.keys(getattr(self.top, attr))) - want), sorted(want - set(dict.keys(getattr(self.top, attr))))))

    @tornado.gen.coroutine
    def settle(self, limit=120):
        for m in self.members:
            m.outcome, m.refuse = ('ok',), False
            m.dev.server.up()
            m.dev.notify()
        t0 = self.loop.time()
        good = 0
        while self.loop.time() < t0 + limit:
            yield tornado.gen.sleep(0.5)
            kids = list(dict.values(self.top.children))
            good = good + 1 if all(c.synced for c in kids) and all(
                m.dev.current() and m.dev.full and m.dev.full[-1]['conn'] == m.dev.current().idx and
                m.dev.full[-1]['model'] == m.dev.model() for m in self.members) else 0
            if good > 6:
                break
        else:
            self.bad('converge', 'not synchronised %d s after %s' % (limit, self.steps[-4:]))
            raise tornado.gen.Return(False)
        self.n_settled += 1
        n = len(self.problems)
        self.check_views('at rest')
        self.check_devices()
        if len(self.problems) > n:
            raise tornado.gen.Return(False)
        for (name, sensor), want in sorted(self.wants.items()):
            m = [x for x in self.members if x.name == name][0]
            if sensor in m.dev.sensors:
                self.n_strategies += 1
                have = m.dev.conn_sampling(m.dev.current()).get(sensor, ('none',))
                if numeric(have) != want:
                    self.bad('strategy', 'sensor %r of %r: asked for %r, the device has %r' % (sensor, name, want, have))
        try:
            yield self.top.until_synced(timeout=1)
            yield self.top.until_all_children_in_state('synced', timeout=1)
        except Exception as e:
            self.bad('state', 'until_synced() of a synchronised container: %r' % (e,))
        if self.synced_calls[-1:] != [True]:
            self.bad('state', 'the synchronisation monitor was told %r at last' % (self.synced_calls[-3:],))
        raise tornado.gen.Return(True)

    # -- operations -----------------------------------------------------------------------------
    def member(self, name):
        return [m for m in self.members if m.name == name][0]

    @tornado.gen.coroutine
    def group_request(self, quiet):
        rng = self.rng
        if not self.group_names:
            return
        g = rng.choice(sorted(self.group_names))
        group = dict.__getitem__(self.top.groups, esc(g))
        mem = [self.member(n) for n in self.group_names[g]]
        names = sorted(n for n in dict.keys(group.req) if n in set(esc(x) for x in RNAMES))
        if not names:
            return
        key = rng.choice(names)
        greq = dict.__getitem__(group.req, key)
        for m in mem:
            m.outcome = rng.choice([('ok',), ('ok',), ('ok',), ('fail',), ('late', 1.0)] + ([('mute',)] if m.ids else []))
            if rng.random() < 0.06:
                m.outcome = ('drop',)
        arg = 'arg %d' % rng.randrange(99)
        has = {}
        for m in mem:
            child = dict.__getitem__(self.top.children, m.key)
            m.calls = []
            has[m.name] = key in dict.keys(child.req)
        t0 = self.loop.time()
        kw = {'timeout': 3.0} if rng.random() < 0.5 else {}
        if kw and not all(m.ids for m in mem):
            kw = {}
        try:
            res = yield greq(arg, 7, **kw)
        except Exception as e:
            self.bad('group-request', '%s.req.%s raised %r' % (g, key, e))
            return
        self.n_requests += 1
        if sorted(res) != sorted(m.name for m in mem):
            self.bad('group-request', '%s.req.%s: results of %r' % (g, key, sorted(res)))
            return
        good = True
        for m in mem:
            r = res[m.name]
            calls = [c for c in m.calls if esc(c[0]) == key]
            if not has[m.name]:
                good = False
                if r is not None or calls:
                    self.bad('group-request', '%s.req.%s: %r lacks it, but gave %r' % (g, key, m.name, r))
                continue
            if r is None:
                self.bad('group-request', '%s.req.%s: no result of %r' % (g, key, m.name))
                continue
            if quiet and (len(calls) != 1 or calls[0][1] != [arg.encode(), b'7']):
                self.bad('group-request', '%s.req.%s: %r received %r' % (g, key, m.name, calls))
                continue
            if len(calls) > 1:
                self.bad('group-request', '%s.req.%s: %r received it %d times' % (g, key, m.name, len(calls)))
            what = calls[0][2] if calls else 'none'
            ok = what in ('ok', 'late') and (quiet or r.succeeded)
            good = good and ok
            if r.succeeded != ok:
                self.bad('group-request', '%s.req.%s: %r answered %r, the result is %s' % (g, key, m.name, what, r.reply))
            if r.succeeded and r.reply.arguments[1] != m.name.encode():
                self.bad('group-request', '%s.req.%s: the result of %r is the reply %s' % (g, key, m.name, r.reply))
        if bool(res) != good or res.succeeded != good:
            self.bad('group-request', '%s.req.%s: the result is %r with %s' % (
                g, key, bool(res), dict((n, r and str(r.reply)) for n, r in res.items())))
        if quiet and self.loop.time() - t0 > 5.5:
            self.bad('group-request', '%s.req.%s took %.1f s' % (g, key, self.loop.time() - t0))
        for m in mem:
            m.outcome = ('ok',)

    @tornado.gen.coroutine
    def partly_down(self):
        """Waits for a state of the container while a child is disconnected."""
        top, children = self.top, list(dict.values(self.top.children))
        t0 = self.loop.time()
        timeout = self.rng.choice([0.2, 0.4])
        fut = {'until_synced': top.until_synced(timeout=timeout),
               'until_all_children_in_state(synced)': top.until_all_children_in_state('synced', timeout=timeout),
               'until_all_children_in_state(disconnected)': top.until_all_children_in_state('disconnected', timeout=timeout),
               'until_not_synced': top.until_not_synced(timeout=timeout),
               'until_any_child_in_state(disconnected)': top.until_any_child_in_state('disconnected', timeout=timeout)}
        seen = {}
        for n, f in fut.items():
            f.add_done_callback(lambda f, n=n: seen.setdefault(n, (self.loop.time() - t0, f.exception())))
        trace = []
        while self.loop.time() - t0 < timeout + 0.3 and len(seen) < len(fut):
            trace.append([(c.synced, c.state) for c in children])
            yield tornado.gen.sleep(0.01)
        self.n_partly = getattr(self, 'n_partly', 0) + 1
        for n in fut:
            if n not in seen:
                self.bad('state', '%s(timeout=%r) with a child disconnected did not end' % (n, timeout))
                continue
            took, exc = seen[n]
            if took > timeout + 0.1:
                self.bad('state', '%s(timeout=%r) ended after %.3f s' % (n, timeout, took))
            if exc is not None and not isinstance(exc, tornado.gen.TimeoutError):
                self.bad('state', '%s(timeout=%r) ended with %r' % (n, timeout, exc))
            # what held throughout the wait, or at its start
            if n in ('until_synced', 'until_all_children_in_state(synced)'):
                never = any(all(not row[i][0] for row in trace) for i in range(len(children)))
                if never and exc is None:
                    self.bad('state', '%s resolved while a child was disconnected all along' % n)
            elif n == 'until_all_children_in_state(disconnected)':
                never = any(all(row[i][1] != 'disconnected' for row in trace) for i in range(len(children)))
                if never and exc is None:
                    self.bad('state', '%s resolved while a child was connected all along' % n)
            elif any(row[1] == 'disconnected' for row in trace[0]) and (exc is not None or took > 0.1):
                self.bad('state', '%s took %.3f s (%r) although a child was disconnected' % (n, took, exc))

    @tornado.gen.coroutine
    def group_wait(self):
        """Readings follow a script; the outcome is computed from it."""
        rng = self.rng
        if not self.group_names:
            return
        g = rng.choice(sorted(self.group_names))
        group = dict.__getitem__(self.top.groups, esc(g))
        mem = [self.member(n) for n in self.group_names[g]]
        n = len(mem)
        sensor = rng.choice(['temp', 'a.b-c'])
        if rng.random() < 0.15:
            # without the sensor, or a strategy for it, on every member
            if rng.random() < 0.5:
                sensor = rng.choice(['no-such', 'mode'])
                fine = all(sensor in m.dev.sensors for m in mem)
            else:
                r = yield group.set_sampling_strategy(sensor, 'event')
                m = rng.choice(mem)
                yield dict.__getitem__(self.top.children, m.key).set_sampling_strategy(sensor, 'none')
                for x in mem:
                    self.wants[x.name, sensor] = ('none',) if x is m else ('event',)
                fine = False
            if fine:
                return
            try:
                res = yield group.wait(sensor, lambda reading: False, timeout=0.5)
                self.bad('group-wait', 'wait on %r without the sensor or strategy: %r' % (g, res))
            except resource.KATCPSensorError:
                self.n_waits += 1
            except Exception as e:
                self.bad('group-wait', 'wait on %r without the sensor or strategy raised %r' % (g, e))
            return
        for m in mem:
            yield dict.__getitem__(self.top.children, m.key).set_sampling_strategy(sensor, 'event')
            self.wants[m.name, sensor] = ('event',)
            m.set(sensor, 0)
        yield tornado.gen.sleep(0.5)
        timeout = rng.choice([5.0, 2.0, 8.0, None])
        grace = rng.choice([1.0, 1.0, 0.25, 3.0])
        if timeout is None:
            grace = 1.0
        quorum = rng.choice([None, None, 1, 2, n, 0.5, 1.0, 0.25, 0.3, 0.4, 0.7, 0.01])
        need = n if quorum is None else quorum if isinstance(quorum, int) else int(math.ceil(quorum * n))
        gp = min(grace, timeout / 2.) if timeout else grace
        t1 = timeout - gp if timeout else None
        # scripts: a list of (offset, value) with offsets that keep clear of the deadlines
        scripts = []
        for m in mem:
            pts, now = [], 0
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                now += rng.choice([0.1, 0.3, 0.7, 1.1, 2.3]) + 0.013 * (len(scripts) + 1)
                pts.append((now, 5 if rng.random() < 0.75 else 0))
            scripts.append(pts)
        if timeout is None:
            for pts in scripts:
                pts.append(((pts[-1][0] if pts else 0) + 1.1717, 5))

        def sat(pts, a, b):
            """Time at which the script has the value during [a, b], or None."""
            cur = 0
            for t, v in pts:
                if t <= a:
                    cur = v
            if cur == 5:
                return a
            for t, v in pts:
                if a < t and (b is None or t <= b) and v == 5:
                    return t
        first = sorted(t for t in (sat(p, 0, t1) for p in scripts) if t is not None)
        end1 = first[need - 1] if need <= len(first) else t1
        if end1 is None:
            return
        want = {}
        for m, p in zip(mem, scripts):
            t = sat(p, 0, end1)
            want[m.name] = t is not None or sat(p, end1, end1 + gp) is not None
        close = [abs(t - x) for p in scripts for t, _ in p for x in (end1, end1 + gp) if abs(t - x) > 1e-9]
        if close and min(close) < 0.006:
            return
        base = self.loop.time()
        for m, p in zip(mem, scripts):
            for t, v in p:
                self.loop.call_at(base + t, m.set, sensor, v)
        spelled = rng.choice([sensor, esc(sensor)])
        cond = 5 if rng.random() < 0.5 else (lambda reading: reading.value == 5)
        try:
            res = yield group.wait(spelled, cond, timeout=timeout, quorum=quorum, max_grace_period=grace)
        except Exception as e:
            self.bad('group-wait', 'wait on %r raised %r' % (g, e))
            return
        took = self.loop.time() - base
        self.n_waits += 1
        text = 'wait(timeout=%r, quorum=%r, max_grace_period=%r) on %d members with %r' % (timeout, quorum, grace, n, scripts)
        if dict(res) != want:
            self.bad('group-wait', '%s: %r, expected %r' % (text, dict(res), want))
        elif bool(res) != (sum(want.values()) >= need):
            self.bad('group-wait', '%s: %r although %d of %d satisfied it' % (text, bool(res), sum(want.values()), need))
        if bool(res):
            self.waits_true += 1
        else:
            self.waits_false += 1
        if timeout and took > timeout + 0.1:
            self.bad('group-wait', '%s took %.3f s' % (text, took))
        yield tornado.gen.sleep(7)

    @tornado.gen.coroutine
    def listing(self):
        """list_sensors of the container and of a child."""
        rng = self.rng
        target = self.top if rng.random() < 0.7 else rng.choice(list(dict.values(self.top.children)))
        pat = rng.choice(['', 'temp', '^aa_', 's', 'agg', 'a.b', '^m', 'x$'])
        ident = rng.random() < 0.7
        strat = rng.random() < 0.4
        status = rng.choice(['', '', 'nominal', 'unknown'])
        as_tuple = rng.random() < 0.4
        refresh = rng.random() < 0.3
        n0 = dict((m.name, len(m.dev.log)) for m in self.members)
        res = yield target.list_sensors(pat, strategy=strat, status=status, use_python_identifiers=ident, tuple=as_tuple,
                                        refresh=refresh)
        self.n_lists += 1
        want = []
        asked = {}
        for m in self.members:
            child = dict.__getitem__(self.top.children, m.key)
            if target is not self.top and target is not child:
                continue
            for n, s in m.dev.sensors.items():
                agg = esc(n).startswith('agg_')
                full = esc(n) if target is not self.top or agg else m.key + '_' + esc(n)
                obj = dict.__getitem__(child.sensor, esc(n))
                if not re.search(pat, full if ident else n):
                    continue
                if strat and obj.sampling_strategy == ('none',):
                    continue
                asked.setdefault(m.name, []).append(n)
                if status and obj.reading.status != status:
                    continue
                shown = n if target is not self.top or agg else m.name + '.' + n
                r = obj.reading
                if as_tuple:
                    want.append((full, (shown, r.value, r.timestamp, s.stype, s.units, r.received_timestamp, r.status, obj.sampling_strategy)))
                else:
                    want.append((full, (obj, shown, full, s.desc, s.units, s.stype, r)))
        want.sort(key=lambda w: w[0])
        got = [tuple(x) if as_tuple else (x.object, x.name, x.python_identifier, x.description, x.units, x.type, x.reading)
               for x in res]
        text = 'list_sensors(%r, strategy=%r, status=%r, use_python_identifiers=%r, tuple=%r, refresh=%r) of %s' % (
            pat, strat, status, ident, as_tuple, refresh, target.name)
        if got != [w[1] for w in want]:
            expected = [w[1] for w in want]
            diff = [(a, b) for a, b in zip(got, expected) if a != b][:2] or (got[len(want):] or expected[len(got):])[:2]
            self.bad('listing', '%s: %d items, expected %d; %r' % (text, len(got), len(want), diff))
        if refresh:
            for m in self.members:
                polled = [a[0].decode() for _, _, name, _, a in m.dev.log[n0[m.name]:] if name == 'sensor-value']
                if sorted(polled) != sorted(asked.get(m.name, [])):
                    self.bad('listing', '%s: polled %r of %r' % (text, polled, m.name))

    @tornado.gen.coroutine
    def strategy(self, outcome_judged):
        """Strategies and listeners set through the container or a group."""
        rng = self.rng
        strat = rng.choice(STRATEGIES)
        how = rng.choice(['one', 'filter', 'group', 'group-filter', 'listener'])
        m = rng.choice(self.members)
        refuser = rng.choice(self.members) if rng.random() < 0.3 and outcome_judged else None
        if refuser:
            refuser.refuse = True
        n = rng.choice(sorted(m.dev.sensors))
        full = esc(n) if esc(n).startswith('agg_') else m.key + '_' + esc(n)
        hit = []
        if how == 'listener':
            calls = []
            r = yield self.top.set_sensor_listener(full, lambda sensor, reading: calls.append((reading.timestamp, reading.value)))
            if r.keys() != set([m.name]) or list(r[m.name]) != [esc(n)]:
                self.bad('strategy', 'set_sensor_listener(%r): %r' % (full, r))
            yield dict.__getitem__(self.top.children, m.key).set_sampling_strategy(n, 'event')
            self.wants[m.name, n] = ('event',)
            if m.refuse:
                m.refuse = False
                return
            yield tornado.gen.sleep(0.01)
            del calls[:]
            if m.dev.sensors.get(n) and m.dev.sensors[n].stype == 'integer':
                m.set(n, 41)
                yield tornado.gen.sleep(0.01)
                if [c[1] for c in calls] != [41] and m.dev.current():
                    self.bad('strategy', 'a listener set through the container for %r was told %r' % (full, calls))
        elif how in ('one', 'filter'):
            if how == 'one':
                pat = '^' + full + '$'
                r = yield self.top.set_sampling_strategy(full, strat)
            else:
                pat = rng.choice(['temp', 'agg', 'a_b', '^m_1_', 'zz'])
                r = yield self.top.set_sampling_strategies(pat, strat)
            for x in self.members:
                for y in x.dev.sensors:
                    if re.search(pat, esc(y) if esc(y).startswith('agg_') else x.key + '_' + esc(y)):
                        hit.append((x, y))
            want = {}
            for x, y in hit:
                want.setdefault(x.name, set()).add(esc(y))
            if dict((k, set(v)) for k, v in r.items()) != want:
                self.bad('strategy', 'setting %r for %r: results for %r, expected %r' % (strat, pat, r, want))
            else:
                for x, y in hit:
                    good = r[x.name][esc(y)] == strat
                    if good != (not x.refuse) and x.dev.current():
                        self.bad('strategy', 'setting %r for %r: %r reported for %r of %r, which %s' % (
                            strat, pat, r[x.name][esc(y)], y, x.name, 'refused' if x.refuse else 'accepted'))
        elif self.group_names:
            g = rng.choice(sorted(self.group_names))
            group = dict.__getitem__(self.top.groups, esc(g))
            mem = [self.member(x) for x in self.group_names[g]]
            if how == 'group':
                y = rng.choice(['temp', 'a.b-c'])
                r = yield group.set_sampling_strategy(rng.choice([y, esc(y)]), strat)
                hit = [(x, y) for x in mem]
            else:
                pat = rng.choice(['temp', 'agg', 'a_b'])
                r = yield group.set_sampling_strategies(pat, strat)
                hit = [(x, y) for x in mem for y in x.dev.sensors if re.search(pat, esc(y))]
            want = dict((x.name, set()) for x in mem)
            for x, y in hit:
                want[x.name].add(esc(y))
            if dict((k, set(v)) for k, v in r.items()) != want:
                self.bad('strategy', 'setting %r on group %r: %r, expected %r' % (strat, g, r, want))
        for x, y in hit:
            self.wants[x.name, y] = numeric(strat)
        if refuser:
            refuser.refuse = False
            for x, y in hit:
                if x is refuser:
                    # refused for now; applied again at the next synchronisation
                    x.dev.notify()

    def add_child(self):
        rest = [n for n in CHILDREN[4:] if n not in [m.name for m in self.members]]
        if not rest:
            return None
        m = Member(self, rest[0])
        m.dev.server.up()
        self.members.append(m)
        r = self.top.add_child_resource_client(m.name, self.spec(m))
        if r is not dict.get(self.top.children, m.key) or r.parent is not self.top or r.name != m.name:
            self.bad('children', 'add_child_resource_client gave %r' % (r,))
        return m

    @tornado.gen.coroutine
    def drive(self):
        rng, top = self.rng, self.top
        for m in self.members:
            if rng.random() < 0.85:
                m.dev.server.up()
            for _ in range(rng.randrange(4)):
                m.change()
            for n in rng.sample(COMMON[2:] + ['agg2_' + m.key, 'temp'], rng.choice([0, 1, 4])):
                strat = rng.choice(STRATEGIES)
                self.wants[m.name, n] = numeric(strat)
                yield dict.__getitem__(top.children, m.key).set_sampling_strategy(n, strat)
        top.start()
        self.watch()
        stop_monitor = AsyncEvent()
        resource_client.monitor_resource_sync_state(top, self.synced_calls.append, stop_monitor)
        if self.synced_calls != [False]:
            self.bad('state', 'the synchronisation monitor was told %r at first' % (self.synced_calls,))
        if rng.random() < 0.7:
            yield self.settle()
        for step in range(rng.randrange(5, 14)):
            what = rng.choice(['change', 'change', 'change', 'burst', 'drop', 'outage', 'request', 'request', 'wait', 'wait',
                               'list', 'list', 'strategy', 'strategy', 'add-child', 'add-group', 'hurried-request', 'preset'])
            note = what
            if what in ('change', 'burst'):
                for _ in range(1 if what == 'change' else rng.randrange(2, 7)):
                    m = rng.choice(self.members)
                    note += ':' + m.change()
                    m.dev.notify()
                    if rng.random() < 0.5:
                        yield tornado.gen.sleep(rng.choice([0, 0.001, 0.02]))
            elif what == 'drop':
                for m in self.members:
                    if rng.random() < 0.6:
                        m.dev.server.drop(rst=rng.random() < 0.3)
            elif what == 'outage':
                m = rng.choice(self.members)
                note += ':' + m.name
                was = top.is_connected() and all(c.synced for c in dict.values(top.children))
                fut = [top.until_not_synced(timeout=5), top.until_any_child_in_state('disconnected', timeout=5)]
                m.dev.server.down()
                yield tornado.gen.sleep(0.5)
                if was:
                    for f in fut:
                        if not f.done():
                            self.bad('state', 'a wait for the container to be not synced did not end')
                    if top.is_connected():
                        self.bad('state', 'is_connected() with a child disconnected')
                for f in fut:
                    f.add_done_callback(lambda f: f.exception())
                if rng.random() < 0.7:
                    yield self.partly_down()
                note += m.change()
                yield tornado.gen.sleep(rng.choice([0, 0.3, 2]))
                m.dev.server.up()
            elif what == 'preset':
                # strategies for sensors that may not exist yet, through the children
                for _ in range(3):
                    m, n = rng.choice(self.members), rng.choice(COMMON)
                    s = rng.choice(STRATEGIES)
                    self.wants[m.name, n] = numeric(s)
                    yield dict.__getitem__(top.children, m.key).set_sampling_strategy(n, s)
            elif what in ('request', 'wait', 'list', 'strategy'):
                ok = yield self.settle()
                if not ok:
                    break
                if what == 'request':
                    yield self.group_request(True)
                elif what == 'wait':
                    yield self.group_wait()
                elif what == 'list':
                    for m in self.members:
                        for n in ('temp', 'agg_' + m.key):
                            if rng.random() < 0.6:
                                m.set(n, rng.randrange(9), rng.choice(STATUSES))
                    yield tornado.gen.sleep(0.1)
                    yield self.listing()
                else:
                    yield self.strategy(True)
            elif what == 'hurried-request':
                for m in self.members:
                    if rng.random() < 0.3:
                        m.dev.server.drop()
                    if rng.random() < 0.3:
                        note += ':' + m.change()
                        m.dev.notify()
                for _ in range(rng.randrange(30)):
                    yield tornado.gen.moment
                yield self.group_request(False)
            elif what == 'add-child':
                m = self.add_child()
                note += ':' + (m.name if m else '-')
            elif what == 'add-group':
                g = rng.choice(['new', 'new-2', 'grp-1', 'n.3'])
                mem = rng.sample([m.name for m in self.members], rng.randrange(1, len(self.members) + 1))
                self.group_names[g] = mem
                top.add_group(g, mem)
                note += ':%s=%s' % (g, mem)
            self.steps.append(note)
            self.check_views('after %s' % note)
            yield tornado.gen.sleep(rng.choice([0, 0.001, 0.05, 0.5, 2]))
            if rng.random() < 0.3:
                ok = yield self.settle()
                if not ok:
                    break
        yield self.settle()
        if any(a == b for a, b in zip(self.synced_calls, self.synced_calls[1:])):
            self.bad('state', 'the synchronisation monitor was told %r' % (self.synced_calls,))
        self.stopped = True
        stop_monitor.set()
        broken = None
        if rng.random() < 0.4:
            # a child that cannot be stopped does not keep the others running
            broken = dict.__getitem__(top.children, rng.choice(self.members).key)

            def refuse():
                raise RuntimeError('stop() of a child raises')
            broken.stop = refuse
        try:
            top.stop()
        except Exception as e:
            self.bad('stop', 'stop() with a child that cannot be stopped raised %r' % (e,))
        if broken is not None:
            del broken.stop
            yield tornado.gen.sleep(2)
            for m in self.members:
                child = dict.__getitem__(top.children, m.key)
                if child is not broken and child.is_connected():
                    self.bad('stop', '%s is still connected after stop(), another child could not be stopped' % m.name)
            broken.stop()
        try:
            yield tornado.gen.multi(list(top.until_stopped(timeout=10).values()))
        except Exception as e:
            self.bad('stop', 'until_stopped(): %r' % (e,))
        yield tornado.gen.sleep(2)

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(100, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        for m in self.members:
            m.dev.server.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        else:
            fut[0].result()
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        return self.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by its members, groups and sequence of operations and disturbances'
    ctx.assumptions = [
        'prefixed names do not collide; aggregate sensors have names of their own; group members are active and have distinct names',
        'peers without message ids answer in order and never after the request timed out',
        'suspicious runs are repeated with a longer grace for the kernel before they count']
    i = 0
    while ctx.more(i, 110, 1800, quick_s=75, thorough_s=560):
        s = Scenario(ctx, ctx.subrng('s', i), i, 0.002)
        v = s.run()
        if v:
            ctx.observe('scenarios_repeated_with_longer_grace')
            s = Scenario(ctx, ctx.subrng('s', i), i, 0.1)
            v = s.run()
            for key, text in v[:3]:
                ctx.violation(key, 'scenario %d: %s' % (i, text), steps=s.steps)
        ctx.observe('views_compared', s.n_views)
        ctx.observe('distinct_views', s.changed_views)
        ctx.observe('group_requests_judged', s.n_requests)
        ctx.observe('group_waits_true', s.waits_true)
        ctx.observe('group_waits_false', s.waits_false)
        ctx.observe('listings_compared', s.n_lists)
        ctx.observe('strategies_compared', s.n_strategies)
        ctx.observe('quiescent_points', s.n_settled)
        ctx.observe('oracle_evaluations', s.n_views + s.n_requests + s.n_waits + s.n_lists + s.n_strategies)
        ctx.case((tuple(m.name + m.greet for m in s.members), tuple(sorted(s.group_names)), tuple(s.steps)))
        ctx.sample({'members': [m.name for m in s.members], 'steps': s.steps})
        i += 1
