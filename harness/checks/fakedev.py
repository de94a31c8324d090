"""A scripted KATCP device (own codec, own model) for the inspecting and resource client monitors.

It offers an interface of requests and sensors that a scenario changes at will, serves
inspection, sampling and value requests from it, records exactly what it served on which
connection, and injects faults into the answers.
"""
import collections

from . import adv, wire

GREETS = {
    '5-MI': [b'#version-connect katcp-protocol 5.0-MI', b'#version-connect katcp-device dev-1.0 b1'],
    '5-M': [b'#version-connect katcp-protocol 5.0-M'],
    '5.1-MITB': [b'#version-connect katcp-protocol 5.1-MITB', b'#version-connect katcp-library lib-1.0'],
    '4': [b'#version verif-1.0', b'#build-state b-1.0'],
}

Req = collections.namedtuple('Req', 'doc hint')
Sens = collections.namedtuple('Sens', 'desc units stype params')


def model_of(requests, sensors, hints):
    """Comparable snapshot of an interface as a client can know it."""
    return (dict((n, (r.doc, r.hint if hints else None)) for n, r in requests.items()),
            dict((n, (s.desc, s.units, s.stype, tuple(s.params))) for n, s in sensors.items()))


def diff(old, new):
    """(added, removed); changed items are in both."""
    changed = set(n for n in old if n in new and old[n] != new[n])
    return set(new) - set(old) | changed, set(old) - set(new) | changed


class FakeDevice(object):
    def __init__(self, loop, greet='5-MI', announce_delay=None):
        self.loop = loop
        self.greet = greet
        self.major = 4 if greet == '4' else 5
        self.hints = 'T' in greet
        self.announce_delay = announce_delay      # callable -> seconds
        self.requests = {}
        self.sensors = {}
        self.values = {}                          # name -> (time, status bytes, value bytes)
        self.suffix = b''                         # of texts in failure replies
        self.spoil = None
        self.fault = None                         # callable(conn, name, args) -> None or action
        self.full = []                            # inspections served: dicts
        self.log = []                             # (time, conn idx, name, mid, args)
        self.sampling = []                        # (time, conn idx, sensor, strategy tuple, ok)
        self.sent_updates = []                    # (time, conn idx, sensor, ts, status, value)
        self.handlers = {}                        # name -> fn(conn, mid, args)
        self.server = adv.AdvServer(loop, self._greet, self._request)
        self.builtin = ('help', 'sensor-list', 'sensor-sampling', 'sensor-value', 'watchdog')
        for n in self.builtin:
            self.requests[n] = Req('Built-in %s.' % n, None)
        if self.hints:
            self.requests['request-timeout-hint'] = Req('Hints.', None)

    # -- interface -----------------------------------------------------------------
    def model(self):
        return model_of(self.requests, self.sensors, self.hints)

    def notify(self, name='interface-changed'):
        c = self.server.current()
        if c is not None:
            c.say(wire.encode('inform', name, None, [b'sensor-list'] if name != 'device-changed' else []))
            return True
        return False

    def conn_sampling(self, conn):
        if not hasattr(conn, 'strategies'):
            conn.strategies = {}
        return conn.strategies

    def current(self):
        return self.server.current()

    # -- updates ----------------------------------------------------------------------
    def fmt_time(self, t):
        return b'%d' % int(round(t * 1000)) if self.major < 5 else b'%.6f' % t

    def reading_args(self, name):
        t, status, value = self.values[name]
        return [self.fmt_time(t), b'1', name.encode(), status, value]

    def update(self, name, value, status=b'nominal', t=None, push=True):
        """The device's sensor gets a reading; it is reported if a strategy is in force."""
        self.values[name] = (self.loop.time() if t is None else t, status, value)
        c = self.current()
        if push and c is not None and self.conn_sampling(c).get(name, ('none',))[0] != 'none':
            return self.report(c, name)
        return False

    def report(self, conn, *names):
        """One inform for all the sensors, with the time of the first."""
        args = [self.reading_args(names[0])[0], b'%d' % len(names)]
        for name in names:
            args += self.reading_args(name)[2:]
        ok = conn.say(wire.encode('inform', 'sensor-status', None, args))
        if ok:
            for name in names:
                self.sent_updates.append((self.loop.time(), conn.idx, name) + self.values[name])
        return ok

    # -- serving ---------------------------------------------------------------------------
    def _greet(self, conn):
        d = self.announce_delay() if self.announce_delay else 0
        if d:
            self.loop.call_later(d, lambda: [conn.say(l) for l in GREETS[self.greet] if conn.open])
            return []
        return GREETS[self.greet]

    def inform(self, conn, name, mid, args):
        conn.say(wire.encode('inform', name, mid, args))

    def reply(self, conn, name, mid, args):
        conn.say(wire.encode('reply', name, mid, args))

    def _request(self, conn, m):
        mtype, name, mid, args = m
        if mtype != 'request':
            return
        self.log.append((self.loop.time(), conn.idx, name, mid, list(args)))
        act = self.fault(conn, name, args) if self.fault else None
        if act is None:
            return self.serve(conn, name, mid, args)
        kind = act[0]
        if kind == 'drop':
            conn.close(rst=act[1])
        elif kind == 'silent':
            pass
        elif kind == 'fail':
            self.reply(conn, name, mid, [b'fail', b'scripted failure' + self.suffix])
        elif kind == 'invalid':
            self.reply(conn, name, mid, [b'invalid', b'unknown request'])
        elif kind == 'delay':
            self.loop.call_later(act[1], lambda: conn.open and self.serve(conn, name, mid, args))
        elif kind == 'malformed':
            # an inform without the arguments it must have
            self.inform(conn, name, mid, [b'oops'])
            self.reply(conn, name, mid, [b'ok', b'1'])
        elif kind == 'malformed-late':
            self.spoil = name
            try:
                self.serve(conn, name, mid, args)
            finally:
                self.spoil = None
        elif kind == 'partial':
            self.serve(conn, name, mid, args, cut=True)
        elif kind == 'wait':
            act[1](lambda: conn.open and self.serve(conn, name, mid, args))
        else:
            raise AssertionError(kind)

    def serve(self, conn, name, mid, args, cut=False):
        if not conn.open:
            return
        h = self.handlers.get(name) or getattr(self, 'do_' + name.replace('-', '_'), None)
        if h is None or (name not in self.requests):
            self.reply(conn, name, mid, [b'invalid', b'Unknown request.'])
            return
        if cut:
            h(conn, mid, args, cut=True)
        else:
            h(conn, mid, args)

    def _list(self, conn, req, mid, items, cut):
        if cut:
            items = items[:len(items) // 2]
        for it in items:
            self.inform(conn, req, mid, it)
        if self.spoil == req:
            # an inform without the arguments it must have, after the proper ones
            self.inform(conn, req, mid, [b'oops'])
            self.reply(conn, req, mid, [b'ok', b'%d' % (len(items) + 1)])
            return False
        if cut:
            conn.close()
            return False
        self.reply(conn, req, mid, [b'ok', b'%d' % len(items)])
        return True

    def do_help(self, conn, mid, args, cut=False):
        if args:
            n = args[0].decode()
            if n not in self.requests:
                return self.reply(conn, 'help', mid, [b'fail', b'Unknown request method.' + self.suffix])
            return self._list(conn, 'help', mid, [[args[0], self.requests[n].doc.encode()]], cut)
        snap = dict(self.requests)
        conn.helped = snap
        conn.hinted = None
        self._list(conn, 'help', mid, [[n.encode(), snap[n].doc.encode()] for n in sorted(snap)], cut)

    def do_request_timeout_hint(self, conn, mid, args, cut=False):
        if args:
            n = args[0].decode()
            if n not in self.requests:
                return self.reply(conn, 'request-timeout-hint', mid, [b'fail', b'Unknown request method.' + self.suffix])
            return self._list(conn, 'request-timeout-hint', mid,
                              [[args[0], b'%r' % float(self.requests[n].hint or 0)]], cut)
        snap = dict(self.requests)
        conn.hinted = snap
        self._list(conn, 'request-timeout-hint', mid,
                   [[n.encode(), str(float(snap[n].hint)).encode()] for n in sorted(snap) if snap[n].hint], cut)

    def sensor_args(self, n):
        s = self.sensors[n]
        return [n.encode(), s.desc.encode(), s.units.encode(), s.stype.encode()] + [p.encode() for p in s.params]

    def do_sensor_list(self, conn, mid, args, cut=False):
        if args:
            n = args[0].decode()
            if n not in self.sensors:
                return self.reply(conn, 'sensor-list', mid, [b'fail', b'Unknown sensor name.' + self.suffix])
            return self._list(conn, 'sensor-list', mid, [self.sensor_args(n)], cut)
        done = self._list(conn, 'sensor-list', mid, [self.sensor_args(n) for n in sorted(self.sensors)], cut)
        helped = getattr(conn, 'helped', None)
        if done and helped is not None:
            hinted = getattr(conn, 'hinted', None) or {}
            reqs = dict((n, Req(r.doc, (hinted[n].hint if n in hinted else None) if self.hints else None))
                        for n, r in helped.items())
            self.full.append({'t': self.loop.time(), 'conn': conn.idx,
                              'model': model_of(reqs, self.sensors, self.hints)})

    def do_watchdog(self, conn, mid, args, cut=False):
        self.reply(conn, 'watchdog', mid, [b'ok'])

    def do_sensor_value(self, conn, mid, args, cut=False):
        n = args[0].decode() if args else ''
        if n not in self.sensors:
            return self.reply(conn, 'sensor-value', mid, [b'fail', b'Unknown sensor name.' + self.suffix])
        self.inform(conn, 'sensor-value', mid, self.reading_args(n))
        self.sent_updates.append((self.loop.time(), conn.idx, n) + self.values[n])
        self.reply(conn, 'sensor-value', mid, [b'ok', b'1'])

    def do_sensor_sampling(self, conn, mid, args, cut=False):
        n = args[0].decode() if args else ''
        if n not in self.sensors:
            return self.reply(conn, 'sensor-sampling', mid, [b'fail', b'Unknown sensor name.' + self.suffix])
        strat = tuple(a.decode() for a in args[1:])
        if not strat:
            cur = self.conn_sampling(conn).get(n, ('none',))
            return self.reply(conn, 'sensor-sampling', mid, [b'ok', args[0]] + [a.encode() for a in cur])
        if strat[0] not in ('none', 'auto', 'event', 'period', 'event-rate', 'differential'):
            self.sampling.append((self.loop.time(), conn.idx, n, strat, False))
            return self.reply(conn, 'sensor-sampling', mid, [b'fail', b'Unknown strategy.'])
        self.conn_sampling(conn)[n] = strat
        self.sampling.append((self.loop.time(), conn.idx, n, strat, True))
        if strat[0] != 'none':
            self.report(conn, n)
        self.reply(conn, 'sensor-sampling', mid, [b'ok', args[0]] + list(args[1:]))
