"""C30: a test helper passes exactly when what it asserts is true.

The assertions, waits, recorders, mocks and comparisons of katcp.testutils are run against devices,
sensors and message histories made up here, with expectations that are true about half of the time;
the outcome of each is compared with what the harness knows of the device.
"""
import itertools
import re
import threading
import time
import unittest

import tornado.gen
import tornado.ioloop
from tornado import gen

from katcp import AsyncReply, DeviceServer, Message, Sensor, testutils
from katcp.core import FailReply
from katcp.kattypes import Int, Str, concurrent_reply, request, return_reply

from .. import common, perturb
from . import srv

STALL = common.STALL
STATUSES = {Sensor.UNKNOWN: 'unknown', Sensor.NOMINAL: 'nominal', Sensor.WARN: 'warn', Sensor.ERROR: 'error',
            Sensor.FAILURE: 'failure', Sensor.UNREACHABLE: 'unreachable', Sensor.INACTIVE: 'inactive'}
TYPES = {'integer': int, 'float': float, 'boolean': bool, 'string': str}
WORDS = ['on', 'off', 'a b', '', '100%', '50%d', '%r', '%s', 'x\\y', 'tab\there', 'line\nbreak', 'é', '0', 'True', ' lead', '-1']


class Case(unittest.TestCase):
    """What helpers assert with."""
    maxDiff = None
    sensor_lag = 0

    def runTest(self):
        pass


class Mixed(testutils.SensorComparisonMixin, testutils.TestUtilMixin, Case):
    pass


def outcome(fn, *args, **kw):
    """('pass', result), ('fail', text) or ('error', exception)."""
    try:
        return 'pass', fn(*args, **kw)
    except AssertionError as e:
        return 'fail', str(e)
    except Exception as e:
        return 'error', repr(e)


class Checker(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng

    def check(self, want, key, what, fn, *args, **kw):
        """fn passes if `want`, and fails with an AssertionError otherwise."""
        got = outcome(fn, *args, **kw)
        self.ctx.observe('assertions_true' if want else 'assertions_false')
        self.ctx.case((key, what, want))
        self.ctx.expect(got[0] == ('pass' if want else 'fail'), key,
                        '%s(%s): %s %r, although what it asserts is %s' % (key, what, got[0], got[1], bool(want)))
        return got


# -- assertions about a device ---------------------------------------------------------------------------

class Device(DeviceServer):
    VERSION_INFO = ('verif', 1, 0)
    BUILD_INFO = ('verif', 1, 0, '')

    def setup_sensors(self):
        self.script = ('ok', [], [])
        self.refused = ()
        self.ignored = ()
        self.others = {}

    def request_say(self, req, msg):
        """Answer as told.

        With more lines.
        """
        status, args, informs = self.script
        for i in informs:
            req.inform(*i)
        return req.make_reply(status, *args)

    def request_other_one(self, req, msg):
        """Another."""
        return req.make_reply('ok')

    def send_all(self, msgs):
        """Sends messages to all clients."""
        def send():
            for conn in list(self._client_conns):
                for m in msgs:
                    conn.inform(m) if m.mtype == Message.INFORM else conn.reply(m, m)
        self.ioloop.add_callback(send)

    def request_set_it(self, req, msg):
        """Set the sensor named 'it'."""
        raw = msg.arguments[0]
        if raw in self.refused:
            return req.make_reply('fail', 'refused')
        if raw not in self.ignored:
            s = self.get_sensor('it')
            s.set_value(s.parse_value(raw))
        for name, value, status in self.others.get(raw, ()):
            self.get_sensor(name).set_value(value, status)
        return req.make_reply('ok', *msg.arguments)


def a_value(rng, kind):
    return {int: lambda: rng.choice([0, 1, -1, 7, 123456789012, rng.randrange(-50, 50)]),
            float: lambda: rng.choice([0.0, 1.5, -273.15, 3.0, round(rng.uniform(-99, 99), rng.randrange(6))]),
            bool: lambda: rng.random() < 0.5,
            str: lambda: rng.choice(WORDS)}[kind]()


def another(rng, kind, value, places=7):
    """(expected value, whether it equals value)."""
    if rng.random() < 0.5:
        if kind is float and rng.random() < 0.5:
            return value + rng.choice([1, -1]) * 0.2 * 10 ** -places, True
        return value, True
    if kind is float:
        return value + rng.choice([1, -1]) * rng.choice([2.5 * 10 ** -places, 1 + 10 ** -places * 3]), False
    if kind is bool:
        return not value, False
    if kind is int:
        return value + rng.choice([1, -1, 10]), False
    other = rng.choice([w for w in WORDS if w != value] + [value + ' ', value + 'x', value.upper() + '!'])
    return other, False


class Live(Checker):
    """Assertions of a BlockingTestClient."""

    def run(self, n):
        rng = self.rng
        self.server = srv.make_server(rng.choice(list(srv.MODES)), cls=Device)
        self.model = {}
        self.raw_sensors = []
        for i in range(rng.randrange(2, 6)):
            self.add('s%d.%s' % (i, rng.choice(['a', 'b-c'])), rng.choice([Sensor.INTEGER, Sensor.FLOAT, Sensor.BOOLEAN, Sensor.STRING]))
        self.add('it', rng.choice([Sensor.INTEGER, Sensor.FLOAT, Sensor.BOOLEAN, Sensor.STRING]))
        self.client = testutils.BlockingTestClient(Case(), *self.server.bind_address)
        self.client.start(STALL)
        try:
            if not self.client.wait_protocol(STALL):
                raise common.Inconclusive('the client did not connect')
            # (what the device sends at connection arrives before this reply)
            self.client.blocking_request(Message.request('watchdog'), STALL)
            todo = [self.one, self.one, self.status, self.several, self.request, self.request, self.request, self.request, self.listing, self.help,
                    self.setter, self.setter, self.multi, self.recorder, self.recorder, self.waits, self.waits]
            for _ in range(n):
                rng.choice(todo)()
            for _ in range(3):
                self.recording()
        finally:
            self.client.stop(STALL)
            self.client.join(STALL)
            srv.stop_server(self.server)

    def add(self, name, stype):
        rng = self.rng
        params = {Sensor.INTEGER: [None, [-5, 10 ** 13]], Sensor.FLOAT: [None, [-1000.5, 1000.0], [0, 3]]}.get(stype, [None])
        s = Sensor(stype, name, rng.choice(['A sensor.', 'Two words', '', 'with %']), rng.choice(['', 'V', '%']), rng.choice(params))
        self.server.add_sensor(s)
        self.model[name] = s
        self.change(s)
        return s

    def change(self, s):
        s.set(self.rng.choice([0.0, 12345.0, 1e9 + self.rng.randrange(1000) / 8.0]), self.rng.choice(list(STATUSES)),
              a_value(self.rng, TYPES[s.stype]))

    def pick(self):
        s = self.rng.choice(list(self.model.values()))
        if self.rng.random() < 0.6:
            self.change(s)
        return s, TYPES[s.stype], s.value()

    def one(self):
        rng, c = self.rng, self.client
        s, kind, value = self.pick()
        t, st, _ = s.read()
        what = '%s is %r' % (s.name, value)
        how = rng.randrange(4)
        if how == 0:
            got = self.check(True, 'get_sensor', what, c.get_sensor, s.name, kind)
            if got[0] == 'pass':
                self.ctx.expect(got[1][:2] == (value, STATUSES[st]) and abs(got[1][2] - t) < 2e-6 and type(got[1][0]) is kind, 'get_sensor.result',
                                'get_sensor of %s returned %r instead of %r' % (s.name, got[1], (value, STATUSES[st], t)))
            got = [outcome(c.get_sensor_value, s.name, kind), outcome(c.get_sensor_status, s.name), outcome(c.get_sensor_timestamp, s.name)]
            ok = got[:2] == [('pass', x) for x in (value, STATUSES[st])] and got[2][0] == 'pass' and abs(got[2][1] - t) < 2e-6
            self.ctx.expect(ok, 'get_sensor_parts',
                            'the value, status and time of %s were %r' % (s.name, got))
            self.check(False, 'get_sensor', 'unknown sensor', c.get_sensor, 'nothing.like.it')
            if kind is str:
                try:
                    int(value)
                except ValueError:
                    self.check(False, 'get_sensor', 'not an integer: %r' % value, c.get_sensor, s.name, rng.choice([int, bool, float]))
            return
        places = rng.choice([7, 7, 3, 1, 0]) if kind is float else 7
        expected, same = another(rng, kind, value, places)
        kw = {'places': places} if places != 7 else {}
        msg = rng.choice([None, None, 'my own message', 'it was %r then'])
        if msg is not None:
            kw['msg'] = msg
        what += ', expected %r (places %d, message %r)' % (expected, places, msg)
        if how in (1, 2):
            want_status = rng.choice([None, STATUSES[st], rng.choice(list(STATUSES.values()))])
            ok = same and want_status in (None, STATUSES[st])
            got = self.check(ok, 'assert_sensor_equals', what + ' status %s of %s' % (STATUSES[st], want_status), c.assert_sensor_equals,
                             s.name, expected, kind, status=want_status, **kw)
            if not same and got[0] == 'fail' and msg != 'my own message':
                self.ctx.expect(repr(value) in got[1], 'assert_sensor_equals.message', 'the failure of %s does not tell the value: %s' % (what, got[1]))
        else:
            self.check(not same, 'assert_sensor_not_equal', what, c.assert_sensor_not_equal, s.name, expected, kind, **kw)

    def status(self):
        s, kind, value = self.pick()
        st = STATUSES[s.status()]
        expected = self.rng.choice([st, self.rng.choice(list(STATUSES.values())), 'no-such-status'])
        msg = self.rng.choice([None, 'mine', 'now %r'])
        self.check(st == expected, 'assert_sensor_status_equals', '%s is %s, expected %s' % (s.name, st, expected),
                   self.client.assert_sensor_status_equals, s.name, expected, *([msg] if msg else []))

    def tuples(self):
        rng = self.rng
        out, same = [], []
        names = rng.sample(sorted(self.model), rng.randrange(1, len(self.model) + 1))
        for n in names:
            s = self.model[n]
            kind = TYPES[s.stype]
            expected, eq = another(rng, kind, s.value(), 7)
            if rng.random() < 0.6:
                expected, eq = s.value(), True
            out.append((n, expected, kind) if kind is not str or rng.random() < 0.5 else (n, expected))
            same.append(eq)
        return out, same

    def several(self):
        ts, same = self.tuples()
        if self.rng.random() < 0.7:
            self.check(all(same), 'assert_sensors_equal', repr(ts), self.client.assert_sensors_equal, ts)
        else:
            self.check(not any(same), 'assert_sensors_not_equal', repr(ts), self.client.assert_sensors_not_equal, ts)

    def request(self):
        rng, c = self.rng, self.client
        word = lambda: rng.choice(WORDS)
        good = rng.random() < 0.65        # whether success is asserted
        status = rng.choice(['ok'] * 6 + ['fail'] if good else ['ok', 'fail', 'invalid', 'fail', 'invalid'])
        args = [word() for _ in range(rng.randrange(0, 4))]
        params = list(args) if rng.random() < 0.4 else [rng.choice([word(), rng.randrange(9)]) for _ in range(rng.randrange(0, 4))]
        informs = [[word() for _ in range(rng.randrange(0, 3))] for _ in range(rng.choice([0, 0, 1, 3]))]
        self.server.script = (status, args, informs)
        maybe = lambda x, y: x if rng.random() < 0.6 else y
        what = '!say %s %r, informs %r, params %r' % (status, args, informs, params)
        if good:
            kw, want = {}, status == 'ok'
            checks = [('args_length', maybe(len(args), rng.choice([0, 0, 1, 2, 3])), lambda v: v == len(args)),
                      ('args_in', [[word()], maybe(list(args), [word(), 'no']), []][:rng.randrange(0, 4)], lambda v: args in v),
                      ('args_equal', maybe(list(args), args[:-1] + [word()]), lambda v: v == args),
                      ('args_echo', True, lambda v: args == [str(p) for p in params])]
            given = [ch for ch in checks if rng.random() < 0.3] if rng.random() < 0.4 else [rng.choice(checks)]
            if rng.random() < 0.25:
                given = []        # (what follows decides)
            for k, v, _ in given:
                kw[k] = v
            if given:
                want = want and given[-1][2](given[-1][1])       # the later take precedence over the former
            if rng.random() < 0.3:
                kw['informs_count'] = maybe(len(informs), rng.randrange(4))
                want = want and kw['informs_count'] == len(informs)
            if rng.random() < 0.3:
                kw['informs_args_equal'] = maybe([list(i) for i in informs], rng.choice([[], informs[:-1], informs[::-1], informs + [['x']]]))
                want = want and kw['informs_args_equal'] == informs
            got = self.check(want, 'assert_request_succeeds', what + ' with %r' % kw, c.assert_request_succeeds, 'say', *params, **kw)
            if got[0] == 'pass':
                self.ctx.expect(got[1] == args, 'assert_request_succeeds.result', '%s: returned %r' % (what, got[1]))
        else:
            kw, want = {}, status != 'ok'
            if rng.random() < 0.4:
                kw['status_equals'] = rng.choice([status, 'fail', 'invalid', status.encode()])
                want = want and kw['status_equals'] in (status, status.encode())
            if rng.random() < 0.4:
                kw['error_equals'] = maybe(args[0] if args else 'x', rng.choice([word(), args[0][:-1] if args else '', args[0][:2] if args else 'N', args[0] + ' ' if args else 'None']))
                want = want and bool(args) and kw['error_equals'] == args[0]
            got = self.check(want, 'assert_request_fails', what + ' with %r' % kw, c.assert_request_fails, 'say', *params, **kw)
            if got[0] == 'pass':
                ok = got[1][0] in (status, status.encode()) and got[1][1] == (args[0] if args else None)
                self.ctx.expect(ok, 'assert_request_fails.result', '%s: returned %r' % (what, got[1]))

    def listing(self):
        rng = self.rng
        reply, informs = self.client.blocking_request(Message.request('sensor-list'), STALL)
        rows = [tuple(a.decode('utf-8') for a in m.arguments) for m in informs]
        self.ctx.expect(sorted(r[0] for r in rows) == sorted(self.model), 'sensor-list', 'the device listed %r' % rows)
        expected, want, loose = [], True, rng.random() < 0.4
        change = rng.choice([None, None, 'drop', 'add', 'description', 'units', 'type', 'params', 'float'])
        at = rng.randrange(len(rows))
        for i, r in enumerate(rows):
            r = list(r)
            if i == at:
                if change == 'drop':
                    want = False
                    continue
                if change == 'add':
                    expected.append(('more',) + tuple(r[1:]))
                    want = False
                if change == 'description':
                    r[1] += '.'
                    want = want and loose
                if change == 'units':
                    r[2] += 'x'
                    want = False
                if change == 'type':
                    r[3] = 'timestamp'
                    want = False
                if change == 'params' and r[3] in ('integer', 'float'):
                    r[4:] = r[4:] + ['1'] if len(r) == 4 or rng.random() < 0.5 else r[4:-1] + [str(float(r[-1]) + 1)]
                    want = False
            if change == 'float' and r[3] == 'float':            # the same numbers written otherwise
                r[4:] = [rng.choice(['%.2f', '%.6e', '%r']) % float(x) for x in r[4:]]
            if change != 'float' and rng.random() < 0.2:
                r = [x.encode('utf-8') for x in r]
            expected.append(tuple(r))
        rng.shuffle(expected)
        self.check(want, 'test_sensor_list', 'changed: %s, descriptions %s, of %r' % (change, not loose, expected), self.client.test_sensor_list, expected,
                   **({'ignore_descriptions': True} if loose else {}))

    def help(self):
        rng = self.rng
        own = {'say': 'Answer as told.\n\nWith more lines.', 'other-one': 'Another.', 'set-it': "Set the sensor named 'it'."}
        reply, informs = self.client.blocking_request(Message.request('help'), STALL)
        rows = {m.arguments[0].decode(): m.arguments[1].decode('utf-8') for m in informs}
        everything = rng.random() < 0.4
        names = sorted(rows) if everything else sorted(own)
        change = rng.choice([None, None, 'drop', 'add', 'text'])
        texts, full, want = rng.random() < 0.6, rng.random() < 0.5, True
        if change == 'drop':
            names.remove(rng.choice(names))
            want = False
        if change == 'add':
            names.append('more-of-it')
            want = False
        rng.shuffle(names)
        if texts:
            odd = rng.choice(names) if change == 'text' else None
            expected = [(n, rows.get(n, 'x') + (rng.choice(['.']) if n == odd else '')) for n in names]
            if odd:
                # (a change after the first line does not matter unless full)
                want = want and not full and '\n' in rows.get(odd, 'x')
            if not full and rng.random() < 0.5:
                expected = [(n, d.split('\n')[0]) for n, d in expected]
        else:
            expected = names
        kw = {}
        if everything:
            kw['exclude_defaults'] = False
        if full and texts:
            kw['full_descriptions'] = True
        self.check(want, 'test_help', 'changed: %s, %s of %r' % (change, kw, expected), self.client.test_help, expected, **kw)

    def setter(self):
        rng = self.rng
        s = self.model['it']
        kind = TYPES[s.stype]
        good = [a_value(rng, kind) for _ in range(rng.randrange(0, 4))]
        bad = [a_value(rng, kind) for _ in range(rng.choice([0, 1, 2, 2]))]
        # as a message formats its arguments
        raw = lambda v: Message.request('x', v).arguments[0]
        pool = good + bad
        self.server.refused = set(raw(v) for v in bad) if rng.random() < 0.7 else set(rng.sample([raw(v) for v in pool], rng.randrange(len(pool) + 1)))
        if len(bad) > 1 and rng.random() < 0.4:
            # accepted only after others were refused
            self.server.refused = set(raw(v) for v in bad[:-1]) - set(raw(v) for v in good)
        self.server.ignored = set(rng.sample([raw(v) for v in good], min(len(good), rng.choice([0, 0, 1]))))
        self.server.others = {}
        want, now = True, s.value()
        for v in good:
            if raw(v) in self.server.refused:
                want = False
                break
            if raw(v) not in self.server.ignored:
                now = v
            if (abs(now - v) > 1e-6) if kind is float else now != v:
                want = False
                break
        for v in bad:
            want = want and raw(v) in self.server.refused
        self.check(want, 'test_setter_request', 'good %r, bad %r, refused %r, ignored %r' % (good, bad, self.server.refused, self.server.ignored),
                   self.client.test_setter_request, 'set-it', 'it', kind, good=good, bad=bad)

    def multi(self):
        rng = self.rng
        it = self.model['it']
        kind = TYPES[it.stype]
        names = [n for n in self.model if n != 'it']
        good, want, script = [], True, {}
        raw = lambda v: Message.request('x', v).arguments[0]
        for _ in range(rng.randrange(1, 3)):
            v = a_value(rng, kind)
            if raw(v) in script:
                continue
            n = rng.choice(names)
            s = self.model[n]
            k = TYPES[s.stype]
            x, st = a_value(rng, k), rng.choice(list(STATUSES))
            script[raw(v)] = [(n, x, st)]
            claim, eq = another(rng, k, x) if rng.random() < 0.3 else (x, True)
            claim_st = st if rng.random() < 0.8 else rng.choice(list(STATUSES))
            options = {'statuses': [(n, STATUSES[claim_st])]} if rng.random() < 0.5 else {}
            want = want and eq and (not options or claim_st == st)
            good.append(((v,), [(n, claim, k)] + ([('it', v, kind)] if rng.random() < 0.5 else [])) + ((options,) if options else ()))
        bad = [(a_value(rng, kind),) for _ in range(rng.randrange(0, 2))]
        self.server.others, self.server.ignored = script, set()
        self.server.refused = set(raw(b[0]) for b in bad)
        want = want and not any(g in self.server.refused for g in script)
        self.check(want, 'test_multi_setter_request', 'good %r, bad %r; sets %r' % (good, bad, script),
                   self.client.test_multi_setter_request, 'set-it', good, bad)
        self.server.others, self.server.refused = {}, ()

    # -- recorders
    def recorder(self):
        rng, c = self.rng, self.client
        names = ['alpha', 'beta', 'gamma', 'alpha-beta']
        recs = []
        for _ in range(rng.randrange(1, 4)):
            kw = {}
            if rng.random() < 0.5:
                kw['whitelist'] = rng.choice([list, tuple])(rng.sample(names, rng.randrange(0, 3)))
            if rng.random() < 0.5:
                kw['blacklist'] = rng.sample(names, rng.randrange(0, 3))
            if rng.random() < 0.3:
                kw['regex_filter'] = rng.choice(['#alpha', '[!#]beta', r'.*\b1\b', '.*x$', '#alpha ', 'beta', '1', r'[#!]\S+ \d$'])
            if rng.random() < 0.3:
                kw['informs'] = False
            if rng.random() < 0.5:
                kw['replies'] = True
            recs.append((kw, c.message_recorder(**kw), []))
        last = c.message_recorder(whitelist=['end'])      # (is told of each message last)
        for rnd in range(rng.randrange(1, 4)):
            msgs = [rng.choice([Message.inform, Message.reply])(rng.choice(names), rng.choice(['1', '22', 'x', 'yx']), *rng.choice([[], ['1']]))
                    for _ in range(rng.randrange(0, 8))] + [Message.inform('end', '1')]
            for kw, rec, due in recs:
                due.extend(str(m) for m in msgs if recorded(kw, m))
            late = rng.random() < 0.4
            if late:
                # readers wait before anything was sent
                threading.Timer(0.02, self.server.send_all, [msgs]).start()
            else:
                self.server.send_all(msgs)
                got = last.get_msgs(1, STALL)
                self.ctx.expect([str(m) for m in got] == ['#end 1'], 'recorder', 'the end was recorded as %r' % [str(m) for m in got])
            for kw, rec, due in recs:
                if late and not due or rng.random() < 0.2:
                    continue                    # (reads them next time)
                if late or rng.random() < 0.5:
                    t0 = time.time()
                    more = 0 if late or rng.random() < 0.8 else 1        # (one that never comes)
                    timeout = 0.03 if more else rng.choice([STALL, STALL, None])
                    with Guard(self.ctx, 'recorder.stuck', 'a reader of %d messages, timeout %r' % (len(due) + more, timeout), rec):
                        got = outcome(rec.get_msgs, len(due) + more, timeout)
                    took = time.time() - t0
                    self.ctx.expect(not more or took > 0.02, 'recorder.wait', 'a reader of one message more did not wait for it')
                    self.ctx.expect(took < STALL / 2, 'recorder.slow', 'a reader returned only after %.1f s' % took)
                else:
                    got = outcome(rng.choice([rec, rec.get_msgs]))
                texts = [str(m) for m in got[1]] if got[0] == 'pass' else got
                self.ctx.expect(texts == due, 'recorder', 'a recorder of %r returned %r for %r, not %r' % (kw, texts, [str(m) for m in msgs], due))
                self.ctx.observe('messages_recorded', len(due))
                self.ctx.case(('recorder', repr(sorted(kw.items())), tuple(str(m) for m in msgs)))
                del due[:]
            if late:
                last.get_msgs(1, STALL)
        c._message_recorders.clear()

    def recording(self):
        """Messages arrive while a recorder is read."""
        rng = self.rng
        rec = self.client.message_recorder(whitelist=['race'])
        n = rng.randrange(20, 200)
        got = []

        def send():
            for i in range(n):
                rec.append_msg(Message.inform('race', i))

        def read():
            t0 = time.time()
            while len(got) < n and time.time() - t0 < 5:
                got.extend(int(m.arguments[0]) for m in rec.get_msgs(*rng.choice([(), (1, 0.01)])))
        with perturb.Perturb(self.ctx, rng, only=('testutils.py',)):
            threads = [threading.Thread(target=f) for f in (send, read)]
            for t in threads:
                t.start()
            for t in threads:
                t.join(STALL)
        self.ctx.expect(got == list(range(n)), 'recorder.race', 'of %d messages %d were returned: %r' % (n, len(got), got[:200]))
        self.ctx.observe('messages_recorded', n)
        self.ctx.case(('race', n))
        self.client._message_recorders.clear()

    # -- waits
    def waits(self):
        rng, c = self.rng, self.client
        s, kind, value = self.pick()
        if kind is not float:
            s, kind, value = self.pick()
        target, same = another(rng, kind, value)
        if kind is float and rng.random() < 0.5:
            target, same = value + rng.choice([0.5, -0.5, 3, -3]), False
        how = rng.choice(['never', 'already', 'later', 'later'])
        if how == 'already':
            target = value
        elif same:
            return
        if how == 'later':
            timeout = STALL
            threading.Timer(0.05, lambda: s.set_value(target)).start()
        else:
            timeout = rng.choice([0.08, 0.15]) if how == 'never' else rng.choice([0, 0.05, STALL])
        t0 = time.time()
        which = rng.randrange(3)
        if which == 0:
            self.check(how != 'never', 'wait_until_sensor_equals', '%s is %r, becomes %r %s' % (s.name, value, target, how),
                       c.wait_until_sensor_equals, timeout, s.name, target, kind)
        elif which == 1:
            self.check(how != 'never', 'wait_until_sensors_equal', '%s is %r, becomes %r %s' % (s.name, value, target, how),
                       c.wait_until_sensors_equal, timeout, [(s.name, target, kind)])
        else:
            calls = []

            def holds(a, b=None):
                calls.append((a, b))
                return s.value() == target
            got = outcome(c.wait_condition, timeout, holds, 1, b=2, poll_period=0.01)
            self.ctx.expect(got[0] == 'pass' and bool(got[1][0]) == (how != 'never') and set(calls) == {(1, 2)}, 'wait_condition',
                            '%s: %r, called with %r' % (how, got, calls[:2]))
            self.ctx.case(('wait_condition', how, value, target))
        took = time.time() - t0
        if how == 'later':
            self.ctx.expect(s.value() == target, 'wait.early', '%s was %r when a wait for %r ended' % (s.name, s.value(), target))
        if how == 'never':
            self.ctx.expect(took >= timeout * 0.9, 'wait.early', 'a wait of %r s gave up after %.3f s' % (timeout, took))
        elif how == 'later':
            self.ctx.expect(took < STALL * 0.75, 'wait.late', 'a wait noticed after %.1f s' % took)
            # (the timer has fired)
            time.sleep(0.002)


class Guard(object):
    """Lets go a reader that would wait forever."""

    def __init__(self, ctx, key, what, rec):
        self.args, self.rec = (ctx, key, what), rec

    def __enter__(self):
        self.timer = threading.Timer(STALL, self.free)
        self.timer.start()

    def free(self):
        ctx, key, what = self.args
        ctx.violation(key, what + ': never returns')
        for _ in range(1000):
            self.rec.append_msg(Message.inform('alpha', '1'))

    def __exit__(self, *exc):
        self.timer.cancel()


def recorded(kw, m):
    """Whether a recorder made with kw records m."""
    if m.mtype == Message.INFORM and not kw.get('informs', True):
        return False
    if m.mtype == Message.REPLY and not kw.get('replies', False):
        return False
    if kw.get('whitelist'):
        if m.name not in kw['whitelist']:
            return False
    elif m.name in kw.get('blacklist', ()):
        return False
    return not kw.get('regex_filter') or bool(re.match(kw['regex_filter'], str(m)))


# -- transitions of a sensor -------------------------------------------------------------------------------

class Eager(Sensor):
    """Is set by another thread when somebody attaches to it."""
    on_attach = None

    def attach(self, observer):
        do, self.on_attach = self.on_attach, None
        if do:
            t = threading.Thread(target=do)
            t.start()
            t.join(STALL)
        super(Eager, self).attach(observer)


def follows(values, tests):
    """(whether values follow the tests to the end, or None if they end before that)."""
    ok = lambda v, t: t(v) if callable(t) else v == t
    values = [v for i, v in enumerate(values) if i == 0 or v != values[i - 1]]
    k, i = 0, 0
    while k < len(tests) - 1:
        if ok(values[i], tests[k + 1]):
            k += 1
            continue
        i += 1
        if i == len(values):
            return None
        if not ok(values[i], tests[k + 1]) and not ok(values[i], tests[k]):
            return False
    return True


class Transitions(Checker):
    def run(self, n):
        for _ in range(n):
            self.rng.choice([self.sequence, self.sequence, self.sequence, self.wait_sensor, self.wait_async, self.recorded])()

    def sensor(self):
        s = Eager(Sensor.INTEGER, 'x', 'X.', '')
        s.set(1.0, Sensor.NOMINAL, self.rng.randrange(4))
        return s

    def tests(self, values):
        """Tests that values follow, or nearly."""
        rng = self.rng
        out = []
        for i, v in enumerate(values):
            if i and rng.random() < 0.15:
                continue
            if isinstance(v, tuple):
                out.append(rng.choice([v, v, lambda x, v=v: x[1] == v[1], lambda x, v=v: x[1] >= v[1]]))
            else:
                out.append(rng.choice([v, v, lambda x, v=v: x == v, lambda x, v=v: x >= v, lambda x, v=v: x <= v, lambda x: True]))
        if rng.random() < 0.25:
            out[-1] = 77
        return out

    def sequence(self):
        rng = self.rng
        s = self.sensor()
        both = rng.random() < 0.3
        cls = testutils.SensorTransitionStatusWaiter if both else testutils.SensorTransitionWaiter
        steps = [(rng.choice([Sensor.NOMINAL, Sensor.NOMINAL, Sensor.WARN]), rng.randrange(4)) for _ in range(rng.randrange(0, 7))]
        values = [s.read()[1:] if both else s.value()] + [st if both else st[1] for st in steps]
        tests = self.tests(values)
        if rng.random() < 0.1:
            tests[0] = 99
        ok0 = tests[0](values[0]) if callable(tests[0]) else tests[0] == values[0]
        what = 'values %r, tests %r' % (values, [t if not callable(t) else 'f' for t in tests])
        try:
            w = cls(s, tests)
        except ValueError:
            self.ctx.expect(not ok0, 'transition.initial', '%s: the initial value was refused' % what)
            self.ctx.case(('initial', what))
            self.ctx.expect(not s._observers, 'transition.observers', 'a waiter that was refused still observes')
            return
        self.ctx.expect(ok0, 'transition.initial', '%s: the initial value was accepted' % what)
        threaded = rng.random() < 0.3
        want = follows(values, tests)

        def apply():
            for st, v in steps:
                s.set(2.0, st, v)
                if threaded:
                    time.sleep(0.0005)
        if threaded:
            t = threading.Thread(target=apply)
            t.start()
        else:
            apply()
        timeout = STALL if want is not None else rng.choice([0.05, 0.1]) if threaded else rng.choice([0.02, 0])
        t0 = time.time()
        got = outcome(w.wait, timeout)
        if threaded:
            t.join(STALL)
        self.ctx.expect(got == ('pass', bool(want)), 'transition.result', '%s: wait returned %r' % (what, got))
        self.ctx.expect(w.timed_out == (want is None), 'transition.timed_out', '%s: timed_out is %r' % (what, w.timed_out))
        self.ctx.expect(time.time() - t0 < STALL / 2, 'transition.slow', '%s: took too long' % what)
        short = [v for i, v in enumerate(values) if i == 0 or v != values[i - 1]]
        self.ctx.expect(w.received_values == short[:len(w.received_values)] and (want is not None or w.received_values == short),
                        'transition.received', '%s: received %r' % (what, w.received_values))
        self.ctx.expect(not s._observers, 'transition.observers', 'a waiter that is done still observes')
        again = outcome(w.wait, 0.01)
        self.ctx.expect(again[0] == 'error' and 'RuntimeError' in again[1], 'transition.again', 'a second wait: %r' % (again,))
        self.ctx.observe('transitions', len(values))
        self.ctx.case(('sequence', what, want))

    def recorded(self):
        rng = self.rng
        s = self.sensor()
        w = testutils.SensorTransitionWaiter(s)
        values, got = [s.value()], []
        for i in range(rng.randrange(1, 4)):
            for _ in range(rng.randrange(0, 4)):
                values.append(rng.randrange(5))
                s.set_value(values[-1])
            reset, stop = rng.random() < 0.5, rng.random() < 0.2
            got = w.get_received_values(stop=stop, reset=reset)
            self.ctx.expect(got == values, 'transition.recorded', 'of %r a waiter recorded %r' % (values, got))
            values = [] if reset else list(values)
            if stop:
                s.set_value(9)
                got = w.get_received_values()
                self.ctx.expect(got == values, 'transition.recorded', 'a stopped waiter recorded %r' % (got,))
                break
        self.ctx.case(('recorded', tuple(values)))

    def wait_sensor(self):
        rng = self.rng
        s = self.sensor()
        now = s.value()
        status = rng.choice([None, None, Sensor.WARN, Sensor.NOMINAL])
        when = rng.choice(['before', 'attaching', 'after', 'never', 'other-status'])
        target = now if when == 'before' else now + 5
        hit = lambda: (s.set(2.0, Sensor.ERROR, now + 1), s.set(3.0, Sensor.NOMINAL if status is None else status, target))
        timeout = STALL
        want = True
        if when == 'before':
            if status not in (None, Sensor.NOMINAL):
                want, timeout = False, 0.03
        elif when == 'attaching':
            s.on_attach = hit
            timeout = 1
        elif when == 'after':
            threading.Timer(0.01, hit).start()
        elif when == 'never':
            want, timeout = False, 0.03
            threading.Timer(0.001, lambda: s.set(2.0, Sensor.NOMINAL, now + 1)).start()
        else:
            want, timeout = status is None, 0.05 if status is not None else STALL
            threading.Timer(0.005, lambda: s.set(2.0, Sensor.FAILURE, target)).start()
        got = outcome(testutils.wait_sensor, s, target, status, timeout)
        self.ctx.expect(got == ('pass', want), 'wait_sensor', 'the value comes %s (status %r): wait_sensor returned %r' % (when, status, got))
        self.ctx.expect(not s._observers, 'transition.observers', 'wait_sensor still observes')
        self.ctx.case(('wait_sensor', when, now, target, status))

    def wait_async(self):
        rng = self.rng
        s = self.sensor()
        now = s.value()
        loop = tornado.ioloop.IOLoop()
        errors = []
        loop.handle_callback_exception = lambda cb: errors.append(repr(cb))
        status = rng.choice([None, Sensor.WARN])
        seq = [(rng.choice([Sensor.NOMINAL, Sensor.WARN]), rng.choice([now, now + 1, 50])) for _ in range(rng.randrange(0, 5))]
        target = rng.choice([now, 50, now + 1])
        hits = [(v == target and status in (None, st)) for st, v in [s.read()[1:]] + seq]
        done = []
        threaded = rng.random() < 0.5

        def apply():
            for st, v in seq:
                s.set(2.0, st, v)
        f = []

        def begin():
            f.append(testutils.wait_sensor_async(s, target, status, loop))
            f[0].add_done_callback(lambda x: done.append(x.result()))
            if not threaded:
                apply()
        loop.add_callback(begin)
        if threaded:
            loop.add_callback(lambda: threading.Thread(target=lambda: (time.sleep(0.002), apply())).start())
        loop.call_later(0.03, loop.stop)
        loop.start()
        self.ctx.expect(done == ([True] if any(hits) else []), 'wait_sensor_async', '%r of %r for %r (%r): %r' % (hits, seq, target, status, done))
        self.ctx.expect(not errors, 'wait_sensor_async.error', 'callbacks raised: %r' % (errors,))
        self.ctx.expect(bool(s._observers) == (not any(hits)), 'wait_sensor_async.observers', '%d observers' % len(s._observers))
        self.ctx.case(('wait_async', tuple(seq), target, status, threaded))
        loop.close(all_fds=True)


# -- mocks ---------------------------------------------------------------------------------------------------

class Mocks(Checker):
    def run(self, n):
        for _ in range(n):
            self.rng.choice([self.waiting, self.waiting, self.counting, self.asynchronous, self.in_loop])()

    def waiting(self):
        rng = self.rng
        blocked = threading.Event()
        effect = rng.choice([None, None, 'block', 'raise'])
        m = testutils.WaitingMock(return_value=5)
        if effect == 'block':
            m.side_effect = lambda *a, **k: blocked.wait(STALL)
        elif effect == 'raise':
            m.side_effect = ValueError('no')
        before = rng.randrange(0, 3) if effect is None else 0
        for i in range(before):
            m(i)
        if rng.random() < 0.3:
            m.reset_mock()
            before = 0
        calls, nth = rng.randrange(0, 6), rng.randrange(1, 4)
        threads = [threading.Thread(target=lambda: [outcome(m, k) for k in range(calls)]) for _ in range(nth)]
        total = before + nth * (calls if effect != 'block' else min(calls, 1))
        count = max(0, total + rng.choice([0, 0, 0, -1, 1]))
        t0 = time.time()
        for t in threads:
            t.start()
        timeout = STALL if count <= total else rng.choice([0.03, 0.06])
        got = outcome(m.assert_wait_call_count, count, timeout)
        what = '%d calls (%s) by %d threads after %d, waiting for %d' % (total - before, effect, nth, before, count)
        self.ctx.expect(got[0] == ('pass' if count <= total else 'fail'), 'WaitingMock', '%s: %r' % (what, got))
        if got[0] == 'pass':
            self.ctx.expect(len(m.call_args_list) >= count, 'WaitingMock.args', '%s: only %d calls are listed' % (what, len(m.call_args_list)))
            self.ctx.expect(time.time() - t0 < STALL / 2, 'WaitingMock.slow', '%s: took too long' % what)
        blocked.set()
        for t in threads:
            t.join(STALL)
        final = before + nth * calls
        self.ctx.expect(m.call_count == final and len(m.call_args_list) == final, 'WaitingMock.count',
                        '%s: counted %s, listed %d' % (what, m.call_count, len(m.call_args_list)))
        self.ctx.case(('waiting', what))

    def counting(self):
        rng = self.rng
        need = rng.randrange(1, 5)
        event = rng.choice([None, threading.Event()])
        seen = []
        fn = testutils.counting_callback(event, need)(lambda x, y=1: seen.append((x, y)) or x * 2)
        if event is not None:
            self.ctx.expect(fn.done is event, 'counting_callback', 'another event')
        for rnd in range(2):
            for i in range(rng.randrange(0, 6)):
                self.ctx.expect(fn(i, y=3) == 2 * i and seen[-1] == (i, 3), 'counting_callback', 'the callback was not called as given')
                self.ctx.expect(fn.get_no_calls() == i + 1 and fn.done.is_set() == (i + 1 >= need), 'counting_callback',
                                'after %d calls of %d: %d, %s' % (i + 1, need, fn.get_no_calls(), fn.done.is_set()))
            done = fn.done.is_set()
            self.check(done, 'counting_callback.assert_wait', 'need %d, had %d' % (need, fn.get_no_calls()), fn.assert_wait, 0.01)
            self.ctx.expect(bool(fn.wait(0)) == done, 'counting_callback.wait', 'wait')
            fn.reset()
            self.ctx.expect(fn.get_no_calls() == 0 and not fn.done.is_set(), 'counting_callback.reset', 'was not reset')

    def asynchronous(self):
        rng = self.rng
        loop = tornado.ioloop.IOLoop()
        effect = rng.choice([None, ValueError('no')])
        res = []
        total, count = rng.randrange(0, 5), rng.randrange(0, 6)
        timeout = 3 if total >= count else 0.05

        @gen.coroutine
        def go():
            m = testutils.AsyncWaitingMock(side_effect=effect)
            gaps = [rng.choice([0, 0, 0.004]) for _ in range(total)]
            due = 0
            for g in gaps:
                due += g
                loop.call_later(due, outcome, m, 1)
            t0 = time.time()
            try:
                yield m.assert_wait_call_count(count, timeout)
                res.append(True)
            except AssertionError:
                res.append(False)
            res.append(time.time() - t0)
            res.append(m.call_count)
        loop.run_sync(go, timeout=STALL)
        what = '%d calls (%r), waiting for %d' % (total, effect, count)
        self.ctx.expect(res[0] == (total >= count), 'AsyncWaitingMock', '%s: %r' % (what, res))
        self.ctx.expect(res[1] < 2 if total >= count else res[1] >= 0.04, 'AsyncWaitingMock.time', '%s: %r' % (what, res))
        loop.close(all_fds=True)
        self.ctx.case(('async-mock', what))

    def in_loop(self):
        rng = self.rng
        from katcp.ioloop_manager import IOLoopManager
        man = IOLoopManager()
        loop = man.get_ioloop()
        man.start(STALL)
        ids = []

        def now(x):
            ids.append(threading.current_thread().ident)
            if x == 'raise':
                raise KeyError(x)
            return x
        try:
            for _ in range(4):
                x = rng.choice([1, None, 'raise', [2]])
                fn = now
                got = outcome(testutils.call_in_ioloop, loop, fn, x, **rng.choice([{}, {'ioloop_timeout': STALL}]))
                ok = got[0] == 'error' and 'KeyError' in got[1] if x == 'raise' else got == ('pass', x)
                self.ctx.expect(ok, 'call_in_ioloop', '%s(%r): %r' % (fn.__name__, x, got))
                self.ctx.case(('in_loop', fn.__name__, repr(x)))
            got = outcome(testutils.call_in_ioloop, loop, lambda: time.sleep(0.2), ioloop_timeout=0.02)
            self.ctx.expect(got[0] == 'error' and 'TimeoutError' in got[1], 'call_in_ioloop', 'timeout: %r' % (got,))
            self.ctx.expect(len(set(ids)) == 1 and ids[0] != threading.current_thread().ident, 'call_in_ioloop', 'ran in %r' % ids)
        finally:
            man.stop(timeout=STALL)


# -- comparisons -----------------------------------------------------------------------------------------------

class Comparisons(Checker):
    def run(self, n):
        for _ in range(n):
            self.rng.choice([self.sensors, self.sensors, self.messages, self.messages])()

    def sensors(self):
        rng = self.rng
        t = Mixed()
        kinds = {Sensor.INTEGER: ('integer', [[0, 9], []]), Sensor.FLOAT: ('float', [[0.5, 9.5], []]), Sensor.STRING: ('string', [[]]),
                 Sensor.BOOLEAN: ('boolean', [[]])}

        def describe(name):
            kind = rng.choice(list(kinds))
            return {'name': name, 'type': kind, 'status': rng.choice(list(STATUSES)), 'value': a_value(rng, TYPES[kinds[kind][0]]) if not kinds[kind][1][0] else 5,
                    'timestamp': float(rng.randrange(1, 9)), 'description': rng.choice(['a', 'b']), 'units': rng.choice(['', 'V']),
                    'params': rng.choice(kinds[kind][1])}

        def make(d):
            s = Sensor(d['type'], d['name'], d['description'], d['units'], list(d['params']))
            s.set(d['timestamp'], d['status'], d['value'])
            return s

        def vary(d):
            """(a description that may differ, the keys that do)."""
            d2 = dict(d)
            k = rng.choice(['status', 'value', 'timestamp', 'description', 'units'])
            d2[k] = {'status': (d['status'] % 7) + 1 if d['status'] in STATUSES else 0, 'value': 8 if d['value'] != 8 and d['type'] != Sensor.BOOLEAN else 6,
                     'timestamp': d['timestamp'] + 1, 'description': d['description'] + '!', 'units': d['units'] + 'm'}[k]
            if k == 'status':
                d2[k] = rng.choice([x for x in STATUSES if x != d['status']])
            if k == 'value' and d['type'] == Sensor.BOOLEAN:
                d2[k] = not d['value']
            if k == 'value' and d['type'] == Sensor.STRING:
                d2[k] = d['value'] + 'z'
            return d2, k
        ds = [describe('s%d' % i) for i in range(rng.randrange(1, 4))]
        ss = [make(d) for d in ds]
        d, s = ds[0], ss[0]
        d2, k = vary(d) if rng.random() < 0.5 else (dict(d), None)
        ignore = rng.sample(sorted(d), rng.choice([0, 0, 1, 3]))
        self.check(k is None or k in ignore, 'assert_sensor_equal', 'differs in %s, ignoring %r: %r' % (k, ignore, d), t.assert_sensor_equal,
                   s, make(d2), **({'ignore_attributes': tuple(ignore)} if ignore else {}))
        for x in rng.sample(sorted(d2), rng.choice([0, 2, 4])):
            del d2[x]
        left = dict(d2)
        self.check(k is None or k not in d2, 'assert_sensor_equal_description', 'differs in %s: %r' % (k, d2), t.assert_sensor_equal_description, s, d2)
        self.ctx.expect(d2 == left, 'assert_sensor_equal_description', 'changed the description it was given')
        want, out = True, []
        for d in ds:
            d2, k = vary(d) if rng.random() < 0.2 else (dict(d), None)
            for x in rng.sample(sorted(set(d2) - {'name'}), rng.choice([0, 2, 4])):
                del d2[x]
            want = want and (k is None or k not in d2)
            out.append(d2)
        if rng.random() < 0.2:
            out.pop(rng.randrange(len(out)))
            want = False
        if rng.random() < 0.1:
            out.append({'name': 'more'})
            want = False
        rng.shuffle(out)
        self.check(want, 'assert_sensors_equal_description', repr(out), t.assert_sensors_equal_description, ss, out)
        seen = []

        def like(value):
            def test(v):
                seen.append(v)
                assert v == value
            return test
        tests, want = {}, True
        for d in ds:
            if rng.random() < 0.7:
                off = rng.random() < 0.2
                tests[d['name']] = like(('no', d['value'])) if off else like(d['value'])
                want = want and not off
        if rng.random() < 0.1:
            tests['absent'] = like(1)
            want = False
        self.check(want, 'assert_sensors_value_conditions', repr(sorted(tests)), t.assert_sensors_value_conditions, ss, tests)
        if want:
            self.ctx.expect(len(seen) == len(tests), 'assert_sensors_value_conditions', 'ran %d of %d tests' % (len(seen), len(tests)))

    def messages(self):
        rng = self.rng
        t = Mixed()
        mid = rng.choice([None, None, '7', '12'])
        msgs = [Message(rng.choice([Message.INFORM, Message.REPLY]), rng.choice(['a', 'b-c']), [rng.choice(['x', 'y z', '1', 'ok']) for _ in range(rng.randrange(3))], mid)
                for _ in range(rng.randrange(0, 4))]
        plain = [str(Message(m.mtype, m.name, m.arguments)) for m in msgs]
        want, exp = True, list(plain)
        change = rng.choice([None, None, 'drop', 'more', 'alter', 'swap', 'mid'])
        given = mid
        if change == 'drop' and exp:
            exp.pop(rng.randrange(len(exp)))
        elif change == 'more':
            exp.append('#a')
        elif change == 'alter' and exp:
            exp[rng.randrange(len(exp))] += rng.choice(['q', ' q'])
        elif change == 'swap':
            exp.reverse()
        elif change == 'mid':
            given = '99'
            want = not exp
        want = want and exp == plain
        what = '%r as %r, mid %s, %s' % ([str(m) for m in msgs], exp, given, change)
        self.check(want, '_assert_msgs_equal', what, t._assert_msgs_equal, msgs, exp, given)
        cut = rng.random() < 0.5
        like = [((e.split(' ')[0], e[-1:]) if cut and ' ' in e else (e, rng.choice(['', None])) if mid and ' ' not in e else (e, e[-2:] if ' ' in e and len(e.split(' ')[-1]) > 1 else '')) for e in exp]
        def is_like(m, p, s):
            p = testprefix(p, given)
            return (not p or str(m).startswith(p)) and (not s or str(m).endswith(s))
        want = len(msgs) == len(like) and all(is_like(m, p, s) for m, (p, s) in zip(msgs, like))
        self.check(want, '_assert_msgs_like', '%r as %r, mid %s' % ([str(m) for m in msgs], like, given), t._assert_msgs_like, msgs, like, given)
        pats = [rng.choice([re.escape(str(m)), '.', re.escape(str(m)[:2]), 'nothing' if rng.random() < 0.2 else '[#!]']) for m in msgs]
        if rng.random() < 0.2:
            pats = pats[1:] if rng.random() < 0.5 else pats + ['.']
        want = len(pats) == len(msgs) and all(re.match(p, str(m)) for p, m in zip(pats, msgs))
        self.check(want, '_assert_msgs_match', '%r as %r' % ([str(m) for m in msgs], pats), t._assert_msgs_match, msgs, pats)
        n = max(0, len(msgs) + rng.choice([0, 0, 1, -1]))
        self.check(n == len(msgs), '_assert_msgs_length', '%d of %d' % (len(msgs), n), t._assert_msgs_length, msgs, n)


def testprefix(p, mid):
    if not mid:
        return p
    head, sep, tail = p.partition(' ')
    return head + '[%s]' % mid + sep + tail


# -- requests without a connection ---------------------------------------------------------------------------

class Mocked(DeviceServer):
    VERSION_INFO = ('verif', 1, 0)
    BUILD_INFO = ('verif', 1, 0, '')

    def setup_sensors(self):
        self.add_sensor(Sensor(Sensor.INTEGER, 'an.int', 'An int.', 'V', [0, 9], default=4))
        self.get_sensor('an.int').set(1.0, Sensor.WARN, 4)

    def request_plain(self, req, msg):
        """Plain."""
        for a in msg.arguments[1:]:
            req.inform(a, 'inform')
        return req.make_reply('ok', *msg.arguments)

    def request_fail(self, req, msg):
        """Fails."""
        req.inform('before')
        raise FailReply('failed, it has')

    def request_raises(self, req, msg):
        """Raises."""
        raise KeyError('a handler raises')

    @request(Int(), Str(default='d'))
    @return_reply(Int(), Str())
    def request_typed(self, req, i, s):
        """Typed."""
        return 'ok', i + 1, s + '!'

    @request(Int(), include_msg=True)
    @return_reply(Int())
    @gen.coroutine
    def request_slow(self, req, msg, i):
        """Slow."""
        yield gen.sleep(0.002)
        req.inform('slept')
        raise gen.Return(('ok', i))

    @concurrent_reply
    @request(Int())
    @return_reply(Int())
    @gen.coroutine
    def request_concurrent(self, req, i):
        """Concurrent."""
        yield gen.moment
        if i == 3:
            raise FailReply('three')
        raise gen.Return(('ok', i))

    def request_direct(self, req, msg):
        """Replies by itself."""
        req.inform(*msg.arguments)
        req.reply('ok', 'direct', *msg.arguments)
        raise AsyncReply()

    def request_message(self, req, msg):
        """Replies by itself, with a message."""
        req.inform('m')
        req.reply_with_message(Message.reply('message', 'ok', *msg.arguments))
        raise AsyncReply()


class Unconnected(Checker):
    def run(self, n):
        rng = self.rng
        from katcp.client import BlockingClient
        real = Mocked('127.0.0.1', 0)
        real.start(STALL)
        client = BlockingClient(*real.bind_address)
        client.start(STALL)
        if not client.wait_protocol(STALL):
            raise common.Inconclusive('the client did not connect')
        loop = tornado.ioloop.IOLoop()
        loop.make_current()
        dev = Mocked('127.0.0.1', 0)
        dev.set_ioloop(loop)
        dev.ioloop = loop
        try:
            for _ in range(n):
                name = rng.choice(['plain', 'plain', 'fail', 'raises', 'typed', 'typed', 'slow', 'concurrent', 'direct', 'message', 'help', 'nonesuch',
                                   'sensor-list', 'sensor-value', 'watchdog'])
                args = [rng.choice(['1', '2', '3', 'x', '', 'a b', 5]) for _ in range(rng.randrange(0, 4))]
                if name in ('typed', 'slow', 'concurrent') and rng.random() < 0.6:
                    args = [rng.randrange(5)] + args[:1]
                if name in ('help', 'sensor-list', 'sensor-value'):
                    args = rng.choice([[], ['an.int'], ['plain'], ['/an/']])
                reply, informs = client.blocking_request(Message.request(name, *args), STALL, use_mid=False)
                want = (show(reply), [show(m) for m in informs])
                req = testutils.mock_req(name, *args)

                @gen.coroutine
                def go():
                    f = testutils.handle_mock_req(dev, req)
                    res = yield gen.with_timeout(loop.time() + 3, f)
                    raise gen.Return(res)
                got = outcome(loop.run_sync, go)
                if got[0] == 'pass':
                    got = (show(got[1][0]), [show(m) for m in got[1][1]])
                    also = (show(req.reply_msg), [show(m) for m in req.inform_msgs])
                    self.ctx.expect(also == got, 'handle_mock_req.attributes', '%s %r: %r but %r' % (name, args, also, got))
                self.ctx.expect(got == want, 'handle_mock_req', '?%s %r: %r instead of %r' % (name, args, got, want))
                self.ctx.observe('mock_requests')
                self.ctx.case(('mock', name, repr(args), want))
                direct = testutils.mock_req(name, *args)
                self.ctx.expect(show(direct.make_reply('ok', 3)) == show(Message.reply(name, 'ok', 3)) and str(direct.msg) == str(Message.request(name, *args)),
                                'mock_req', 'a mock request of %s %r' % (name, args))
        finally:
            client.stop(STALL)
            client.join(STALL)
            real.stop(STALL)
            real.join(STALL)
            loop.close(all_fds=True)
            tornado.ioloop.IOLoop.clear_current()


def show(m):
    if b'a handler raises' in b' '.join(m.arguments):
        return (m.mtype, m.name, m.arguments[:1], 'raised')
    return (m.mtype, m.name, m.arguments)


# -- the test server ---------------------------------------------------------------------------------------------

class Served(Checker):
    def run(self, n):
        rng, ctx = self.rng, self.ctx
        cls = rng.choice([testutils.DeviceTestServer, testutils.AsyncDeviceTestServer])
        server = cls('127.0.0.1', 0)
        other = testutils.DeviceTestServer('127.0.0.1', 0)
        server.start(STALL)
        client = testutils.BlockingTestClient(Case(), *server.bind_address)
        client.start(STALL)
        try:
            if not client.wait_protocol(STALL):
                raise common.Inconclusive('the client did not connect')
            ask = lambda name, *a: client.blocking_request(Message.request(name, *a), STALL)[0]
            sent = []
            for _ in range(n):
                how = rng.randrange(6)
                before = len(sent)
                want = before + rng.randrange(0, 4)
                f = threading.Event()
                res = []
                srv.in_loop(server, lambda: server.until_messages(want).add_done_callback(lambda x, f=f, res=res: (res.append(len(x.result())), f.set())))
                early = f.is_set()
                if how == 0:
                    ask('watchdog')
                    sent.append('watchdog')
                elif how == 1:
                    server.break_help = rng.choice([False, 'broken'])
                    r = ask('help', 'help')
                    ctx.expect(r.reply_ok() == (not server.break_help) and (r.reply_ok() or r.arguments[1] == b'broken'), 'test_server.break_help', str(r))
                    sent.append('help')
                elif how == 2:
                    server.break_sensor_list = rng.choice([False, 'broken'])
                    r = ask('sensor-list')
                    ctx.expect(r.reply_ok() == (not server.break_sensor_list), 'test_server.break_sensor_list', str(r))
                    sent.append('sensor-list')
                elif how == 3:
                    got = []
                    t0 = time.time()
                    slow = threading.Thread(target=lambda: got.append(ask('slow-command', STALL * 2)))
                    slow.start()
                    while len(server.messages) == before and time.time() - t0 < STALL:
                        time.sleep(0.001)
                    sent.append('slow-command')
                    again = ask('slow-command', 0.01)
                    sent.append('slow-command')
                    ctx.expect(not again.reply_ok() and not got, 'test_server.slow', 'a second slow command: %s; the first: %r' % (again, got))
                    ask('cancel-slow-command')
                    sent.append('cancel-slow-command')
                    slow.join(STALL)
                    ctx.expect(bool(got) and got[0].reply_ok() and time.time() - t0 < STALL / 2, 'test_server.cancel', 'a slow command was cancelled: %r' % (got,))
                elif how == 4:
                    t0 = time.time()
                    r = ask('slow-command', 0.05)
                    took = time.time() - t0
                    ctx.expect(r.reply_ok() and 0.04 < took < STALL / 2, 'test_server.slow', 'took %r: %s' % (took, r))
                    sent.append('slow-command')
                else:
                    name = 'x%d' % rng.randrange(99)
                    server._request_handlers[name] = lambda s, req, msg: req.make_reply('ok', 'own')
                    ctx.expect(name not in other._request_handlers and name not in cls._request_handlers, 'test_server.handlers', 'another server has the handler')
                    ctx.expect(name in server.request_names and name not in other.request_names, 'test_server.handlers', 'request_names')
                    ctx.expect(ask(name).arguments == [b'ok', b'own'], 'test_server.handlers', 'the handler was not called')
                    sent.append(name)
                srv.in_loop(server, lambda: None)
                if len(sent) >= want:
                    f.wait(STALL)
                    srv.in_loop(server, lambda: None)
                ctx.expect(f.is_set() == (len(sent) >= want) and (not early or before >= want), 'until_messages',
                           'until_messages(%d): %s before %d and after %d messages' % (want, early, before, len(sent)) + ', now %s' % f.is_set())
                ctx.expect([m.name for m in server.messages] == sent, 'test_server.messages', '%r instead of %r' % ([m.name for m in server.messages], sent))
                ctx.observe('messages_served', len(sent) - before)
                ctx.case(('served', how, want - before))
        finally:
            client.stop(STALL)
            client.join(STALL)
            server.stop(STALL)
            server.join(STALL)

    def queue_repeats(self, n):
        rng, ctx = self.rng, self.ctx
        for _ in range(n):
            q = testutils.queue.Queue()
            values = [rng.randrange(3) for _ in range(rng.randrange(9))]
            first = rng.randrange(3)
            for v in values:
                q.put(v)
            got = list(testutils.suppress_queue_repeats(q, first, 0.01))
            want = [v for p, v in zip([first] + values, values) if v != p]
            ctx.expect(got == want, 'suppress_queue_repeats', '%r after %r: %r' % (values, first, got))
            ctx.case(('repeats', first, tuple(values)))


# -- warped time ------------------------------------------------------------------------------------------------

class Warp(testutils.TimewarpAsyncTestCase):
    def runTest(self):
        pass


class Time(Checker):
    def run(self, n):
        for _ in range(n):
            self.one()

    def one(self):
        rng, ctx = self.rng, self.ctx
        t = Warp()
        t.setUp()
        loop = t.io_loop
        due = [rng.choice([0.5, 1, 1.5, 2.25, 7, 100, 3600]) for _ in range(rng.randrange(1, 8))]
        fired, problems = [], []
        for d in due:
            loop.call_later(d, fired.append, d)
        moves, at = [], 0
        for _ in range(rng.randrange(1, 5)):
            at += rng.choice([0.25, 0.5, 1, 5, 50, 4000])
            moves.append(at)

        @gen.coroutine
        def go():
            if loop.time() != 0:
                problems.append('starts at %r' % loop.time())
            for m in moves:
                yield t.set_ioloop_time(m)
                yield t.wake_ioloop()
                yield t.wake_ioloop()
                if loop.time() != m or sorted(fired) != sorted(d for d in due if d <= m):
                    problems.append('at %r (%r) of %r fired %r' % (m, loop.time(), due, list(fired)))
        loop.add_callback(lambda: go().add_done_callback(lambda f: (problems.append(repr(f.exception())) if f.exception() else None, loop.stop())))
        guard = threading.Timer(STALL, lambda: (problems.append('stuck'), loop.add_callback(loop.stop)))
        guard.start()
        loop.start()
        guard.cancel()
        ctx.expect(not problems, 'timewarp', '; '.join(problems))
        ctx.observe('timeouts_warped', len(due))
        ctx.case(('warp', tuple(due), tuple(moves)))
        t.tearDown()


def run(ctx):
    ctx.rule = 'one case = one assertion, wait, recording, comparison or mock request, with what it was given and whether it is true'
    ctx.assumptions = ['float expectations keep well away from the limit of the places compared']
    rnd = done = 0
    while ctx.more(done, 14, 400, 75, 420):
        for cls, n in ((Live, 60), (Transitions, 40), (Mocks, 20), (Comparisons, 60), (Unconnected, 40), (Time, 6)):
            cls(ctx, ctx.subrng(cls.__name__, rnd)).run(n)
        served = Served(ctx, ctx.subrng('Served', rnd))
        served.run(12)
        served.queue_repeats(10)
        rnd += 1
        done += 1
        if len(ctx.violations) > 8:
            break
