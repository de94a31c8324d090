"""C25: a client hands every message it receives to the handler for it, once and in order.

Clients of random classes (handlers of informs, replies and requests, inherited and overridden,
raising, asynchronous, answering, hooks) run on a virtual-time loop against a scripted server that
cuts its lines into segments at will, mixes in blank and malformed lines and drops connections in
the middle of a line.  Monitors: the sequence of handler calls against the lines sent on each
connection, and the lines the server receives against what handlers returned and users sent.
"""
import threading

import tornado.gen

from katcp import AsyncClient, DeviceClient, Message
from katcp.inspecting_client import InspectingClientAsync

from .. import vloop
from . import adv, wire

NAMES = ['go', 'set-level', 'x', 'a-b-c', 'status2', 'keys', 'items', 'inform', 'reply', 'request-x', 'unhandled-inform',
         'version-list', 'log', 'Upper']
BAD = [b'bad', b'?', b'#1x', b'#x[', b'!x[0', b'\xff\xfe', b'#a \\q', b'??', b'hello world', b'#a b\\', b'#go extra\\', b'!go[a]']
KINDS = ('inform', 'reply', 'request')
BEHAVIOURS = ['plain', 'plain', 'raise', 'later', 'later-raise']


def method(kind, name, level, behaviour, delay):
    """A handler method that records its call and then behaves as told."""
    def handler(self, msg):
        """A handler."""
        sc = self.scenario
        sc.called(self, kind, level, msg)
        if behaviour == 'raise':
            raise RuntimeError('a handler raises')
        if behaviour in ('later', 'later-raise', 'answer-later'):
            return later(self, msg)
        if behaviour == 'answer':
            return Message.reply(msg.name, 'ok', *msg.arguments)
        if behaviour == 'answer-request':
            return Message.reply_to_request(msg, 'ok', *msg.arguments)
        if behaviour == 'answer-other-id':
            return Message.reply(msg.name, 'ok', *msg.arguments, mid=b'77')
        if behaviour == 'answer-wrong-name':
            return Message.reply('other', 'ok')
        if behaviour == 'answer-inform':
            return Message.inform(msg.name, 'ok')
        if behaviour == 'send':
            sc.send(self, Message.reply_to_request(msg, 'ok', *msg.arguments))
        if behaviour == 'disconnect':
            self.disconnect()

    @tornado.gen.coroutine
    def later(self, msg):
        yield tornado.gen.sleep(delay)
        if behaviour == 'later-raise':
            raise RuntimeError('a handler raises later')
        if behaviour == 'answer-later':
            self.scenario.send(self, Message.reply_to_request(msg, 'ok', *msg.arguments))
    return handler


class Scenario(object):
    def __init__(self, ctx, rng, i, grace):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=7000.0, grace=grace)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.greet = rng.choice(['5-MI', '5-M', '4', '5.1-MIB'])
        self.server = adv.AdvServer(self.loop, adv.GREETS[self.greet])
        self.ids = adv.HAS_IDS[self.greet]
        self.problems = []
        self.calls = []               # (kind, level, name, mid, args)
        self.sends = []               # lines the client ought to have sent, in order
        self.expect = []              # per connection: list of calls
        self.complete = {}            # connection -> how many calls and lines it must have seen at least
        self.counter = 0
        self.hooks = {}
        self.steps = []
        self.table = {}
        self.make_client()

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- the client ----------------------------------------------------------------------
    def make_client(self):
        rng = self.rng
        self.base = rng.choice(['DeviceClient', 'AsyncClient', 'hooks'])
        base = {'DeviceClient': DeviceClient, 'AsyncClient': AsyncClient,
                'hooks': type(InspectingClientAsync('127.0.0.1', 1, initial_inspection=False, ioloop=self.loop).katcp_client)}[self.base]
        cls = base
        for level in ('A', 'B'):
            ns = {'scenario': self}
            for kind in KINDS:
                for name in rng.sample(NAMES, rng.randrange(0, 6)):
                    if (kind, name) == ('reply', 'inform'):
                        continue                # (reply_inform is a method's name in the library)
                    b = rng.choice(BEHAVIOURS + (['answer', 'answer', 'answer-request', 'answer-other-id', 'answer-wrong-name',
                                                  'answer-inform', 'answer-later', 'send'] if kind == 'request' else []))
                    if rng.random() < 0.02:
                        b = 'disconnect'
                    ns[kind + '_' + name.replace('-', '_')] = method(kind, name, level, b, rng.choice([0, 0.01, 0.3]))
                    self.table[kind, name.replace('-', '_').replace('_', '-')] = (level, b)
                if rng.random() < 0.5:
                    ns['unhandled_' + kind] = method(kind, None, 'U' + level, rng.choice(BEHAVIOURS), 0.01)
                    self.table[kind, None] = ('U' + level, None)
            cls = type('Client' + level, (cls,), ns)
        self.client = cls(*self.server.addr)
        self.client.set_ioloop(self.loop)
        if self.base == 'hooks':
            for name in rng.sample(NAMES, 4):
                n = rng.randrange(1, 4)
                self.hooks[name] = n
                for k in range(n):
                    cb = self.hook(k, last=k == n - 1)
                    for _ in range(rng.choice([1, 1, 2])):
                        self.client.hook_inform(name, cb)

    def hook(self, k, last):
        raises = last and self.rng.random() < 0.2

        def cb(msg):
            self.called(self.client, 'inform', 'hook %d' % k, msg)
            if raises:
                raise RuntimeError('a hook raises')
        return cb

    def called(self, client, kind, level, msg):
        if client is not self.client:
            self.bad('handler', 'called for another client')
        if threading.current_thread() is not threading.main_thread():
            self.bad('handler', 'called in another thread')
        self.calls.append((kind, level, msg.name, msg.mid, list(msg.arguments)))
        if kind == 'request' and not level.startswith('U'):
            b = self.table[kind, msg.name][1]
            if b in ('answer', 'answer-request', 'answer-other-id'):
                self.sends.append((self.conn_no(), ('reply', msg.name, msg.mid, [b'ok'] + list(msg.arguments))))

    def conn_no(self):
        return len(self.server.conns) - 1

    def send(self, client, msg):
        """A user sends something."""
        if not client.is_connected():
            return
        try:
            client.send_message(msg)
        except Exception as e:
            self.bad('send', 'send_message() of a connected client raised %r' % (e,))
        self.sends.append((self.conn_no(), ({Message.REQUEST: 'request', Message.REPLY: 'reply', Message.INFORM: 'inform'}[msg.mtype], msg.name, msg.mid, list(msg.arguments))))

    # -- the server ------------------------------------------------------------------------
    def message(self):
        rng = self.rng
        kind = rng.choice(KINDS)
        name = rng.choice(NAMES)
        mid = str(rng.randrange(10 ** 6, 10 ** 7)).encode() if rng.random() < 0.4 else None
        self.counter += 1
        args = [b'%d' % self.counter] + [wire.gen_arg(rng) for _ in range(rng.choice([0, 0, 1, 3]))]
        calls = []
        if kind == 'inform':
            for k in range(self.hooks.get(name, 0)):
                calls.append((kind, 'hook %d' % k, name, mid, args))
        h = self.table.get((kind, name)) or self.table.get((kind, None))
        if h is not None:
            calls.append((kind, h[0], name, mid, args))
        return wire.encode(kind, name, mid, args), calls

    def burst(self, n):
        """Bytes of n messages with rubbish between them, and the calls they must cause."""
        rng = self.rng
        data, calls = b'', []
        for _ in range(n):
            while rng.random() < 0.15:
                data += rng.choice([b'', b'', rng.choice(BAD), b'\r']) + b'\n'
            line, c = self.message()
            data += line + rng.choice([b'\n', b'\n', b'\n', b'\r', b'\r\n', b'\n\n'])
            calls.extend(c)
        return data, calls

    @tornado.gen.coroutine
    def write(self, conn, data):
        rng = self.rng
        how = rng.choice(['whole', 'whole', 'bytes', 'pieces', 'pieces'])
        if how == 'bytes' and len(data) > 150:
            how = 'pieces'
        while data and conn.open:
            n = {'whole': len(data), 'bytes': 1, 'pieces': rng.choice([1, 2, 7, 30, 200])}[how]
            conn.write(data[:n])
            data = data[n:]
            if rng.random() < 0.5:
                yield tornado.gen.sleep(rng.choice([0, 0, 0.001, 0.05]))

    @tornado.gen.coroutine
    def drive(self):
        rng, srv = self.rng, self.server
        srv.up()
        self.client.start()
        for _ in range(rng.randrange(1, 5)):
            for _ in range(200):
                conn = srv.current()
                if conn is not None and self.client.is_connected():
                    break
                yield tornado.gen.sleep(0.05)
            else:
                self.bad('connect', 'the client does not connect')
                return
            yield tornado.gen.sleep(0.05)     # the announcements are read
            while len(self.expect) < len(srv.conns):
                self.expect.append([])
            mine = self.expect[-1]
            if self.base != 'DeviceClient' and rng.random() < 0.4:
                f = self.client.future_request(Message.request('ask', self.counter), timeout=rng.choice([1, 50]))
                f.add_done_callback(lambda f: f.exception())
                self.sends.append((self.conn_no(), ('request', 'ask', None, [b'%d' % self.counter])))
            for _ in range(rng.randrange(1, 4)):
                what = rng.choice(['burst', 'burst', 'burst', 'send', 'rest'])
                self.steps.append(what)
                if what == 'burst':
                    data, calls = self.burst(rng.choice([1, 3, 10, 25]))
                    mine.extend(calls)
                    yield self.write(conn, data)
                elif what == 'send':
                    for _ in range(rng.randrange(1, 4)):
                        kind = rng.choice(['inform', 'reply', 'request'])
                        make = getattr(Message, kind)
                        self.send(self.client, make(rng.choice(NAMES), *[wire.gen_arg(rng) for _ in range(2)]))
                else:
                    yield tornado.gen.sleep(20)
            end = rng.choice(['rest', 'rest', 'rest-close', 'close', 'rst', 'cut', 'disconnect'])
            self.steps.append(end)
            if end.startswith('rest'):
                yield tornado.gen.sleep(20)
                if conn.open:
                    self.complete[self.conn_no()] = (len(mine), sum(c == self.conn_no() for c, _ in self.sends))
            if end == 'cut':
                line, _ = self.message()
                yield self.write(conn, line[:rng.randrange(1, len(line) + 1)])
                if rng.random() < 0.5:
                    yield tornado.gen.sleep(1)
            if end == 'disconnect':
                self.client.disconnect()
            elif end != 'rest':
                conn.close(rst=end == 'rst')
            if end != 'rest':
                yield tornado.gen.sleep(rng.choice([0, 0.01, 3]))
        yield tornado.gen.sleep(30)
        self.client.stop()
        yield tornado.gen.sleep(1)

    def judge(self):
        # -- received
        pos = 0
        for k, exp in enumerate(self.expect):
            n = 0
            while n < len(exp) and pos < len(self.calls) and self.calls[pos] == exp[n]:
                n, pos = n + 1, pos + 1
            self.ctx.observe('handler_calls_matched', n)
            if n < self.complete.get(k, (0, 0))[0]:
                self.bad('dispatch', 'connection %d: call %d should be %r, it is %r' % (
                    k, n, exp[n], self.calls[pos] if pos < len(self.calls) else None))
                return
        if pos < len(self.calls):
            self.bad('dispatch', 'call %d: %r is not for the next message of a connection' % (pos, self.calls[pos]))
        # -- sent
        for k, conn in enumerate(self.server.conns):
            want = [m for c, m in self.sends if c == k]
            got = []
            for _, line in conn.lines:
                try:
                    m = wire.decode(line)
                except wire.Bad:
                    self.bad('sent', 'the server received the malformed line %r' % (line[:80],))
                    return
                if m[1] == 'ask':
                    m = m[:2] + (None,) + m[3:]
                got.append(m)
            self.ctx.observe('lines_sent_matched', len(got))
            if got != want[:len(got)] or len(got) < self.complete.get(k, (0, 0))[1]:
                n = next((j for j in range(len(got)) if got[j:j + 1] != want[j:j + 1]), len(got))
                self.bad('sent', 'connection %d: line %d the server received is %r, it should be %r' % (
                    k, n, got[n:n + 1], want[n:n + 1]))
                return

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(100, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.server.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        else:
            fut[0].result()
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        self.judge()
        return self.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by its client class, its steps and the handler calls made'
    ctx.assumptions = [
        'what the server sent before a connection ended may be lost, but only from some message on',
        'the same callback hooked twice is called once; hooks after one that raises are not judged',
        'suspicious runs are repeated with a longer grace for the kernel before they count']
    i = 0
    while ctx.more(i, 400, 8000, quick_s=60, thorough_s=400):
        s = Scenario(ctx, ctx.subrng('s', i), i, 0.002)
        v = s.run()
        if v:
            ctx.observe('scenarios_repeated_with_longer_grace')
            s = Scenario(ctx, ctx.subrng('s', i), i, 0.1)
            v = s.run()
            for key, text in v[:3]:
                ctx.violation(key, 'scenario %d (%s, %s): %s' % (i, s.base, s.greet, text), steps=s.steps)
        ctx.observe('handler_calls', len(s.calls))
        ctx.observe('connections', len(s.server.conns))
        ctx.observe('oracle_evaluations', len(s.calls) + len(s.sends))
        ctx.case((s.base, s.greet, tuple(s.steps), repr(s.calls)))
        ctx.sample({'class': s.base, 'steps': s.steps, 'calls': [repr(c)[:120] for c in s.calls[:5]]})
        i += 1
        if len(ctx.violations) > 4:
            break
