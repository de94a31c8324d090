"""C29: a server hands every message it receives to the handler its class has for it, once and in order.

Servers of random classes (request, inform and reply handlers that are own, inherited, overridden,
mixed in, taken away, restricted to protocol versions and flags, raising, slow, asynchronous, sending)
receive random lines, cut into segments at will, from several clients at a time, in every threading
mode.  Monitors: the sequence of handler calls of each connection against the lines its client sent,
and the lines each client received against what these handlers answer and send.
"""
import itertools
import threading
import time

from tornado import gen
from tornado.concurrent import Future

from katcp import AsyncReply, DeviceServer, Message, ProtocolFlags
from katcp.core import FailReply
from katcp.kattypes import concurrent_reply, has_katcp_protocol_flags, minimum_katcp_version
from katcp.server import DeviceServerBase

from .. import common, perturb
from . import srv, wire

NAMES = ['go', 'set-level', 'x', 'a-b-c', 'status2', 'keys', 'inform', 'reply', 'request-x', 'log', 'version-list', 'Upper', 'stop',
         'on-message', 'unhandled-inform', 'x-x', 'disconnect']
BAD = [b'bad', b'?', b'#1x', b'#x[', b'!x[0', b'\xff\xfe', b'#a \\q', b'??', b'#a b\\', b'#go extra\\', b'!go[a]', b'?go[]']
KINDS = ('inform', 'reply', 'request')
TYPES = {Message.REQUEST: 'request', Message.REPLY: 'reply', Message.INFORM: 'inform'}
SENT = ['plain', 'plain', 'raise', 'slow', 'send', 'send-server', 'send-raise', 'reply', 'future']
ASKED = ['answer', 'answer', 'answer-later', 'answer-concurrently', 'fail', 'raise', 'inform', 'direct']
OWN = ('DeviceServerBase', 'DeviceServer')


def out(tag, *args):
    """What handlers send by themselves."""
    return Message.inform('out', tag, *args)


def method(kind, level, behaviour):
    """A handler that records its call and then behaves as told."""
    if kind != 'request':
        def handler(self, conn, msg):
            """A handler."""
            self.scenario.called(self, kind, level, conn, msg)
            if behaviour == 'slow':
                time.sleep(0.003)
            if behaviour in ('send', 'send-raise'):
                conn.inform(out(level, *msg.arguments[:1]))
            if behaviour == 'send-server':
                self.inform(conn, out(level, *msg.arguments[:1]))
            if behaviour == 'reply':
                return Message.reply(msg.name, 'ok')         # (is not sent: nobody asked)
            if behaviour == 'future':
                return Future()                              # (nobody waits for it)
            if behaviour in ('raise', 'send-raise'):
                raise RuntimeError('a handler raises')
        return handler

    def request(self, req, msg):
        """A handler."""
        self.scenario.called(self, kind, level, req.client_connection, msg)
        if behaviour == 'fail':
            raise FailReply('not today')
        if behaviour == 'raise':
            raise RuntimeError('a handler raises')
        if behaviour == 'inform':
            req.inform(level, *msg.arguments[:1])
        if behaviour == 'direct':
            req.reply('ok', level, *msg.arguments)
            raise AsyncReply()
        return req.make_reply('ok', level, *msg.arguments)

    @gen.coroutine
    def later(self, req, msg):
        """A handler."""
        self.scenario.called(self, kind, level, req.client_connection, msg)
        yield gen.sleep(0.002)
        raise gen.Return(req.make_reply('ok', level, *msg.arguments))
    if behaviour == 'answer-later':
        return later
    if behaviour == 'answer-concurrently':
        return concurrent_reply(later)
    return request


class Scenario(object):
    def __init__(self, ctx, rng, mode):
        self.ctx, self.rng, self.mode = ctx, rng, mode
        self.lock = threading.Lock()
        self.calls = {}                # id(conn) -> [(kind, level, name, mid, args)]
        self.conns = {}                # id(conn) -> conn
        self.threads = set()
        self.problems = []
        self.counter = itertools.count()
        self.make()

    def make(self):
        rng = self.rng
        self.base = rng.choice(OWN)
        major = rng.choice([5, 5, 5, 4])
        self.ids = major == 5
        self.flags = set(rng.choice([[b'I', b'M'], [b'I', b'M'], [b'I']] if self.ids else [[b'M'], [b'M'], []]))
        self.major = major
        self.tables = {}
        table = {}
        root = {'DeviceServerBase': DeviceServerBase, 'DeviceServer': DeviceServer}[self.base]
        builtin = {n for n in dir(root) if n.startswith('request_')}
        self.builtin = {n[len('request_'):].replace('_', '-') for n in builtin}
        ns = {'scenario': self, 'VERSION_INFO': ('v', 1, 0), 'BUILD_INFO': ('b', 1, 0, ''), 'setup_sensors': lambda self: None,
              'PROTOCOL_INFO': ProtocolFlags(major, 0, self.flags)}
        cls = root
        self.classes = []
        for level in ('A', 'B', 'C'):
            bases = (cls,)
            if rng.random() < 0.5:
                m, mt = self.handlers('M' + level)
                mixin = type('Mixin' + level, (object,), m)
                # whichever comes first in the class's bases wins
                if rng.random() < 0.6:
                    bases = (mixin, cls)
                    table.update(mt)
                else:
                    bases = (cls, mixin)
                    known = {self.key(k, n) for k, n in self.attributes(cls)}
                    table.update({k: v for k, v in mt.items() if k not in table and k not in known})
            own, t = self.handlers(level)
            ns = dict(ns, **own)
            table.update(t)
            cls = type('Server' + level, bases, ns)
            ns = {}
            self.classes.append(cls)
            self.tables[cls] = dict(table)

    @staticmethod
    def key(kind, name):
        return kind, name.replace('_', '-')

    @staticmethod
    def attributes(cls):
        for n in dir(cls):
            for kind in KINDS:
                if n.startswith(kind + '_'):
                    yield kind, n[len(kind) + 1:]

    def handlers(self, level):
        """(attributes, what they mean) of one class."""
        rng = self.rng
        ns, table = {}, {}
        for kind in KINDS:
            for name in rng.sample(NAMES, rng.randrange(0, 6)):
                if (kind, name) == ('reply', 'inform'):
                    continue                # (reply_inform is a method's name in the library)
                attr = kind + '_' + name.replace('-', '_')
                if rng.random() < 0.07:
                    ns[attr] = None         # takes an inherited handler away
                    table[kind, name] = None
                    continue
                b = rng.choice(ASKED if kind == 'request' else SENT)
                if b in ('answer-later', 'answer-concurrently') and self.mode == 'handler-thread':
                    b = 'answer'
                ns[attr] = method(kind, level, b)
                table[kind, name] = (level, b)
                r = rng.random()
                if r < 0.08:
                    flag = rng.choice([b'M', b'T'])
                    ns[attr] = has_katcp_protocol_flags([flag])(ns[attr])
                    if flag not in self.flags:
                        table[kind, name] = None
                elif r < 0.16:
                    version = rng.choice([(4, 0), (5, 0), (5, 1)])
                    ns[attr] = minimum_katcp_version(*version)(ns[attr])
                    if (self.major, 0) < version:
                        table[kind, name] = None
        return ns, table

    # -- the server's side -----------------------------------------------------------------
    def called(self, server, kind, level, conn, msg):
        with self.lock:
            if server is not self.server:
                self.problems.append(('handler', 'a handler was called for another server'))
            if TYPES.get(msg.mtype) != kind:
                self.problems.append(('handler', '%s handler called with %s' % (kind, msg)))
            self.threads.add(threading.current_thread())
            self.conns[id(conn)] = conn
            self.calls.setdefault(id(conn), []).append((kind, level, msg.name, msg.mid, list(msg.arguments)))

    # -- clients --------------------------------------------------------------------------------
    def stream(self, n):
        """(bytes to send, calls expected, lines expected) of one client."""
        rng = self.rng
        table = self.tables[type(self.server)]
        data, calls, lines, unordered, bad = b'', [], [], [], 0
        for _ in range(n):
            r = rng.random()
            if r < 0.07:
                data += rng.choice([b'\n', b'\n', b'\r\n', b'\r'])
                continue
            if r < 0.12:
                data += rng.choice(BAD) + b'\n'
                bad += 1
                continue
            kind = rng.choice(KINDS)
            name = rng.choice(NAMES)
            if kind == 'request' and name in self.builtin and (kind, name) not in table:
                continue
            # the first argument tells messages apart
            args = [b'u%d' % next(self.counter)] + [wire.gen_arg(rng, 6) for _ in range(rng.choice([0, 0, 1, 3]))]
            mid = b'%d' % rng.randrange(1, 10 ** 6) if self.ids and rng.random() < 0.7 else None
            if rng.random() < 0.04 and kind != 'request':
                args = []
            data += wire.encode(kind, name, mid, args) + rng.choice([b'\n', b'\n', b'\r\n', b'\r'])
            known = table.get((kind, name))
            if known is None:
                if kind == 'request':
                    lines.append(('reply', name, mid, [b'invalid', b'Unknown request.']))
                continue
            level, b = known
            calls.append((kind, level, name, mid, args))
            lv = level.encode()
            if b in ('send', 'send-raise', 'send-server'):
                lines.append(('inform', 'out', None, [lv] + args[:1]))
            if kind == 'request':
                if b == 'inform':
                    lines.append(('inform', name, mid, [lv] + args[:1]))
                rep = [b'ok', lv] + args
                if b == 'fail':
                    rep = [b'fail', b'not today']
                elif b == 'raise':
                    rep = [b'fail', None]
                (unordered if b == 'answer-concurrently' else lines).append(('reply', name, mid, rep))
        return data, calls, lines, unordered, bad

    def run(self, slow):
        rng, ctx = self.rng, self.ctx
        # (a class keeps its own handlers whatever its subclasses are)
        cls = rng.choice(self.classes + self.classes[-1:] * 2)
        ts, ht = srv.MODES[self.mode]
        self.server = s = cls('127.0.0.1', 0, logger=srv.quiet_logger())
        s.set_concurrency_options(thread_safe=ts, handler_thread=ht)
        s.start(timeout=common.STALL)
        tag = '%s %s %s v%d' % (self.mode, self.base, cls.__name__, self.major)
        try:
            if self.base == 'DeviceServer' and ('request', 'help') not in self.tables[cls]:
                self.helps(tag, cls)
            peers = []
            for _ in range(rng.choice([1, 2, 3])):
                c = srv.RawClient(s.bind_address)
                peers.append([c, self.stream(rng.choice([3, 10, 40])), None])
            todo = [(p, d) for p in peers for d in cut(rng, p[1][0])]
            order = sorted(range(len(todo)), key=lambda i: rng.random()) if rng.random() < 0.6 else range(len(todo))
            # segments of one client stay in order, clients take turns at random
            queues = {id(p): [d for q, d in todo if q is p] for p in peers}
            for i in order:
                p, _ = todo[i]
                p[0].send(queues[id(p)].pop(0))
                if rng.random() < 0.1:
                    time.sleep(0.001)
            # a line that nobody handles and everyone gets an answer to
            for p in peers:
                p[0].send(b'\n?zz-end' + (b'[999999999]' if self.ids else b'') + b'\n')
            for p in peers:
                self.judge(tag, *p)
            with self.lock:
                for key, what in self.problems:
                    ctx.violation(key, '%s: %s' % (tag, what))
                left = {k: v for k, v in self.calls.items()}
                threads = set(self.threads)
            ctx.expect(not left, 'extra', '%s: handlers were called for connections that sent nothing: %r' % (tag, left))
            ctx.expect(len(threads) <= 1 and threading.current_thread() not in threads, 'thread',
                       '%s: handlers ran in %r' % (tag, threads))
            loop_thread = []
            done = threading.Event()
            s.ioloop.add_callback(lambda: (loop_thread.append(threading.current_thread()), done.set()))
            if done.wait(common.STALL) and threads:
                ctx.expect((loop_thread[0] in threads) == (not ht), 'thread',
                           '%s: handlers ran in %r (the event loop runs in %r)' % (tag, threads, loop_thread[0]))
            for p in peers:
                p[0].close()
        finally:
            s.stop(timeout=common.STALL)
            s.join(common.STALL)

    def helps(self, tag, cls):
        """The requests that help tells about are those of the class."""
        c = srv.RawClient(self.server.bind_address)
        try:
            rep, informs = c.call('help') if self.ids else self.help4(c)
            table = self.tables[cls]
            names = {n for (k, n), v in table.items() if k == 'request' and v is not None}
            gone = {n for (k, n), v in table.items() if k == 'request' and v is None}
            got = [i[3][0].decode() for i in informs]
            self.ctx.expect(rep is not None and rep[3][0] == b'ok', 'help', '%s: ?help was answered with %r' % (tag, rep))
            self.ctx.expect(len(set(got)) == len(got) and names <= set(got) and not gone & set(got) and set(got) - names <= self.builtin,
                            'help', '%s: ?help tells of %r; the class has %r' % (tag, sorted(got), sorted(names)))
        finally:
            c.close()

    def help4(self, c):
        c.send(b'?help\n')
        i = c.wait_line(b'!help')
        lines = c.snapshot()
        return (wire.decode(lines[i]) if i is not None else None), [wire.decode(l) for l in lines[:i] if l.startswith(b'#help')]

    def judge(self, tag, c, plan, _):
        ctx = self.ctx
        data, calls, lines, unordered, bad = plan
        end = c.wait_line(b'!zz-end')
        ctx.require(end is not None, 'stall', '%s: a client got no answer to its last request; it sent %r and got %r'
                    % (tag, data[-300:], c.snapshot()[-5:]))
        want = len(unordered)
        pending = [l for l in unordered]

        def all_there(ls):
            got = [l for l in ls if l.startswith(b'!')]
            return len(got) >= len([l for l in lines if l[0] == 'reply']) + want + 1
        c.wait(all_there)
        got, logs = [], 0
        for l in c.snapshot():
            t = wire.decode(l)
            if t[0] == 'inform' and t[1] in ('version-connect', 'version', 'build-state'):
                continue
            if t[0] == 'inform' and t[1] == 'log' and t[2] is None and t[3][:1] == [b'error']:
                logs += 1
                continue
            if t[1] == 'zz-end':
                continue
            got.append(t)
        rest = []
        for t in got:
            if t in pending:
                pending.remove(t)
            else:
                rest.append(t)
        ctx.expect(not pending, 'answers', '%s: no reply to %r' % (tag, pending))
        ok = len(rest) == len(lines) and all(same(a, b) for a, b in zip(rest, lines))
        if not ok:
            k = next((i for i, (a, b) in enumerate(zip(rest, lines)) if not same(a, b)), min(len(rest), len(lines)))
            ctx.violation('answers', '%s: line %d to the client is %r instead of %r (%d lines, %d due)'
                          % (tag, k, rest[k:k + 2], lines[k:k + 2], len(rest), len(lines)), sent=data[-2000:])
        ctx.expect(logs == bad, 'malformed', '%s: %d error informs for %d malformed lines' % (tag, logs, bad))
        # calls: those of the connection whose first argument is one of this client's
        mine = {a[4][0] for a in calls if a[4]}
        with self.lock:
            ids = [i for i, cs in self.calls.items() if any(x[4] and x[4][0] in mine for x in cs)] if mine else \
                  [i for i, cs in self.calls.items() if cs == calls][:1]
            had = [(self.conns[i], self.calls.pop(i)) for i in ids]
        ctx.expect(len(had) == (1 if calls else 0), 'connection', '%s: the messages of one client were handled with %d connection objects'
                   % (tag, len(had)))
        for conn, cs in had[:1]:
            ctx.expect(str(conn.address).endswith(c.name.split(':')[-1]), 'connection',
                       '%s: handlers were given the connection of %s for a message of %s' % (tag, conn.address, c.name))
            if cs != calls:
                k = next((i for i, (a, b) in enumerate(zip(cs, calls)) if a != b), min(len(cs), len(calls)))
                ctx.violation('calls', '%s: handler call %d was %r instead of %r (%d calls, %d due)'
                              % (tag, k, cs[k:k + 2], calls[k:k + 2], len(cs), len(calls)), sent=data[-2000:])
        ctx.observe('lines_received', len(got))
        ctx.observe('handler_calls', len(calls))
        for k in calls:
            ctx.observe('calls_of_%s_handlers' % k[0])
        ctx.case((tag, data), nontrivial=bool(calls))


def same(got, want):
    if got[:3] != want[:3]:
        return False
    if want[3][-1:] == [None]:
        return got[3][:1] == want[3][:1] and len(got[3]) == 2 and b'a handler raises' in got[3][1]
    return got[3] == want[3]


def cut(rng, data):
    """Segments of data."""
    how = rng.choice(['one', 'few', 'many', 'bytes'] if len(data) < 300 else ['one', 'few', 'many'])
    if how == 'one' or len(data) < 2:
        return [data]
    n = {'few': 3, 'many': 20, 'bytes': len(data)}[how]
    at = sorted(set([0, len(data)] + [rng.randrange(len(data)) for _ in range(n)]))
    return [data[a:b] for a, b in zip(at, at[1:])]


def refusals(ctx, rng):
    """A handler without a docstring is refused when its class is made."""
    for kind in KINDS:
        for base in (DeviceServerBase, DeviceServer):
            def handler(self, conn, msg):
                pass
            try:
                type('Undocumented', (base,), {kind + '_xyz': handler})
            except AssertionError:
                continue
            ctx.violation('docstring', 'a %s handler without a docstring was accepted' % kind)
    ctx.case('docstrings')


def run(ctx):
    ctx.rule = ('one case = one connection: the lines it sends, against the calls of the server class\'s handlers for it and the '
                'lines it receives')
    ctx.assumptions = ['coroutine handlers only in modes whose handlers run in the event loop']
    refusals(ctx, ctx.rng)
    rnd = done = 0
    while ctx.more(done, 260, 6000, 45, 420):
        rng = ctx.subrng('round', rnd)
        mode = list(srv.MODES)[rnd % 3]
        slow = perturb.Perturb(ctx, rng, on=rnd % 5 == 4)
        with slow:
            Scenario(ctx, rng, mode).run(slow)
        rnd += 1
        done += 1
        if len(ctx.violations) > 4:
            break
