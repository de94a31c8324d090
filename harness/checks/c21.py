"""C21: protocol version and flags are negotiated and honoured.

Servers of enumerated PROTOCOL_INFO are asked over raw sockets what they announce and offer; clients
are given enumerated announcements by a scripted peer that records what they put on the wire.
"""
import itertools
import re
import threading

import tornado.gen

from katcp import AsyncClient, DeviceServer, Message, ProtocolFlags, Sensor
from katcp.core import KatcpVersionError
from katcp.kattypes import (Int, Str, has_katcp_protocol_flags, minimum_katcp_version, request,
                            request_timeout_hint, return_reply)

from .. import common, vloop
from . import adv, srv, wire

FLAGS = 'MITB'


def legal(major, minor, flags):
    if 'I' in flags and major < 5:
        return False
    return not (('T' in flags or 'B' in flags) and (major, minor) < (5, 1))


def subsets(s):
    for n in range(len(s) + 1):
        for c in itertools.combinations(s, n):
            yield ''.join(c)


# -- the value class ----------------------------------------------------------------------
def values(ctx):
    names = {'M': 'multi_client', 'I': 'message_ids', 'T': 'request_timeout_hints',
             'B': 'bulk_set_sensor_sampling'}
    for major, minor, fl in itertools.product(range(0, 8), (0, 1, 2, 10), subsets('MITBXz')):
        byteflags = [f.encode() for f in fl]
        try:
            p = ProtocolFlags(major, minor, byteflags)
        except ValueError:
            ctx.expect(not legal(major, minor, fl), 'value-refused', 'ProtocolFlags(%d, %d, %r) is refused' % (major, minor, fl))
            continue
        ctx.expect(legal(major, minor, fl), 'value-accepted', 'ProtocolFlags(%d, %d, %r) is accepted' % (major, minor, fl))
        text = str(p)
        want = '%d.%d' % (major, minor) + ('-' + ''.join(sorted(fl)) if fl else '')
        ctx.expect(text == want, 'print', 'printed as %r, not %r' % (text, want))
        for perm in (fl, fl[::-1]):
            src = ('%d.%d' % (major, minor) + ('-' + perm if perm else '')).encode()
            q = ProtocolFlags.parse_version(src)
            ctx.expect(q == p and not q != p and str(q) == want and (q.major, q.minor) == (major, minor), 'parse',
                       '%r parsed as %s' % (src, q))
        for f in 'MITBXz':
            ctx.expect(bool(p.supports(f.encode())) == (f in fl), 'supports', '%s.supports(%r)' % (want, f))
        for f, attr in names.items():
            ctx.expect(bool(getattr(p, attr)) == (f in fl), 'attribute', '%s.%s is %r' % (want, attr, getattr(p, attr)))
        if major in (4, 5):
            for st in (b'none', b'auto', b'period', b'event', b'differential', b'event-rate', b'differential-rate', b'x'):
                ok = st in (b'none', b'auto', b'period', b'event', b'differential') or (
                    major == 5 and st in (b'event-rate', b'differential-rate'))
                ctx.expect(bool(p.strategy_allowed(st)) == ok, 'strategy', '%s.strategy_allowed(%r)' % (want, st))
        ctx.case(('value', want))
    # no two different combinations are equal
    some = [ProtocolFlags(a, b, [f.encode() for f in fl]) for a, b, fl in
            itertools.product((5, 6), (1, 2), subsets('MITX'))]
    for x, y in itertools.product(some, some):
        same = str(x) == str(y)
        ctx.expect((x == y) == same and (x != y) == (not same), 'equality', '%s == %s is %r' % (x, y, x == y))


# -- servers -------------------------------------------------------------------------------
REQ = [  # name, minimum version or None, flags or None, hint or None
    ('plain', None, None, None),
    ('min-four', (4, 0), None, None),
    ('min-five', (5, 0), None, 12.5),
    ('min-five-one', (5, 1), None, None),
    ('min-five-two', (5, 2), None, 3),
    ('min-six', (6, 0), None, None),
    ('need-m', None, 'M', None),
    ('need-i', None, 'I', 0.25),
    ('need-tb', None, 'TB', None),
    ('need-m-five-one', (5, 1), 'M', None),
    ('need-x', None, 'X', 100),
]


def handlers():
    ns = {}
    for k, (name, ver, flags, hint) in enumerate(REQ):
        def fn(self, req, uid):
            return ('ok', uid)
        fn.__name__ = 'request_' + name.replace('-', '_')
        fn.__doc__ = 'A request.'
        decs = []
        if ver:
            decs.append(minimum_katcp_version(*ver))
        if flags:
            decs.append(has_katcp_protocol_flags([f.encode() for f in flags]))
        if hint:
            decs.append(request_timeout_hint(hint))
        if k % 2:                         # below or above the type decorators
            for d in decs:
                fn = d(fn)
            fn = request(Str())(return_reply(Str())(fn))
        else:
            fn = request(Str())(return_reply(Str())(fn))
            for d in decs:
                fn = d(fn)
        ns[fn.__name__] = fn
    return ns


class Base(DeviceServer):
    VERSION_INFO = ('proto-dev', 2, 7)
    BUILD_INFO = ('proto-build', 3, 1, 'rc9')

    def setup_sensors(self):
        for n in ('s1', 's2'):
            s = Sensor.float(n, 'd', 'u', [-1e9, 1e9])
            s.set(1234567890.123456, Sensor.NOMINAL, 2.5)
            self.add_sensor(s)


BASE = type('WithHandlers', (Base,), handlers())


def satisfied(entry, major, minor, fl):
    name, ver, flags, hint = entry
    return (ver is None or (major, minor) >= ver) and (flags is None or all(f in fl for f in flags))


def server(ctx, major, minor, fl, mode):
    what = 'server %d.%d-%s' % (major, minor, fl)
    s = srv.make_server(mode, major=major, minor=minor, flags=fl, cls=BASE)
    try:
        c = srv.RawClient(s.bind_address)
        version = '%d.%d' % (major, minor) + ('-' + ''.join(sorted(fl)) if fl else '')
        c.barrier()
        c.wait(lambda ls: len(ls) >= (3 if major >= 5 else 2))
        head = c.snapshot()
        if major >= 5:
            ctx.expect(head[0] == b'#version-connect katcp-protocol ' + version.encode(), 'announce',
                       '%s announces %r' % (what, head[0]))
            ctx.expect(head[1].startswith(b'#version-connect katcp-library katcp-python-') and
                       head[2] == b'#version-connect katcp-device proto-dev-2.7 proto-build-3.1rc9', 'announce',
                       '%s announces %r' % (what, head[:3]))
        else:
            ctx.expect(head[:2] == [b'#version proto-dev-2.7', b'#build-state proto-build-3.1rc9'], 'announce',
                       '%s announces %r' % (what, head[:2]))
            ctx.expect(not any(l.startswith(b'#version-connect') for l in head), 'announce', '%s announces %r' % (what, head))
        reply, informs = c.call('help')
        offered = set(i[3][0].decode() for i in informs)
        for e in REQ:
            ok = satisfied(e, major, minor, fl)
            ctx.expect((e[0] in offered) == ok, 'help', '%s: ?help %s %s' % (what, 'hides' if ok else 'lists', e[0]))
            r, _ = c.call(e[0], 'uid-1')
            if ok:
                ctx.expect(r and list(r[3]) == [b'ok', b'uid-1'], 'handler-missing', '%s: ?%s answers %r' % (what, e[0], r))
            else:
                ctx.expect(r and r[3][0] == b'invalid', 'handler-present', '%s: ?%s answers %r' % (what, e[0], r))
            ctx.observe('handler_gates_checked')
        # timeout hints
        r, informs = c.call('request-timeout-hint')
        if 'T' in fl:
            want = dict((e[0], float(e[3])) for e in REQ if e[3] and satisfied(e, major, minor, fl))
            got = dict((i[3][0].decode(), float(i[3][1])) for i in informs)
            ctx.expect(r[3][0] == b'ok' and int(r[3][1]) == len(informs) and got == want, 'hints',
                       '%s: hints %r, expected %r' % (what, got, want))
            for e in REQ:
                r, informs = c.call('request-timeout-hint', e[0])
                if satisfied(e, major, minor, fl):
                    ctx.expect(r[3][0] == b'ok' and [float(i[3][1]) for i in informs] == [float(e[3] or 0)], 'hints',
                               '%s: hint of %s: %r %r' % (what, e[0], r, informs))
                else:
                    ctx.expect(r[3][0] == b'fail' and not informs, 'hints', '%s: hint of the missing %s: %r' % (what, e[0], r))
        else:
            ctx.expect(r[3][0] == b'invalid', 'hints', '%s: ?request-timeout-hint answers %r' % (what, r))
        # versions
        r, informs = c.call('version-list')
        if major >= 5:
            ctx.expect(r[3][0] == b'ok' and [b'katcp-protocol', version.encode()] in [list(i[3]) for i in informs],
                       'version-list', '%s: ?version-list answers %r' % (what, informs))
        else:
            ctx.expect(r[3][0] == b'invalid', 'version-list', '%s: ?version-list answers %r' % (what, r))
        # times and sampling
        r, informs = c.call('sensor-value', 's1')
        ts = informs[0][3][0]
        want_ts = b'1234567890.123456' if major >= 5 else b'1234567890123'
        ctx.expect(ts == want_ts, 'timestamp', '%s: time %r instead of %r' % (what, ts, want_ts))
        for st, params, v4, v5 in [('auto', [], 1, 1), ('event', [], 1, 1), ('differential', ['1'], 1, 1),
                                   ('event-rate', ['0.5', '10'], 0, 1), ('differential-rate', ['1', '0.5', '10'], 0, 1)]:
            n0 = len(c.snapshot())
            r, _ = c.call('sensor-sampling', 's1', st, *params)
            ok = (v5 if major >= 5 else v4) or False
            ctx.expect(r and r[3][0] == (b'ok' if ok else b'fail'), 'strategy-served',
                       '%s: ?sensor-sampling s1 %s answers %r' % (what, st, r))
            if ok and r:
                c.call('sensor-sampling', 's1')
                st_lines = [l for l in c.snapshot()[n0:] if l.startswith(b'#sensor-status')]
                ctx.expect(st_lines and st_lines[0].split()[1] == want_ts, 'timestamp',
                           '%s: sampled time %r' % (what, st_lines[:1]))
        period = '250' if major < 5 else '0.25'
        r, _ = c.call('sensor-sampling', 's1', 'period', period)
        ctx.expect(r[3][0] == b'ok' and float(r[3][3]) == float(period), 'period', '%s: period %s answered by %r' % (what, period, r))
        pobj = srv.in_loop(s, lambda: s.get_sensor('s1'))
        r, _ = c.call('sensor-sampling', 's1')
        ctx.expect(r[3][0] == b'ok' and float(r[3][3]) == float(period), 'period', '%s: period reported as %r' % (what, r))
        # it is in force in seconds: about eight reports in two seconds would be slow; count in half a second
        r, _ = c.call('sensor-sampling', 's1', 'none')
        r, _ = c.call('sensor-sampling', 's1,s2', 'event')
        ctx.expect(r[3][0] == (b'ok' if 'B' in fl else b'fail'), 'bulk', '%s: bulk sampling answers %r' % (what, r))
        # log informs
        r, _ = c.call('log-level', 'info')
        n0 = len(c.snapshot())
        srv.in_loop(s, lambda: s.log.info('hello', timestamp=1234567890.123456, name='lg'))
        c.barrier()
        i = c.wait_line(b'#log', n0)
        ctx.expect(i is not None and c.lines[i].split()[2] == want_ts, 'log-time',
                   '%s: log time %r' % (what, c.lines[i] if i is not None else None))
        del pobj
        c.close()
    finally:
        srv.stop_server(s)
    ctx.case((what, mode))
    ctx.observe('servers')


def refused_servers(ctx):
    for major in (0, 1, 2, 3, 6, 7):
        cls = type('Odd', (Base,), {'PROTOCOL_INFO': ProtocolFlags(major, 0, [b'M'])})
        try:
            cls('127.0.0.1', 0)
        except ValueError:
            pass
        else:
            ctx.violation('major-accepted', 'a DeviceServer of protocol major %d can be created' % major)
        ctx.case(('major', major))


def inheritance(ctx):
    """The filter is applied for each class anew."""
    old = type('Old', (BASE,), {'PROTOCOL_INFO': ProtocolFlags(4, 0, [b'M'])})
    new = type('New', (old,), {'PROTOCOL_INFO': ProtocolFlags(5, 2, [b'M', b'I', b'T', b'B'])})
    back = type('Back', (new,), {'PROTOCOL_INFO': ProtocolFlags(5, 0, [])})
    for cls, (ma, mi, fl) in [(old, (4, 0, 'M')), (new, (5, 2, 'MITB')), (back, (5, 0, '')), (old, (4, 0, 'M'))]:
        s = cls('127.0.0.1', 0, logger=srv.quiet_logger())
        s.start(timeout=common.STALL)
        try:
            c = srv.RawClient(s.bind_address)
            _, informs = c.call('help')
            offered = set(i[3][0].decode() for i in informs)
            want = set(e[0] for e in REQ if satisfied(e, ma, mi, fl))
            got = offered & set(e[0] for e in REQ)
            ctx.expect(got == want, 'inherited', 'class %s offers %r, not %r' % (cls.__name__, sorted(got), sorted(want)))
            c.close()
        finally:
            srv.stop_server(s)
        ctx.case(('inherit', cls.__name__))


# -- clients -------------------------------------------------------------------------------
def announcement(major, minor, fl, variant):
    ver = '%d.%d' % (major, minor) + ('-' + fl if fl or variant == 2 else '')
    lib = b'#version-connect katcp-library some-lib-1.2 build-7'
    dev = b'#version-connect katcp-device d-1.0 b-1'
    proto = b'#version-connect katcp-protocol ' + ver.encode()
    return [[proto, lib, dev], [lib, dev, proto], [dev, proto], [proto + b' extra', lib]][variant]


class Peer(object):
    def __init__(self, greet):
        self.clock = vloop.Clock(start=100.0, grace=0.003)
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.got = []
        self.hold = []
        self.srv = adv.AdvServer(self.loop, greet, self.on_request)
        self.srv.up()
        self.problems = []

    def on_request(self, conn, m):
        self.got.append(m)
        self.hold.append((conn, m))

    def answer(self, i, *args):
        conn, (t, name, mid, a) = self.hold[i]
        conn.say(wire.encode('reply', name, mid, [b'ok'] + list(a) + list(args)))

    def run(self, coro):
        fut = []

        def go():
            fut.append(coro())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(60, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        self.srv.finish()
        self.loop.clear_current()
        self.loop.close()
        if not fut[0].done():
            raise common.Violated('client scenario did not end')
        fut[0].result()


def client(ctx, rng, greet, major, minor, fl, preset, what):
    """preset: None, or the (major, minor, flags) given to preset_protocol_flags."""
    p = Peer(greet)
    c = AsyncClient(*p.srv.addr, timeout=3.0)
    c.set_ioloop(p.loop)
    pf = None
    if preset:
        pf = ProtocolFlags(preset[0], preset[1], [f.encode() for f in preset[2]])
        c.preset_protocol_flags(pf)
        major, minor, fl = preset
    ids = 'I' in fl

    def exp(cond, key, text):
        ctx.expect(cond, key, '%s: %s' % (what, text), greet=greet, preset=preset)

    @tornado.gen.coroutine
    def drive():
        c.start()
        yield c.until_connected(timeout=20)
        try:
            yield c.until_protocol(timeout=20)
        except Exception as e:
            exp(False, 'no-protocol', 'until_protocol() raised %r' % (e,))
        yield tornado.gen.sleep(0.05)
        if not c.is_connected():
            exp(False, 'not-connected', 'the client disconnected')
            return
        g = c.protocol_flags
        exp(g is not None and (g.major, g.minor, set(g.flags)) == (major, minor, set(f.encode() for f in fl)),
            'flags', 'the client took the protocol for %s' % (g,))
        if not preset and any(b'katcp-library' in l for l in greet):
            exp(tuple(c.versions.get('katcp-library', ())) == ('some-lib-1.2', 'build-7'), 'versions',
                'versions are %r' % (c.versions,))
        for x in (0, 1, 0.25, 1234567890.123456, -2.5, 0.0004):
            got = c.convert_seconds(x)
            if major >= 5:
                ok = got == x
            elif major == 4:
                ok = abs(got - x * 1000) < 1e-3
            else:
                ok = got == int(x * 1000)
            exp(ok, 'convert', 'convert_seconds(%r) is %r' % (x, got))
        # what goes over the wire
        n = 0
        for use_mid, mid, api in itertools.product((None, True, False), (None, b'77', b'4000000000'), ('send', 'future', 'send-message')):
            n += 1
            del p.got[:], p.hold[:]
            m = Message.request('q%d' % n if n % 2 else 'same', 'u%d' % n, mid=mid)
            refused = not ids and (mid is not None or use_mid)
            want_mid = bool(mid is not None or (use_mid if use_mid is not None else ids))
            label = 'request with use_mid=%r mid=%r through %s' % (use_mid, mid, api)
            f = None
            err = None
            if api == 'future':
                f = c.future_request(m, use_mid=use_mid)
            elif api == 'send':
                try:
                    c.request(m, use_mid=use_mid)
                except Exception as e:
                    err = e
            else:
                # the documented low-level call adds nothing
                if use_mid is not None:
                    continue
                try:
                    c.send_request(m)
                except Exception as e:
                    err = e
                refused = not ids and mid is not None
                want_mid = mid is not None
            yield tornado.gen.sleep(0.02)
            ctx.observe('client_requests')
            if refused:
                exp(not p.got, 'id-sent', '%s went out as %r' % (label, p.got))
                if api == 'future':
                    exp(f.done() and not f.result()[0].reply_ok(), 'id-refused', '%s was not refused' % label)
                else:
                    exp(isinstance(err, KatcpVersionError), 'id-refused', '%s raised %r' % (label, err))
                continue
            exp(err is None, 'raised', '%s raised %r' % (label, err))
            if len(p.got) != 1:
                exp(False, 'sent', '%s sent %r' % (label, p.got))
                continue
            t, name, gmid, args = p.got[0]
            exp((t, name, list(args)) == ('request', m.name, [b'u%d' % n]), 'sent', '%s sent %r' % (label, p.got))
            exp((gmid is not None) == want_mid and (mid is None or gmid == mid), 'mid',
                '%s used the id %r' % (label, gmid))
            if f is not None:
                p.answer(0, b'done')
                yield tornado.gen.sleep(0.02)
                exp(f.done() and f.result()[0].arguments == [b'ok', b'u%d' % n, b'done'], 'matched',
                    '%s: %r' % (label, f.result()[0] if f.done() else 'not resolved'))
        # outstanding requests: ids differ, or else names match in order
        del p.got[:], p.hold[:]
        fs = []
        for k in range(8):
            name = rng.choice(['aa', 'bb'])
            fs.append((name, c.future_request(Message.request(name, 'o%d' % k))))
        yield tornado.gen.sleep(0.02)
        if ids:
            mids = [g_[2] for g_ in p.got]
            exp(None not in mids and len(set(mids)) == 8, 'mid-unique', 'outstanding requests use the ids %r' % (mids,))
            order = list(range(8))
            rng.shuffle(order)
        else:
            exp(all(g_[2] is None for g_ in p.got), 'mid', 'ids used: %r' % (p.got,))
            byname = {'aa': [], 'bb': []}
            for k in range(8):
                byname[fs[k][0]].append(k)
            order = []
            while byname['aa'] or byname['bb']:
                nm = rng.choice([x for x in byname if byname[x]])
                order.append(byname[nm].pop(0))
        for k in order:
            p.answer(k)
            if rng.random() < 0.5:
                yield tornado.gen.sleep(0.01)
        yield tornado.gen.sleep(0.05)
        for k, (name, f) in enumerate(fs):
            exp(f.done() and f.result()[0].arguments == [b'ok', b'o%d' % k], 'matched',
                'outstanding request %d (%s) got %r' % (k, name, f.result()[0] if f.done() else None))
        c.stop()
        yield c.until_stopped(timeout=10)
    p.run(drive)
    ctx.case((what, greet, preset))
    ctx.observe('clients')


def clients(ctx):
    rng = ctx.subrng('clients')
    combos = []
    for (ma, mi), fl in itertools.product([(5, 0), (5, 1), (5, 3), (6, 0), (4, 0), (3, 1)], subsets(FLAGS + 'X')):
        if legal(ma, mi, fl):
            combos.append((ma, mi, fl))
    rng.shuffle(combos)
    fixed = [(5, 0, ''), (5, 0, 'M'), (5, 0, 'I'), (5, 0, 'MI'), (5, 1, 'IMBT'), (4, 1, 'M'), (5, 1, 'TB'), (3, 0, '')]
    todo = fixed + combos[:ctx.scale(12, 400)]
    for k, (ma, mi, fl) in enumerate(todo):
        fl2 = ''.join(rng.sample(fl, len(fl)))
        client(ctx, rng, announcement(ma, mi, fl2, k % 4), ma, mi, fl, None, 'client told %d.%d-%s' % (ma, mi, fl2))
        if ctx.elapsed() > (100 if ctx.quick else 500):
            break
    for greet in ([b'#version v-1.0', b'#build-state b-1.0'], [b'#build-state b-1.0', b'#version v-1.0'],
                  [b'#version v-1.0'], [b'#build-state b-1.0']):
        client(ctx, rng, greet, 4, 0, '', None, 'client told v4 %r' % (greet[0],))
    # preset protocol, with none, an agreeing, or a disagreeing announcement
    for pre in [(5, 0, 'MI'), (5, 0, 'M'), (4, 0, 'M'), (5, 1, 'IT')]:
        for greet in ([], announcement(5, 0, 'MI', 0), announcement(5, 0, '', 0), [b'#version v-1.0', b'#build-state x']):
            client(ctx, rng, greet, None, None, None, pre, 'client preset to %d.%d-%s' % pre)


def fake(ctx):
    """The fake client stands for a fully featured v5 server."""
    from katcp.fake_clients import FakeAsyncClient
    loop = vloop.VLoop(clock=vloop.Clock(start=10.0))
    loop.make_current()
    c = FakeAsyncClient('fake', 1)
    c.set_ioloop(loop)
    c.start()
    loop.call_later(1, loop.stop)
    loop.start()
    g = c.protocol_flags
    ctx.expect(g is not None and g.supports(ProtocolFlags.MESSAGE_IDS) and g.multi_client and g.major == 5,
               'fake', 'the fake client believes its server has protocol %s (ids %r)' % (g, g and g.message_ids))
    m = Message.request('anything')
    out = []
    loop.add_callback(lambda: c.future_request(m).add_done_callback(lambda f: out.append(f.result())))
    loop.call_later(1, loop.stop)
    loop.start()
    ctx.expect(out and out[0][0].mid == m.mid and m.mid is not None, 'fake', 'request %r got %r' % (m, out))
    loop.clear_current()
    loop.close()
    ctx.case('fake')


def run(ctx):
    ctx.rule = 'one case per version/flag combination (value, server and mode, or client with announcement order and preset)'
    ctx.assumptions = ['announced versions are legal combinations; sampling parameters passed through a client are in device units']
    values(ctx)
    refused_servers(ctx)
    inheritance(ctx)
    fake(ctx)
    rng = ctx.subrng('servers')
    combos = []
    for (ma, mi), fl in itertools.product([(4, 0), (4, 1), (5, 0), (5, 1), (5, 2)], subsets(FLAGS + 'X')):
        if legal(ma, mi, fl):
            combos.append((ma, mi, fl))
    rng.shuffle(combos)
    fixed = [(4, 0, 'M'), (5, 0, 'IM'), (5, 1, 'IMTB'), (5, 0, ''), (5, 2, 'TX')]
    for k, (ma, mi, fl) in enumerate(fixed + combos[:ctx.scale(11, 200)]):
        server(ctx, ma, mi, fl, ['handler-thread', 'thread-safe', 'ioloop'][k % 3])
    clients(ctx)
    ctx.sample({'server_requests': [list(map(str, e)) for e in REQ], 'client_example': 'announcement %r' % (announcement(5, 1, 'TI', 1),)})
