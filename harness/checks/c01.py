"""C01: message serialisation is canonical and lossless (codec round trip)."""
import itertools

from katcp import Message, MessageParser
from katcp.core import KatcpSyntaxError

from . import wire

TYPE = {'request': Message.REQUEST, 'reply': Message.REPLY, 'inform': Message.INFORM}
RAW_SPECIAL = frozenset(b'\0\n\r\x1b\t')


def check_msg(ctx, m, parser):
    mtype, name, mid, args = m
    ref = wire.encode(mtype, name, mid, args)
    try:
        msg = Message(TYPE[mtype], name, list(args), mid)
        raw = bytes(msg)
        raw2 = bytes(msg)
        rep = repr(msg)
    except Exception as e:
        ctx.violation('encode-raises', 'valid message %r cannot be built/serialised: %r' % (m, e))
        return
    ctx.observe('messages_encoded')
    ctx.expect(raw == ref, 'wire-form', 'bytes(%r) = %r, canonical line is %r' % (m, raw, ref))
    ctx.expect(raw2 == raw and list(msg.arguments) == list(args) and msg.mid == mid
               and msg.name == name, 'encode-mutates', 'serialising changed message %r' % (m,))
    ctx.expect(not (RAW_SPECIAL & frozenset(raw)) and raw.count(b' ') == len(args),
               'raw-special', 'unescaped special character in %r' % (raw,))
    ctx.expect(isinstance(rep, str), 'repr', 'repr is not a string')
    try:
        text = raw.decode('utf-8')
    except UnicodeDecodeError:
        text = None
    if text is not None:
        try:
            ctx.expect(str(msg) == text, 'str', 'str(%r) = %r' % (m, str(msg)))
        except Exception as e:
            ctx.violation('str', 'str(msg) raised %r for UTF-8 message %r' % (e, m))
    try:
        back = parser.parse(raw)
    except Exception as e:
        ctx.violation('parse-back', 'parse(bytes(%r)) raised %r' % (m, e))
        return
    ctx.observe('messages_parsed_back')
    got = (back.mtype, back.name, back.mid, list(back.arguments))
    ctx.expect(got == (TYPE[mtype], name, mid, list(args)), 'round-trip',
               'parse(bytes(m)) = %r for m = %r' % (got, m))
    ctx.expect(isinstance(back.name, str) and all(isinstance(a, bytes) for a in back.arguments)
               and (back.mid is None or isinstance(back.mid, bytes)),
               'round-trip-types', 'wrong python types after parsing %r' % (raw,))
    ctx.expect(back == msg and not (back != msg) and bytes(back) == raw, 'equality',
               'parsed message differs from original %r' % (m,))
    if not args:
        for form in ((), (None,), ([],), ((),)):
            try:
                bare = Message(TYPE[mtype], name, *form, mid=mid)
                ctx.expect(bytes(bare) == raw and list(bare.arguments) == [] and bare == msg and bytes(bare.copy()) == raw,
                           'no-arguments', 'Message(%s, %r, *%r) is %r' % (mtype, name, form, bytes(bare)))
                bare.arguments.append(b'x')
                ctx.expect(not Message(TYPE[mtype], name, *form, mid=mid).arguments, 'no-arguments',
                           'messages without arguments share their argument list')
            except Exception as e:
                ctx.violation('no-arguments', 'a message without arguments (%r) raised %r' % (form, e))
    ctx.expect(not (msg == raw) and msg != raw and msg != None, 'equality', 'a message equals something else')  # noqa: E711
    cp = msg.copy()
    ctx.expect((cp.mtype, cp.name, cp.mid, list(cp.arguments)) == (TYPE[mtype], name, mid, list(args))
               and cp == msg, 'copy', 'copy of %r is %r' % (m, cp))
    cp.arguments.append(b'extra')
    ctx.expect(list(msg.arguments) == list(args) and not (cp == msg), 'copy-shared',
               'copy shares argument list with original')


def variants_differ(ctx, rng, m):
    """A message that differs in exactly one field is never equal / same bytes."""
    mtype, name, mid, args = m
    a = Message(TYPE[mtype], name, list(args), mid)
    others = [
        (rng.choice([t for t in TYPE if t != mtype]), name, mid, args),
        (mtype, name + 'x', mid, args),
        (mtype, name, b'5' if mid is None else None, args),
        (mtype, name, b'5' if mid is None else mid + b'1', args),
        (mtype, name, mid, list(args) + [b'']),
    ]
    if args:
        i = rng.randrange(len(args))
        changed = list(args)
        changed[i] = args[i] + rng.choice([b' ', b'\\', b'a', b'\n', b'\x00'])
        others.append((mtype, name, mid, changed))
        others.append((mtype, name, mid, list(args[:-1])))
    for o in others:
        b = Message(TYPE[o[0]], o[1], list(o[3]), o[2])
        ctx.expect(a != b and not (a == b) and bytes(a) != bytes(b), 'distinguish',
                   'different messages %r and %r are not distinguished' % (m, o))


class Stringy(object):
    def __str__(self):
        return 'x y\u00e9'


def check_formats(ctx, rng, parser):
    """Non byte-string arguments travel as their canonical text."""
    cases = []
    for v in (True, False):
        cases.append((v, b'1' if v else b'0'))
    for v in [0, -1, 1, 10**30, -10**20, rng.randrange(-10**12, 10**12)]:
        cases.append((v, str(v).encode()))
    for v in [0.0, -0.0, 1.5, 1e300, -1e-300, 0.1, 1e22, 5e-324, float('inf'), float('-inf'),
              rng.random(), rng.uniform(-1e9, 1e9), 1533117853.123456]:
        cases.append((v, ('float', v)))
    for v in ['', 'a b', 'caf\u00e9', '\u20ac\U0001f600', '\n\t\\', ' ', '\x00',
              ''.join(chr(rng.choice([rng.randrange(1, 0x250), rng.randrange(0x4e00, 0x5000)]))
                      for _ in range(8))]:
        cases.append((v, v.encode('utf-8')))
    cases.append(('\ud800x', b'?x'))
    cases.append((Stringy(), 'x y\u00e9'.encode('utf-8')))
    cases.append((None, b'None'))
    for ctor, t in ((Message.request, 'request'), (Message.reply, 'reply'),
                    (Message.inform, 'inform')):
        chosen = [cases[i] for i in sorted(rng.sample(range(len(cases)), min(12, len(cases))))]
        midv = rng.choice([None, 5, '17', b'23'])
        try:
            msg = ctor('fmt-x', *[c[0] for c in chosen], mid=midv)
            back = parser.parse(bytes(msg))
        except Exception as e:
            ctx.violation('format-raises', 'message with arguments %r: %r' % (chosen, e))
            continue
        emid = None if midv is None else (midv if isinstance(midv, bytes) else str(midv).encode())
        ctx.expect(back.mid == emid and back.mtype == TYPE[t] and back.name == 'fmt-x',
                   'constructor', 'constructor %s lost header: %r' % (t, back))
        ctx.expect(len(back.arguments) == len(chosen), 'format-count', 'argument count changed')
        for (val, exp), got in zip(chosen, back.arguments):
            ctx.case(('fmt', type(val).__name__, got))
            if isinstance(exp, tuple):
                try:
                    gv = float(got)
                    ok = gv == val and str(gv) == str(val)
                except ValueError:
                    ok = False
            else:
                ok = got == exp
            ctx.expect(ok, 'format-argument', 'argument %r was sent as %r' % (val, got))


def check_reply_helpers(ctx, rng):
    m = wire.gen_msg(rng)
    req = Message(Message.REQUEST, m[1], list(m[3]), m[2])
    args = [wire.gen_arg(rng) for _ in range(rng.randrange(3))]
    for fn, t in ((Message.reply_to_request, Message.REPLY), (Message.reply_inform, Message.INFORM)):
        r = fn(req, *args)
        ctx.expect((r.mtype, r.name, r.mid, list(r.arguments)) == (t, m[1], m[2], args),
                   'reply-helper', '%s(%r) = %r' % (fn.__name__, m, r))
    for a in ([], [b'ok'], [b'ok', b'1'], [b'fail', b'x'], [b'OK'], [b'ok '], [b''], [b'okay']):
        for t in TYPE.values():
            exp = t == Message.REPLY and a[:1] == [b'ok']
            got = Message(t, 'foo', list(a)).reply_ok()
            ctx.expect(got is exp or (isinstance(got, bool) and got == exp), 'reply-ok',
                       'reply_ok of type %s args %r = %r' % (t, a, got))


BAD_NAMES = ['', '-', '-a', '1a', 'a b', 'a_b', 'a\n', '\na', 'a[1]', 'a]', 'a\\', 'a.b', '?a', ' a',
             'a ', '\u00e9', 'a\u00e9', 'a\u00b2', '\u0391', 'a\t', 'a\x00', 'a--\u0661', 'a/b']
BAD_MIDS = ['', 'a', '-1', '1 ', ' 1', '1.0', '1]', '\u0661', '1\n', b'', b'x', b'1 2', -1, 1.5]


def check_rejects(ctx, parser):
    for t in TYPE.values():
        for name in BAD_NAMES:
            ctx.case(('badname', t, name))
            try:
                msg = Message(t, name, [])
            except KatcpSyntaxError:
                ctx.observe('bad_headers_rejected')
            except Exception as e:
                ctx.violation('bad-name', 'name %r: %r rather than KatcpSyntaxError' % (name, e))
            else:
                ctx.violation('bad-name', 'invalid name %r accepted: %r' % (name, msg))
        for mid in BAD_MIDS:
            ctx.case(('badmid', t, mid))
            try:
                msg = Message(t, 'foo', [], mid)
            except KatcpSyntaxError:
                ctx.observe('bad_headers_rejected')
            except Exception as e:
                ctx.violation('bad-mid', 'mid %r: %r rather than KatcpSyntaxError' % (mid, e))
            else:
                ctx.violation('bad-mid', 'invalid mid %r accepted: %r' % (mid, msg))
    for t in (-1, 3, None, '?', b'?'):
        try:
            Message(t, 'foo')
        except KatcpSyntaxError:
            ctx.observe('bad_headers_rejected')
        except Exception as e:
            ctx.violation('bad-type', 'type %r: %r' % (t, e))
        else:
            ctx.violation('bad-type', 'invalid message type %r accepted' % (t,))


def run(ctx):
    ctx.rule = ('messages built from random type/name/mid and argument byte strings biased to '
                'specials, plus every argument of up to 2 (3 thorough) bytes from the special '
                'alphabet and every single byte; non-trivial: the canonical line is distinct')
    rng = ctx.rng
    parser = MessageParser()
    # exhaustive single bytes and small strings over the special alphabet
    alpha = [b'\\', b' ', b'\0', b'\n', b'\r', b'\x1b', b'\t', b'_', b'@', b'0', b'n', b'a', b'e',
             b't', b'r', b'\xff', b'[', b']', b'?']
    pool = [bytes([i]) for i in range(256)]
    for k in range(0, ctx.scale(3, 4)):
        pool.extend(b''.join(c) for c in itertools.product(alpha, repeat=k))
    pairs = [bytes([a, b]) for a in range(256) for b in (0x5c, 0x20, 0x00, 0x61)]
    pool.extend(pairs)
    for i, arg in enumerate(pool):
        m = (('request', 'reply', 'inform')[i % 3], 'foo', b'12' if i % 2 else None, [arg])
        check_msg(ctx, m, parser)
        ctx.case(wire.encode(*m))
    # empty arguments in every position
    for n in range(1, 5):
        for pat in itertools.product([b'', b'a', b'\\'], repeat=n):
            m = ('inform', 'x', None, list(pat))
            check_msg(ctx, m, parser)
            ctx.case(wire.encode(*m))
    check_rejects(ctx, parser)
    n = 0
    while ctx.more(n, 12000, 300000, quick_s=45, thorough_s=240):
        m = wire.gen_msg(rng)
        if n < 3:
            ctx.sample({'message': m, 'line': wire.encode(*m)})
        check_msg(ctx, m, parser)
        ctx.case(wire.encode(*m))
        if n % 10 == 0:
            variants_differ(ctx, rng, m)
            check_formats(ctx, rng, parser)
            check_reply_helpers(ctx, rng)
        n += 1
