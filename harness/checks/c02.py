"""C02: the parser accepts exactly the KATCP line grammar and is total."""
import itertools

from katcp import Message, MessageParser
from katcp.core import KatcpSyntaxError, KatcpTypeError

from . import wire

TYPE = {'request': Message.REQUEST, 'reply': Message.REPLY, 'inform': Message.INFORM}


def check_line(ctx, parser, line, feature=None):
    try:
        exp = wire.decode(line)
    except wire.Bad as e:
        exp = None
        why = str(e)
    try:
        msg = parser.parse(line)
        got = (msg.mtype, msg.name, msg.mid, list(msg.arguments))
    except KatcpSyntaxError:
        got = None
    except Exception as e:
        ctx.violation('foreign-exception', 'parse(%r) raised %r, not a KATCP syntax error'
                      % (line, e))
        return
    ctx.observe('oracle_evaluations')
    if exp is None:
        ctx.observe('rejected_' + why)
        if got is not None:
            ctx.violation('accepts-bad', 'malformed line %r (%s) parsed as %r' % (line, why, got))
        return
    ctx.observe('accepted')
    if got is None:
        ctx.violation('rejects-good', 'well-formed line %r was rejected' % (line,))
        return
    if got != (TYPE[exp[0]],) + exp[1:]:
        ctx.violation('wrong-meaning', 'line %r parsed as %r, grammar says %r' % (line, got, exp))
        return
    # accepted lines re-serialise to the canonical line for the same message
    ser = bytes(msg)
    if ser != wire.encode(*exp):
        ctx.violation('reserialise', 'line %r re-serialised as %r' % (line, ser))


def mutate(rng, line):
    line = bytearray(line)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        op = rng.randrange(6)
        pos = rng.randrange(len(line) + 1)
        special = rng.choice([0x00, 0x09, 0x0a, 0x0d, 0x1b, 0x20, 0x5c, 0x5b, 0x5d, 0x3f, 0x21, 0x23,
                              0x5f, 0x40, 0x30, 0x6e, 0x2d, 0xff, 0xc3, 0x85, 0xa0, 0x0b, 0x0c, 0x1c,
                              rng.randrange(256)])
        if op == 0:
            line.insert(pos, special)
        elif op == 1 and line:
            del line[min(pos, len(line) - 1)]
        elif op == 2 and line:
            line[min(pos, len(line) - 1)] = special
        elif op == 3:
            line[pos:pos] = rng.choice([b'  ', b'\t ', b' \t', b'[1]', b'[]', b'\\@', b'\\', b'[12', b']'])
        elif op == 4 and line:
            del line[pos:]
        else:
            line += bytes([special])
    return bytes(line)


def run(ctx):
    ctx.rule = ('every line of up to L symbols over a 17-symbol alphabet (all escape and structure '
                'characters), every 1-2 byte line, plus generated lines with random mutations, '
                'compared with an independent reference parser; non-trivial: distinct line')
    rng = ctx.rng
    parser = MessageParser()
    count = 0
    alphabet = [b'?', b'!', b'#', b'a', b'-', b'1', b'[', b']', b' ', b'\t', b'\\', b'_', b'@',
                b'n', b'\n', b'\x00', b'\xff']
    depth = ctx.scale(4, 5)
    for n in range(0, depth + 1):
        for t in itertools.product(alphabet, repeat=n):
            line = b''.join(t)
            check_line(ctx, parser, line)
            count += 1
    ctx.case_bulk(count)
    # lines with a fixed well formed head: enumerate the tail
    heads = [b'?a', b'!a[1]', b'#a-1[', b'?ab ', b'!a x\\', b'?a[1', b'#a b\\\\']
    tails = 0
    for h in heads:
        for n in range(0, ctx.scale(3, 4) + 1):
            for t in itertools.product(alphabet, repeat=n):
                check_line(ctx, parser, h + b''.join(t))
                tails += 1
    ctx.case_bulk(tails)
    for a in range(256):
        for h in (b'', b'?', b'?a', b'?a ', b'?a \\', b'?a[', b'?a[1]', b'!ok x', b'#x\\'):
            line = h + bytes([a])
            check_line(ctx, parser, line)
            ctx.case(line)
            check_line(ctx, parser, line + b'b')
            ctx.case(line + b'b')
    ctx.extra['enumerated_lines'] = count + tails
    # wrong python types
    for bad in ('?foo', 5, None, ['?foo'], '?'):
        try:
            parser.parse(bad)
        except (KatcpSyntaxError, KatcpTypeError):
            ctx.observe('type_errors')
        except Exception as e:
            ctx.violation('type-error', 'parse(%r) raised %r' % (bad, e))
        else:
            ctx.violation('type-error', 'parse(%r) accepted' % (bad,))
    n = 0
    while ctx.more(n, 40000, 1000000, quick_s=60, thorough_s=300):
        k = rng.random()
        if k < 0.85:
            m = wire.gen_msg(rng, maxargs=4)
            line = wire.encode(*m)
            # spread arguments with arbitrary whitespace runs
            if rng.random() < 0.5:
                line = b''.join(rng.choice([b' ', b'  ', b'\t', b' \t ']) if c == 0x20 else bytes([c])
                                for c in line) + rng.choice([b'', b'', b' ', b'\t\t'])
            if k < 0.7:
                line = mutate(rng, line)
        else:
            line = bytes(rng.choice([rng.randrange(256), rng.choice(b'?!# \\[]ab01\t')])
                         for _ in range(rng.randrange(0, 30)))
        if n < 4:
            ctx.sample({'line': line})
        check_line(ctx, parser, line)
        ctx.case(line)
        n += 1
