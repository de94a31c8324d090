"""C03: KATCP types - pack and unpack are inverse; invalid values are rejected."""
import math
import re
import struct

from katcp import kattypes as K
from katcp.core import Sensor

MAJORS = (4, 5)


def call(fn, *a, **k):
    try:
        return ('ok', fn(*a, **k))
    except ValueError as e:          # includes Unicode errors
        return ('ValueError', str(e))
    except Exception as e:
        return (type(e).__name__, str(e))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) == type(b) and a == b


def ts_close(a, b, major):
    # resolution: 1 us for v5 and later, 1 ms before; plus one float ulp
    res = 0.5e-6 if major >= 5 else 0.5e-3
    return abs(a - b) <= res * 1.001 + abs(a) * 4e-16


class Case(object):
    """One type, generator of legal values, generator of illegal ones."""

    def __init__(self, name, ktype, legal, illegal=(), bad_wire=(), expect_wire=None,
                 expect_back=None, equal=None):
        self.name = name
        self.t = ktype
        self.legal = legal
        self.illegal = illegal
        self.bad_wire = bad_wire
        self.expect_wire = expect_wire
        self.expect_back = expect_back or (lambda v, major: v)
        self.equal = equal or (lambda a, b, major: same(a, b))


def check_case(ctx, c, value, major):
    tag = '%s v%d' % (c.name, major)
    st, packed = call(c.t.pack, value, major=major)
    ctx.case((c.name, major, packed))
    if not ctx.expect(st == 'ok', 'pack-rejects-legal', '%s: pack(%r) raised %s %s'
                      % (tag, value, st, packed)):
        return
    ctx.expect(isinstance(packed, bytes), 'pack-type', '%s: pack(%r) -> %r' % (tag, value, packed))
    if c.expect_wire is not None:
        exp = c.expect_wire(value, major)
        if exp is not None:
            ctx.expect(packed == exp, 'wire-format', '%s: pack(%r) = %r, KATCP format is %r'
                       % (tag, value, packed, exp))
    st, back = call(c.t.unpack, packed, major=major)
    if not ctx.expect(st == 'ok', 'unpack-rejects-own', '%s: unpack(pack(%r)=%r) raised %s %s'
                      % (tag, value, packed, st, back)):
        return
    exp = c.expect_back(value, major)
    ctx.expect(c.equal(exp, back, major), 'round-trip', '%s: unpack(pack(%r)) = %r' % (tag, value, back))
    # a value that came off the wire survives being re-sent, exactly
    st, packed2 = call(c.t.pack, back, major=major)
    ctx.expect((st, packed2) == ('ok', packed), 'stable-wire',
               '%s: %r unpacks to %r which packs to %r' % (tag, packed, back, packed2))
    ctx.observe('values_round_tripped')


def check_illegal(ctx, c, value, major):
    st, r = call(c.t.pack, value, major=major)
    ctx.case((c.name, major, 'illegal', repr(value)))
    ctx.observe('illegal_values_tried')
    ctx.expect(st in ('ValueError', 'TypeError', 'AttributeError') if not isinstance(value, (int, float, str))
               else st == 'ValueError',
               'pack-accepts-illegal', '%s v%d: pack(%r) gave %s %r, ValueError expected'
               % (c.name, major, value, st, r))


def check_bad_wire(ctx, c, raw, major):
    st, r = call(c.t.unpack, raw, major=major)
    ctx.case((c.name, major, 'badwire', raw))
    ctx.observe('illegal_wire_tried')
    ctx.expect(st == 'ValueError', 'unpack-accepts-illegal', '%s v%d: unpack(%r) gave %s %r, '
               'ValueError expected' % (c.name, major, raw, st, r))


def check_defaults(ctx, cls_name, make, legal_value, major):
    """None / missing handling for every combination of default and optional."""
    for optional in (False, True):
        for default in (None, legal_value):
            kw = {'optional': optional}
            if default is not None:
                kw['default'] = default
            t = make(**kw)
            tag = '%s(default=%r, optional=%r)' % (cls_name, default, optional)
            st, r = call(t.unpack, None, major=major)
            if default is not None:
                ctx.expect(st == 'ok' and r == default, 'default', '%s: unpack(None) = %s %r' % (tag, st, r))
            elif optional:
                ctx.expect(st == 'ok' and r is None, 'default', '%s: unpack(None) = %s %r' % (tag, st, r))
            else:
                ctx.expect(st == 'ValueError', 'default', '%s: unpack(None) = %s %r' % (tag, st, r))
            st, r = call(t.pack, None, major=major)
            if default is not None:
                ctx.expect(st == 'ok' and r == make().pack(default, major=major), 'default',
                           '%s: pack(None) = %s %r' % (tag, st, r))
            else:
                ctx.expect(st == 'ValueError', 'default', '%s: pack(None) = %s %r' % (tag, st, r))
            # a given value always wins over the default
            w = make().pack(legal_value, major=major)
            st, r = call(t.unpack, w, major=major)
            ctx.expect(st == 'ok', 'default', '%s: unpack(%r) = %s %r' % (tag, w, st, r))
            ctx.case(('default', cls_name, optional, default is None, major))


UNI = ['', 'a', ' ', 'caf\u00e9', '\u20ac', '\U0001f600', 'a\nb', '\x00', '\\', 'nan', 'None', '1']


def rnd_str(rng):
    if rng.random() < 0.3:
        return rng.choice(UNI)
    return ''.join(chr(rng.choice([rng.randrange(0, 128), rng.randrange(0x80, 0xd7ff),
                                   rng.randrange(0x10000, 0x10100)]))
                   for _ in range(rng.randrange(0, 12)))


def rnd_float(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e22, 1e23, 1e-7, 5e-324, 1.7976931348623157e308,
                           2.2250738585072014e-308, 123456789.123456789, float('inf'), float('-inf'),
                           1e16, 1e17, 0.30000000000000004])
    if k == 1:
        x = struct.unpack('>d', bytes(rng.randrange(256) for _ in range(8)))[0]
        return 0.5 if x != x else x
    if k == 2:
        return rng.uniform(-1e6, 1e6)
    if k == 3:
        return float(rng.randrange(-10**18, 10**18))
    return rng.uniform(-1, 1) * 10 ** rng.randrange(-30, 30)


def rnd_int(rng):
    return rng.choice([0, 1, -1, 2**31, -2**31, 2**63, -2**64, 10**40, rng.randrange(-1000, 1000),
                       rng.randrange(-10**18, 10**18)])


def rnd_ts(rng):
    k = rng.randrange(5)
    if k == 0:
        return rng.randrange(0, 4 * 10**12) / 1000.0           # exact milliseconds
    if k == 1:
        return float(rng.randrange(0, 4 * 10**9))
    if k == 2:
        return rng.choice([0.0, 0.001, 1.009, 0.29, 1.005, 2.675, 1e9 + 0.0015])
    if k == 3:
        return rng.uniform(1.3e9, 1.9e9)
    return rng.uniform(0, 1e4)


def wire_ts(v, major):
    from fractions import Fraction
    scale = 10**6 if major >= 5 else 1000
    x = Fraction(v) * scale
    lo = math.floor(x)
    return None if major >= 5 else None   # checked by ts_wire below


def ts_wire(ctx, value, packed, major):
    """Wire timestamps: seconds with fraction in v5, whole milliseconds in v4."""
    if major >= 5:
        ok = re.match(br'^-?\d+\.\d{6}\Z', packed) is not None
        ok = ok and abs(float(packed) - value) <= 0.51e-6 + abs(value) * 4e-16
    else:
        ok = re.match(br'^-?\d+\Z', packed) is not None
        ok = ok and abs(int(packed) - value * 1000.0) <= 0.501 + abs(value) * 1000 * 4e-16
    ctx.expect(ok, 'timestamp-wire', 'timestamp %r sent as %r to a v%d peer' % (value, packed, major))


def build(rng):
    lo, hi = sorted([rng.randrange(-100, 100), rng.randrange(-100, 100)])
    flo, fhi = sorted([rng.uniform(-100, 100), rng.uniform(-100, 100)])
    words = ['alpha', 'Beta', 'gamma', 'DELTA', 'x-y', '\u00e9t\u00e9', '7']
    vals = rng.sample(words, rng.randrange(1, len(words)))
    others = [w for w in words + ['zzz', '', 'alphaalpha', 'alph', ' alpha', 'alpha '] if w not in vals]
    ci = [w for w in ['One', 'tWo', 'three']]
    nxt = lambda x, d: math.nextafter(x, d) if hasattr(math, 'nextafter') else x + (1e-9 if d > x else -1e-9)

    def scramble(w):
        return ''.join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in w)

    cases = [
        Case('Int', K.Int(), [rnd_int(rng) for _ in range(6)],
             bad_wire=[b'', b'a', b'1.5', b'0x10', b'--1', b'1 2', b'1e3', b'\xff', b'one', b'inf'],
             expect_wire=lambda v, m: str(v).encode()),
        Case('IntRange', K.Int(min=lo, max=hi), [lo, hi, rng.randint(lo, hi)],
             [lo - 1, hi + 1, lo - 10**20, hi + 10**20],
             [str(lo - 1).encode(), str(hi + 1).encode()],
             expect_wire=lambda v, m: str(v).encode()),
        Case('IntMin0', K.Int(min=0), [0, 1, 10**9], [-1, -10**9], [b'-1']),
        Case('IntMax0', K.Int(max=0), [0, -1, -10**9], [1, 10**9], [b'1']),
        Case('Float', K.Float(), [rnd_float(rng) for _ in range(8)],
             ['a', '1.0', [1.0]], [b'', b'a', b'1,5', b'1.2.3', b'0x1', b'\xff', b'1e']),
        Case('FloatRange', K.Float(min=flo, max=fhi), [flo, fhi, (flo + fhi) / 2],
             [nxt(flo, -1e9), nxt(fhi, 1e9), flo - 1.0, fhi + 1.0, float('inf'), float('-inf'),
              float('nan')],
             [repr(flo - 1.0).encode(), repr(fhi + 1.0).encode(), b'inf', b'-inf', b'nan']),
        Case('FloatMin0', K.Float(min=0.0), [0.0, 5e-324, 1e300], [-5e-324, -1.0], [b'-1.0', b'nan']),
        Case('FloatMax0', K.Float(max=0.0), [0.0, -5e-324, -1e300], [5e-324, 1.0], [b'1.0', b'nan']),
        Case('FloatOfInt', K.Float(), [rng.randrange(-2**50, 2**50) for _ in range(3)],
             expect_back=lambda v, m: float(v)),
        Case('Bool', K.Bool(), [True, False], bad_wire=[b'', b'2', b'true', b'True', b'01', b'00', b' 1',
                                                        b'\xff', b'-1', b'1.0'],
             expect_wire=lambda v, m: b'1' if v else b'0'),
        Case('Str', K.Str(), [rnd_str(rng) for _ in range(8)], bad_wire=[b'\xff', b'\xc3', b'a\x80'],
             expect_wire=lambda v, m: v.encode('utf-8')),
        Case('StrBytes', K.Str(), [rnd_str(rng).encode('utf-8') for _ in range(2)],
             expect_back=lambda v, m: v.decode('utf-8'), expect_wire=lambda v, m: v),
        Case('Discrete', K.Discrete(vals), vals, others, [w.encode('utf-8') for w in others]
             + [v.encode('utf-8').swapcase() for v in vals if v.swapcase() not in vals],
             expect_wire=lambda v, m: v.encode('utf-8')),
        Case('DiscreteCI', K.Discrete(ci, case_insensitive=True), [scramble(w) for w in ci],
             ['on', 'onee', '', 'four'], [b'on', b'ones', b'', b'1']),
        Case('Lru', K.Lru(), [K.Lru.LRU_NOMINAL, K.Lru.LRU_ERROR], [2, -1, 'nominal', 'x'],
             [b'', b'Nominal', b'err', b'0', b'1', b'\xff'],
             expect_wire=lambda v, m: {K.Lru.LRU_NOMINAL: b'nominal', K.Lru.LRU_ERROR: b'error'}[v]),
        Case('Address', K.Address(), [
            ('127.0.0.1', 80), ('0.0.0.0', None), ('host.example', 0), ('10.1.2.3', 65535),
            ('::1', 7147), ('fe80::1', None), ('::', 1), ('1:2:3:4:5:6:7:8', None),
            ('%d.%d.%d.%d' % tuple(rng.randrange(256) for _ in range(4)), rng.randrange(65536)),
            (':'.join('%x' % rng.randrange(65536) for _ in range(8)), rng.randrange(65536))],
            ['127.0.0.1', ('a',), ('a', 1, 2), 5],
            [b'1.2.3.4:', b'1.2.3.4:x', b'1.2.3.4:80:90', b'[::1', b'[::1]:', b'[::1]:a', b'[::1]80',
             b'::1', b'1.2.3.4:-1', b'[[::1]]:80'],
            expect_wire=lambda v, m: (('[%s]' if ':' in v[0] else '%s') % v[0]
                                      + ('' if v[1] is None else ':%d' % v[1])).encode()),
        Case('Timestamp', K.Timestamp(), [rnd_ts(rng) for _ in range(8)], ['a', 'now'],
             [b'', b'a', b'1.2.3', b'now', b'\xff', b'1:2'], equal=ts_close),
        Case('TimestampOrNow', K.TimestampOrNow(), [rnd_ts(rng) for _ in range(3)], ['a', 'now'],
             [b'', b'a', b'NOW', b'now ', b'nowt'], equal=ts_close),
        Case('Now', K.TimestampOrNow(), [K.TimestampOrNow.NOW], expect_wire=lambda v, m: b'now',
             equal=lambda a, b, m: a is b),
        Case('StrictTimestamp', K.StrictTimestamp(), [rng.uniform(1, 2e9), rng.uniform(0.001, 1),
                                                      1533117853.25, 0.0],
             [-1.0, -1e-9, 'a'], [b'', b'a', b'1e5', b'-1.0', b'1.2.3', b'.', b'1.', b'inf', b'nan']),
        Case('Struct', K.Struct('>idB'), [(rng.randrange(-2**31, 2**31), rnd_float(rng), rng.randrange(256))],
             [(2**40, 1.0, 1), (1, 2.0), (1, 2.0, 3, 4)], [b'', b'short', b'x' * 14]),
        Case('Regex', K.Regex(r'\d\d:[a-f]+$'), ['12:abc', '00:f'], ['1:a', 'x', '12:g', '12:', ''],
             [b'1:a', b'12:', b'', b'ab:cd', b'12:ag']),
        Case('RegexI', K.Regex(re.compile('ab+', re.I)), ['ab', 'ABBB', 'abbbxyz'], ['a', 'ba', ''],
             [b'a', b'xab', b'']),
    ]
    mv = ['one', 'Two', 'three', 'four']
    pick = rng.sample(mv, rng.randrange(1, 5))
    cases.append(Case('DiscreteMulti', K.DiscreteMulti(mv), [pick, list(reversed(pick))],
                      [['five'], ['one', 'five'], ['ONE']],
                      [b'five', b'one,five', b'ONE', b'one;Two', b''],
                      expect_back=lambda v, m: sorted(v, key=str.lower),
                      expect_wire=lambda v, m: ','.join(sorted(v, key=str.lower)).encode()))
    cases.append(Case('DiscreteMultiSep', K.DiscreteMulti(mv, all_keyword='every', separator='|'),
                      [pick], [['x']], [b'all', b'one,Two', b'x'],
                      expect_back=lambda v, m: sorted(v, key=str.lower),
                      expect_wire=lambda v, m: '|'.join(sorted(v, key=str.lower)).encode()))
    return cases, mv


def check_cross_major(ctx, rng):
    """The same instant is sent in seconds to v5 and milliseconds to v4 peers."""
    for cls in (K.Timestamp, K.TimestampOrNow):
        t = cls()
        for _ in range(6):
            v = rnd_ts(rng)
            for major in (1, 3, 4, 5, 6):
                st, p = call(t.pack, v, major=major)
                if ctx.expect(st == 'ok', 'pack-rejects-legal', 'timestamp %r v%d: %s' % (v, major, st)):
                    ts_wire(ctx, v, p, major)
        for ms in (0, 1, 1009, 1001, rng.randrange(10**13), rng.randrange(10**13)):
            raw = str(ms).encode()
            v = t.unpack(raw, major=4)
            ctx.expect(abs(v - ms / 1000.0) < 1e-9 + abs(v) * 1e-15, 'timestamp-ms',
                       'v4 timestamp %r read as %r s' % (raw, v))
            ctx.expect(t.pack(v, major=4) == raw, 'stable-wire',
                       'v4 timestamp %r is re-sent as %r' % (raw, t.pack(v, major=4)))
        for us in (rng.randrange(10**15) for _ in range(3)):
            raw = ('%d.%06d' % divmod(us, 10**6)).encode()
            v = t.unpack(raw, major=5)
            ctx.expect(t.pack(v, major=5) == raw, 'stable-wire',
                       'v5 timestamp %r is re-sent as %r' % (raw, t.pack(v, major=5)))


def check_sensor(ctx, rng):
    """Sensor readings survive format -> parse for every sensor type and both majors."""
    table = [
        (Sensor.INTEGER, None, [rnd_int(rng) for _ in range(2)]),
        (Sensor.FLOAT, None, [rnd_float(rng) for _ in range(2)]),
        (Sensor.BOOLEAN, None, [True, False]),
        (Sensor.LRU, None, [Sensor.LRU_NOMINAL, Sensor.LRU_ERROR]),
        (Sensor.DISCRETE, ['on', 'off', 'st \u00e9'], ['on', 'off', 'st \u00e9']),
        (Sensor.STRING, None, [rnd_str(rng), '']),
        (Sensor.TIMESTAMP, None, [rnd_ts(rng)]),
        (Sensor.ADDRESS, None, [('1.2.3.4', 5), ('::1', None)]),
    ]
    for stype, params, values in table:
        for major in MAJORS:
            s = Sensor(stype, 'a.b', 'd', '', params)
            r = Sensor(stype, 'a.b', 'd', '', params)
            for value in values:
                ts = rnd_ts(rng)
                status = rng.choice(list(Sensor.STATUSES))
                seen = []

                class Obs(object):
                    def update(self, sensor, reading):
                        seen.append(tuple(reading))
                s.set(ts, status, value)
                raw = s.read_formatted(major)
                ctx.expect(all(isinstance(x, bytes) for x in raw) and len(raw) == 3, 'sensor-format',
                           'read_formatted gave %r' % (raw,))
                o = Obs()
                r.attach(o)
                try:
                    r.set_formatted(*raw, major=major)
                except Exception as e:
                    ctx.violation('sensor-parse', 'own reading %r rejected: %r' % (raw, e))
                    continue
                finally:
                    r.detach(o)
                got = r.read()
                vok = (ts_close(value, got.value, major) if stype == Sensor.TIMESTAMP
                       else same(value, got.value))
                ctx.expect(ts_close(ts, got.timestamp, major) and got.status == status and vok,
                           'sensor-round-trip', 'reading %r became %r (v%d)'
                           % ((ts, status, value), tuple(got), major))
                ctx.expect(seen == [tuple(got)], 'sensor-notify', 'observer saw %r' % (seen,))
                ctx.case(('sensor', stype, major, raw))
            ctx.expect(Sensor.parse_type(s.stype) == stype, 'sensor-type', 'type %r' % s.stype)
    # ranges of numeric sensors are parsed back to what was declared
    lo, hi = sorted([rng.randrange(-50, 50), rng.randrange(-50, 50)])
    s = Sensor(Sensor.INTEGER, 'x', params=[lo, hi])
    ctx.expect(Sensor.parse_params(Sensor.INTEGER, s.formatted_params) == [lo, hi], 'sensor-params',
               'params %r came back as %r' % ([lo, hi], s.formatted_params))
    s = Sensor(Sensor.DISCRETE, 'x', params=['a', 'b c'])
    ctx.expect(Sensor.parse_params(Sensor.DISCRETE, s.formatted_params) == ['a', 'b c'], 'sensor-params',
               'params came back as %r' % (s.formatted_params,))
    # discrete sensors refuse values outside their set, both ways
    for bad in ('c', 'A', '', 'b'):
        try:
            s.set_value(bad)
            ctx.violation('sensor-accepts-illegal', 'discrete sensor took %r' % bad)
        except ValueError:
            ctx.observe('illegal_values_tried')
        try:
            s.parse_value(bad.encode())
            ctx.violation('sensor-accepts-illegal', 'discrete sensor parsed %r' % bad)
        except ValueError:
            ctx.observe('illegal_wire_tried')


def run(ctx):
    ctx.rule = ('each KATCP type with generated legal values, illegal values and illegal wire strings '
                'for protocol majors 4 and 5; non-trivial: distinct (type, major, packed value)')
    ctx.assumptions = ['StrictTimestamp values lie in the range python prints without exponent',
                       'DiscreteMulti values are non-empty and free of the separator']
    rng = ctx.rng
    mk = [
        ('Int', lambda **k: K.Int(min=-5, max=5, **k), 3),
        ('Float', lambda **k: K.Float(min=-5, max=5, **k), 2.5),
        ('Bool', K.Bool, True), ('Str', K.Str, 'hello there'),
        ('Discrete', lambda **k: K.Discrete(['a', 'b'], **k), 'b'),
        ('Lru', K.Lru, K.Lru.LRU_ERROR), ('Address', K.Address, ('h', 5)),
        ('Timestamp', K.Timestamp, 1533117853.25), ('TimestampOrNow', K.TimestampOrNow, 12.5),
        ('StrictTimestamp', K.StrictTimestamp, 12.5), ('Struct', lambda **k: K.Struct('>i', **k), (7,)),
        ('Regex', lambda **k: K.Regex('a+', **k), 'aa'),
        ('DiscreteMulti', lambda **k: K.DiscreteMulti(['a', 'b'], **k), ['a', 'b']),
    ]
    for major in MAJORS:
        for name, make, legal in mk:
            check_defaults(ctx, name, make, legal, major)
    # defaults are validated too
    for t in (K.Int(min=0, max=3, default=9), K.Float(min=0, max=3, default=9.0),
              K.Discrete(['a'], default='b')):
        for fn in (t.pack, t.unpack):
            st, r = call(fn, None)
            ctx.expect(st == 'ValueError', 'default-unchecked', '%s default outside range accepted: %r'
                       % (t.name, r))
    n = 0
    while ctx.more(n, 700, 12000, quick_s=60, thorough_s=240):
        cases, mv = build(rng)
        for c in cases:
            for major in MAJORS:
                for v in c.legal:
                    check_case(ctx, c, v, major)
                if n < 150 or n % 10 == 0:
                    for v in c.illegal:
                        check_illegal(ctx, c, v, major)
                    for w in c.bad_wire:
                        check_bad_wire(ctx, c, w, major)
        if n < 2:
            ctx.sample({'types': [(c.name, repr(c.legal)[:120]) for c in cases[:8]]})
        dm = K.DiscreteMulti(mv)
        ctx.expect(dm.unpack(b'all') == sorted(mv, key=str.lower), 'multi-all', 'all -> %r' % dm.unpack(b'all'))
        ctx.expect(dm.unpack(b' four , one') == ['four', 'one'], 'multi-strip',
                   'spaces -> %r' % dm.unpack(b' four , one'))
        check_cross_major(ctx, rng)
        if n % 4 == 0:
            check_sensor(ctx, rng)
        n += 1
