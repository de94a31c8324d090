"""C04: handler decorators enforce declared parameter and reply types."""
import tornado.concurrent
from tornado import gen

from katcp import Message
from katcp import kattypes as K
from katcp.core import FailReply

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps']

# kind -> (constructor kwargs -> type, good wire -> python, bad wire list, python -> wire, bad python)
KINDS = {
    'int': (lambda **k: K.Int(min=-100, max=100, **k), [(b'5', 5), (b'-100', -100), (b'0', 0)],
            [b'x', b'101', b'-101', b'', b'1.5'], [(7, b'7'), (-100, b'-100')], [101, 'x'], 42),
    'float': (lambda **k: K.Float(min=0.0, **k), [(b'1.5', 1.5), (b'0', 0.0), (b'1e3', 1000.0)],
              [b'x', b'-1', b'', b'nan'], [(2.5, b'2.5'), (3, b'3.0')], [-1.0, 'a'], 9.25),
    'bool': (K.Bool, [(b'1', True), (b'0', False)], [b'2', b'', b'True'],
             [(True, b'1'), (False, b'0')], [], True),
    'str': (K.Str, [(b'abc', 'abc'), (b'', ''), (b'caf\xc3\xa9', 'caf\u00e9'), (b' a b', ' a b')],
            [b'\xff'], [('x y', b'x y'), ('', b''), (b'raw', b'raw')], [], 'dflt'),
    'disc': (lambda **k: K.Discrete(['on', 'off'], **k), [(b'on', 'on'), (b'off', 'off')],
             [b'ON', b'', b'o'], [('on', b'on')], ['x'], 'off'),
    'addr': (K.Address, [(b'1.2.3.4:5', ('1.2.3.4', 5)), (b'h', ('h', None))], [b'h:', b'[x'],
             [(('a', 1), b'a:1')], [5], ('d', 1)),
    'ts': (K.Timestamp, [(None, None)], [b'x', b''], [(None, None)], ['q'], 1.5),
}
TS = {5: ([(b'12.500000', 12.5), (b'0.25', 0.25)], [(12.5, b'12.500000')]),
      4: ([(b'12500', 12.5), (b'250', 0.25)], [(12.5, b'12500')])}


class Req(object):
    def __init__(self, msg):
        self.msg = msg
        self.replied = []

    def reply_with_message(self, m):
        self.replied.append(m)


def gen_sig(rng, major):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    kinds, types, specs = [], [], []
    for i in range(n):
        kind = rng.choice(sorted(KINDS))
        kw = {}
        style = rng.choice(['req', 'req', 'default', 'optional', 'both'])
        default = KINDS[kind][5]
        if style in ('default', 'both'):
            kw['default'] = default
        if style in ('optional', 'both'):
            kw['optional'] = True
        multiple = i == n - 1 and rng.random() < 0.4
        if multiple:
            kw['multiple'] = True
        types.append(KINDS[kind][0](**kw))
        specs.append((kind, kw.get('default'), bool(kw.get('optional')), multiple))
    return types, specs


def goods(kind, major):
    return TS[major][0] if kind == 'ts' else KINDS[kind][1]


def outs(kind, major):
    return TS[major][1] if kind == 'ts' else KINDS[kind][3]


def gen_args(rng, specs, major):
    """Wire arguments and the model's verdict: list of values or None (= fail)."""
    multiple = bool(specs) and specs[-1][3]
    n = max(0, len(specs) + rng.choice([0, 0, 0, 0, -1, -2, 1, 2, 4 if multiple else 1]))
    args, vals, bad = [], [], None
    for i in range(n):
        kind = specs[min(i, len(specs) - 1)][0] if specs else 'str'
        if rng.random() < 0.12:
            args.append(rng.choice(KINDS[kind][2]))
            if bad is None and (i < len(specs) or multiple):
                bad = i + 1
            vals.append(None)
        else:
            w, v = rng.choice(goods(kind, major))
            args.append(w)
            vals.append(v)
    if n > len(specs) and not multiple:
        return args, None, None
    for i in range(n, len(specs)):
        kind, default, optional, _m = specs[i]
        if default is not None:
            vals.append(default)
        elif optional:
            vals.append(None)
        else:
            if bad is None:
                bad = i + 1
            vals.append(None)
    if bad is not None:
        return args, None, bad
    return args, vals, None


def gen_reply(rng, major):
    types, specs = gen_sig(rng, major)
    multiple = bool(specs) and specs[-1][3]
    n = max(0, len(specs) + rng.choice([0, 0, 0, 0, -1, 1, 2]))
    vals, wires, bad = [], [], n > len(specs) and not multiple
    for i in range(n):
        kind = specs[min(i, len(specs) - 1)][0] if specs else 'str'
        if rng.random() < 0.08 and KINDS[kind][4] and (i < len(specs) or multiple):
            vals.append(rng.choice(KINDS[kind][4]))
            wires.append(None)
            bad = True
        else:
            v, w = rng.choice(outs(kind, major))
            vals.append(v)
            wires.append(w)
    for i in range(n, len(specs)):
        kind, default, optional, _m = specs[i]
        if default is None:
            bad = True
            wires.append(None)
        else:
            wires.append(KINDS[kind][0]().pack(default, major=major))
    return types, vals, None if bad else wires


def one(ctx, rng):
    major = rng.choice([4, 5, 5])
    types, specs = gen_sig(rng, major)
    rtypes, rvals, rwires = gen_reply(rng, major)
    include_msg = rng.random() < 0.3
    outer_request = rng.random() < 0.5
    result_kind = rng.choice(['ok', 'ok', 'ok', 'fail', 'failbad', 'garbage', 'raise'])
    is_async = rng.choice([None, 'future', 'coroutine'])
    concurrent = rng.random() < 0.3
    got = []
    if result_kind == 'ok':
        ret = ('ok',) + tuple(rvals)
    elif result_kind == 'fail':
        ret = ('fail', 'because \u00e9 reasons')
    elif result_kind == 'failbad':
        ret = ('fail', 'a', 'b')
    elif result_kind == 'garbage':
        ret = (rng.choice(['OK', 'error', '', 'okay']), 'x')
    else:
        ret = None

    def body(params):
        got.append(params)
        if result_kind == 'raise':
            raise FailReply('told you')
        return ret

    if include_msg:
        def request_do_it(self, req, msg, alpha=None, beta=None, gamma=None, delta=None, *rest):
            """Doc of do-it."""
            return body((self, req, msg, (alpha, beta, gamma, delta) + rest))
    else:
        def request_do_it(self, req, alpha=None, beta=None, gamma=None, delta=None, *rest):
            """Doc of do-it."""
            return body((self, req, None, (alpha, beta, gamma, delta) + rest))
    h = request_do_it
    if is_async == 'coroutine':
        h = gen.coroutine(h)
        # tornado's wrapper hides argument names; documented use keeps them through __wrapped__
    elif is_async == 'future':
        inner = h

        def request_do_it(self, *a):
            """Doc of do-it."""
            f = tornado.concurrent.Future()
            try:
                r = inner(self, *a)
            except FailReply:
                raise
            f.set_result(r)
            return f
        h = request_do_it
    if concurrent:
        h = K.concurrent_reply(h)
    dr = K.request(*types, include_msg=include_msg, major=major)
    dp = K.return_reply(*rtypes, major=major)
    h = dr(dp(h)) if outer_request else dp(dr(h))

    args, vals, badpos = gen_args(rng, specs, major)
    mid = rng.choice([None, b'17'])
    msg = Message(Message.REQUEST, 'do-it', list(args), mid)
    me, req = object(), Req(msg)
    desc = 'request%r args=%r reply types=%d ret=%r major=%d async=%s outer_request=%s include_msg=%s' % (
        specs, args, len(rtypes), ret, major, is_async, outer_request, include_msg)
    ctx.case(desc)
    try:
        out = h(me, req, msg)
        if isinstance(out, tornado.concurrent.Future) or gen.is_future(out):
            if not out.done():
                ctx.violation('async-pending', 'reply future does not resolve: ' + desc)
                return desc
            ctx.observe('async_replies')
            out = out.result()
        elif is_async:
            ctx.violation('async-lost', 'async handler result is not a future: ' + desc)
            return desc
        res = ('ok', out)
    except FailReply as e:
        res = ('FailReply', str(e))
    except ValueError as e:
        res = ('ValueError', str(e))
    except Exception as e:
        res = (type(e).__name__, str(e))

    if concurrent:
        ctx.expect(getattr(h, '_concurrent_reply', False) is True, 'concurrent-flag',
                   'decoration order loses concurrency mark')
    ctx.expect(h.__doc__ == 'Doc of do-it.' and h.__name__ == 'request_do_it', 'doc',
               'decorated handler lost name or docstring')
    ctx.expect(list(msg.arguments) == list(args) and msg.mid == mid, 'request-mutated',
               'request message was changed')
    if vals is None:
        ctx.observe('requests_refused')
        ctx.expect(res[0] == 'FailReply', 'bad-args-accepted',
                   'bad parameters not answered by a failure: %s -> %r' % (desc, res))
        ctx.expect(not got, 'handler-called', 'handler ran in spite of bad parameters: ' + desc)
        if badpos is not None and res[0] == 'FailReply':
            ctx.expect('parameter %d ' % badpos in res[1], 'error-position',
                       'failure text %r does not name parameter %d' % (res[1], badpos))
        return desc
    ctx.observe('requests_accepted')
    if not ctx.expect(len(got) == 1, 'handler-not-called',
                      'handler ran %d times for good parameters: %s -> %r' % (len(got), desc, res)):
        return desc
    gself, greq, gmsg, gvals = got[0]
    exp = tuple(vals) + (None,) * max(0, 4 - len(vals))
    ctx.expect(gself is me and greq is req and (gmsg is msg if include_msg else gmsg is None),
               'handler-context', 'wrong self/req/msg passed: ' + desc)
    ctx.expect(repr(gvals) == repr(exp), 'handler-values', 'handler got %r, expected %r: %s'
               % (gvals, exp, desc))
    if result_kind == 'raise':
        ctx.expect(res == ('FailReply', 'told you'), 'fail-reply', 'FailReply became %r' % (res,))
    elif result_kind == 'fail':
        ok = res[0] == 'ok' and isinstance(res[1], Message) and res[1].mtype == Message.REPLY \
            and res[1].name == 'do-it' and res[1].arguments == [b'fail', 'because \u00e9 reasons'.encode('utf-8')]
        ctx.expect(ok, 'fail-return', '%r became %r' % (ret, res))
    elif result_kind == 'ok' and rwires is not None:
        ok = res[0] == 'ok' and isinstance(res[1], Message) and res[1].mtype == Message.REPLY \
            and res[1].name == 'do-it' and list(res[1].arguments) == [b'ok'] + rwires
        ctx.expect(ok, 'reply-values', 'return %r became %r, expected arguments %r: %s'
                   % (ret, res, [b'ok'] + rwires if rwires else rwires, desc))
        ctx.observe('replies_packed')
    else:
        ctx.observe('bad_replies_refused')
        ctx.expect(res[0] != 'ok', 'bad-reply-sent', 'return value %r not matching %r became %r'
                   % (ret, [t.name for t in rtypes], res))
    return desc


def inform_handlers(ctx, rng):
    major = rng.choice([4, 5])
    types, specs = gen_sig(rng, major)
    args, vals, badpos = gen_args(rng, specs, major)
    deco = rng.choice([K.inform, K.unpack_message])
    include_msg = rng.random() < 0.5
    got = []
    if include_msg:
        def inform_x(self, msg, alpha=None, beta=None, gamma=None, delta=None, *rest):
            got.append((self, msg, (alpha, beta, gamma, delta) + rest))
    else:
        def inform_x(self, alpha=None, beta=None, gamma=None, delta=None, *rest):
            got.append((self, None, (alpha, beta, gamma, delta) + rest))
    h = deco(*types, include_msg=include_msg, major=major)(inform_x)
    msg = Message(Message.INFORM, 'x', list(args))
    me = object()
    try:
        h(me, msg)
        res = 'ok'
    except FailReply:
        res = 'FailReply'
    ctx.case(('inform', repr(specs), repr(args), include_msg, major))
    if vals is None:
        ctx.expect(res == 'FailReply' and not got, 'inform-bad', 'bad inform accepted %r %r' % (specs, args))
    else:
        exp = tuple(vals) + (None,) * max(0, 4 - len(vals))
        ctx.expect(res == 'ok' and len(got) == 1 and got[0][0] is me
                   and got[0][1] is (msg if include_msg else None) and repr(got[0][2]) == repr(exp),
                   'inform-values', 'inform handler got %r, expected %r' % (got, exp))


def send_replies(ctx, rng):
    major = rng.choice([4, 5])
    rtypes, rvals, rwires = gen_reply(rng, major)
    req = Req(Message.request('other-name', mid=3))
    ret = (req, 'ok') + tuple(rvals)

    @K.send_reply(*rtypes, major=major)
    def callback(self, x):
        return ret
    try:
        callback(None, 1)
        res = 'ok'
    except Exception as e:
        res = type(e).__name__
    ctx.case(('send', repr(ret[1:]), repr(rwires)))
    if rwires is None:
        ctx.expect(res != 'ok' and not req.replied, 'send-bad', 'bad reply sent %r' % (req.replied,))
    else:
        ctx.expect(res == 'ok' and len(req.replied) == 1 and req.replied[0].name == 'other-name'
                   and list(req.replied[0].arguments) == [b'ok'] + rwires, 'send-values',
                   'send_reply of %r gave %s %r' % (ret[1:], res, req.replied))


def packs(ctx, rng):
    """unpack_types inverts pack_types for matching argument lists."""
    major = rng.choice([4, 5])
    types, specs = gen_sig(rng, major)
    vals = []
    n = len(specs) + (rng.randrange(4) if specs and specs[-1][3] else 0)
    for i in range(n):
        w, v = rng.choice(goods(specs[min(i, len(specs) - 1)][0], major))
        vals.append(v)
    raw = K.pack_types(types, vals, major)
    back = K.unpack_types(types, raw, NAMES, major)
    ctx.case(('packs', repr(specs), repr(vals), major))
    ctx.expect(repr(back) == repr(vals), 'pack-unpack', 'pack/unpack of %r gave %r' % (vals, back))


def static_rules(ctx):
    for deco in (K.request, K.return_reply, K.inform):
        try:
            deco(K.Int(multiple=True), K.Int())
            ctx.violation('multiple-not-last', 'non-final multiple parameter accepted')
        except TypeError:
            ctx.observe('bad_signatures_refused')
        try:
            deco(K.Int(), nonsense=1)
            ctx.violation('unknown-option', 'unknown decorator option accepted')
        except TypeError:
            ctx.observe('bad_signatures_refused')
    try:
        K.return_reply()(lambda self, req: None)
        ctx.violation('return-reply-name', 'return_reply accepted on a non-handler')
    except ValueError:
        ctx.observe('bad_signatures_refused')


def run(ctx):
    ctx.rule = ('random handler signatures (types, default/optional/multiple, include_msg, decorator '
                'order, sync/future/coroutine) called with random good, bad, missing and surplus '
                'arguments and returning good and bad values; reference model computes the expected '
                'call and reply; non-trivial: distinct (signature, arguments, return)')
    static_rules(ctx)
    n = 0
    while ctx.more(n, 6000, 120000, quick_s=60, thorough_s=240):
        d = one(ctx, ctx.rng)
        if n < 3:
            ctx.sample(d)
        if n % 3 == 0:
            inform_handlers(ctx, ctx.rng)
            send_replies(ctx, ctx.rng)
            packs(ctx, ctx.rng)
        n += 1
