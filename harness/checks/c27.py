"""C27: a fake client shows, and answers with, exactly what it was given.

Fake inspecting clients, resources and containers are given sensors and request handlers at random
times on a virtual-time loop (no sockets).  Monitors: a model of everything given so far, compared with
the names, descriptions, units, types, parameters and help texts that the faked client shows once it is
synchronised, with the answers of its help and sensor-list requests, and with what every handler received.
"""
import threading
import types

import tornado.gen

from katcp import Message, Sensor, fake_clients
from katcp.inspecting_client import InspectingClientAsync
from katcp.kattypes import Int, Str, request, return_reply
from katcp.resource_client import KATCPClientResource, KATCPClientResourceContainer

from .. import vloop
from . import wire

SNAMES = ['temp', 'rack.temp', 'a-b', 'a.b-c', 'x', 'keys', 'Big', 'fan-speed', 'status', 'an-int']
RNAMES = ['go', 'set-level', 'x', 'a-b-c', 'keys', 'capture-start', 'status2', 'echo']
TYPES = ['integer', 'float', 'boolean', 'lru', 'discrete', 'string', 'timestamp', 'address']


def esc(name):
    return name.replace('.', '_').replace('-', '_')


def text(x):
    return x.decode('utf-8') if isinstance(x, bytes) else str(x)


class Fake(object):
    """One fake inspecting client with what it was given."""

    def __init__(self, name):
        self.name = name
        self.sensors, self.handlers = {}, {}
        self.received, self.plans = {}, {}


class Scenario(object):
    def __init__(self, ctx, rng, i):
        self.ctx, self.rng, self.i = ctx, rng, i
        self.clock = vloop.Clock(start=3000.0)
        self.clock.idle_wait = 0.01
        self.loop = vloop.VLoop(clock=self.clock)
        self.loop.make_current()
        self.problems, self.steps = [], []
        self.kind = rng.choice(['client', 'resource', 'resource', 'container'])
        self.uid = self.calls = 0
        self.early = rng.random() < 0.5
        make = self.spec
        if self.kind == 'client':
            self.top, self.manager = fake_clients.fake_inspecting_client_factory(
                InspectingClientAsync, {}, 'fake-host', 1234, ioloop=self.loop)
            self.fakes = [Fake(None)]
        elif self.kind == 'resource':
            self.top, self.manager = fake_clients.fake_KATCP_client_resource_factory(
                KATCPClientResource, {}, make('dev'))
            self.fakes = [Fake(None)]
        else:
            names = rng.sample(['dev', 'dev-2', 'other', 'a.b'], rng.choice([1, 2, 3]))
            self.top, self.manager = fake_clients.fake_KATCP_client_resource_container_factory(
                KATCPClientResourceContainer, {}, dict(name='top', clients=dict((n, make(None)) for n in names)))
            self.fakes = [Fake(esc(n)) for n in names]

    def spec(self, name):
        d = dict(address=('fake-host', 1234), controlled=True)
        if name:
            d['name'] = name
        return d

    def bad(self, key, text):
        self.problems.append((key, text))

    # -- giving -----------------------------------------------------------------------------
    def sensor(self):
        rng = self.rng
        form = rng.choice([lambda x: x, text, lambda x: text(x).encode('utf-8')])
        desc = rng.choice(['A sensor %d.' % rng.randrange(100), '', u'caf\xe9 \\ \t.', 'two  spaces'])
        units = rng.choice(['', 'm/s', 'things', u'\xb0C'])
        stype = rng.choice(TYPES)
        if stype == 'timestamp':
            units = ''                  # they have none of their own
        params = {'integer': [[], [0, 10], [-5, 7]], 'float': [[], [-1.5, 2.25], [0, 1e6]],
                  'discrete': [['one', 'two', 'three'], ['a b', 'c']]}.get(stype, [[]])
        params = rng.choice(params)
        info = tuple(form(x) for x in [desc, units, stype] + params)
        want = [int(p) if stype == 'integer' else float(p) if stype == 'float' else p for p in params]
        return info, (desc, units, stype, want)

    def handler(self, fake, name):
        """A request handler as users write them, and its help text."""
        rng = self.rng
        doc = rng.choice(['Does %s %d.' % (name, rng.randrange(1000)), 'First line.\n\n    More on %s.\n    ' % name, u'Caf\xe9.'])
        kind = rng.choice(['message', 'async', 'future', 'typed', 'typed-async'])

        def serve(req, msg):
            uid = msg.arguments[0] if msg.arguments else None
            fake.received.setdefault(uid, []).append((name, list(msg.arguments), msg.mid))
            plan = fake.plans.get(uid)
            if plan is None:
                self.bad('stray', 'the handler of %s got %s, which nobody sent' % (name, msg))
                return ['fail', 'stray'], 0, []
            informs, reply, delay = plan
            now = len(informs) // 2 if kind in ('async', 'future', 'typed-async') else len(informs)
            for a in informs[:now]:
                req.inform(*a)
            return reply, delay, informs[now:]

        def finish(req, rest):
            for a in rest:
                req.inform(*a)
        if kind == 'message':
            def h(req, msg):
                reply, _, _ = serve(req, msg)
                return req.make_reply(*reply) if rng.random() < 0.5 else Message.reply_to_request(msg, *reply)
        elif kind == 'async':
            @tornado.gen.coroutine
            def h(req, msg):
                reply, delay, rest = serve(req, msg)
                yield tornado.gen.sleep(delay)
                finish(req, rest)
                raise tornado.gen.Return(req.make_reply(*reply))
        elif kind == 'future':
            def h(req, msg):
                f = tornado.gen.Future()
                reply, delay, rest = serve(req, msg)

                def done():
                    finish(req, rest)
                    f.set_result(Message.reply_to_request(msg, *reply))
                self.loop.call_later(delay, done)
                return f
        elif kind == 'typed':
            def h(self, req, *args):
                reply, _, _ = serve(req, req.msg)
                return tuple(reply)
        else:
            @tornado.gen.coroutine
            def h(self, req, *args):
                reply, delay, rest = serve(req, req.msg)
                yield tornado.gen.sleep(delay)
                finish(req, rest)
                raise tornado.gen.Return(tuple(reply))
        h.__doc__ = doc
        if 'typed' in kind:
            h.__name__ = 'request_' + name.replace('-', '_')
            h = request(Str(multiple=True))(return_reply(Str(multiple=True))(h))
            h = types.MethodType(h, self)
        return h, (kind, doc.strip())

    def manage(self, fake, what, *args):
        if fake.name is not None:
            args = (fake.name,) + args
        return getattr(self.manager, what)(*args)

    def give(self, fake):
        rng = self.rng
        what = rng.choice(['sensors', 'sensors', 'dict', 'object', 'bad-sensors', 'bad-handler'])
        self.steps.append(what)
        if what == 'sensors':
            new, model = {}, {}
            for n in rng.sample(SNAMES, rng.choice([1, 1, 2, 5])):
                new[n], model[n] = self.sensor()
            self.manage(fake, 'add_sensors', new)
            fake.sensors.update(model)
        elif what == 'dict':
            new, model = {}, {}
            for n in rng.sample(RNAMES, rng.choice([1, 2, 4])):
                new[n], model[n] = self.handler(fake, n)
            self.manage(fake, 'add_request_handlers_dict', new)
            fake.handlers.update(model)
        elif what == 'object':
            class Handlers(object):
                request_level = 5           # not a handler

                def helper(self, req, msg):
                    pass
            obj = Handlers()
            for n in rng.sample([n for n in RNAMES], rng.choice([1, 3])):
                h, model = self.handler(fake, n)
                setattr(obj, 'request_' + n.replace('-', '_'), h)
                fake.handlers[n] = model
            self.manage(fake, 'add_request_handlers_object', obj)
        elif what == 'bad-sensors':
            new = dict((n, self.sensor()[0]) for n in rng.sample(SNAMES, 2))
            new[rng.choice(list(new))] = rng.choice([('d', 'u', 'no-such-type'), ('d', 'u', 'integer', 'low', 'high')])
            try:
                self.manage(fake, 'add_sensors', new)
            except Exception:
                self.ctx.observe('invalid_sensors_refused')
            else:
                self.bad('accepts', 'a sensor that cannot be was accepted: %r' % (new,))
        else:
            def h(req, msg):
                return req.make_reply('ok')
            new = dict((n, self.handler(fake, n)[0]) for n in rng.sample(RNAMES, 2))
            new['undocumented'] = h
            try:
                self.manage(fake, 'add_request_handlers_dict', new)
            except AssertionError:
                self.ctx.observe('undocumented_handlers_refused')
            else:
                self.bad('accepts', 'a handler without a docstring was accepted')
        self.ctx.observe('given_' + what)

    # -- looking ----------------------------------------------------------------------------------
    def client(self, fake):
        if self.kind == 'client':
            return self.top
        return self.resource(fake)._inspecting_client

    def resource(self, fake):
        return self.top.children[fake.name] if fake.name is not None else self.top

    @tornado.gen.coroutine
    def settle(self):
        yield tornado.gen.sleep(1)
        try:
            yield self.top.until_synced(timeout=60)
            for f in self.fakes:
                yield self.client(f).until_synced(timeout=60)
        except tornado.gen.TimeoutError:
            self.bad('sync', 'does not synchronise')
            raise
        yield tornado.gen.sleep(0.01)

    def same_sensor(self, name, got, want):
        if got != want:
            self.bad('sensor', 'the sensor %s was given as %r and is shown as %r' % (name, want, got))

    @tornado.gen.coroutine
    def look(self, fake):
        rng = self.rng
        ic = self.client(fake)
        requests = dict((n, doc) for n, (_, doc) in fake.handlers.items())
        requests.setdefault('help', None)
        requests.setdefault('sensor-list', None)
        for what, got, want in [('sensors', ic.sensors, fake.sensors), ('requests', ic.requests, requests)]:
            if sorted(got) != sorted(want):
                self.bad('names', 'the %s given are %s, shown are %s' % (what, sorted(want), sorted(got)))
        if not ic.is_connected() or not ic.synced:
            self.bad('state', 'not connected or not synchronised at rest')
        for n in fake.sensors:
            s = yield ic.future_get_sensor(n)
            if s is None:
                self.bad('sensor', 'there is no object for the sensor %s' % n)
                continue
            self.same_sensor(n, self.shown(s), fake.sensors[n])
        for n, doc in requests.items():
            r = yield ic.future_get_request(n)
            if r is None or r.name != n or (doc is not None and r.description.strip() != doc) or r.timeout_hint is not None:
                self.bad('request', 'the request %s with the help text %r is shown as %r' % (
                    n, doc, r and (r.name, r.description, r.timeout_hint)))
        for n in ['never'] + rng.sample(SNAMES, 2):
            known = yield ic.future_check_sensor(n)
            if bool(known) != (n in fake.sensors):
                self.bad('lookup', 'looking up the sensor %s gives %r' % (n, known))
        for n in ['never'] + rng.sample(RNAMES, 2):
            known = yield ic.future_check_request(n)
            if bool(known) != (n in requests):
                self.bad('lookup', 'looking up the request %s gives %r' % (n, known))
        if self.kind != 'client':
            res = self.resource(fake)
            if sorted(dict.keys(res.sensor)) != sorted(set(map(esc, fake.sensors))) or \
                    sorted(dict.keys(res.req)) != sorted(set(map(esc, requests))):
                self.bad('names', 'the resource shows the sensors %s and requests %s' % (
                    sorted(dict.keys(res.sensor)), sorted(dict.keys(res.req))))
        self.ctx.observe('interfaces_compared')

    def shown(self, s):
        if self.kind == 'client':
            params = [text(p) if isinstance(p, bytes) else p for p in s.params]
            return (s.description, s.units, s.stype, params)
        params = [text(p) if isinstance(p, bytes) else p for p in s._sensor.params]
        return (s.description, s.units, s.type if isinstance(s.type, str) else
                [k for k, v in Sensor.SENSOR_TYPE_LOOKUP.items()][0], params)

    # -- asking -----------------------------------------------------------------------------------
    @tornado.gen.coroutine
    def ask(self, fake):
        rng = self.rng
        ic = self.client(fake)
        what = rng.choice(['own', 'own', 'own', 'help', 'sensor-list', 'unknown'])
        res = None if self.kind == 'client' else self.resource(fake)
        known = dict((n, d) for n, d in fake.handlers.items())
        if what == 'own' and not known:
            what = 'unknown'
        mid = rng.choice([None, None, 77, '123', b'9999999'])
        self.calls += 1

        def send(name, *args):
            kw = {} if mid is None else {'mid': mid}
            if res is not None and rng.random() < 0.6 and name in ic.requests:
                return getattr(res.req, esc(name))(*args, **kw) if list(map(esc, ic.requests)).count(esc(name)) == 1 else \
                    ic.simple_request(name, *args, **kw)
            return rng.choice([ic.simple_request, getattr(ic, 'wrapped_request', ic.simple_request)])(name, *args, **kw)
        if what == 'own':
            name = rng.choice(sorted(known))
            self.uid += 1
            uid = b'u%d' % self.uid
            kind = known[name][0]
            arg = (lambda: wire.gen_arg(rng)) if 'typed' not in kind else (lambda: rng.choice(
                [u'caf\xe9', 'two words', '', 'a\\b', 'x\ty']).encode('utf-8'))
            args = [arg() for _ in range(rng.choice([0, 1, 3]))]
            informs = [[b'i%d' % k, arg()] for k in range(rng.choice([0, 0, 1, 4]))]
            status = rng.choice([b'ok', b'ok', b'fail', b'invalid' if 'typed' not in kind else b'fail'])
            reply = [status] + [arg() for _ in range(rng.choice([0 if 'typed' not in kind else 3, 1, 2]) if status == b'ok' else 1)]
            plain = [text(a) for a in reply] if 'typed' in kind else reply
            delay = rng.choice([0, 0.1, 3])
            fake.plans[uid] = (informs, plain, delay)
            r, i = yield send(name, uid, *args)
            got = fake.received.get(uid, [])
            if len(got) != 1 or got[0][:2] != (name, [uid] + args):
                self.bad('received', 'the request %s with %r was received as %r' % (name, args, got))
            elif mid is not None and got[0][2] != text(mid).encode() and got[0][2] != text(mid):
                self.bad('received', 'the request %s with the id %r was received with %r' % (name, mid, got[0][2]))
            self.answer(name, r, i, reply, informs, mid)
        elif what == 'help':
            if rng.random() < 0.5 and known:
                name = rng.choice(sorted(known))
                r, i = yield send('help', name)
                self.answer('help', r, i, [b'ok', b'1'], [[name.encode(), known[name][1].encode('utf-8')]], mid)
            else:
                r, i = yield send('help')
                names = sorted(set(known) | set(['help', 'sensor-list']))
                self.answer('help', r, i, [b'ok', b'%d' % len(names)], None, mid)
                if [text(m.arguments[0]) for m in i] != names:
                    self.bad('help', 'help lists %r, the requests are %s' % ([m.arguments[0] for m in i], names))
        elif what == 'sensor-list':
            some = rng.choice([None, rng.choice(SNAMES), 'never'])
            if some is None:
                r, i = yield send('sensor-list')
                self.answer('sensor-list', r, i, [b'ok', b'%d' % len(fake.sensors)], None, mid)
                if sorted(text(m.arguments[0]) for m in i) != sorted(fake.sensors):
                    self.bad('list', 'sensor-list gives %s' % [str(m) for m in i])
            else:
                r, i = yield send('sensor-list', some)
                if some in fake.sensors:
                    self.answer('sensor-list', r, i, [b'ok', b'1'], None, mid)
                    d = fake.sensors[some]
                    if len(i) != 1 or [text(a) for a in i[0].arguments[:4]] != [some, d[0], d[1], d[2]]:
                        self.bad('list', 'sensor-list %s gives %s' % (some, [str(m) for m in i]))
                else:
                    if r.reply_ok() or i:
                        self.bad('list', 'sensor-list of the unknown sensor %s gives %s' % (some, r))
        else:
            r, i = yield ic.simple_request('no-such-request', 'x', **({} if mid is None else {'mid': mid}))
            self.answer('no-such-request', r, i, [b'ok'], [], mid)
        self.ctx.observe('asked_' + what)

    def answer(self, name, r, i, reply, informs, mid):
        if (r.mtype, r.name, list(r.arguments)) != (Message.REPLY, name, reply):
            self.bad('answer', 'the request %s should be answered %r, and was by %s' % (name, reply, r))
        if any(m.mtype != Message.INFORM or m.name != name for m in i) or \
                (informs is not None and [list(m.arguments) for m in i] != informs):
            self.bad('informs', 'the informs of %s should be %r, and are %s' % (name, informs, [str(m) for m in i]))
        if len(set([r.mid] + [m.mid for m in i])) != 1 or (mid is not None and text(r.mid) != text(mid)):
            self.bad('mid', 'the answer to %s with the id %r is %s with %s' % (name, mid, r, [str(m) for m in i]))

    # -- driving ----------------------------------------------------------------------------------
    @tornado.gen.coroutine
    def drive(self):
        rng = self.rng
        if self.kind == 'client':
            if self.early:
                for _ in range(rng.randrange(3)):
                    self.give(self.fakes[0])
            self.top.connect()
        else:
            self.top.set_ioloop(self.loop)
            self.top.start()
            if not self.early:
                yield tornado.gen.sleep(rng.choice([0, 0.1]))
        for _ in range(rng.randrange(2, 6)):
            for _ in range(rng.choice([0, 1, 1, 3])):
                self.give(rng.choice(self.fakes))
                if rng.random() < 0.5:
                    yield tornado.gen.sleep(rng.choice([0, 0.001, 0.3]))
            yield self.settle()
            for f in self.fakes:
                yield self.look(f)
            for _ in range(rng.choice([1, 3, 6])):
                yield self.ask(rng.choice(self.fakes))
        self.top.stop()
        fs = self.top.until_stopped(timeout=10)
        try:
            yield (fs if not isinstance(fs, dict) else list(fs.values()))
        except tornado.gen.TimeoutError:
            self.bad('stop', 'until_stopped() of a stopped fake %s does not resolve' % self.kind)
        self.ctx.observe('stopped')

    def run(self):
        fut = []

        def go():
            fut.append(self.drive())
            fut[0].add_done_callback(lambda f: self.loop.stop())
        self.loop.add_callback(go)
        guard = threading.Timer(60, lambda: self.loop.add_callback_from_signal(self.loop.stop))
        guard.daemon = True
        guard.start()
        self.loop.start()
        guard.cancel()
        if not fut or not fut[0].done():
            self.bad('never-ends', 'the scenario did not end (%s)' % self.steps[-3:])
        elif fut[0].exception() is not None:
            if not self.problems:
                fut[0].result()
        self.loop.clear_current()
        self.loop.close(all_fds=True)
        if self.clock.runaway:
            self.bad('never-rests', 'the event loop never rests (%s)' % self.steps[-3:])
        return self.problems


def run(ctx):
    ctx.rule = 'a scenario is distinct by the kind of fake and the sequence of things given to it'
    ctx.assumptions = [
        'sensors and handlers are given from the thread of the event loop',
        'requests that the fake has no handler for are answered with a plain ok']
    i = 0
    while ctx.more(i, 500, 12000, quick_s=40, thorough_s=300):
        s = Scenario(ctx, ctx.subrng('s', i), i)
        for key, text in s.run()[:3]:
            ctx.violation(key, 'scenario %d (%s): %s' % (i, s.kind, text), steps=s.steps)
        ctx.observe('calls', s.calls)
        ctx.observe('oracle_evaluations', s.calls + len(s.steps))
        ctx.case((s.kind, s.early, tuple(s.steps), tuple(sorted((f.name or '', tuple(sorted(f.sensors)), tuple(sorted(f.handlers)))
                                                                for f in s.fakes))))
        ctx.sample({'fake': s.kind, 'steps': s.steps, 'calls': s.calls})
        i += 1
        if len(ctx.violations) > 4:
            break
