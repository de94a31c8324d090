"""C16: aggregate sensors always follow their rule and children."""
from katcp import AggregateSensorTree, BooleanSensorTree, Sensor

STATUS = [Sensor.NOMINAL, Sensor.WARN, Sensor.ERROR]


class Watch(Sensor):
    """A sensor that counts its observers."""

    def __init__(self, *a, **kw):
        self.watchers = []
        super(Watch, self).__init__(*a, **kw)

    def attach(self, o):
        super(Watch, self).attach(o)
        if o not in self.watchers:
            self.watchers.append(o)

    def detach(self, o):
        super(Watch, self).detach(o)
        if o in self.watchers:
            self.watchers.remove(o)


def refused(fn, *exc):
    try:
        fn()
    except exc or (ValueError,):
        return True
    return False


def booleans(ctx, rng, label):
    n = rng.choice([3, 5, 8])
    tree = BooleanSensorTree()
    nodes = [Watch(Sensor.BOOLEAN, 'b%d' % i, '', '') for i in range(n)]
    other = Watch(Sensor.INTEGER, 'int', '', '')
    for s in nodes:
        s.set_value(rng.random() < 0.5)
    kids = dict((s, []) for s in nodes)      # the model: parent -> children
    val = dict((s, s.value()) for s in nodes)
    trail = []

    def refresh(changed_parent=None):
        # children have higher numbers than parents
        for s in reversed(nodes):
            if kids[s]:
                val[s] = all(val[c] for c in kids[s])

    def verify(op):
        inside = set(s for s in nodes if kids[s]) | set(c for s in nodes for c in kids[s])
        for s in nodes:
            if kids[s] or s not in loose:
                ctx.expect(s.value() == val[s], 'value', '%s: after %r sensor %s is %r, expected %r (children %r)'
                           % (label, trail[-6:], s.name, s.value(), val[s], [(c.name, c.value()) for c in kids[s]]))
            else:
                val[s] = s.value()
            ctx.expect((s in tree) == (s in inside), 'membership', '%s: after %r: %s in tree is %r' % (label, trail[-6:], s.name, s in tree))
            if s in inside and s in tree:
                ctx.expect(tree.children(s) == set(kids[s]) and tree.parents(s) == set(p for p in nodes if s in kids[p]), 'links',
                           '%s: after %r: %s has children %r parents %r' % (label, trail[-6:], s.name, tree.children(s), tree.parents(s)))
            elif s not in tree:
                ctx.expect(refused(lambda: tree.children(s)) and refused(lambda: tree.parents(s)), 'links', '%s: links of a sensor outside' % label)
            ctx.expect(s.watchers.count(tree) == (1 if s in inside else 0), 'observers', '%s: after %r: the tree observes %s: %r'
                       % (label, trail[-6:], s.name, s.watchers))
        ctx.observe('tree_states_checked')
    for k in range(rng.choice([10, 30, 60])):
        op = rng.choice(['add', 'add', 'add', 'remove', 'set', 'set', 'set', 'formatted', 'same', 'nolink', 'badtype'])
        loose = set()
        a, b = sorted(rng.sample(range(n), 2))
        p, c = nodes[a], nodes[b]
        trail.append((op, p.name, c.name))
        if op == 'add':
            tree.add(p, c)
            if c not in kids[p]:
                kids[p].append(c)
        elif op in ('remove', 'nolink'):
            if op == 'remove':
                links = [(x, y) for x in nodes for y in kids[x]]
                if not links:
                    continue
                p, c = rng.choice(links)
                trail[-1] = (op, p.name, c.name)
                kids[p].remove(c)
                if not kids[p]:
                    loose.add(p)      # nothing is promised for its value
            elif c in kids[p]:
                continue
            tree.remove(p, c)
            if loose:
                for s in loose:
                    val[s] = s.value()
        elif op in ('set', 'formatted', 'same'):
            leaves = [s for s in nodes if not kids[s]]
            s = rng.choice(leaves)
            v = rng.random() < 0.6 if op != 'same' else s.value()
            trail[-1] = (op, s.name, v)
            val[s] = v
            if op == 'formatted':
                s.set_formatted(b'%d' % (1000 + k), b'nominal', b'1' if v else b'0', 5)
            elif rng.random() < 0.3:
                s.set(1000.0 + k, rng.choice(STATUS), v)
            else:
                s.set_value(v, rng.choice(STATUS))
        elif op == 'badtype':
            before = other in tree
            ctx.expect(refused(lambda: tree.add(p, other)), 'type', '%s: a non-boolean child was accepted' % label)
            ctx.expect(refused(lambda: tree.add(other, c)), 'type', '%s: a non-boolean parent was accepted' % label)
            ctx.expect(other not in tree and not before and not other.watchers, 'type', '%s: refused sensor is in the tree' % label)
        refresh()
        verify(op)
        ctx.case('%s %d %r' % (label, k, [(s.name, [c.name for c in kids[s]], val[s]) for s in nodes if kids[s]]))


RULES = {
    'sum': lambda vals: sum(vals),
    'max': lambda vals: max(vals) if vals else 0,
    'count': lambda vals: len(vals),
    'weighted': lambda vals: sum(vals) * 3 + len(vals),
}


class Agg(object):
    """Model of one declared aggregate."""

    def __init__(self, kind, fn, have, missing):
        self.kind, self.fn, self.have, self.missing = kind, fn, have, missing

    active = property(lambda self: not self.missing)


def aggregates(ctx, rng, label):
    tree = AggregateSensorTree()
    nl, na = rng.choice([2, 4, 6]), rng.choice([1, 2, 4])

    def leaf(name):
        s = Watch(Sensor.INTEGER, name, '', '')
        s.set_value(rng.randrange(-50, 50))
        return s
    leaves = ['leaf%d' % i for i in range(nl)]
    aggs = ['agg%d' % i for i in range(na)]
    objs = dict((x, leaf(x)) for x in leaves)
    objs.update((a, Watch(Sensor.INTEGER, a, '', '')) for a in aggs)
    registered, model, frozen, trail, dead = {}, {}, {}, [], []
    for a in aggs:
        frozen[a] = objs[a].value()

    def make_rule(kind):
        def rule(parent, children):
            parent.set_value(RULES[kind]([c.value() for c in children]))
        return rule

    def expected(a):
        m = model[a]
        return RULES[m.kind]([expected(c.name) if c.name in model and model[c.name].active and c is objs[c.name] else c.value() for c in m.have])

    def following(a):
        return a in model and model[a].active

    def verify():
        for a in aggs:
            s = objs[a]
            if following(a):
                m = model[a]
                ctx.expect(s.value() == expected(a), 'value', '%s: after %r: %s is %r, its rule %s gives %r over %r'
                           % (label, trail[-8:], a, s.value(), m.kind, expected(a), sorted((c.name, c.value()) for c in m.have)))
                try:
                    fn, kids = tree.fetch(s)
                    ctx.expect(fn is m.fn and set(kids) == m.have, 'fetch', '%s: after %r: fetch(%s) gave %r' % (label, trail[-8:], a, kids))
                    ctx.expect(tree.children(s) == m.have, 'links', '%s: after %r: children of %s' % (label, trail[-8:], a))
                except (KeyError, ValueError) as e:
                    ctx.violation('not-following', '%s: after %r: %s has no rule in the tree: %r' % (label, trail[-8:], a, e))
            else:
                ctx.expect(s.value() == frozen[a], 'still-following', '%s: after %r: %s changed to %r from %r while it does not follow'
                           % (label, trail[-8:], a, s.value(), frozen[a]))
        live = [a for a in aggs if following(a)]
        linked = set(c for a in live for c in model[a].have) | set(objs[a] for a in live)
        for s in list(objs.values()) + dead:
            ctx.expect(s.watchers.count(tree) == (1 if s in linked else 0), 'observers', '%s: after %r: %s observed: %r, linked: %r'
                       % (label, trail[-8:], s.name, bool(s.watchers), s in linked))
            ctx.expect((s in tree) == (s in linked), 'membership', '%s: after %r: %s' % (label, trail[-8:], s.name))
        ctx.observe('aggregate_states_checked')
        ctx.observe('aggregates_followed', len(live))

    for k in range(rng.choice([15, 40, 80])):
        op = rng.choice(['add', 'delayed', 'delayed', 'register', 'register', 'register', 'deregister', 'deregister', 'remove', 'set', 'set', 'set',
                         'replace', 'dead', 'twice', 'own'])
        trail.append(op)
        was = set(a for a in aggs if following(a))
        if op in ('add', 'delayed'):
            free = [a for a in aggs if a not in model]
            if not free:
                continue
            a = rng.choice(free)
            # children: leaves and aggregates with higher numbers (no cycles)
            cand = leaves + [x for x in aggs if x > a]
            names = rng.sample(cand, rng.randrange(1, min(4, len(cand)) + 1))
            kind = rng.choice(sorted(RULES))
            fn = make_rule(kind)
            trail[-1] = (op, a, kind, names)
            if op == 'add':
                kids = [objs[x] for x in names]
                tree.add(objs[a], fn, rng.choice([tuple, list, set])(kids))
                model[a] = Agg(kind, fn, set(kids), set())
            else:
                tree.add_delayed(objs[a], fn, tuple(names) if rng.random() < 0.5 else list(names))
                model[a] = Agg(kind, fn, set(registered[x] for x in names if x in registered), set(x for x in names if x not in registered))
        elif op == 'twice':
            if model:
                a = rng.choice(sorted(model))
                ctx.expect(refused(lambda: tree.add(objs[a], make_rule('sum'), [objs['leaf0']])), 'double-rule', '%s: second rule accepted' % label)
                ctx.expect(refused(lambda: tree.add_delayed(objs[a], make_rule('sum'), ['leaf0'])), 'double-rule', '%s: second rule accepted' % label)
            if registered:
                x = rng.choice(sorted(registered))
                ctx.expect(refused(lambda: tree.register_sensor(registered[x])), 'double-register', '%s: registered twice' % label)
            else:
                ctx.expect(refused(lambda: tree.deregister_sensor(objs['leaf0'])), 'deregister-unknown', '%s: deregistered unknown sensor' % label)
        elif op == 'register':
            cand = [x for x in sorted(objs) if x not in registered]
            if not cand:
                continue
            x = rng.choice(cand)
            trail[-1] = (op, x)
            registered[x] = objs[x]
            tree.register_sensor(objs[x])
            for m in model.values():
                if x in m.missing:
                    m.missing.discard(x)
                    m.have.add(objs[x])
        elif op in ('deregister', 'replace'):
            cand = [x for x in sorted(registered) if op == 'deregister' or x in leaves]
            if not cand:
                continue
            x = rng.choice(cand)
            trail[-1] = (op, x)
            s = registered.pop(x)
            tree.deregister_sensor(s)
            for m in model.values():
                if s in m.have:
                    m.have.discard(s)
                    m.missing.add(x)
            if op == 'replace':
                dead.append(s)
                objs[x] = leaf(x)
        elif op == 'remove':
            a = rng.choice(aggs)
            trail[-1] = (op, a)
            if following(a):
                tree.remove(objs[a])
                del model[a]
                ctx.expect(refused(lambda: tree.fetch(objs[a]), KeyError), 'fetch-removed', '%s: removed rule is still there' % label)
            else:
                ctx.expect(refused(lambda: tree.remove(objs[a])), 'remove-unknown', '%s: removed a rule that is not active' % label)
        elif op == 'dead' and dead:
            # somebody else still updates a sensor that was replaced
            rng.choice(dead).set_value(rng.randrange(-50, 50))
        elif op == 'own':
            # an aggregate that does not follow may be set by its owner
            a = rng.choice(aggs)
            if not following(a):
                v = rng.randrange(-50, 50)
                objs[a].set_value(v)
                frozen[a] = v
        elif op == 'set':
            x = rng.choice(leaves)
            v = rng.choice([objs[x].value(), rng.randrange(-50, 50)])
            trail[-1] = (op, x, v)
            if rng.random() < 0.3:
                objs[x].set_formatted(b'%d' % k, b'warn', b'%d' % v, 5)
            else:
                objs[x].set_value(v, rng.choice(STATUS))
        for a in was:
            if not following(a):
                frozen[a] = objs[a].value()
        verify()
        ctx.case('%s %d %r' % (label, k, sorted((a, sorted(c.name for c in model[a].have), sorted(model[a].missing)) for a in model)))


def run(ctx):
    ctx.rule = 'one case = one operation on a sensor tree after which every sensor, link and observer was compared with the model'
    ctx.assumptions = ['no cycles', 'operations from one thread', 'the value of a boolean parent that lost its last child is not judged',
                       'rules read the children they are given and set the parent']
    done = 0
    for i in range(10 ** 6):
        if not ctx.more(done, 1500, 100000, 25, 400):
            break
        fn = [booleans, aggregates][i % 2]
        fn(ctx, ctx.subrng('q', i), '%s %d' % (fn.__name__, i))
        done += 1
        if ctx.violations and done > 3:
            break
