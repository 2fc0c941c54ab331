"""C19: sensor trees compute what their structure says.

All sequences of operations up to a depth (adding and removing links and rules,
registering and deregistering sensors, changing values, observers that change the
tree in the middle of an update) on the real trees, in lock step with a reference
model that recomputes every value from scratch.
"""
from .. import env, explore
LEVEL = 'model_checking'
K = env.load()
from .. import rig  # noqa
import katcp  # noqa
from katcp import Sensor  # noqa


class S(Sensor):
    """Counts who is attached, through the public interface."""

    def attach(self, o):
        self.who = getattr(self, 'who', [])
        self.who.append(o)
        Sensor.attach(self, o)

    def detach(self, o):
        if o in self.who:
            self.who.remove(o)
        Sensor.detach(self, o)


RULES = {
    'sum': lambda vs: sum(vs),
    'min': lambda vs: min(vs),                   # ValueError on nothing
    'first': lambda vs: sorted(vs)[0] * 2,       # IndexError on nothing
}


class Base(object):
    def __init__(self, ch, n, depth, ops):
        self.ch, self.n, self.depth, self.ops = ch, n, depth, ops
        self.probs, self.trace, self.states = [], [], []
        self.links = {}                # parent -> set(children), model
        self.tree = self.make_tree()
        self.s = [self.make_sensor(i) for i in range(n)]
        self.val = [s.value() for s in self.s]
        self.hooks = {}                # sensor -> op to perform when it is next updated
        self.current = None
        for i in range(n):
            self.s[i].attach(self.Hook(self, i))

    class Hook(object):
        """A user's observer (attached before the tree) that changes the tree from an update."""

        def __init__(self, run, i):
            self.run, self.i = run, i

        def update(self, sensor, reading):
            if self.run.current != 'set':
                return          # only in the middle of the propagation of a value
            op = self.run.hooks.pop(self.i, None)
            if op is not None and self.run.allowed(op):
                self.run.trace.append(('from update of', self.i, op))
                self.run.apply(op)

    def is_leaf(self, i):
        return not self.links.get(i)

    def members(self):
        m = set()
        for p, cs in self.links.items():
            if cs:
                m.add(p)
                m |= cs
        return m

    def recompute(self):
        for i in reversed(range(self.n)):
            v = self.formula(i)
            if v is not None:
                self.val[i] = v

    def go(self):
        for _ in range(self.depth):
            en = [o for o in self.ops if self.allowed(o)]
            o = en[self.ch.choose(len(en), 0, 'op')]
            self.trace.append(o)
            self.current = o[0]
            try:
                if o[0] == 'hook':
                    self.hooks[o[1]] = o[2]
                else:
                    self.apply(o)
            except Exception as e:
                self.probs.append('%r raised %r' % (o, e))
            if not self.probs:
                self.check()
            if self.probs:
                break
            self.states.append((tuple(self.val), tuple(sorted(
                (k, tuple(sorted(v))) for k, v in self.links.items()))))
        return {'probs': self.probs, 'outcome': repr(self.states[-1:]), 'steps': len(self.trace),
                'trace': repr(self.trace), 'states': self.states}

    def check(self):
        self.recompute()
        got = [s.value() for s in self.s]
        if got != self.val:
            self.probs.append('values are %r, expected %r (links %r)' % (got, self.val, self.links))
            return
        mem = self.members()
        for i, s in enumerate(self.s):
            if (s in self.tree) != (i in mem):
                self.probs.append('sensor %d in tree: %r, expected %r' % (i, s in self.tree, i in mem))
            if s.who.count(self.tree) != int(i in mem):
                self.probs.append('tree attached %d times to sensor %d, member: %r' % (
                    s.who.count(self.tree), i, i in mem))
            if i in mem and s in self.tree:
                c = set(self.s.index(x) for x in self.tree.children(s))
                p = set(self.s.index(x) for x in self.tree.parents(s))
                if c != self.links.get(i, set()):
                    self.probs.append('children of %d are %r' % (i, c))
                if p != set(k for k, v in self.links.items() if i in v):
                    self.probs.append('parents of %d are %r' % (i, p))
            elif i not in mem:
                for f in (self.tree.children, self.tree.parents):
                    try:
                        f(s)
                        self.probs.append('%s(%d) of a sensor not in the tree' % (f.__name__, i))
                    except ValueError:
                        pass


class Bool(Base):
    def make_tree(self):
        return katcp.BooleanSensorTree()

    def make_sensor(self, i):
        return S(Sensor.BOOLEAN, 's%d' % i, '', '')

    def formula(self, i):
        if self.links.get(i):
            return all(self.val[c] for c in self.links[i])

    def allowed(self, o):
        if o[0] == 'hook':
            return self.hooks.get(o[1]) != o[2]
        if o[0] == 'remove':
            return o[2] in self.links.get(o[1], ())
        if o[0] == 'set':
            return self.is_leaf(o[1])
        return True

    def apply(self, o):
        if o[0] == 'add':
            self.links.setdefault(o[1], set()).add(o[2])
            self.tree.add(self.s[o[1]], self.s[o[2]])
        elif o[0] == 'remove':
            self.links[o[1]].discard(o[2])
            if not self.links[o[1]]:
                self.val[o[1]] = True       # the AND of nothing
            self.tree.remove(self.s[o[1]], self.s[o[2]])
        elif o[0] == 'set':
            self.val[o[1]] = o[2]
            self.s[o[1]].set_value(o[2])


class Agg(Base):
    """Rules fixed per parent: RULE[i]; children sets are part of the operation."""

    def __init__(self, *a, **kw):
        self.rules = kw.pop('rules')
        self.alias = kw.pop('alias', {})    # sensors with the name of another one
        self.kids = {}          # parent -> {name: sensor (None: waiting for it)} of its rule
        self.reg = {}           # name -> sensor
        Base.__init__(self, *a, **kw)

    def make_tree(self):
        return katcp.AggregateSensorTree()

    def make_sensor(self, i):
        return S(Sensor.INTEGER, 's%d' % self.alias.get(i, i), '', '', [-1000, 1000])

    def active(self, i):
        return i in self.kids and None not in self.kids[i].values()

    def relink(self):
        """Active rules have links; a rule that stops leaves whatever value its sensor has."""
        for i in range(self.n):
            self.links[i] = set(self.kids[i].values()) if self.active(i) else set()

    def formula(self, i):
        if self.active(i):
            return RULES[self.rules[i]]([self.val[c] for c in self.kids[i].values()])

    def allowed(self, o):
        if o[0] == 'hook':
            return self.hooks.get(o[1]) != o[2]
        if o[0] == 'set':
            return not self.active(o[1]) and self.val[o[1]] != o[2]
        return True

    def rule(self, i):
        f = RULES[self.rules[i]]
        return lambda parent, children: parent.set_value(f([c.value() for c in children]))

    def attempt(self, ok, f, *a):
        try:
            f(*a)
        except ValueError:
            if ok:
                raise
            return
        if not ok:
            self.probs.append('%s accepted although it should be refused' % f.__name__)

    def apply(self, o):
        k, i = o[0], o[1]
        s = self.s[i]
        stopped = []
        if k == 'set':
            self.val[i] = o[2]
            s.set_value(o[2])
            return
        if k in ('add', 'delayed'):
            ok = i not in self.kids
            if ok:
                self.kids[i] = dict((self.alias.get(c, c), self.reg.get(self.alias.get(c, c))
                                     if k == 'delayed' else c) for c in o[2])
                self.relink()
            if k == 'add':
                self.attempt(ok, self.tree.add, s, self.rule(i), tuple(self.s[c] for c in o[2]))
            else:
                self.attempt(ok, self.tree.add_delayed, s, self.rule(i),
                             [self.s[c].name for c in o[2]])
        elif k == 'remove':
            ok = self.active(i)
            if ok:
                del self.kids[i]
                self.relink()
                stopped.append(i)
            elif i in self.kids:
                # removing a rule that is still waiting: not specified
                return
            self.attempt(ok, self.tree.remove, s)
        elif k == 'reg':
            name = self.alias.get(i, i)
            ok = name not in self.reg
            if ok:
                self.reg[name] = i
                for p in self.kids:
                    if name in self.kids[p] and self.kids[p][name] is None:
                        self.kids[p][name] = i
                self.relink()
            self.attempt(ok, self.tree.register_sensor, s)
        elif k == 'dereg':
            name = self.alias.get(i, i)
            ok = name in self.reg
            if ok:
                gone = self.reg.pop(name)
                for p in self.kids:
                    if self.kids[p].get(name) == gone:
                        if self.active(p):
                            stopped.append(p)
                        self.kids[p][name] = None
                self.relink()
            self.attempt(ok, self.tree.deregister_sensor, s)
        for p in stopped:
            # the value at the moment a rule stops is not specified, but it stays
            self.val[p] = self.s[p].value()


class Generic(Base):
    """A tree of the user's: the value of a parent is the sum of its children."""

    def make_tree(self):
        run = self

        class Tree(katcp.GenericSensorTree):
            def recalculate(self, parent, updates):
                run.calls.append((run.s.index(parent), tuple(run.s.index(u) for u in updates)))
                if parent in self and self.children(parent):
                    parent.set_value(sum(c.value() for c in self.children(parent)))
        self.calls = []
        return Tree()

    def make_sensor(self, i):
        return S(Sensor.INTEGER, 's%d' % i, '', '', [-1000, 1000])

    def formula(self, i):
        if self.links.get(i):
            return sum(self.val[c] for c in self.links[i])

    def allowed(self, o):
        return o[0] != 'set' or (self.is_leaf(o[1]) and self.val[o[1]] != o[2])

    def apply(self, o):
        del self.calls[:]
        if o[0] == 'set':
            self.val[o[1]] = o[2]
            self.s[o[1]].set_value(o[2])
            want = [(p, (o[1],)) for p, cs in self.links.items() if o[1] in cs]
            if sorted(c for c in self.calls if c[1] == (o[1],)) != sorted(want):
                self.probs.append('recalculated %r, expected %r' % (self.calls, want))
            return
        p, kids = o[1], o[2]
        if o[0] == 'add':
            self.links.setdefault(p, set()).update(kids)
            self.tree.add_links(self.s[p], [self.s[c] for c in kids])
        else:
            self.links.setdefault(p, set()).difference_update(kids)
            self.tree.remove_links(self.s[p], [self.s[c] for c in kids])
        if [(q, sorted(us)) for q, us in self.calls[:1]] != [(p, sorted(kids))]:
            self.probs.append('recalculated %r, expected %r' % (self.calls[:1], (p, kids)))


def drive(cls, n, depth, ops, **kw):
    def body(ch):
        return cls(ch, n, depth, ops, **kw).go()
    return body


def first(body, i):
    from .c15 import _Forced
    return lambda ch: body(_Forced(ch, i))


def scenarios(tier):
    th = tier == 'thorough'
    d = 1 if th else 0
    out = []

    def add(name, cls, n, depth, ops, **kw):
        for i in range(len(ops)):
            out.append(('%s/%d' % (name, i), first(drive(cls, n, depth, ops, **kw), i), 0))

    def bops(n):
        e = [(i, j) for i in range(n) for j in range(i + 1, n)]
        return ([('add', i, j) for i, j in e] + [('remove', i, j) for i, j in e] +
                [('set', i, v) for i in range(n) for v in (True, False)])
    add('bool 3', Bool, 3, 5 + d, bops(3))
    add('bool 4', Bool, 4, 4 + d, bops(4))
    sets = ((1,), (2,), (3,), (1, 2), (2, 1), (1, 2, 3), (3, 1))
    add('generic', Generic, 4, 4 + d, [('add', 0, k) for k in sets] + [('remove', 0, k) for k in sets] +
        [('add', 1, (2, 3)), ('remove', 1, (2, 3)), ('set', 3, 1), ('set', 2, 5)])
    # a fixed diamond to start from, deeper histories
    dia = [('add', 0, 1), ('add', 0, 2), ('add', 1, 3), ('add', 2, 3)]
    vals = [('set', 3, True), ('set', 3, False), ('set', 2, True), ('set', 1, True)]
    rem = [('remove', i, j) for _, i, j in dia]
    out.extend(('bool diamond/%d' % i, _prefixed(Bool, 4, dia, 5 + d, vals + rem + dia[:2], i), 0)
               for i in range(len(vals + rem + dia[:2])))
    hooks = [('hook', 1, ('remove', 0, 1)), ('hook', 2, ('remove', 0, 2)), ('hook', 1, ('add', 0, 2)),
             ('hook', 2, ('remove', 1, 2)), ('hook', 2, ('add', 0, 2)), ('hook', 0, ('remove', 0, 1))]
    add('bool reentrant', Bool, 3, 5 + d, [('add', 0, 1), ('add', 1, 2), ('add', 0, 2), ('set', 2, True),
                                           ('set', 1, True), ('set', 2, False)] + hooks)

    def aops(parents, kids, regs, values):
        return ([('add', p, k) for p, k in zip(parents, kids)] +
                [('delayed', p, k) for p, k in zip(parents, kids)] +
                [('remove', p) for p in parents] + [('reg', r) for r in regs] +
                [('dereg', r) for r in regs] + [('set', i, v) for i, v in values])
    for r in ('sum', 'min', 'first'):
        add('agg chain %s' % r, Agg, 3, 4 + d,
            aops((0, 1), ((1,), (2,)), (1, 2), ((2, 1), (2, 5), (1, 3))), rules=[r, r, r])
        add('agg pair %s' % r, Agg, 3, 5 + d,
            [('delayed', 0, (1, 2)), ('add', 0, (1, 2)), ('remove', 0), ('reg', 1), ('reg', 2),
             ('dereg', 1), ('dereg', 2), ('set', 1, 4), ('set', 2, 3)], rules=[r, r, r])
    add('agg two parents', Agg, 4, 4 + d,
        aops((0, 1), ((2, 3), (2,)), (2, 3), ((2, 1), (3, 5))), rules=['sum', 'min', 'sum', 'sum'])
    pre = [('delayed', 0, (1, 2)), ('delayed', 1, (2, 3)), ('reg', 2), ('reg', 3)]
    ops = [('reg', 1), ('dereg', 1), ('dereg', 2), ('reg', 2), ('dereg', 3), ('reg', 3), ('set', 2, 1),
           ('set', 3, 7), ('remove', 0), ('remove', 1), ('delayed', 0, (1, 2))]
    for r in ('sum', 'first'):
        out.extend(('agg nested %s/%d' % (r, i),
                    _prefixed(Agg, 4, pre, 5 + d, ops, i, rules=[r] * 4), 0) for i in range(len(ops)))
    add('agg three', Agg, 4, 5 + d,
        [('delayed', 0, (1, 2, 3))] + [(k, i) for k in ('reg', 'dereg') for i in (1, 2, 3)] +
        [('set', 1, 4), ('remove', 0)], rules=['sum'] * 4)
    # sensors 3 and 2 have the same name
    add('agg same name', Agg, 4, 5 + d,
        [('delayed', 0, (1, 2)), ('add', 0, (1, 3)), ('remove', 0), ('reg', 1), ('dereg', 1), ('reg', 2),
         ('reg', 3), ('dereg', 2), ('dereg', 3), ('set', 2, 4), ('set', 3, 7)],
        rules=['sum'] * 4, alias={3: 2})
    pre = [('delayed', 0, (1, 2)), ('reg', 1), ('reg', 2)]
    ops = [('dereg', 2), ('reg', 3), ('reg', 2), ('dereg', 1), ('reg', 1), ('set', 3, 7), ('set', 2, 4),
           ('remove', 0), ('delayed', 0, (1, 2))]
    out.extend(('agg same name again/%d' % i,
                _prefixed(Agg, 4, pre, 6 + d, ops, i, rules=['sum'] * 4, alias={3: 2}), 0)
               for i in range(len(ops)))
    add('agg reentrant', Agg, 3, 4 + d,
        [('add', 0, (1, 2)), ('add', 1, (2,)), ('set', 2, 1), ('set', 1, 2), ('set', 2, 5),
         ('hook', 2, ('remove', 1)), ('hook', 2, ('remove', 0)), ('hook', 1, ('remove', 0)),
         ('hook', 2, ('add', 1, (2,)))], rules=['sum'] * 3)
    return out


def _prefixed(cls, n, pre, depth, ops, i, **kw):
    def body(ch):
        from .c15 import _Forced
        r = cls(_Forced(ch, i), n, depth, ops, **kw)
        for o in pre:
            r.trace.append(o)
            r.apply(o)
            r.check()
        return r.go()
    return body


def run(tier, rep):
    ex = rig.parallel(rep, rig.scenario_tasks(scenarios(tier), key=lambda p: p.split(' (')[0][:60]),
                      batch=1)
    rep.sample({'scenario': 'bool 3', 'operations': ['add 0 1', 'set 1 True', 'add 0 2', 'remove 0 1']})
    ex.finish(exhaustive=not ex.capped)


def replay(obj, rep):
    for tier in ('quick', 'thorough'):
        for name, body, bound in scenarios(tier):
            if name == obj['scenario']:
                r = explore.replay(body, obj['choices'])
                for p in r['probs']:
                    rep.violation('replay:%s' % name, '%s\n%s' % (p, r.get('trace')), obj)
                rep.set(states=1, transitions=1, traces_validated_against_impl=1)
                return
