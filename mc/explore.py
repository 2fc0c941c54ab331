"""Exhaustive, deviation-bounded exploration of choice sequences.

A *body* is a deterministic function of a Chooser.  Every place where the
environment (scheduler, network, clock, caller) could do more than one thing
asks ``chooser.choose(n, cost)``; answer 0 is the default.  ``explore`` runs the
body once for *every* choice sequence whose summed cost of non-default answers
is at most ``bound`` (choices of cost 0 are enumerated without limit).  The
order is by increasing number of deviations, so that the first counterexample
is a minimal one.  Exploration is stateless: each execution starts from scratch
and replays its prefix; a divergence while replaying is a hard error.
"""
from collections import deque


class Divergence(Exception):
    """The harness is not deterministic: replaying a prefix went differently."""


class Horizon(Exception):
    """An execution exceeded its step horizon (livelock or runaway loop)."""


class Prune(BaseException):
    """Raised by a body to abandon an execution as redundant (not explored further)."""


class Chooser(object):
    def __init__(self, prefix=(), expect=None):
        self.prefix = prefix
        self.expect = expect
        self.choices = []
        self.arity = []
        self.costs = []
        self.tags = []

    def choose(self, n, cost=1, tag=None):
        """Pick one of n alternatives; cost is an int, or a list with one per alternative."""
        if n <= 1:
            return 0
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n or (self.expect is not None and self.expect[i] != n):
                raise Divergence('choice %d (%r): wanted %r of %r, have %r' % (
                    i, tag, c, self.expect and self.expect[i], n))
        else:
            c = 0
        self.choices.append(c)
        self.arity.append(n)
        self.costs.append(cost)
        self.tags.append(tag)
        return c

    def pick(self, options, cost=1, tag=None):
        return options[self.choose(len(options), cost, tag)]

    def cost_of(self, i, c):
        k = self.costs[i]
        if isinstance(k, (list, tuple)):
            return k[c]
        return k if c else 0


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.points = 0
        self.pruned = 0
        self.by_cost = {}
        self.capped = False
        self.bound = None
        self.outcomes = set()
        self.max_len = 0

    def merge(self, o):
        self.executions += o.executions
        self.points += o.points
        self.pruned += o.pruned
        for k, v in o.by_cost.items():
            self.by_cost[k] = self.by_cost.get(k, 0) + v
        self.capped = self.capped or o.capped
        self.max_len = max(self.max_len, o.max_len)
        self.outcomes |= o.outcomes


def explore(body, bound, on_result=None, max_executions=None, stop=None):
    """Run ``body(chooser)`` for every choice sequence of cost <= bound.

    on_result(chooser, result) is called after each execution; if it returns
    True the exploration stops (counterexample found).
    """
    st = Stats()
    st.bound = bound
    buckets = [deque() for _ in range(bound + 1)]
    buckets[0].append(None)
    k = 0
    while k <= bound:
        if not buckets[k]:
            k += 1
            continue
        item = buckets[k].pop()
        if item is None:
            prefix, expect = (), None
        else:
            pc, pa, pi, alt = item
            prefix, expect = pc[:pi] + (alt,), pa[:pi + 1]
        if max_executions is not None and st.executions >= max_executions:
            st.capped = True
            st.bound = k - 1
            return st
        if stop is not None and stop():
            st.capped = True
            st.bound = k - 1
            return st
        ch = Chooser(prefix, expect)
        pruned = False
        result = None
        try:
            result = body(ch)
        except Prune:
            pruned = True
        if len(ch.choices) < len(prefix):
            raise Divergence('execution ended after %d of %d prescribed choices'
                             % (len(ch.choices), len(prefix)))
        st.executions += 1
        st.points += len(ch.choices) - len(prefix)
        st.by_cost[k] = st.by_cost.get(k, 0) + 1
        st.max_len = max(st.max_len, len(ch.choices))
        if pruned:
            st.pruned += 1
        elif on_result is not None and on_result(ch, result):
            return st
        choices = tuple(ch.choices)
        arity = tuple(ch.arity)
        for i in range(len(prefix), len(choices)):
            for alt in range(1, arity[i]):
                c = k + ch.cost_of(i, alt)
                if c <= bound:
                    buckets[c].append((choices, arity, i, alt))
    return st


def replay(body, choices):
    """Run one recorded choice sequence."""
    return body(Chooser(tuple(choices)))
