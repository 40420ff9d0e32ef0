"""C09: contracts and loop invariants of the indirect sort and the maximum search (engine/hoare.py)."""
import z3

from engine.hoare import Fn, Loop, forall

MODULE = 'core.utils'


def positions(s):
    """The index list names existing positions, each at most once: with as many entries as positions it is a permutation."""
    n = s.index.n
    return [('every entry is a position', forall(0, n - 1, lambda i: z3.And(0 <= s.index[i], s.index[i] < s.array.n))),
            ('no position twice', forall(0, n - 1, lambda i: forall(i + 1, n - 1, lambda j: s.index[i] != s.index[j])))]


def bare(gs):
    return [g[1] for g in gs]


def val(s, i):
    return s.array[s.index[i]]


def ghost_in(s, lo, hi):
    """Every position in this part of the index satisfies the (arbitrary) ghost predicate."""
    return [] if not s.ghost else [forall(lo, hi, lambda i: s.ghost['P'](s.index[i]))]


def frame(o, s, lo, hi):
    return forall(0, o.index.n - 1, lambda i: z3.Implies(z3.Or(i < lo, i > hi), s.index[i] == o.index[i]))


quick_sort = Fn(
    dict(array='reals', index='ints', left='int', right='int'),
    requires=lambda s: [s.index.n == s.array.n, 0 <= s.left, s.left <= s.right, s.right < s.index.n] + bare(positions(s)) + ghost_in(s, s.left, s.right),
    ensures=lambda o, s, r: positions(s) + [
        ('non-decreasing', forall(o.left, o.right, lambda i: forall(i, o.right, lambda j: val(s, i) <= val(s, j)))),
        ('nothing outside the range moves', frame(o, s, o.left, o.right)),
        ('positions stay within the range', z3.And(*ghost_in(View2(s, o), o.left, o.right)) if o.ghost else z3.BoolVal(True))],
    variant=lambda s: s.right - s.left,
    modifies=['index'], ghosts=['P'],
    calls={'quick_sort': [lambda s: (lambda p, s=s: s.array[p] <= val(s, s.center)), lambda s: (lambda p, s=s: s.array[p] >= val(s, s.center))]})


class View2:
    """Lists of one state with the ghost predicates of another."""

    def __init__(self, s, g):
        self.array, self.index, self.ghost = s.array, s.index, g.ghost


def _part_inv(s):
    o = s.old
    return [('bounds', z3.And(o.l <= s.l, s.l < s.r, s.r <= o.r - 1)),
            ('left part at most the pivot', forall(o.l, s.l, lambda i: val(s, i) <= o.pivot)),
            ('right part at least the pivot', forall(s.r, o.r, lambda i: val(s, i) >= o.pivot))] + _moved(s)


def _moved(s):
    o = s.old
    return positions(s) + [('nothing outside the range moves', frame(o, s, o.l + 1, o.r - 2)),
                           ('positions stay within the range', z3.And(*ghost_in(View2(s, o), o.l, o.r)) if o.ghost else z3.BoolVal(True))]


partition_real = Fn(
    dict(array='reals', index='ints', l='int', r='int', pivot='real'),
    requires=lambda s: [s.index.n == s.array.n, 0 <= s.l, s.l + 3 <= s.r, s.r < s.index.n] + bare(positions(s)) + ghost_in(s, s.l, s.r)
    + [val(s, s.r - 1) == s.pivot, val(s, s.l) <= s.pivot, val(s, s.r) >= s.pivot],
    ensures=lambda o, s, r: [
        ('result in range', z3.And(o.l + 1 <= r, r <= o.r - 1)),
        ('left part at most the pivot', forall(o.l, r - 1, lambda i: val(s, i) <= o.pivot)),
        ('right part at least the pivot', forall(r, o.r, lambda i: val(s, i) >= o.pivot)),
        ('nothing outside the range moves', frame(o, s, o.l + 1, o.r - 2)),
        ('positions stay within the range', z3.And(*ghost_in(View2(s, o), o.l, o.r)) if o.ghost else z3.BoolVal(True))] + positions(s),
    modifies=['index'], ghosts=['P'], result='int',
    loops=[
        Loop(_part_inv, lambda s: s.r - s.l),
        Loop(lambda s: [('bounds', z3.And(s.old.l + 1 <= s.l, s.entry.l <= s.l, s.l <= s.old.r - 1)), ('skipped elements at most the pivot', forall(s.old.l, s.l - 1, lambda i: val(s, i) <= s.old.pivot))],
             lambda s: s.old.r - s.l),
        Loop(lambda s: [('bounds', z3.And(s.old.l <= s.r, s.r <= s.entry.r, s.r <= s.old.r - 2)), ('skipped elements at least the pivot', forall(s.r + 1, s.old.r, lambda i: val(s, i) >= s.old.pivot))],
             lambda s: s.r - s.old.l),
    ])

sort = Fn(
    dict(array='reals'),
    ensures=lambda o, s, r: [
        ('as many entries as elements', r.n == o.array.n),
        ('every entry is a position', forall(0, r.n - 1, lambda i: z3.And(0 <= r[i], r[i] < r.n))),
        ('no position twice', forall(0, r.n - 1, lambda i: forall(i + 1, r.n - 1, lambda j: r[i] != r[j]))),
        ('values non-decreasing', forall(0, r.n - 1, lambda i: forall(i, r.n - 1, lambda j: o.array[r[i]] <= o.array[r[j]])))],
    result='ints')

SORT = {'_partition_real': partition_real, 'quick_sort': quick_sort, 'sort': sort}


def _max_inv(s):
    m, best, l = s.max_index, s.maximum, s.reals
    return [('best so far', z3.Implies(s.i > 0, z3.And(0 <= m, m < s.i, best == l[m]))), ('largest', forall(0, s.i - 1, lambda k: l[k] <= best)),
            ('first', z3.Implies(s.i > 0, forall(0, m - 1, lambda k: l[k] < best)))]


MAX = {'max_index': Fn(
    dict(reals='reals'), requires=lambda s: [s.reals.n > 0],
    ensures=lambda o, s, r: [('in range', z3.And(0 <= r, r < o.reals.n)), ('largest', forall(0, o.reals.n - 1, lambda i: o.reals[i] <= o.reals[r])), ('first', forall(0, r - 1, lambda i: o.reals[i] < o.reals[r]))],
    loops=[Loop(_max_inv)], result='int')}
