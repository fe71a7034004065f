"""C03: no derivation is missed.

The functions that fill the chart are the ones of C02, whose contracts state both directions: what is added, and that
nothing due is left out (every production is started, every accepted word and every meeting of a waiting state and a
completed phrase is followed).  What remains is that every meeting takes place: 'meeting' below shows it from the
order in which the main loop (contract 'the chart is filled by these steps only') treats the states, and 'derivation'
is the induction over a derivation.  Rules, productions and states are integers, times are positions in the run."""
from .lib import *
from . import c02, c13                                                         # noqa: F401

B = BoolSort
I_ = IntSort


class Run(object):
    """a run of the main loop: facts of the contracts, about arbitrary states of the chart

    col(s): column of s; app(s): when it was appended; proc(s): when the main loop took it up."""

    def __init__(self, e):
        self.e = e
        f = lambda n, *s: e.uf('run_' + n, *s)                                  # noqa: E731
        self.inchart = f('in_chart', I_, B)
        self.col, self.start = f('col', I_, I_), f('start', I_, I_)
        self.app, self.proc = f('app', I_, I_), f('proc', I_, I_)
        self.rule, self.waits = f('rule', I_, I_), f('waits', I_, I_)
        self.done, self.waiting = f('done', I_, B), f('waiting', I_, B)
        self.adv = f('advanced', I_, I_, I_)
        s, t = e.index(), e.index()
        ic = self.inchart
        # Column.append puts a state at the end of the list the main loop goes through: a state is taken up after
        # it has been appended (list iteration sees appended items)
        e.assume(z3.ForAll([s], z3.Implies(ic(s), self.app(s) < self.proc(s))))
        # the main loop treats the columns one after the other
        e.assume(z3.ForAll([s, t], z3.Implies(z3.And(ic(s), ic(t), self.col(s) < self.col(t)), self.proc(s) < self.proc(t))))
        # a phrase ends where it starts or later
        e.assume(z3.ForAll([s], z3.Implies(ic(s), self.start(s) <= self.col(s))))
        e.assume(z3.ForAll([s], z3.Not(z3.And(self.done(s), self.waiting(s)))))
        # complete: when a completed phrase is taken up, it is given to all states that are then in the index of the
        # column where it starts under its rule (contracts of complete, update_index, append)
        e.assume(z3.ForAll([s, t], z3.Implies(z3.And(
            ic(s), ic(t), self.done(t), self.waiting(s), self.waits(s) == self.rule(t), self.col(s) == self.start(t),
            self.app(s) < self.proc(t)), ic(self.adv(s, t)))))
        # skip: when a waiting state is taken up, it is given all empty phrases of the rule that are then in its column
        e.assume(z3.ForAll([s, t], z3.Implies(z3.And(
            ic(s), ic(t), self.done(t), self.waiting(s), self.waits(s) == self.rule(t), self.start(t) == self.col(t),
            self.col(s) == self.col(t), self.app(t) < self.proc(s)), ic(self.adv(s, t)))))

    def meets(self, w, c):
        """the waiting state w and the completed phrase c that starts where w is"""
        return z3.And(self.inchart(w), self.inchart(c), self.waiting(w), self.done(c), self.waits(w) == self.rule(c),
                      self.start(c) == self.col(w))


@unit('C03', 'a waiting state meets every phrase it waits for, whichever is found first', [])
def meeting(e):
    r = Run(e)
    w, c = z3.Int('w'), z3.Int('c')
    e.prove(z3.Implies(r.meets(w, c), r.inchart(r.adv(w, c))), 'the waiting state is advanced over the phrase')


@unit('C03', 'a derivation is followed term by term to its end', [])
def derivation(e):
    """induction over a derivation: at(d) is the column before the d-th part of a phrase that starts at column at(0);
    parts are words (accepted by their term) or derivations of the rule of the term, of smaller height"""
    r = Run(e)
    w = z3.Int('w')
    # one part of the derivation: the state w has followed the parts before it
    col, following = z3.Int('col'), z3.Int('following')
    isword, accepted, words = z3.Bool('isword'), z3.Bool('accepted'), z3.Int('words')
    child, scanned = z3.Int('child'), z3.Int('scanned')
    demanded = e.uf('demanded', I_, I_, B)
    # predict and scan run when w is taken up
    e.assume(z3.Implies(z3.And(r.inchart(w), r.waiting(w)), demanded(r.waits(w), r.col(w))))
    e.assume(z3.Implies(z3.And(r.inchart(w), isword, accepted, r.col(w) < words),
                        z3.And(r.inchart(scanned), r.col(scanned) == r.col(w) + 1)))
    # induction hypothesis: a part that is a phrase of the rule from col to following, whose rule is demanded at col
    e.assume(z3.Implies(z3.And(z3.Not(isword), demanded(r.waits(w), col)),
                        z3.And(r.inchart(child), r.done(child), r.rule(child) == r.waits(w), r.start(child) == col,
                               r.col(child) == following)))
    e.assume(z3.And(r.inchart(w), r.col(w) == col, z3.Not(isword) == r.waiting(w)))
    # a word is the one after the column
    e.assume(z3.Implies(isword, z3.And(accepted, following == col + 1, col < words)))
    # what advance gives ends where the phrase ends (contract of advance)
    e.assume(r.col(r.adv(w, child)) == r.col(child))
    new = z3.If(isword, scanned, r.adv(w, child))
    e.prove(z3.And(r.inchart(new), r.col(new) == following), 'the state after the part is in the column after the part')


# the contracts that these facts restate
share('C03', 'C02')
share('C03', 'C13', 'the lines tried')
