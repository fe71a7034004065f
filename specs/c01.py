"""C01: findall picks a maximum-coverage set of non-overlapping matches."""
from .lib import *
from . import c02
from .c02 import Y, SCHEMA2, c_parser_matches, c_prepare_match, tree_key, state_key, from_states, fld, IS, calls

S = 'yargy.span.'
PAIR = TUP(INT, INT)


def pairs_list(e, name='spans'):
    """spans in the order of their starts, none empty: what prepare_resolved_matches gives"""
    l = e.fresh(LIST(PAIR), name)
    n = e.length(l.parts)
    return l, n


def ends(e, l, k):
    a, b = e.at(l.parts, k)
    return e.num(a), e.num(b)


def ordered(e, l, n):
    i, j = e.index(), e.index()
    si, ti = ends(e, l, i)
    sj, _ = ends(e, l, j)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), si < ti)))
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), si <= sj)))


def is_next(e, l, n, k, v):
    """v is None or the position of the first span that starts at the end of span k or later"""
    j = e.index()
    sj, _ = ends(e, l, j)
    _, stop = ends(e, l, k)
    none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), sj < stop))
    sv, _ = ends(e, l, v)
    first = z3.And(v >= 0, v < n, sv >= stop, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v), sj < stop)))
    return none, first


@unit('C01', 'the next span is the first one that starts where this one ends or later', [S + 'get_nexts'], schema=SCHEMA)
def nexts(e):
    l, n = pairs_list(e)
    got = e.parts_of(e.res(e.call(e.w.get(S + 'get_nexts'), [l])))
    e.prove(e.length(got) == n, 'one for each span')
    k = e.index()
    with e.loopctx(k, n):
        def thunk():
            v = e.res(e.at(got, k))
            none, first = is_next(e, l, n, k, e.num(v) if v is not None else z3.IntVal(0))
            e.prove(none if v is None else first, 'none' if v is None else 'the first one')
        e.run_paths(thunk)
    frame(e)


# --- the best choice ---------------------------------------------------------------
#
# Let size(i) be the length of span i.  For a set X of positions, X^(i) is the total size of the members of X that
# are i or later: X^(n) = 0, X^(i) = X^(i+1) + (size(i) if i in X else 0).  A set is a choice if no two of its spans
# overlap.  The invariant of the loop, for every position j that has been passed:
#   sound:  pointers[j] is a choice of positions >= j, and pointers[j]^(j) = covers[j]
#   best:   for every choice X, X^(j) <= covers[j]
# Two facts about sums are used; the unit 'sums' proves them by induction:
#   gap:  if X has no member in [a, b) then X^(a) = X^(b)
#   same: if X and Y have the same members from a on then X^(a) = Y^(a)

class Cells(object):
    """a list of the function whose cells are known by the invariant"""

    def __init__(self, name, n, cell, birth):
        self.name, self.n, self.cell, self.birth = name, n, cell, birth
        self.writes = []
        self.lo = None          # cells above this one are known

    def getitem_model(self, e, i):
        i = e.num(i)
        e.prove(z3.And(i >= 0, i < self.n), self.name + ': position in range')
        for j, v in reversed(self.writes):
            if e.branch(i == j):
                return v
        e.prove(i > self.lo, self.name + ': position passed already')
        return self.cell(e, i)

    def setitem_model(self, e, i, v):
        v = e.res(v)
        self.writes.append((e.num(i), v))
        e.log('cell', self, (i, v), self.writes.pop)

    def method_model(self, e, name):
        return None


def size(e, l, i):
    a, b = ends(e, l, i)
    return b - a


class Sums(object):
    """a family of sets of positions and their tail sums"""

    def __init__(self, e, l, n, name, member, indexed):
        self.e, self.l, self.n, self.member, self.indexed = e, l, n, member, indexed
        self.f = e.uf(name, *([IntSort] if indexed else []), IntSort, IntSort)

    def at(self, *a):
        return self.f(*a)

    def define(self, *fam):
        """the recursive definition of the sums of one set"""
        e = self.e
        i = e.index()
        t = self.f(*fam, i)
        e.assume(self.f(*fam, self.n) == 0)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), t == self.f(*fam, i + 1) +
                                           z3.If(self.member(*fam, i), size(e, self.l, i), 0)), patterns=[t]))


def gap(e, s, fam, a, b):
    k = e.index()
    return z3.Implies(z3.And(a >= 0, a <= b, b <= s.n,
                             z3.ForAll([k], z3.Implies(z3.And(k >= a, k < b), z3.Not(s.member(*fam, k))))),
                      s.at(*fam, a) == s.at(*fam, b))


def alike(e, s, fam, t, fam2, a):
    k = e.index()
    return z3.Implies(z3.And(a >= 0, a <= s.n,
                             z3.ForAll([k], z3.Implies(z3.And(k >= a, k < s.n), s.member(*fam, k) == t.member(*fam2, k)))),
                      s.at(*fam, a) == t.at(*fam2, a))


def choice(e, l, n, member):
    i, j = e.index(), e.index()
    _, ti = ends(e, l, i)
    sj, tj = ends(e, l, j)
    si, _ = ends(e, l, i)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j, member(i), member(j)),
                                        z3.Or(ti <= sj, tj <= si)))


@unit('C01', 'sums over sets of spans', [], schema=SCHEMA)
def sums(e):
    """the induction steps of gap and same, downwards from the end"""
    l, n = pairs_list(e)
    X, Y_ = e.uf('X', IntSort, BoolSort), e.uf('Y', IntSort, BoolSort)
    x, y = Sums(e, l, n, 'sum_x', lambda k: X(k), False), Sums(e, l, n, 'sum_y', lambda k: Y_(k), False)
    x.define()
    y.define()
    a, b = z3.Int('a'), z3.Int('b')
    e.prove(gap(e, x, (), b, b), 'gap: nothing between')
    e.prove(z3.Implies(z3.And(a >= 0, a < b, b <= n, gap(e, x, (), a + 1, b)), gap(e, x, (), a, b)), 'gap: one more position')
    e.prove(alike(e, x, (), y, (), n), 'same: at the end')
    e.prove(z3.Implies(z3.And(a >= 0, a < n, alike(e, x, (), y, (), a + 1)), alike(e, x, (), y, (), a)),
            'same: one more position')


class Best(object):
    """the loop that fills covers and pointers"""

    def matches(self, e, node, seq, sc):
        return isinstance(node, ast.For) and sc is not None and sc.func is not None and \
            sc.func.qualname == S + 'resolve_spans' and any(self.role(e, v) for v in sc.vars.values())

    def role(self, e, v):
        """a list of the function filled with zeros / with None"""
        v = v if not isinstance(v, Maybe) else None
        if isinstance(v, ListV) and v.kind == 'list' and len(v.parts) == 1 and isinstance(v.parts[0], For) and \
                len(v.parts[0].parts) == 1 and isinstance(v.parts[0].parts[0], Item) and v.parts[0].parts[0].guard is True:
            x = v.parts[0].parts[0].value
            return 'covers' if x is not None and not isinstance(x, (ObjV, tuple)) and str(getattr(x, 'e', x)) == '0' else \
                'pointers' if x is None else None
        return None

    def setup(self, e, l, n):
        self.l, self.n = l, n
        self.cover = e.uf('covers', IntSort, IntSort)
        self.pset = e.uf('pointers', IntSort, IntSort)
        X = e.uf('chosen', IntSort, BoolSort)
        self.any = Sums(e, l, n, 'sum_any', lambda i: X(i), False)
        self.own = Sums(e, l, n, 'sum_pointers', lambda j, i: e.mem(self.pset(j), INT, i), True)
        self.any.define()
        e.assume(choice(e, l, n, lambda i: X(i)))

    def cells(self, e, role, birth):
        if role == 'covers':
            return Cells('covers', self.n, lambda e, i: Sym(INT, self.cover(i)), birth)
        return Cells('pointers', self.n, lambda e, i: e.symlist(z3.simplify(self.pset(i)), INT, SetV), birth)

    def known(self, e, lo):
        """the invariant for the positions above lo"""
        j, i = e.index(), e.index()
        rng = z3.And(j > lo, j >= 0, j < self.n)
        m = self.own.member(j, i)
        e.assume(z3.ForAll([j], z3.Implies(rng, self.any.at(j) <= self.cover(j)), patterns=[self.cover(j)]))
        e.assume(z3.ForAll([j], z3.Implies(rng, self.own.at(j, j) == self.cover(j)), patterns=[self.cover(j)]))
        e.assume(z3.ForAll([j, i], z3.Implies(z3.And(rng, m), z3.And(i >= j, i < self.n)), patterns=[m]))
        i2 = e.index()
        _, ti = ends(e, self.l, i)
        si, _ = ends(e, self.l, i)
        sj, tj = ends(e, self.l, i2)
        e.assume(z3.ForAll([j, i, i2], z3.Implies(z3.And(rng, m, self.own.member(j, i2), i != i2),
                                                  z3.Or(ti <= sj, tj <= si)), patterns=[z3.MultiPattern(m, self.own.member(j, i2))]))

    def run(self, e, node, seq, sc, body):
        parts = e.parts_of(seq)
        n = self.n
        k = e.index()
        e.prove(e.length(parts) == n, 'every span is considered')
        with e.loopctx(k, n):
            e.prove(e.num(e.at(parts, k)) == n - 1 - k, 'from the last to the first')
        roles = {}
        for name, v in list(sc.vars.items()):
            r = self.role(e, v)
            if r is not None:
                if r in roles:
                    raise Unsupported('two lists of the same kind')
                e.prove(e.length(v.parts) == n, r + ': a cell for each span')
                roles[r] = self.cells(e, r, v.birth)
                e.set_var(sc, name, roles[r])
        if set(roles) != {'covers', 'pointers'}:
            raise Unsupported('another way to choose spans')
        names = sorted({x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        for x in names:
            if x in sc.vars:
                e.set_var(sc, x, Undefined())
        if e.branch(e.const('last step', BoolSort)):
            self.known(e, z3.IntVal(-1))
            for r in roles.values():
                r.lo = z3.IntVal(-1)
            return
        index = e.const('index', IntSort)
        e.assume(z3.And(index >= 0, index < n))
        self.known(e, index)
        for r in roles.values():
            r.lo = index
        e.stamp += 1
        mark, stamp = len(e.logs), e.stamp
        try:
            body(Sym(INT, index))
        except ContinueX:
            pass
        for op in e.logs[mark:]:
            if op.kind in ('env', 'resolve') and op.target is sc or op.kind in ('cell', 'resolve') or \
                    not e.pre_existing(op.target, stamp):
                continue
            raise Unsupported('effect %s in the loop' % op.kind)
        self.check(e, index, roles)
        raise PathEnd()

    def check(self, e, index, roles):
        for r in ('covers', 'pointers'):
            e.prove(len(roles[r].writes) >= 1, r + ': filled')
            for i, _ in roles[r].writes:
                e.prove(i == index, r + ': the cell of the position')
        cover, ptr = e.num(roles['covers'].writes[-1][1]), roles['pointers'].writes[-1][1]
        if not isinstance(ptr, SetV):
            raise Unsupported('pointers are not sets')
        n = self.n
        # sums of the new set
        new = Sums(e, self.l, n, 'sum_new', lambda i: zb(e.contains(ptr, Sym(INT, i))), False)
        new.define()
        for m in self.sources(e, ptr):
            self.own.define(m)
            for a in (m, index + 1):
                e.assume(alike(e, new, (), self.own, (m,), a))
            e.assume(gap(e, new, (), index + 1, m))
            e.assume(gap(e, self.own, (m,), index + 1, m))
            e.assume(gap(e, self.any, (), index + 1, m))
        e.assume(gap(e, self.any, (), index + 1, n))
        e.assume(gap(e, self.any, (), index + 1, e.uf('next', IntSort, IntSort)(index)))
        e.assume(gap(e, new, (), index + 1, n))
        i, j = e.index(), e.index()
        e.prove(z3.ForAll([i], z3.Implies(new.member(i), z3.And(i >= index, i < n))), 'sound: positions from this one on')
        e.prove(choice(e, self.l, n, new.member), 'sound: spans that do not overlap')
        e.prove(new.at(index) == cover, 'sound: as large as stated')
        e.prove(self.any.at(index) <= cover, 'best: no choice of spans is larger')

    def sources(self, e, ptr):
        """positions whose sets the new one is made of"""
        out = []
        for p in ptr.parts:
            m = getattr(p, 'memset', None)
            if m is not None and z3.is_app(m[0]) and m[0].decl().name() == 'pointers':
                out.append(m[0].arg(0))
        return out


class Undefined(object):
    """variable of an earlier iteration"""

    def method_model(self, e, name):
        raise Unsupported('value carried over from an earlier iteration')


def c_nexts(e, a, k):
    l = e.res(a[0])
    n = e.length(l.parts)
    j = e.index()
    none, v = e.uf('no_next', IntSort, BoolSort), e.uf('next', IntSort, IntSort)
    a1, b1 = is_next(e, l, n, j, v(j))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.If(none(j), a1, b1)), patterns=[v(j)]))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.If(none(j), a1, b1)), patterns=[none(j)]))
    k = e.index()
    return e.new_list([For(k, n, [Item(Maybe(none(k), Sym(INT, v(k))))])], GenV)


BEST = Best()


def members(e, n):
    """sorted() of a set of positions"""
    def hook(eng, v, parts, key, rev):
        if not isinstance(v, SetV) or v.ref is None or key is not None or rev:
            raise Unsupported('sorting')
        k = e.index()
        return e.new_list([For(k, n, [Item(Sym(INT, k), e.mem(v.ref, INT, k))])])
    e.sorted_hook = hook


@unit('C01', 'the chosen spans do not overlap and no other choice covers more', [S + 'resolve_spans', S + 'span_size'],
      schema=SCHEMA, contracts={S + 'get_nexts': c_nexts}, loops=[BEST], budget=300, timeout=20000)
def resolve(e):
    l, n = pairs_list(e)
    ordered(e, l, n)
    BEST.setup(e, l, n)
    members(e, n)
    got = flat(e, e.parts_of(e.res(e.call(e.w.get(S + 'resolve_spans'), [l]))))
    if not got:
        e.prove(z3.Or(n == 0), 'nothing is chosen only where there is nothing')
        return
    if len(got) != 1 or not isinstance(got[0], For) or got[0].dedup or len(got[0].parts) != 1:
        raise Unsupported('spans chosen in another shape')
    k = e.index()
    it = e.inst_parts(got[0].parts, got[0].k, k)[0]
    e.prove(got[0].n == n, 'the spans are given in order')
    chosen = lambda i: z3.substitute(zb(it.guard), (k, i))      # noqa: E731
    with e.loopctx(k, n):
        a, b = e.res(it.value)
        e.prove(z3.And(e.num(a) == ends(e, l, k)[0], e.num(b) == ends(e, l, k)[1]), 'each is one of the given spans')
    e.prove(choice(e, l, n, chosen), 'the chosen spans do not overlap')
    total = Sums(e, l, n, 'sum_result', chosen, False)
    total.define()
    e.assume(alike(e, total, (), BEST.own, (z3.IntVal(0),), z3.IntVal(0)))
    e.prove(BEST.any.at(0) <= total.at(0), 'no other choice covers more')
    frame(e)


# --- from the trees to the matches -------------------------------------------------------

NODE = 'yargy.tree.constructors.Node'
SCHEMA1 = merged(SCHEMA2, {('Tree', 'range'): TUP(INT, INT), ('Tree', 'root'): OBJ(NODE)})


def c_node_lt(e, a, k):
    return Sym(BOOL, e.uf('node_less', IntSort, IntSort, BoolSort)(e.res(a[0]).ref, e.res(a[1]).ref))


@unit('C01', 'trees are sorted by their first word, longer ones first', ['yargy.tree.constructors.Tree.__lt__'],
      schema=SCHEMA1, contracts={'dispatch:%s.__lt__' % NODE: c_node_lt})
def tree_order(e):
    a, b = e.fresh(OBJ('Tree'), 'a'), e.fresh(OBJ('Tree'), 'b')
    got = zb(e.truth(e.compare(ast.Lt(), a, b)))
    (_, sa, ta), (_, sb, tb) = tree_key(e, a), tree_key(e, b)
    e.prove(z3.Implies(sa != sb, got == (sa < sb)), 'trees are in the order of their first words')
    e.prove(z3.Implies(z3.And(sa == sb, ta != tb), got == (ta > tb)), 'of those the longer come first')
    e.prove(z3.Implies(z3.And(sa == sb, ta == tb), got == zb(e.truth(c_node_lt(e, [get(e, a, 'root'), get(e, b, 'root')], {})))),
            'trees of the same words are in the order of their derivations')
    frame(e)


def c_resolve(e, a, k):
    """some of the spans, each once; they have to be in the order of their starts and none empty"""
    l = e.res(a[0])
    parts = [p for p in l.parts]
    e.ghost_emit('resolved', [Item(l)])
    if len(parts) != 1 or not isinstance(parts[0], For) or len(parts[0].parts) != 1:
        raise Unsupported('spans in another shape')
    p = parts[0]
    i, j, q_ = e.index(), e.index(), e.index()
    (si, ti, gi), (sj, tj, gj), (sq, tq, gq) = [
        (e.num(x.value[0]), e.num(x.value[1]), zb(x.guard)) for x in
        [e.inst_parts(p.parts, p.k, y)[0] for y in (i, j, q_)]]
    e.prove(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < p.n, gi, gj), si <= sj)), 'spans in the order of their starts')
    e.prove(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p.n, gi), si < ti)), 'no span is empty')
    if not p.dedup:
        e.prove(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < p.n, gi, gj), z3.Or(si != sj, ti != tj))), 'no span twice')
    pick = e.uf('picked', IntSort, IntSort, BoolSort)(sq, tq)
    f = For(q_, p.n, [Item(e.inst_parts(p.parts, p.k, q_)[0].value, z3.And(gq, pick))])
    f.dedup = p.dedup
    return e.new_list([f], GenV)


@unit('C01', 'one match for each chosen span, of its first tree that qualifies', [Y + 'prepare_resolved_matches'], schema=SCHEMA1,
      contracts={Y + 'prepare_match': c_prepare_match, S + 'resolve_spans': c_resolve}, budget=200)
def resolved(e):
    trees = e.fresh(LIST(OBJ('Tree')), 'trees')
    n = e.length(trees.parts)
    i, j, k = e.index(), e.index(), e.index()
    el = e.uf('el_obj_Tree', IntSort, IntSort, IntSort)

    def key(x):
        t = el(trees.ref, x)
        return (fieldterm(e, 'Tree', 'root', t, IntSort), e.uf('fld0_Tree_range', IntSort, IntSort)(t),
                e.uf('fld1_Tree_range', IntSort, IntSort)(t))
    ok = lambda x: z3.Not(e.uf('refused', IntSort, IntSort, IntSort, BoolSort)(*key(x)))       # noqa: E731
    # sorted by Tree.__lt__; a match has words
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), key(i)[1] <= key(j)[1])))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, ok(i)), key(i)[1] < key(i)[2])))
    got = flat(e, e.parts_of(e.res(e.call(e.w.get(Y + 'prepare_resolved_matches'), [trees]))))
    given = flat(e, e.ghost.get('resolved', []))
    e.prove(len(given) == 1, 'the best spans are chosen once')
    g = flat(e, given[0].parts)
    if not g:
        e.prove(n == 0, 'no spans only where there are no trees')
    else:
        if len(g) != 1 or not isinstance(g[0], For) or len(g[0].parts) != 1:
            raise Unsupported('spans in another shape')
        it = e.inst_parts(g[0].parts, g[0].k, k)[0]
        e.prove(g[0].n == n, 'every tree is considered')
        with e.loopctx(k, n):
            e.prove(z3.Implies(zb(it.guard), ok(k)), 'only trees that qualify')
            first = z3.Not(z3.Exists([j], z3.And(j >= 0, j < k, ok(j), key(j)[1] == key(k)[1], key(j)[2] == key(k)[2])))
            e.prove(z3.Implies(z3.And(ok(k), first), zb(it.guard)), 'the span of every tree that qualifies')
            e.prove(z3.And(e.num(it.value[0]) == key(k)[1], e.num(it.value[1]) == key(k)[2]), 'the range of the tree')
    if not got:
        e.prove(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Not(ok(k)))), 'nothing is found only where nothing qualifies')
        return
    if len(got) != 1 or not isinstance(got[0], For) or got[0].dedup or len(got[0].parts) != 1:
        raise Unsupported('matches in another shape')
    it = e.inst_parts(got[0].parts, got[0].k, k)[0]
    e.prove(got[0].n == n, 'in the order of the spans')
    with e.loopctx(k, n):
        first = z3.Not(z3.Exists([j], z3.And(j >= 0, j < k, ok(j), key(j)[1] == key(k)[1], key(j)[2] == key(k)[2])))
        want = z3.And(ok(k), first, e.uf('picked', IntSort, IntSort, BoolSort)(key(k)[1], key(k)[2]))
        e.prove(zb(it.guard) == want, 'a match for each chosen span')

        def thunk():
            if e.branch(zb(it.guard)):
                v = e.res(it.value)
                e.prove(v is not None and v.ref == e.uf('match_of', IntSort, IntSort, IntSort, IntSort)(*key(k)),
                        'of the first tree of the span that qualifies')
        e.run_paths(thunk)
    frame(e)


@unit('C01', 'findall resolves the sorted trees of all states', [Y + 'Parser.findall', Y + 'prepare_trees', Y + 'State.range'],
      schema=SCHEMA2, contracts=merged(c02.RUN, {Y + 'prepare_resolved_matches': lambda e, a, k: e.ghost_emit(
          'trees', [Item(e.res(a[0]))]) or 'matches'}))
def findall(e):
    p, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(STR, 'text')
    perm = c02.any_order(e)
    got = e.res(e.call(e.getattr(p, 'findall'), [s]))
    e.prove(got == 'matches', 'the matches of the chosen spans')
    given = flat(e, e.ghost.get('trees', []))
    e.prove(len(given) == 1 and len(e.ghost.get('sorted', [])) == 1, 'the trees are sorted once')
    states = c_parser_matches(e, [p, s, True], {})
    parts = e.parts_of(given[0])
    n = e.length(states.parts)
    e.prove(e.length(parts) == n, 'a tree per state')
    k = e.index()
    with e.loopctx(k, n):
        def thunk():
            st = e.at(states.parts, perm(k))
            t = e.res(e.at(parts, k))
            e.prove(t.cls is e.w.cls('Tree'), 'a tree')
            for x, y in zip(tree_key(e, t), state_key(e, st.ref)):
                e.prove(x == y, 'with the root and the range of the state')
        e.run_paths(thunk)
    frame(e)


def c_findall(e, a, k):
    return e.symlist(e.uf('found_matches', IntSort, StrSort, IntSort)(e.res(a[0]).ref, e.term(a[1])), OBJ('Match'), GenV)


@unit('C01', 'find gives the first match of findall, or nothing', [Y + 'Parser.find'], schema=SCHEMA2,
      contracts={Y + 'Parser.findall': c_findall})
def find(e):
    p, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(STR, 'text')
    got = e.res(e.call(e.getattr(p, 'find'), [s]))
    all_ = c_findall(e, [p, s], {})
    if got is None:
        e.prove(e.length(all_.parts) == 0, 'nothing only where there is no match')
    else:
        e.prove(z3.And(e.length(all_.parts) > 0, got.ref == e.at(all_.parts, z3.IntVal(0)).ref), 'the first match')
    frame(e)


# a match is found at a range exactly if the chart has a state of it
share('C01', 'C02', 'states of a column', 'matches of a chart', 'matches(all=True)', 'becomes a match')
