"""C15: phrase trees keep the words, and the main word is the marked one.

visit(x) of a tree transformator is under the contract 'its leaves are those of x, in order, and it is None exactly when
there are none'; every unit proves that for one transformator and one class of node, given it for the parts."""
from .lib import *
from . import c18, c05

TC = 'yargy.tree.constructors.'
TT = 'yargy.tree.transformators.'
NODE = TC + 'Node'
SCHEMA15 = merged(c05.SCHEMA5, {
    ('Node', 'rule'): OBJ('BNFRule'), ('Node', 'production'): OBJ('Production'), ('Node', 'rank'): INT,
    ('Node', 'children'): LIST(OBJ(NODE)), ('Node', 'main_index'): OPT(INT),
    ('Leaf', 'predicate'): OBJ('Predicate'), ('Leaf', 'token'): OBJ('Token'),
    ('Tree', 'root'): OBJ(NODE), ('Tree', 'range'): TUP(INT, INT),
    ('ApplyRelationsTransformator', 'relations'): OBJ('TokenRelationsGraph'),
})


def node(e, name='item', cls=NODE):
    return c05.exactly(e, e.fresh(OBJ(NODE), name), cls)


def empty(e, x):
    """z3: the phrase has no words"""
    return e.uf('no_words', IntSort, BoolSort)(e.res(x).ref)


def visited(e, a, k):
    """contract of visit: None for a phrase without words, else a phrase with the same words"""
    x = e.res(a[1])
    return Maybe(empty(e, x), e.mk(OBJ(NODE), e.uf('visited', IntSort, IntSort)(x.ref), facts=False))


def visited_some(e, a, k):
    x = e.res(a[1])
    return e.mk(OBJ(NODE), e.uf('visited', IntSort, IntSort)(x.ref), facts=False)


# --- the parts of a rule ------------------------------------------------------------------------

@unit('C15', 'the parts of a rule in order, the marked one being main, else the first', [
    c18.RC + 'prepare_terms', 'yargy.relations.constructors.Main.__init__'], schema=merged(c18.SCHEMA18, {('Main', 'term'): ANY}),
    budget=120)
def terms(e):
    t = c18.Terms(e)
    p, r = c18.outcome(e, lambda: e.call(e.w.get(c18.RC + 'prepare_terms'), [t.items]))
    if p is not None:
        return          # C18: exactly the misuses are refused
    have, main_ = r
    have = e.res(have)
    e.prove(e.length(have.parts) == t.n, 'as many terms as parts')
    e.prove(e.num(main_) == z3.If(t.none(t.n), 0, t.pos(t.n)), 'the main one is the marked one, else the first')
    k = e.index()
    with e.loopctx(k, t.n):
        def thunk():
            x = t.item(k)
            if e.branch(is_cls(e, x, 'Main')):
                x = get(e, x, 'term')
            e.prove(same_obj(e, e.res(e.at(have.parts, k)), x), 'a part is the term at its place')
        e.run_paths(thunk)
    m = e.res(e.call(e.w.cls('Main'), [e.fresh(OBJ('Rule'), 'rule')]))
    frame(e)


# --- dropping empty parts ------------------------------------------------------------------------

@unit('C15', 'dropping empty parts loses no word and keeps the main part', [TT + 'PropogateEmptyTransformator.visit_Node',
                                                                          NODE + '.__init__'],
      schema=SCHEMA15, contracts={'yargy.visitor.Visitor.visit': visited})
def propagate(e):
    item = node(e)
    kids = get(e, item, 'children')
    n = e.length(kids.parts)
    prod = get(e, item, 'production')
    m = e.num(get(e, prod, 'main'))
    e.assume(z3.And(m >= 0))
    el = lambda j: e.uf('el_obj_' + NODE, IntSort, IntSort, IntSort)(kids.ref, j)         # noqa: E731
    cond = lambda j: z3.Not(e.uf('no_words', IntSort, BoolSort)(el(j)))                    # noqa: E731
    value = lambda j: e.mk(OBJ(NODE), e.uf('visited', IntSort, IntSort)(el(j)), facts=False)    # noqa: E731
    count = e.uf('parts_with_words', IntSort, IntSort)
    j = q(e)
    e.assume(count(0) == 0)
    e.assume(z3.ForAll([j], z3.Implies(j >= 0, count(j + 1) == count(j) + z3.If(cond(j), 1, 0)), patterns=[count(j + 1)]))
    e.acc_folds.append(lambda eng, l, p, n_: Filtered(value, cond, count))
    place = lambda k: z3.If(z3.And(m < k, cond(m)), count(m), 0)                           # noqa: E731

    def fold(eng, init, p, n_):
        if init == 0 and not isinstance(init, bool):
            return lambda k: Sym(INT, place(k))
    e.folds.append(fold)
    r = e.res(e.call(e.getattr(e.call(e.w.get(TT + 'PropogateEmptyTransformator'), []), 'visit_Node'), [item]))
    i = q(e)
    none = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(cond(i))))
    if r is None:
        e.prove(none, 'nothing is left only of a phrase without words')
        return
    e.prove(z3.Not(none), 'nothing is left of a phrase without words')
    e.prove(r.fresh and r.cls is e.w.cls(NODE), 'a node')
    for f in ('rule', 'production', 'rank'):
        e.prove(zb(e.ident(get(e, r, f), get(e, item, f))), 'the same ' + f)
    k = e.index()
    same_seq(e, get(e, r, 'children').parts, [For(k, n, [Item(value(k), cond(k))])], 'the parts with words, in order',
             eq=lambda a, b: e.ident(a, b))
    mi = get(e, r, 'main_index')
    if mi is None:
        raise Unsupported('main part')
    e.prove(e.num(mi) == place(n), 'the main part is where it has moved to; if it is empty, the first')
    frame(e)


@unit('C15', 'the words of a phrase are kept one by one', [TT + 'TreeTransformator.visit_Leaf', TT + 'TreeTransformator.visit_Node',
                                                       TC + 'Leaf.__init__'], schema=SCHEMA15,
      contracts={'yargy.visitor.Visitor.visit': visited_some})
def copies(e):
    for t in ('TreeTransformator', 'PropogateEmptyTransformator', 'KeepInterpretationNodesTransformator'):
        tr = e.call(e.w.get(TT + t), [])
        leaf = node(e, 'leaf', TC + 'Leaf')
        r = e.res(e.call(e.getattr(tr, 'visit_Leaf'), [leaf]))
        e.prove(is_cls(e, r, TC + 'Leaf'), t + ': a leaf')
        for f in ('predicate', 'token'):
            e.prove(same_obj(e, get(e, r, f), get(e, leaf, f)), '%s: the same %s' % (t, f))
    item = node(e)
    r = e.res(e.call(e.getattr(e.call(e.w.get(TT + 'TreeTransformator'), []), 'visit_Node'), [item]))
    for f in ('rule', 'production', 'rank'):
        e.prove(zb(e.ident(get(e, r, f), get(e, item, f))), 'the same ' + f)
    kids = get(e, item, 'children')
    k = e.index()
    want = [For(k, e.length(kids.parts), [Item(visited_some(e, [None, e.at(kids.parts, k)], {}))])]
    same_seq(e, get(e, r, 'children').parts, want, 'all the parts in order', eq=lambda a, b: e.ident(a, b))
    frame(e)


# --- the main word ----------------------------------------------------------------------------------

def main_of(e, a, k):
    """contract of main for the parts"""
    return e.mk(OBJ('Token'), e.uf('main_word', IntSort, IntSort)(e.res(a[0]).ref))


@unit('C15', 'the main word of a phrase is that of its main part', [NODE + '.main', TC + 'Leaf.main'], schema=SCHEMA15,
      contracts={'property:%s.main' % NODE: main_of})
def main_word(e):
    x = node(e)
    kids = get(e, x, 'children')
    mi = get(e, x, 'main_index')
    m = e.num(get(e, get(e, x, 'production'), 'main')) if mi is None else e.num(mi)
    e.assume(z3.And(m >= 0, m < e.length(kids.parts)))
    prop = e.w.cls(NODE).ns['main']
    r = e.res(e.body_call(prop.fget, [x]))
    e.prove(r.ref == e.uf('main_word', IntSort, IntSort)(e.at(kids.parts, m).ref), 'of the main part')
    leaf = node(e, 'leaf', TC + 'Leaf')
    r = e.res(e.body_call(e.w.cls(TC + 'Leaf').ns['main'].fget, [leaf]))
    e.prove(same_obj(e, r, get(e, leaf, 'token')), 'a word is its own main word')
    frame(e)


# --- walking a tree ------------------------------------------------------------------------------------

STREAM = z3.DeclareSort('Stream')


class StackWalk(object):
    """while loop that walks a tree with a stack: what is still to come is read off the stack.

    pre(x, s): the nodes of x, each before its parts, parts left to right, and then s; parts(l, k, s): the same for the
    parts of l from the k-th on.  left(q, i): the stream of the first i of the stack q."""

    function = TC + 'dfs_tree'

    def matches(self, e, node_, seq, sc):
        return isinstance(node_, ast.While) and sc is not None and sc.func is not None and \
            sc.func.qualname == self.function

    def theory(self, e):
        S = STREAM
        self.nil = z3.Const('nothing', S)
        self.cons = e.uf('cons', IntSort, S, S)
        self.pre = e.uf('pre', IntSort, S, S)
        self.parts = e.uf('parts', IntSort, IntSort, S, S)
        self.left = e.uf('left', IntSort, IntSort, S)
        self.kids = lambda x: fieldterm(e, 'Node', 'children', x, IntSort)
        self.el = e.uf('el_obj_' + NODE, IntSort, IntSort, IntSort)
        self.len = e.uf('len_obj_' + NODE, IntSort, IntSort)

    # instances of the definitions
    def pre_is(self, x, s):
        return self.pre(x, s) == self.cons(x, self.parts(self.kids(x), 0, s))

    def parts_is(self, l, k, s):
        return self.parts(l, k, s) == z3.If(k < self.len(l), self.pre(self.el(l, k), self.parts(l, k + 1, s)), s)

    def left_is(self, q_, i):
        return z3.And(self.left(q_, 0) == self.nil,
                      z3.Implies(i >= 0, self.left(q_, i + 1) == self.pre(self.el(q_, i), self.left(q_, i))))

    def run_while(self, e, st, sc):
        stacks = [v for v in sc.vars.values() if isinstance(v, ListV) and v is not sc.yields and v.kind == 'list']
        if len(stacks) != 1 or sc.yields is None:
            raise Unsupported('walk')
        stack = stacks[0]
        self.theory(e)
        entry = e.concrete(stack.parts)
        if entry is None or len(entry) != 1 or sc.yields.parts:
            raise Unsupported('walk')
        root = e.res(entry[0])
        # any later moment: any stack
        old = e.const('stack', IntSort)
        n = e.const('n', IntSort)
        left = self.left
        e.assume(n >= 0)
        e.assume(self.left_is(old, n - 1))
        k = e.index()
        e.mutate_parts(stack, [For(k, n, [Item(e.mk(OBJ(NODE), self.el(old, k), facts=False))])], 'reorder', ())
        for name in sorted({x.id for b in st.body + [st.test] for x in ast.walk(b)
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}):
            if sc.vars.get(name) is stack:
                raise Unsupported('walk')
            sc.vars.pop(name, None)
        if not e.branch(zb(e.truth(e.ev(st.test, sc)))):
            e.prove(left(old, n) == self.nil, 'it ends when nothing is left')
            k = e.index()
            w = walked(e, root)
            e.mutate_parts(sc.yields, w.parts, 'extend', (w.parts,))
            self.started(e, root)
            return
        mark, stamp = len(e.logs), e.stamp
        e.ex(st.body, sc)
        for op in e.logs[mark:]:
            # any other thing that the round changes would differ from round to round
            if op.kind not in ('resolve', 'duptest', 'ghost', 'env') and op.target is not stack and op.target is not sc.yields and \
                    getattr(op.target, 'birth', 0) <= stamp:
                raise Unsupported('walk changes something else (%s)' % op.kind)
        out = e.concrete(sc.yields.parts)
        if out is None or len(out) != 1:
            raise Unsupported('walk')
        x = e.res(out[0]).ref
        m = self.len(self.kids(x))
        size = e.length(stack.parts)
        if not e.valid(z3.And(x == self.el(old, n - 1), size == n - 1 + m)):
            raise Unsupported('walk')
        k, j = e.index(), e.index()

        def places():
            a = e.res(e.at(stack.parts, k)).ref
            return e.mkbool(a == z3.If(k < n - 1, self.el(old, k), self.el(self.kids(x), m - 1 - (k - (n - 1)))))
        with e.loopctx(k, size):
            good = e.sub_truth(places)
            if not e.valid(good):
                raise Unsupported('walk')
        new = e.const('new_stack', IntSort)
        element = lambda k: self.el(new, k) == z3.If(                                          # noqa: E731
            k < n - 1, self.el(old, k), self.el(self.kids(x), m - 1 - (k - (n - 1))))
        rest = left(old, n - 1)
        e.assume(m >= 0)
        e.assume(z3.Implies(is_cls(e, e.mk(OBJ(NODE), x, facts=False), TC + 'Leaf'), m == 0))
        self.induction(e, n - 1, lambda i: left(new, i) == left(old, i),
                       lambda i: [self.left_is(new, i), self.left_is(old, i), element(i)], 'below the parts nothing has changed')
        self.induction(e, m, lambda j: left(new, n - 1 + j) == self.parts(self.kids(x), m - j, rest),
                       lambda j: [self.left_is(new, n - 1 + j), self.parts_is(self.kids(x), m - j - 1, rest),
                                  self.parts_is(self.kids(x), m - j, rest), element(n - 1 + j)],
                       'the parts are next, left to right')
        e.assume(self.pre_is(x, rest))
        e.prove(left(old, n) == self.cons(x, left(new, size)), 'the node that comes next, and then the rest')
        raise PathEnd()

    def induction(self, e, top, claim, facts, label):
        """claim(i) for 0 <= i <= top; facts(i): definitions at i"""
        i = e.const('i', IntSort)
        zero = z3.IntVal(0)
        e.prove(z3.Implies(z3.And(*facts(zero)), claim(zero)), label + ': at first')
        e.prove(z3.Implies(z3.And(i >= 0, i < top, claim(i), *facts(i)), claim(i + 1)), label + ': one more')
        e.assume(z3.Implies(top >= 0, claim(top)))

    def started(self, e, root):
        s = e.const('first_stack', IntSort)
        e.assume(self.left_is(s, z3.IntVal(0)))
        e.assume(self.el(s, 0) == root.ref)
        e.prove(self.left(s, 1) == self.pre(root.ref, self.nil), 'at first the whole tree is to come')


def walked(e, root):
    """the nodes of a tree in order, each before its parts"""
    return e.symlist(e.uf('walked', IntSort, IntSort)(root.ref), OBJ(NODE), GenV)


@unit('C15', 'a tree is walked from left to right, a phrase before its parts', [TC + 'dfs_tree'], schema=SCHEMA15,
      loops=[StackWalk()], timeout=15000, budget=120)
def walk(e):
    root = e.fresh(OBJ(NODE), 'root')
    r = e.res(e.call(e.w.get(TC + 'dfs_tree'), [root]))
    same_seq(e, e.parts_of(r), walked(e, root).parts, 'all the nodes of the tree', eq=lambda a, b: e.ident(a, b))
    frame(e)


def c_walk(e, a, k):
    return walked(e, e.res(a[0]))


@unit('C15', 'the nodes of a kind, in order', [TC + 'Tree.walk'], schema=SCHEMA15, contracts={TC + 'dfs_tree': c_walk})
def walk_types(e):
    t = e.fresh(OBJ('Tree'), 'tree')
    every = walked(e, get(e, t, 'root'))
    k = e.index()
    x = e.res(e.at(every.parts, k))
    same_seq(e, e.parts_of(e.call(e.getattr(t, 'walk'), [])), every.parts, 'all of them', eq=lambda a, b: e.ident(a, b))
    want = [For(k, e.length(every.parts), [Item(x, is_cls(e, x, TC + 'Leaf'))])]
    for r in (e.call(e.getattr(t, 'walk'), [], {'types': e.w.cls(TC + 'Leaf')}),
              e.call(e.getattr(t, 'walk'), [e.w.cls(TC + 'Leaf')])):
        same_seq(e, e.parts_of(r), want, 'the leaves', eq=lambda a, b: e.ident(a, b))
    frame(e)


# --- dropping phrases that are not marked -------------------------------------------------------------

def flattened(e, a, k):
    """contract of flatten for the parts: words and marked phrases of a phrase in order, each marked phrase whole"""
    return e.symlist(e.uf('flattened', IntSort, IntSort)(e.res(a[1]).ref), OBJ(NODE), GenV)


MARKED = merged(SCHEMA15, {('BNFRule', 'interpretator'): OPT(OBJ('Interpretator'))})


def is_marked(e, x):
    """z3: the phrase is marked (an interpretator is never false)"""
    return z3.Not(e.uf('none_BNFRule_interpretator', IntSort, BoolSort)(fieldterm(e, 'Node', 'rule', e.res(x).ref, IntSort)))


@unit('C15', 'dropping unmarked phrases loses no word and no marked phrase', [TT + 'KeepInterpretationNodesTransformator.flatten'],
      schema=MARKED, contracts={TT + 'KeepInterpretationNodesTransformator.flatten': flattened})
def flatten(e):
    t = e.res(e.call(e.w.get(TT + 'KeepInterpretationNodesTransformator'), []))
    item = node(e)
    kids = get(e, item, 'children')
    got = e.res(e.body_call(e.getattr(t, 'flatten'), [item]))
    k = e.index()
    x = e.res(e.at(kids.parts, k))
    whole = z3.Or(is_cls(e, x, TC + 'Leaf'), is_marked(e, x))
    inner = flattened(e, [t, x], {})
    j = e.index()
    want = [For(k, e.length(kids.parts), [Item(x, whole), For(j, e.length(inner.parts),
                                                            [Item(e.at(inner.parts, j), z3.Not(whole))])])]
    same_seq(e, e.parts_of(got), want, 'the words and the marked phrases, in order', eq=lambda a, b: e.ident(a, b))
    frame(e)


@unit('C15', 'a marked phrase keeps its words and the marked phrases in it', [
    TT + 'KeepInterpretationNodesTransformator.visit_Node', TT + 'KeepInterpretationNodesTransformator.visit_Leaf'],
    schema=MARKED, contracts={TT + 'KeepInterpretationNodesTransformator.flatten': flattened,
                              TT + 'KeepInterpretationNodesTransformator.production': lambda e, a, k: e.mk(
                                  OBJ('Production'), e.uf('production_of', IntSort, IntSort)(e.res(a[1]).ref), facts=False),
                              'yargy.visitor.Visitor.visit': visited_some})
def keep(e):
    t = e.res(e.call(e.w.get(TT + 'KeepInterpretationNodesTransformator'), []))
    item = node(e)
    e.assume(is_marked(e, item))
    r = e.res(e.call(e.getattr(t, 'visit_Node'), [item]))
    e.prove(isinstance(r, ObjV) and r.fresh and r.cls is e.w.cls(NODE), 'a node')
    e.prove(zb(e.ident(get(e, r, 'rule'), get(e, item, 'rule'))), 'of the same rule')
    inner = flattened(e, [t, item], {})
    k = e.index()
    want = [For(k, e.length(inner.parts), [Item(visited_some(e, [None, e.at(inner.parts, k)], {}))])]
    same_seq(e, get(e, r, 'children').parts, want, 'all of them, in order', eq=lambda a, b: e.ident(a, b))
    frame(e)


@unit('C15', 'a tree without a mark is not interpreted, and a marked one as a whole', [
    TT + 'KeepInterpretationNodesTransformator.__call__', TT + 'TreeTransformator.__call__', TC + 'Tree.__init__',
    TC + 'Tree.interpret', TC + 'Tree.normalized', TT + 'InterpretationTransformator.__call__'],
    schema=MARKED, contracts={'yargy.visitor.Visitor.visit': visited_some})
def whole(e):
    for t in ('KeepInterpretationNodesTransformator', 'TreeTransformator', 'PropogateEmptyTransformator'):
        def thunk():
            tree = e.fresh(OBJ('Tree'), 'tree')
            root = get(e, tree, 'root')
            p, r = c18.outcome(e, lambda: e.call(e.call(e.w.get(TT + t), []), [tree]))
            if p is not None:
                e.prove(zb(t.startswith('Keep')), 'a tree is transformed')
                e.prove(z3.Or(is_cls(e, root, TC + 'Leaf'), z3.Not(is_marked(e, root))), 'a marked tree is interpreted')
                return
            e.prove(r.fresh and r.cls is e.w.cls('Tree'), t + ': a tree')
            e.prove(same_obj(e, get(e, r, 'root'), visited_some(e, [None, root], {})), t + ': of its root')
            for x, y in zip(get(e, r, 'range'), get(e, tree, 'range')):
                e.prove(e.num(x) == e.num(y), t + ': of the same words')
        e.run_paths(thunk)
    frame(e)


# --- words that are tied by relations are replaced, the others stay -----------------------------------------

def constrained(e, a, k):
    """contract of TokenRelationsGraph.constrain (C08): the word with the forms that can agree"""
    return e.mk(OBJ('Token'), e.uf('constrained', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref))


@unit('C15', 'agreement changes only the word of a leaf', [TT + 'ApplyRelationsTransformator.visit_Leaf',
                                                        TT + 'InplaceTreeTransformator.visit_Node'], schema=SCHEMA15,
      contracts={'yargy.relations.graph.TokenRelationsGraph.constrain': constrained})
def apply(e):
    rel = e.fresh(OBJ('TokenRelationsGraph'), 'relations')
    t = e.res(e.call(e.w.get(TT + 'ApplyRelationsTransformator'), [rel]))
    leaf = node(e, 'leaf', TC + 'Leaf')
    was = get(e, leaf, 'token')
    e.call(e.getattr(t, 'visit_Leaf'), [leaf])
    e.prove(same_obj(e, get(e, leaf, 'token'), constrained(e, [rel, was], {})), 'the word with the forms that agree')
    for op in e.logs:
        if op.kind == 'field' and isinstance(op.target, ObjV) and not op.target.fresh:
            e.prove(same_obj(e, op.target, leaf) if op.data[0] == 'token' else False, 'only the word of the leaf')
    x = node(e)
    mark = len(e.logs)
    e.call(e.getattr(t, 'visit_Node'), [x])
    e.prove(all(op.kind != 'field' for op in e.logs[mark:]), 'phrases stay')


def seen(e, a, k):
    e.ghost_emit('seen', [Item(e.res(a[1]))])


@unit('C15', 'every node of a tree is visited', [TT + 'InplaceTreeTransformator.__call__', TT + 'RelationsTransformator.__call__'],
      schema=SCHEMA15, contracts={TC + 'dfs_tree': c_walk, 'yargy.visitor.Visitor.visit': seen})
def every_node(e):
    for t in ('ApplyRelationsTransformator', 'RelationsTransformator'):
        tree = e.fresh(OBJ('Tree'), 'tree')
        rel = e.fresh(OBJ('TokenRelationsGraph'), 'relations')
        tr = e.res(e.call(e.w.get(TT + t), [rel] if t.startswith('Apply') else []))
        mark = len(e.ghost.get('seen', []))
        r = e.res(e.call(tr, [tree]))
        same_seq(e, e.ghost['seen'][mark:], walked(e, get(e, tree, 'root')).parts, t + ': every node',
                 eq=lambda a, b: e.ident(a, b))
        e.prove(same_obj(e, r, tree if t.startswith('Apply') else get(e, tr, 'relations')), t + ': the result')
    frame(e)


def tied(e, a, k):
    e.ghost_emit('tied', [Item((e.res(a[0]), e.res(a[1]), e.res(a[2])))])


@unit('C15', 'the word that stands for a phrase in agreement is its main word', [TT + 'RelationsTransformator.visit_Node'],
      schema=merged(SCHEMA15, {('BNFRule', 'relation'): OPT(OBJ('Relation'))}),
      contracts={'property:%s.main' % NODE: main_of, NODE + '.main': main_of,
                 'yargy.relations.graph.TokenRelationsGraph.add': tied, 'yargy.relations.graph.RelationsGraph.add': tied})
def stands_for(e):
    t = e.res(e.call(e.w.get(TT + 'RelationsTransformator'), []))
    item = node(e)
    rel = get(e, get(e, item, 'rule'), 'relation')
    e.call(e.getattr(t, 'visit_Node'), [item])
    got = flat(e, e.ghost.get('tied', []))
    if rel is None:
        e.prove(not got, 'a phrase without a relation is not tied')
        return
    e.prove(len(got) == 1, 'a phrase with a relation is tied once')
    e.prove(same_obj(e, got[0][0], get(e, t, 'relations')), 'in the relations of the tree')
    e.prove(same_obj(e, got[0][1], rel), 'by its relation')
    e.prove(got[0][2].ref == main_of(e, [item], {}).ref, 'by its main word')
    frame(e)


# a word is attached to its phrase in its place; the words of a match are those of the leaves; main marks survive compilation
share('C15', 'C02', 'a word is attached', 'a phrase is attached', 'the words of a match', 'becomes a match')
share('C15', 'C05', 'which of them is main', 'as good as that part', 'has the parts it is given')
