"""C02: every reported match is a real derivation of the words it covers.

The chart is built by three steps only.  Write (rule, production, d, i, j, children) for a state.  The least relation
closed under
  start    (rule, p, 0, i, i, [])                                            p a production of rule
  word     (.., d, i, j, c) -> (.., d+1, i, j+1, c + [Leaf(t, t.constrain(w))])   t the d-th term, t accepts the word w after j
  phrase   (.., d, i, j, c) -> (.., d+1, i, k, c + [node])                   node of a state (t, q, len(q), j, k, ..), t the d-th term
is what it means that children derive the words i..j.  Each unit proves that the function adds to a column only states
obtained by one of the steps from states that are in the chart already: the invariant 'every state of the chart is in
the relation' is kept by every call, so it holds for every chart."""
from .lib import *

Y = 'yargy.parser.'


class Index(object):
    """defaultdict(list) of a column: key -> list of states"""

    def __init__(self, eng, ref):
        self.ref = ref

    def bucket(self, e, key):
        return e.symlist(e.uf('bucket', IntSort, IntSort, IntSort)(self.ref, key), OBJ('State'))

    def getitem_model(self, e, key):
        return self.bucket(e, e.num(key))

    def method_model(self, e, name):
        if name == 'get':
            return PyFn('get', lambda e, a, k: self.bucket(e, e.num(e.res(a[0]))))
        return None

    def subst_model(self, e, k, x):
        return Index(e, z3.substitute(self.ref, (k, x)))


class Hashes(object):
    """set of hashes of the states of a column"""

    def __init__(self, eng, ref):
        self.ref = ref
        self.birth = 0

    def contains_model(self, e, x):
        x = e.res(x)
        if not isinstance(x, HashV):
            raise Unsupported('not a hash')
        e.log('hashtest', self, (x,), lambda: None)
        return e.uf('has_hash', IntSort, BoolSort)(self.ref)

    def method_model(self, e, name):
        if name == 'add':
            def add(e, a, k):
                e.log('hashadd', self, (e.res(a[0]),), lambda: None)
            return PyFn('add', add)
        return None

    def subst_model(self, e, k, x):
        return Hashes(e, z3.substitute(self.ref, (k, x)))


SCHEMA2 = merged(SCHEMA, {
    ('Column', 'index'): INT, ('Column', 'token'): OPT(OBJ('Token')), ('Column', 'states'): LIST(OBJ('State')),
    ('Column', 'hashes'): T('model', Hashes), ('Column', 'states_index'): T('model', Index),
    ('Column', 'empty_index'): T('model', Index),
    ('State', 'rule'): OBJ('BNFRule'), ('State', 'production'): OBJ('Production'), ('State', 'dot_index'): INT,
    ('State', 'start_column'): OBJ('Column'), ('State', 'stop_column'): OBJ('Column'), ('State', 'node'): OBJ('Node'),
    ('Production', 'terms'): LIST(OBJ('Predicate', 'BNFRule')), ('Production', 'main'): INT,
    ('BNFRule', 'productions'): LIST(OBJ('Production')),
    ('Node', 'rule'): OBJ('BNFRule'), ('Node', 'production'): OBJ('Production'), ('Node', 'rank'): INT,
    ('Node', 'children'): LIST(OBJ('Node')), ('Node', 'main_index'): OPT(INT),
    ('Leaf', 'predicate'): OBJ('Predicate'), ('Leaf', 'token'): OBJ('Token'),
    ('Parser', 'rule'): OBJ('BNFRule'), ('Parser', 'tokenizer'): OBJ('Tokenizer'), ('Parser', 'tagger'): OBJ('Tagger'),
    ('Chart', 'columns'): LIST(OBJ('Column')), ('Chart', 'tokens'): LIST(OBJ('Token')),
    ('Tree', 'root'): OBJ('Node'), ('Match', 'tree'): OBJ('Tree'),
})


def answer(e, p, t):
    return e.uf('answer', IntSort, IntSort, ValSort)(p, t)


def accepts(e, p, t):
    return e.uf('truthy', ValSort, BoolSort)(answer(e, p, t))


def c_predicate(e, a, k):
    return Sym(ANY, answer(e, e.res(a[0]).ref, e.res(a[1]).ref))


def c_constrain(e, a, k):
    return e.mk(OBJ('Token'), e.uf('constrained', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref))


def emit(name):
    """contract that records the call"""
    def f(e, a, k):
        e.ghost_emit('calls', [Item((name,) + tuple(e.res(x) for x in a[1:]))])
        return None
    return f


def record_append(e, a, k):
    e.ghost_emit('calls', [Item(('append',) + tuple(e.res(x) for x in a))])
    return None


STEP = {Y + 'Column.append': record_append, 'dispatch:Predicate.__call__': c_predicate,
        'dispatch:Predicate.constrain': c_constrain}


def calls(e):
    return e.ghost.get('calls', [])


def plain_node(e, o):
    """a node that is not a leaf"""
    o.cls = e.w.cls(Y.replace('parser.', 'tree.constructors.') + 'Node')
    o.cands = None
    e.type_facts(o)
    return o


def progress(e):
    """a state is somewhere between the start and the end of its production: it is made at the start (predict), and a step is
    one term further than a state that is not at the end (scan, advance; chart and the index choose these)"""
    s = q(e)
    dot = e.uf('fld_State_dot_index', IntSort, IntSort)
    terms = e.symlist(fld(e, 'Production', 'terms', fld(e, 'State', 'production', s)), OBJ('Predicate', 'BNFRule'))
    e.assume(z3.ForAll([s], z3.And(dot(s) >= 0, dot(s) <= e.length(terms.parts)), patterns=[dot(s)]))


def waiting(e, s):
    """a state that is not at the end of its production"""
    e.assume(e.num(get(e, s, 'dot_index')) < e.length(get(e, get(e, s, 'production'), 'terms').parts))


def state(e, name='state'):
    """a state of the chart"""
    s = e.fresh(OBJ('State'), name)
    dot = e.num(get(e, s, 'dot_index'))
    e.assume(z3.And(dot >= 0, dot <= e.length(get(e, get(e, s, 'production'), 'terms').parts)))
    plain_node(e, get(e, s, 'node'))
    return s


def check_step(e, new, old, column, child, label):
    """new is old with one more child, ending in column"""
    e.prove(isinstance(new, ObjV) and new.fresh and new.cls is e.w.cls(Y + 'State'), label + ': a new state')
    for f in ('rule', 'production', 'start_column'):
        e.prove(same_obj(e, get(e, new, f), get(e, old, f)), label + ': same ' + f)
    e.prove(e.num(get(e, new, 'dot_index')) == e.num(get(e, old, 'dot_index')) + 1, label + ': the next term')
    e.prove(same_obj(e, get(e, new, 'stop_column'), column), label + ': ends in the column it is added to')
    n, o = get(e, new, 'node'), get(e, old, 'node')
    e.prove(isinstance(n, ObjV) and n.fresh and n.cls is e.w.cls('yargy.tree.constructors.Node'), label + ': a new node')
    for f in ('rule', 'production'):
        e.prove(same_obj(e, get(e, n, f), get(e, o, f)), label + ': same %s of the node' % f)
    e.prove(e.num(get(e, n, 'rank')) == e.num(get(e, o, 'rank')), label + ': same rank')
    e.prove(zb(e.ident(get(e, n, 'main_index'), None)), label + ': main part not chosen yet')
    same_seq(e, get(e, n, 'children').parts, get(e, o, 'children').parts + [Item(child)],
             label + ': children are kept, one is added', eq=lambda a, b: e.ident(a, b))


def one_append(e, column, label):
    c = flat(e, calls(e))
    e.prove(len(c) == 1 and c[0][0] == 'append', label + ': one state is added')
    e.prove(same_obj(e, c[0][1], column), label + ': to the column')
    return c[0][2]


PARSER = [Y + 'Parser.scan', Y + 'State.__init__', 'yargy.tree.constructors.Node.attached',
          'yargy.tree.constructors.Node.__init__', 'yargy.tree.constructors.Leaf.__init__']


@unit('C02', 'a word is attached only to a term that accepts it', PARSER, schema=SCHEMA2, contracts=STEP)
def scan(e):
    p, column, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(OBJ('Column'), 'column'), state(e)
    pred = e.fresh(OBJ('Predicate'), 'predicate')
    tok = get(e, column, 'token')
    e.assume(tok is not None)                       # columns but the first hold a token
    waiting(e, s)
    e.call(e.getattr(p, 'scan'), [column, pred, s])
    if e.branch(accepts(e, pred.ref, tok.ref)):
        new = one_append(e, column, 'word')
        leaf = flat(e, get(e, get(e, new, 'node'), 'children').parts)[-1]
        e.prove(isinstance(leaf, ObjV) and leaf.fresh and leaf.cls is e.w.cls('yargy.tree.constructors.Leaf'), 'a leaf')
        e.prove(same_obj(e, get(e, leaf, 'predicate'), pred), 'the leaf names the term')
        e.prove(same_obj(e, get(e, leaf, 'token'), c_constrain(e, [pred, tok], {})),
                'the leaf holds the word of the column, with the forms the term leaves')
        check_step(e, new, s, column, leaf, 'word')
    else:
        e.prove(not flat(e, calls(e)), 'a word that the term refuses adds nothing')
    frame(e)


@unit('C02', 'a phrase is attached as it was derived', [Y + 'Parser.advance'] + PARSER[1:4], schema=SCHEMA2, contracts=STEP)
def advance(e):
    p, column, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(OBJ('Column'), 'column'), state(e)
    done = state(e, 'completed')
    waiting(e, s)
    e.call(e.getattr(p, 'advance'), [column, s, done])
    new = one_append(e, column, 'phrase')
    check_step(e, new, s, column, get(e, done, 'node'), 'phrase')
    frame(e)


def predicted(e, a, k):
    return e.symlist(e.uf('predicted', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref), OBJ('Production'))


@unit('C02', 'a phrase starts from a production of its rule, with no children', [Y + 'Parser.predict'] + PARSER[1:],
      schema=SCHEMA2, contracts=merged(STEP, {'dispatch:BNFRule.predict': predicted}))
def predict(e):
    p, column, rule = e.fresh(OBJ('Parser'), 'parser'), e.fresh(OBJ('Column'), 'column'), e.fresh(OBJ('BNFRule'), 'rule')
    following = e.res(e.fresh(OPT(OBJ('Column')), 'next_column'))
    tok = None
    if following is not None:
        tok = get(e, following, 'token')
        e.assume(tok is not None)
    e.call(e.getattr(p, 'predict'), [column, following, rule])
    prods = get(e, rule, 'productions') if tok is None else predicted(e, [rule, tok], {})
    n = e.length(prods.parts)
    c = flat(e, calls(e))
    if not c:
        e.prove(n == 0, 'every production is started')
        return
    e.prove(len(c) == 1 and isinstance(c[0], For), 'a state per production')
    f = c[0]
    e.prove(f.n == n, 'every production is started')
    k = e.index()
    inner = e.inst_parts(f.parts, f.k, k)
    with e.loopctx(k, n):
        def thunk():
            xs = flat(e, inner)
            e.prove(len(xs) == 1 and xs[0][0] == 'append', 'one state per production')
            e.prove(same_obj(e, xs[0][1], column), 'in the column')
            s = xs[0][2]
            prod = e.at(prods.parts, k)
            e.prove(isinstance(s, ObjV) and s.fresh and s.cls is e.w.cls(Y + 'State'), 'a new state')
            e.prove(same_obj(e, get(e, s, 'rule'), rule), 'of the rule')
            e.prove(same_obj(e, get(e, s, 'production'), prod), 'of the production')
            e.prove(e.num(get(e, s, 'dot_index')) == 0, 'before the first term')
            for x in ('start_column', 'stop_column'):
                e.prove(same_obj(e, get(e, s, x), column), x + ' is the column')
            nd = get(e, s, 'node')
            e.prove(isinstance(nd, ObjV) and nd.fresh and nd.cls is e.w.cls('yargy.tree.constructors.Node'), 'a new node')
            e.prove(same_obj(e, get(e, nd, 'rule'), rule), 'the node is of the rule')
            e.prove(same_obj(e, get(e, nd, 'production'), prod), 'the node is of the production')
            e.prove(e.num(get(e, nd, 'rank')) == k, 'its rank is the place of the production')
            e.prove(not flat(e, get(e, nd, 'children').parts), 'no children yet')
            e.prove(zb(e.ident(get(e, nd, 'main_index'), None)), 'main part not chosen yet')
        e.run_paths(thunk)
    frame(e)


@unit('C02', 'a plain rule starts every production in order', ['yargy.rule.bnf.BNFRule.predict'], schema=SCHEMA2)
def plain_predict(e):
    rule = e.fresh(OBJ('BNFRule'), 'rule')
    rule.cls, rule.cands = e.w.cls('yargy.rule.bnf.BNFRule'), None
    e.type_facts(rule)
    got = e.res(e.call(e.getattr(rule, 'predict'), [e.fresh(OBJ('Token'), 'token')]))
    same_seq(e, e.parts_of(got), get(e, rule, 'productions').parts, 'the productions in order',
             eq=lambda a, b: e.ident(a, b))
    frame(e)


# --- the indexes hold what they are asked for -------------------------------------

CALLS = {Y + 'Parser.' + n: emit(n) for n in ('predict', 'skip', 'scan', 'complete', 'advance')}


def joined_with(name, fn, run):
    """fn calls advance(column, waiting, completed) for each state of the bucket"""
    @unit('C02', name, [Y + 'Parser.' + fn, Y + 'State.parents'], schema=SCHEMA2,
          contracts={Y + 'Parser.advance': emit('advance')})
    def u(e):
        p, column, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(OBJ('Column'), 'column'), state(e)
        bucket, want = run(e, p, column, s)
        k = e.index()
        exp = [For(k, e.length(bucket.parts), [Item(want(e.at(bucket.parts, k)))])]
        same_seq(e, calls(e), exp, 'one step per state of the index', eq=lambda a, b: e.ident_tuple(a, b))
        frame(e)


def run_complete(e, p, column, s):
    e.call(e.getattr(p, 'complete'), [column, s])
    idx = get(e, get(e, s, 'start_column'), 'states_index')
    return idx.bucket(e, get(e, s, 'rule').ref), lambda w: ('advance', column, w, s)


def run_skip(e, p, column, s):
    rule = e.fresh(OBJ('BNFRule'), 'rule')
    e.call(e.getattr(p, 'skip'), [column, rule, s])
    return get(e, column, 'empty_index').bucket(e, rule.ref), lambda c: ('advance', column, s, c)


joined_with('a completed phrase is given to the states that wait for its rule where it starts', 'complete',
            run_complete)
joined_with('a state that starts to wait is given the empty phrases already found there', 'skip', run_skip)


def appended(e):
    return [(op.target, op.data[0]) for op in e.logs
            if op.kind == 'append' and isinstance(op.target, ListV) and op.target.ref is not None]


def index_effect(e, column, s, done):
    """the lists of the column that got the state are exactly the ones it belongs to"""
    dot = e.num(get(e, s, 'dot_index'))
    terms = get(e, get(e, s, 'production'), 'terms')
    lists = [l for l, v in done if isinstance(v, ObjV) and v is s]
    e.prove(len(lists) == len(done), 'only the state is added')
    waits, empty = get(e, column, 'states_index'), get(e, column, 'empty_index')
    lists = [l for l in lists if not l.ref.eq(get(e, column, 'states').ref)]
    refs = [l.ref for l in lists]

    def only(want, label):
        e.prove(len(refs) == len(want), label + ': number of indexes')
        for r, w in zip(refs, want):
            e.prove(r == w, label)
    if e.branch(dot >= e.length(terms.parts)):
        if e.branch(e.ident(get(e, s, 'start_column'), column)):
            only([empty.bucket(e, get(e, s, 'rule').ref).ref], 'an empty phrase is kept under its rule')
        else:
            only([], 'a completed phrase waits for nothing')
    else:
        t = e.res(e.at(terms.parts, dot))
        if e.branch(is_cls(e, t, 'BNFRule')):
            only([waits.bucket(e, t.ref).ref], 'a state is kept under the rule it waits for')
        else:
            only([], 'a state that waits for a word is in no index')


@unit('C02', 'a state is added once, with its hash and its index entries', [
    Y + 'Column.append', Y + 'Column.update_index', Y + 'State.completed', Y + 'State.next_term'],
      schema=SCHEMA2)
def append(e):
    column, s = e.fresh(OBJ('Column'), 'column'), state(e)
    e.assume(same_obj(e, get(e, s, 'stop_column'), column))
    # columns of a chart are numbered
    start = get(e, s, 'start_column')
    e.assume(z3.Implies(e.num(get(e, start, 'index')) == e.num(get(e, column, 'index')), zb(e.ident(start, column))))
    hashes = get(e, column, 'hashes')
    e.call(e.getattr(column, 'append'), [s])
    tests = [op for op in e.logs if op.kind == 'hashtest']
    adds = [op for op in e.logs if op.kind == 'hashadd']
    done = appended(e)
    states = get(e, column, 'states')
    want = e.res(e.call(e.w.builtins['hash'], [s]))
    e.prove(all(op.target.ref.eq(hashes.ref) for op in tests + adds), 'the hashes of the column')
    for op in tests + adds:
        e.prove(zb(e.eq(op.data[0], want)), 'the hash of the state')
    if e.branch(e.uf('has_hash', IntSort, BoolSort)(hashes.ref)):
        e.prove(not adds and not done, 'a state that is there already is not added again')
    else:
        e.prove(len(adds) == 1, 'the hash is remembered')
        e.prove(len([1 for l, v in done if l.ref.eq(states.ref) and v is s]) == 1, 'the state is added')
        index_effect(e, column, s, done)


@unit('C02', 'states are taken for the same only if they derive the same in the same way',
      [Y + 'State.__hash__'], schema=SCHEMA2)
def hashes(e):
    a, b = state(e, 'a'), state(e, 'b')
    # the states of one column are compared (its hashes are its own)
    e.assume(same_obj(e, get(e, a, 'stop_column'), get(e, b, 'stop_column')))
    h = [e.res(e.call(e.w.builtins['hash'], [x])) for x in (a, b)]
    same = zb(e.eq(h[0], h[1]))
    for f in ('rule', 'production'):
        e.prove(z3.Implies(same, same_obj(e, get(e, a, f), get(e, b, f))), 'same ' + f)
    e.prove(z3.Implies(same, e.num(get(e, a, 'dot_index')) == e.num(get(e, b, 'dot_index'))), 'same progress')
    for f in ('start_column', 'stop_column'):
        e.prove(z3.Implies(same, e.num(get(e, get(e, a, f), 'index')) == e.num(get(e, get(e, b, f), 'index'))), 'same ' + f)
    ca, cb = get(e, get(e, a, 'node'), 'children'), get(e, get(e, b, 'node'), 'children')
    n = e.length(ca.parts)
    e.prove(z3.Implies(same, n == e.length(cb.parts)), 'as many children')
    k = q(e)
    el = e.uf('el_obj_Node', IntSort, IntSort, IntSort)
    e.prove(z3.Implies(same, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), el(ca.ref, k) == el(cb.ref, k)))),
            'the same children')


# --- the main loop -------------------------------------------------------------

def c_tokens(e, a, k):
    return e.symlist(e.uf('tokenized', IntSort, StrSort, IntSort)(e.res(a[0]).ref, e.term(a[1])), OBJ('Token'))


def c_tags(e, a, k):
    l = e.res(a[1])
    if not isinstance(l, ListV) or l.ref is None:
        raise Unsupported('tagger on other tokens')
    return e.symlist(e.uf('tagged', IntSort, IntSort, IntSort)(e.res(a[0]).ref, l.ref), OBJ('Token'))


def c_chart(e, a, k):
    l = e.res(a[0])
    if not isinstance(l, ListV) or l.ref is None:
        raise Unsupported('chart of other tokens')
    o = e.mk(OBJ('Chart'), e.uf('chart_of', IntSort, IntSort)(l.ref))
    e.assume(o.ref > 0)
    e.ghost_emit('charts', [Item(o)])
    return o


def pairs(e, chart):
    """the columns, each with the following one"""
    cols = get(e, chart, 'columns')
    n = e.length(cols.parts)
    k = e.index()
    el = e.uf('el_obj_Column', IntSort, IntSort, IntSort)
    return [For(k, n, [Item((e.at(cols.parts, k), Maybe(k + 1 >= n, e.mk(OBJ('Column'), el(cols.ref, k + 1), facts=False))))])]


def c_pairs(e, a, k):
    return e.new_list(pairs(e, e.res(a[0])), GenV)


LOOP = merged(CALLS, {'dispatch:Tokenizer.__call__': c_tokens, 'dispatch:Tagger.__call__': c_tags, Y + 'Chart': c_chart,
                      Y + 'Chart.__iter__': c_pairs})


def main_loop(every):
    @unit('C02', 'the chart is filled by these steps only' + (', from every word' if every else ', from the first word'),
          [Y + 'Parser.chart', Y + 'Column.first', Y + 'Column.__iter__', Y + 'State.completed', Y + 'State.next_term',
           'yargy.rule.bnf.is_rule'], schema=SCHEMA2, contracts=LOOP, budget=120)
    def u(e):
        p = e.fresh(OBJ('Parser'), 'parser')
        text_ = e.fresh(STR, 'text')
        progress(e)
        chart = e.res(e.call(e.getattr(p, 'chart'), [text_], {'all': every}))
        made = flat(e, e.ghost.get('charts', []))
        e.prove(len(made) == 1, 'one chart')
        e.prove(same_obj(e, chart, made[0]), 'the chart is returned')
        tokens = c_tags(e, [get(e, p, 'tagger'), c_tokens(e, [get(e, p, 'tokenizer'), text_], {})], {})
        e.prove(chart.ref == e.uf('chart_of', IntSort, IntSort)(tokens.ref), 'of the tagged tokens of the text')
        ps = pairs(e, chart)[0]
        i = e.index()
        column, following = e.inst_parts(ps.parts, ps.k, i)[0].value
        rule = get(e, p, 'rule')
        states = e.symlist(fieldterm(e, 'Column', 'states', column.ref, IntSort), OBJ('State'))
        index = fieldterm(e, 'Column', 'index', column.ref, IntSort)
        last = i + 1 >= ps.n
        j = e.index()
        s = e.mk(OBJ('State'), e.uf('el_obj_State', IntSort, IntSort, IntSort)(states.ref, j), facts=False)
        dot = fieldterm(e, 'State', 'dot_index', s.ref, IntSort)
        terms = e.symlist(fieldterm(e, 'Production', 'terms', fieldterm(e, 'State', 'production', s.ref, IntSort), IntSort),
                          OBJ('Predicate', 'BNFRule'))
        t = e.at(terms.parts, dot)
        done = dot >= e.length(terms.parts)
        isrule = is_cls(e, t, 'BNFRule')
        steps = [Item(('complete', column, s), done),
                 Item(('predict', column, following, t), z3.And(z3.Not(done), isrule)),
                 Item(('skip', column, t, s), z3.And(z3.Not(done), isrule)),
                 Item(('scan', following.value, t, s), z3.And(z3.Not(done), z3.Not(isrule), z3.Not(last)))]
        want = [For(i, ps.n, [
            Item(('predict', column, following, rule), True if every else index == 0),
            For(j, e.length(states.parts), steps)])]
        by_name(e, calls(e), want, 'steps of the chart')
        frame(e)


def merge_loops(e, xs):
    """loops over the same range, one per path of the code, as one"""
    for i, x in enumerate(xs):
        if isinstance(x, For):
            for y in [y for y in xs[i + 1:] if isinstance(y, For) and z3.simplify(y.n == x.n).eq(z3.BoolVal(True))]:
                xs.remove(y)
                x = xs[i] = For(x.k, x.n, x.parts + e.inst_parts(y.parts, y.k, x.k))


def silent(e, f):
    """a loop that adds nothing on this path"""
    with e.loopctx(f.k, f.n):
        return all(silent(e, x) if isinstance(x, For) else
                   (x.guard is not True and not e.feasible(zb(x.guard))) for x in f.parts)


def by_name(e, got, want, label):
    """the same calls, compared by name so that the order of different steps for a state is free"""
    a, b = flat(e, got), flat(e, want)
    a = [x for x in a if not (isinstance(x, For) and silent(e, x))]
    kinds = [isinstance(x, For) for x in a]
    e.prove(kinds == sorted(kinds), label + ': what starts a column comes before its states')
    merge_loops(e, a)
    merge_loops(e, b)

    def split(xs):
        fors = [x for x in xs if isinstance(x, For)]
        return fors, sorted([x for x in xs if not isinstance(x, For)], key=lambda x: x[0])
    fa, ia = split(a)
    fb, ib = split(b)
    e.prove([x[0] for x in ia] == [x[0] for x in ib], '%s: %s' % (label, ' and '.join(x[0] for x in ib) or 'none'))
    for x, y in zip(ia, ib):
        for u, v in zip(x[1:], y[1:]):
            e.prove(same_obj(e, e.res(u), e.res(v)), '%s: %s of what is due' % (label, x[0]))
    if len(fa) != len(fb):
        raise Unsupported('loops of different shape')
    for x, y in zip(fa, fb):
        e.prove(x.n == y.n, label + ': all of them')
        k = e.index()
        ix, iy = e.inst_parts(x.parts, x.k, k), e.inst_parts(y.parts, y.k, k)
        with e.loopctx(k, y.n):
            e.run_paths(lambda: by_name(e, ix, iy, label))


main_loop(True)
main_loop(False)


@unit('C02', 'a chart has a column before the first word and one per word, in order',
      [Y + 'Chart.__init__', Y + 'Chart.__iter__', Y + 'Chart.last_column', Y + 'Column.__init__'], schema=SCHEMA2)
def chart(e):
    tokens = e.fresh(LIST(OBJ('Token')), 'tokens')
    c = e.res(e.call(e.w.get(Y + 'Chart'), [tokens]))
    n = e.length(tokens.parts)
    got = e.parts_of(c)
    e.prove(e.length(got) == n + 1, 'number of columns')
    k = e.index()
    with e.loopctx(k, n + 1):
        def thunk():
            col, following = e.res(e.at(got, k))
            following = e.res(following)
            e.prove(col.cls is e.w.cls(Y + 'Column'), 'a column')
            e.prove(e.num(get(e, col, 'index')) == k, 'columns are numbered')
            t = get(e, col, 'token')
            if e.branch(k == 0):
                e.prove(t is None, 'no word before the first')
            else:
                e.prove(t is not None and t.ref == e.at(tokens.parts, k - 1).ref, 'the word of the column')
            for f in ('states', 'hashes', 'states_index', 'empty_index'):
                v = get(e, col, f)
                e.prove(not (v.parts or getattr(v, 'groups', None)), 'empty ' + f)
            if e.branch(k < n):
                e.prove(following is not None and same_obj(e, following, e.at(e.parts_of(get(e, c, 'columns')), k + 1)),
                        'followed by the next column')
            else:
                e.prove(following is None, 'nothing after the last column')
        e.run_paths(thunk)
    e.prove(same_obj(e, get(e, c, 'last_column'), e.at(e.parts_of(get(e, c, 'columns')), n)), 'last column')
    e.prove(same_obj(e, e.res(e.getitem(c, Sym(INT, n))), e.at(e.parts_of(get(e, c, 'columns')), n)), 'column by number')
    frame(e)


# --- from the chart to the matches -----------------------------------------------

def fld(e, cls, name, ref):
    return e.uf('fld_%s_%s' % (cls, name), IntSort, IntSort)(ref)


def reported(e, s, rule):
    """the state derives the whole of a phrase of the rule"""
    terms = e.symlist(fld(e, 'Production', 'terms', fld(e, 'State', 'production', s)), OBJ('Predicate', 'BNFRule'))
    return z3.And(fld(e, 'State', 'dot_index', s) >= e.length(terms.parts), fld(e, 'State', 'rule', s) == rule.ref)


def states_of(e, column_ref):
    return e.symlist(fieldterm(e, 'Column', 'states', column_ref, IntSort), OBJ('State'))


def found_in(e, column_ref, rule):
    l = states_of(e, column_ref)
    j = e.index()
    s = e.mk(OBJ('State'), e.uf('el_obj_State', IntSort, IntSort, IntSort)(l.ref, j), facts=False)
    return For(j, e.length(l.parts), [Item(s, reported(e, s.ref, rule))])


IS = lambda e: (lambda a, b: e.ident(a, b))     # noqa: E731


@unit('C02', 'the states of a column that derive the rule', [Y + 'Column.matches'], schema=SCHEMA2)
def column_matches(e):
    column, rule = e.fresh(OBJ('Column'), 'column'), e.fresh(OBJ('BNFRule'), 'rule')
    progress(e)
    got = e.res(e.call(e.getattr(column, 'matches'), [rule]))
    same_seq(e, e.parts_of(got), [found_in(e, column.ref, rule)], 'completed states of the rule', eq=IS(e))
    frame(e)


def c_column_matches(e, a, k):
    return e.symlist(e.uf('found', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref), OBJ('State'))


@unit('C02', 'the matches of a chart are those of its columns', [Y + 'Chart.matches'], schema=SCHEMA2,
      contracts={Y + 'Column.matches': c_column_matches})
def chart_matches(e):
    c, rule = e.fresh(OBJ('Chart'), 'chart'), e.fresh(OBJ('BNFRule'), 'rule')
    got = e.res(e.call(e.getattr(c, 'matches'), [rule]))
    cols = get(e, c, 'columns')
    k, j = e.index(), e.index()
    col = e.at(cols.parts, k)
    l = c_column_matches(e, [col, rule], {})
    same_seq(e, e.parts_of(got), [For(k, e.length(cols.parts), [For(j, e.length(l.parts), [Item(e.at(l.parts, j))])])],
             'every column', eq=IS(e))
    frame(e)


def c_parser_chart(e, a, k):
    every = e.res(k['all'] if 'all' in k else a[2] if len(a) > 2 else True)
    o = e.mk(OBJ('Chart'), e.uf('charted', IntSort, StrSort, BoolSort, IntSort)(
        e.res(a[0]).ref, e.term(a[1]), zb(e.truth(every))))
    e.assume(z3.And(o.ref > 0, e.length(get(e, o, 'columns').parts) > 0))
    return o


def c_chart_matches(e, a, k):
    return e.symlist(e.uf('found_all', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref), OBJ('State'))


def parser_matches(every):
    @unit('C02', 'matches(all=%s)' % every, [Y + 'Parser.matches', Y + 'Chart.last_column', Y + 'Column.first'], schema=SCHEMA2,
          contracts={Y + 'Parser.chart': c_parser_chart, Y + 'Chart.matches': c_chart_matches,
                     Y + 'Column.matches': c_column_matches})
    def u(e):
        p, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(STR, 'text')
        got = e.res(e.call(e.getattr(p, 'matches'), [s], {'all': every}))
        c = c_parser_chart(e, [p, s, every], {})
        cols = get(e, c, 'columns')
        rule = get(e, p, 'rule')
        if every:
            want = c_chart_matches(e, [c, rule], {}).parts
        else:
            # a rule that refers to itself may start inside the text and reach its end too
            last = c_column_matches(e, [e.at(cols.parts, e.length(cols.parts) - 1), rule], {})
            j = e.index()
            st = e.mk(OBJ('State'), e.uf('el_obj_State', IntSort, IntSort, IntSort)(last.ref, j), facts=False)
            start = fld(e, 'Column', 'index', fld(e, 'State', 'start_column', st.ref))
            want = [For(j, e.length(last.parts), [Item(st, start == 0)])]
        same_seq(e, e.parts_of(got), want, 'states of the chart' if every else 'states of the whole text', eq=IS(e))
        frame(e)


parser_matches(True)
parser_matches(False)


def c_parser_matches(e, a, k):
    every = e.res(k['all'] if 'all' in k else a[2] if len(a) > 2 else True)
    return e.symlist(e.uf('matched', IntSort, StrSort, BoolSort, IntSort)(
        e.res(a[0]).ref, e.term(a[1]), zb(e.truth(every))), OBJ('State'))


def tree_key(e, t):
    r = get(e, t, 'range')
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported('range of a tree')
    return get(e, t, 'root').ref, e.num(e.res(r[0])), e.num(e.res(r[1]))


def c_prepare_match(e, a, k):
    key = tree_key(e, e.res(a[0]))
    none = e.uf('refused', IntSort, IntSort, IntSort, BoolSort)(*key)
    return Maybe(none, e.mk(OBJ('Match'), e.uf('match_of', IntSort, IntSort, IntSort, IntSort)(*key), facts=False))


def state_key(e, s):
    return (fld(e, 'State', 'node', s), fld(e, 'Column', 'index', fld(e, 'State', 'start_column', s)),
            fld(e, 'Column', 'index', fld(e, 'State', 'stop_column', s)))


def any_order(e):
    """sorted() of a sequence of unknown length: the same elements in some order"""
    perm = e.uf('order', IntSort, IntSort)

    def hook(eng, v, parts, key, rev):
        if key is not None or rev or len(parts) != 1 or not isinstance(parts[0], For) or parts[0].dedup:
            raise Unsupported('sorting')
        p = parts[0]
        j, i = e.index(), e.index()
        e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.n), z3.And(perm(j) >= 0, perm(j) < p.n))))
        e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < p.n), perm(i) != perm(j))))
        k = e.index()
        e.sorted_by = 'items'
        e.ghost_emit('sorted', [Item(True)])
        return e.new_list([For(k, p.n, e.inst_parts(p.parts, p.k, perm(k)))])
    e.sorted_hook = hook
    return perm


def from_states(e, states, perm=None):
    """the matches of the states, in the given order"""
    k = e.index()
    i = k if perm is None else perm(k)
    s = e.uf('el_obj_State', IntSort, IntSort, IntSort)(states.ref, i)
    key = state_key(e, s)
    m = e.mk(OBJ('Match'), e.uf('match_of', IntSort, IntSort, IntSort, IntSort)(*key), facts=False)
    return k, e.length(states.parts), m, z3.Not(e.uf('refused', IntSort, IntSort, IntSort, BoolSort)(*key))


RUN = {Y + 'Parser.matches': c_parser_matches, Y + 'prepare_match': c_prepare_match}


def extracted(every):
    @unit('C02', 'extract(all=%s) reports the matches of the states' % every,
          [Y + 'Parser.extract', Y + 'prepare_trees', Y + 'prepare_matches', Y + 'State.range'], schema=SCHEMA2, contracts=RUN)
    def u(e):
        p, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(STR, 'text')
        got = e.res(e.call(e.getattr(p, 'extract'), [s] if every else [s, False]))
        k, n, m, ok = from_states(e, c_parser_matches(e, [p, s, every], {}))
        same_seq(e, e.parts_of(got), [For(k, n, [Item(m, ok)])], 'a match per state', eq=IS(e))
        frame(e)


extracted(True)
extracted(False)


@unit('C02', 'match reports a match of the whole text', [Y + 'Parser.match', Y + 'prepare_trees', Y + 'prepare_matches',
                                                        Y + 'State.range'], schema=SCHEMA2, contracts=RUN)
def match(e):
    p, s = e.fresh(OBJ('Parser'), 'parser'), e.fresh(STR, 'text')
    perm = any_order(e)
    got = e.res(e.call(e.getattr(p, 'match'), [s]))
    states = c_parser_matches(e, [p, s, False], {})
    e.prove(len(e.ghost.get('sorted', [])) == 1, 'the trees are compared')
    k, n, m, ok = from_states(e, states, perm)
    rng = z3.And(k >= 0, k < n)
    if got is None:
        e.prove(z3.ForAll([k], z3.Implies(rng, z3.Not(ok))), 'nothing is reported only if no derivation qualifies')
    else:
        j = q(e)
        first = z3.And(rng, ok, m.ref == got.ref, z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < k), z3.Not(z3.substitute(ok, (k, j))))))
        e.prove(z3.Exists([k], first), 'the first tree that qualifies')
    frame(e)


# --- one match --------------------------------------------------------------

def c_normalized(e, a, k):
    t = e.res(a[0])
    return e.mk(OBJ('Tree'), e.uf('without_empty', IntSort, IntSort)(t.ref))


def c_relations(e, a, k):
    return e.mk(OBJ('TokenRelationsGraph'), e.uf('ties', IntSort, IntSort)(e.res(a[0]).ref))


def c_validate(e, a, k):
    e.ghost_emit('validated', [Item(e.res(a[0]))])
    return Sym(BOOL, e.uf('can_agree', IntSort, BoolSort)(e.res(a[0]).ref))


def c_constrain_tree(e, a, k):
    return e.mk(OBJ('Tree'), e.uf('agreed', IntSort, IntSort, IntSort)(e.res(a[0]).ref, e.res(a[1]).ref))


def c_match(e, a, k):
    return e.mk(OBJ('Match'), e.uf('match_with', IntSort, IntSort)(e.res(a[0]).ref))


ONE = {'property:Tree.normalized': c_normalized, 'property:Tree.relations': c_relations,
       'yargy.relations.graph.TokenRelationsGraph.validate': c_validate,
       'yargy.tree.constructors.Tree.constrain': c_constrain_tree, Y + 'Match': c_match}
SCHEMA_ONE = merged(SCHEMA2, {('Tree', 'root'): OPT(OBJ('Node'))})


@unit('C02', 'a tree becomes a match unless it is empty or cannot agree', [Y + 'prepare_match'], schema=SCHEMA_ONE,
      contracts=ONE)
def prepare_match(e):
    t = e.fresh(OBJ('Tree'), 'tree')
    got = e.res(e.call(e.w.get(Y + 'prepare_match'), [t]))
    small = c_normalized(e, [t], {})
    ties = c_relations(e, [small], {})
    if get(e, small, 'root') is None:
        e.prove(got is None, 'no match of no words')
    elif e.branch(e.uf('can_agree', IntSort, BoolSort)(ties.ref)):
        e.prove(got is not None and got.ref == c_match(e, [c_constrain_tree(e, [small, ties], {})], {}).ref,
                'the match of the tree with the agreeing forms')
    else:
        e.prove(got is None, 'no match where the words cannot agree')
    frame(e)


def c_walk(e, a, k):
    types = e.res(k['types'] if 'types' in k else a[1])
    if not (isinstance(types, ClsV) and types.name == 'Leaf'):
        raise Unsupported('walk')
    return e.symlist(e.uf('leaves', IntSort, IntSort)(e.res(a[0]).ref), OBJ('Leaf'))


def c_span(e, a, k):
    l = e.res(a[0])
    e.ghost_emit('span of', [Item(l)])
    return e.mk(OBJ('Span'), e.const('span', IntSort))


@unit('C02', 'the words of a match are those of its leaves, and its span is theirs', [Y + 'Match.__init__'],
      schema=SCHEMA2, contracts={'yargy.tree.constructors.Tree.walk': c_walk, 'yargy.token.get_tokens_span': c_span})
def match_words(e):
    t = e.fresh(OBJ('Tree'), 'tree')
    m = e.res(e.call(e.w.get(Y + 'Match'), [t]))
    e.prove(same_obj(e, get(e, m, 'tree'), t), 'the tree')
    leaves = c_walk(e, [t], {'types': e.w.cls('yargy.tree.constructors.Leaf')})
    k = e.index()
    l = e.at(leaves.parts, k)
    want = [For(k, e.length(leaves.parts), [Item(e.mk(OBJ('Token'), fld(e, 'Leaf', 'token', l.ref), facts=False))])]
    same_seq(e, get(e, m, 'tokens').parts, want, 'the words in order', eq=IS(e))
    of = flat(e, e.ghost.get('span of', []))
    e.prove(len(of) == 1, 'span of the words')
    same_seq(e, of[0].parts, want, 'span of these words', eq=IS(e))
    frame(e)


# words keep their text, place and type when forms are chosen
share('C02', 'C06', 'constrain')
share('C02', 'C20', 'constrained')
share('C02', 'C10', 'span')
