"""C19: drawings show every part once and are always well formed.

A value is quoted character by character: the table of replacements is read off the result and every image is read back
by the rules of the DOT language.  The numbering of nodes is proved for every state of the table.  The walk over a grammar
is proved by an invariant: what is seen so far is a sequence without repetition of which a part has been given out."""
from .lib import *
from pyvc.engine import tname
from . import c05, c15, c08

DOT = 'yargy.dot.'
RC, TR = c05.RC, c05.TR
TT, TC = c15.TT, c15.TC
NODE = TC + 'Node'
PARTS = OBJ('Production', 'Rule', 'Predicate')
SCHEMA19 = merged(c15.SCHEMA15, {
    ('Node', 'item'): ANY, ('Node', 'style'): OPT(OBJ(DOT + 'style')), ('style', 'attributes'): DICT(STR, ANY),
    ('Edge', 'source'): ANY, ('Edge', 'target'): ANY, ('Edge', 'style'): OPT(OBJ(DOT + 'style')),
})


# --- quoting ------------------------------------------------------------------------------------------

def pieces(v):
    return list(v.parts) if isinstance(v, StrCat) else [v]


def read_back(text):
    """the text that the inside of a quoted value stands for, or None when it is not the inside of one"""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c == '\\':
            i += 1
            if i == len(text) or text[i] not in '\\"nr':
                return None
            c = {'n': '\n', 'r': '\r'}.get(text[i], text[i])
        elif c in '"\n\r':
            return None
        out.append(c)
        i += 1
    return ''.join(out)


def is_quoted(e, r, value, label):
    """r is value in quotes, to be read back as value: every character stands for itself, on its own"""
    ps = [p for p in pieces(r) if p != '']
    if len(ps) == 3 and isinstance(ps[1], StrMap):
        base, table = ps[1].base, ps[1].table
    elif len(ps) == 3 and isinstance(ps[1], Sym):
        base, table = ps[1], {}
    else:
        raise Unsupported('a quoted value of another form')
    e.prove(ps[0] == '"' and ps[2] == '"', label + ': quotes around it')
    e.prove(zb(e.eq(base, value)), label + ': of the value')
    for c in sorted(set('\\"\n\rn') | set(table)):
        e.prove(read_back(table.get(c, c)) == c, '%s: %r reads back as itself' % (label, c))


@unit('C19', 'any text is quoted so that it reads back as it is', [DOT + 'style.quote', DOT + 'style.__init__'], schema=SCHEMA19)
def quote(e):
    for t in (STR, ANY, INT):
        v = e.fresh(t, 'value')
        s = e.call(e.w.get(DOT + 'style'), [], {'label': v})
        e.prove(zb(e.ident(e.dict_get(get(e, s, 'attributes'), 'label'), v)), 'the value is kept')
        text_ = e.w.to_str(e, v)
        is_quoted(e, e.res(e.call(e.getattr(s, 'quote'), [v])), text_, 'a %s' % t.kind)
    frame(e)


def quoted(e, a, k):
    return Sym(STR, e.uf('quoted', ValSort, StrSort)(e.box(e.res(a[1]))))


class Attributes(object):
    """attributes of a style, any number of them"""

    def __init__(self, e):
        self.n = e.const('number_of_attributes', IntSort)
        e.assume(self.n >= 0)
        self.key, self.value = e.uf('attribute', IntSort, StrSort), e.uf('attribute_value', IntSort, ValSort)
        self.name = 'attributes'

    def has(self, e, key):
        raise Unsupported('looking for an attribute')

    get = has

    def keys(self, e):
        k = e.index()
        return [For(k, self.n, [Item(Sym(STR, self.key(k)))])]

    def items(self, e):
        k = e.index()
        return [For(k, self.n, [Item((Sym(STR, self.key(k)), Sym(ANY, self.value(k))))])]


def lexed(e, v):
    """tokens of a line of DOT: names and signs of the literal pieces; a piece that is not literal is one token"""
    out = []
    for p in pieces(e.res(v)):
        if not isinstance(p, str):
            out.append(p)
            continue
        word = ''
        for c in p + ' ':
            if c.isalnum() or c == '_' or c == '.':
                word += c
                continue
            if word:
                out.append(word)
                word = ''
            if not c.isspace():
                out.append(c)
    res, i = [], 0
    while i < len(out):
        if out[i:i + 2] == ['-', '>']:
            res.append('->')
            i += 2
        else:
            res.append(out[i])
            i += 1
    return res


@unit('C19', 'a style lists all its attributes, each value quoted', [DOT + 'style.__str__'], schema=SCHEMA19,
      contracts={DOT + 'style.quote': quoted})
def attributes(e):
    s = e.res(e.call(e.w.get(DOT + 'style'), []))
    d = e.new_dict()
    d.base = Attributes(e)
    e.setattr(s, 'attributes', d)
    r = e.res(e.call(e.getattr(s, '__str__'), []))
    if not isinstance(r, StrJoin) or not isinstance(r.sep, str):
        raise Unsupported('text of a style')
    e.prove(r.sep.strip() in (',', ';', '') and r.sep != '', 'attributes are set apart')
    parts = r.seq
    if len(parts) != 1 or not isinstance(parts[0], For) or parts[0].dedup:
        raise Unsupported('text of a style')
    e.prove(parts[0].n == d.base.n, 'every attribute')
    k = e.index()
    inner = e.inst_parts(parts[0].parts, parts[0].k, k)
    with e.loopctx(k, d.base.n):
        def thunk():
            vs = flat(e, inner)
            e.prove(len(vs) == 1, 'every attribute once')
            ts = lexed(e, vs[0])
            e.prove(len(ts) == 3 and ts[1] == '=', 'name = value')
            e.prove(zb(e.eq(ts[0], Sym(STR, d.base.key(k)))), 'the name as it is')
            e.prove(zb(e.eq(ts[2], quoted(e, [None, Sym(ANY, d.base.value(k))], {}))), 'the value in quotes')
        e.run_paths(thunk)
    frame(e)


# --- numbers ------------------------------------------------------------------------------------------

class Numbers(c08.Base):
    """the numbers given so far: of any objects, all different, below their count"""

    def __init__(self, e):
        has, num = e.uf('has_number', IntSort, BoolSort), e.uf('number_of', IntSort, IntSort)
        self.size = e.const('numbers_given', IntSort)
        x, y = q(e), q(e)
        e.assume(self.size >= 0)
        e.assume(z3.ForAll([x], z3.Implies(has(x), z3.And(num(x) >= 0, num(x) < self.size)), patterns=[num(x)]))
        e.assume(z3.ForAll([x, y], z3.Implies(z3.And(has(x), has(y), num(x) == num(y)), x == y),
                           patterns=[z3.MultiPattern(num(x), num(y))]))
        c08.Base.__init__(self, 'numbers', has, lambda e, k: Sym(INT, num(k)))


@unit('C19', 'a part has one number, and no two parts share one', [DOT + 'Graph.id', DOT + 'Graph.__init__'], schema=SCHEMA19)
def numbers(e):
    g = e.res(e.call(e.w.get(DOT + 'Graph'), []))
    first = get(e, g, 'ids')
    e.prove(isinstance(first, DictV) and not first.parts, 'at first no number is given')
    d = e.new_dict()
    d.base = Numbers(e)
    e.setattr(g, 'ids', d)
    x, y = e.fresh(OBJ('Rule'), 'x'), e.fresh(OBJ('Rule'), 'y')
    number = lambda o: e.num(e.call(e.getattr(g, 'id'), [o]))           # noqa: E731
    a = number(x)
    for z, w in ((e.const('z', IntSort), e.const('w', IntSort)),):
        have = [zb(e.dict_has(d, Sym(INT, i))) for i in (z, w)]
        n = e.num(e.call(e.w.builtins['len'], [d]))
        if e.branch(z3.And(*have)):
            v, u = [e.num(e.dict_get(d, Sym(INT, i))) for i in (z, w)]
            e.prove(z3.And(v >= 0, v < n), 'numbers stay below their count')
            e.prove((v == u) == (z == w), 'numbers stay different')
    b = number(y)
    e.prove((a == b) == same_obj(e, x, y), 'the same number only for the same part')
    e.prove(number(x) == a, 'the same number again')
    if e.branch(d.base.has_(x.ref)):
        e.prove(a == e.uf('number_of', IntSort, IntSort)(x.ref), 'a number given stays')


# --- the source -----------------------------------------------------------------------------------------

def number_of(e, a, k):
    v = e.res(a[1])
    return Sym(INT, e.uf('number', ValSort, IntSort)(e.box(v)))


def style_text(e, a, k):
    return Sym(STR, e.uf('style_text', IntSort, StrSort)(e.res(a[0]).ref))


def styled(e, ts, style, label):
    """tokens after the subject of a statement: its style if it has one"""
    if ts and ts[-1] == ';':
        ts = ts[:-1]
    if style is None:
        e.prove(ts in ([], ['[', ']']), label + ': no style')
        return
    e.prove(len(ts) == 3 and ts[0] == '[' and ts[2] == ']', label + ': its style in brackets')
    e.prove(zb(e.eq(ts[1], style_text(e, [style], {}))), label + ': its style')


def is_number(e, t, item, label):
    e.prove(not isinstance(t, str) and zb(e.eq(t, e.w.to_str(e, number_of(e, [None, item], {})))), label)


@unit('C19', 'the source has one statement for each node and each edge', [DOT + 'Graph.source'], schema=SCHEMA19,
      contracts={DOT + 'Graph.id': number_of, DOT + 'style.__str__': style_text, 'dispatch:style.__str__': style_text},
      budget=120)
def source(e):
    g = e.res(e.call(e.w.get(DOT + 'Graph'), []))
    nodes = e.fresh(LIST(OBJ(DOT + 'Node')), 'nodes')
    edges = e.fresh(LIST(OBJ(DOT + 'Edge')), 'edges')
    e.setattr(g, 'nodes', nodes)
    e.setattr(g, 'edges', edges)
    lines = [p for p in flat(e, e.parts_of(e.getattr(g, 'source')))]
    loops = [i for i, p in enumerate(lines) if isinstance(p, For)]
    if len(loops) != 2 or any(isinstance(p, Blob) for p in lines):
        raise Unsupported('the source has another form')
    ts = [lexed(e, x) for x in lines[:loops[0]]]
    e.prove(ts[0] == ['digraph', 'G', '{'], 'it starts')
    for t in ts[1:]:
        if t[-1:] == [';']:
            t = t[:-1]
        e.prove(len(t) >= 3 and t[0] in ('graph', 'node', 'edge') and t[1] == '[' and t[-1] == ']' and
                all(not isinstance(x, str) for x in t[2:-1]), 'defaults')
    e.prove(loops[1] == loops[0] + 1 and [lexed(e, x) for x in lines[loops[1] + 1:]] == [['}']], 'it ends')
    for p, items, what in ((lines[loops[0]], nodes, 'a node'), (lines[loops[1]], edges, 'an edge')):
        n = e.length(items.parts)
        e.prove(p.n == n, what + ': all of them')
        k = e.index()
        inner = e.inst_parts(p.parts, p.k, k)
        with e.loopctx(k, n):
            def thunk():
                x = e.res(e.at(items.parts, k))
                vs = flat(e, inner)
                e.prove(len(vs) == 1, what + ': one statement')
                t = lexed(e, vs[0])
                if what == 'a node':
                    is_number(e, t[0], get(e, x, 'item'), 'the number of the part')
                    styled(e, t[1:], get(e, x, 'style'), what)
                else:
                    e.prove(len(t) > 2 and t[1] == '->', 'from one to another')
                    is_number(e, t[0], get(e, x, 'source'), 'the number of the part it leaves')
                    is_number(e, t[2], get(e, x, 'target'), 'the number of the part it enters')
                    styled(e, t[3:], get(e, x, 'style'), what)
            e.run_paths(thunk)


@unit('C19', 'the defaults are well formed', [DOT + 'Graph.source', DOT + 'style.__str__', DOT + 'style.quote'], schema=SCHEMA19)
def defaults(e):
    g = e.res(e.call(e.w.get(DOT + 'Graph'), []))
    lines = [e.res(x) for x in e.concrete(e.parts_of(e.getattr(g, 'source')))]
    if not all(isinstance(x, str) for x in lines):
        raise Unsupported('defaults')
    e.prove(reads('\n'.join(lines)), 'an empty drawing reads as DOT')
    frame(e)


def reads(text):
    import re
    value = r'(?:"(?:[^"\\\n\r]|\\["\\nr])*"|[A-Za-z_]\w*|-?(?:\.\d+|\d+(?:\.\d*)?))'
    one = r'\s*%s\s*=\s*%s\s*[,;]?' % (value, value)
    return re.fullmatch(r'\s*digraph\s+\w*\s*\{(?:\s*(?:graph|node|edge)\s*\[(?:%s)*\s*\]\s*;?)*\s*\}\s*' % one, text) is not None


# --- nodes and edges --------------------------------------------------------------------------------------

@unit('C19', 'a node or an edge is added to those there are', [DOT + 'Graph.add_node', DOT + 'Graph.add_edge', DOT + 'Node.__init__',
                                                            DOT + 'Edge.__init__'], schema=SCHEMA19)
def adding(e):
    g = e.res(e.call(e.w.get(DOT + 'Graph'), []))
    for n in ('nodes', 'edges'):
        e.prove(e.concrete(get(e, g, n).parts) == [], 'a new drawing is empty')
    nodes = e.fresh(LIST(OBJ(DOT + 'Node')), 'nodes')
    edges = e.fresh(LIST(OBJ(DOT + 'Edge')), 'edges')
    had = {'nodes': nodes.parts, 'edges': edges.parts}
    e.setattr(g, 'nodes', nodes)
    e.setattr(g, 'edges', edges)
    x, y, s = e.fresh(ANY, 'x'), e.fresh(ANY, 'y'), e.fresh(OBJ(DOT + 'style'), 'style')
    what = 'nodes' if e.branch(e.const('a node', BoolSort)) else 'edges'
    given = e.branch(e.const('with a style', BoolSort))
    kw = {'style': s} if given else {}
    if what == 'nodes':
        e.call(e.getattr(g, 'add_node'), [x], kw)
    else:
        e.call(e.getattr(g, 'add_edge'), [x, y], kw)
    other = 'edges' if what == 'nodes' else 'nodes'
    same_seq(e, get(e, g, other).parts, had[other], 'the others stay', eq=lambda a, b: e.ident(a, b))
    have = flat(e, get(e, g, what).parts)
    e.prove(len(have) == 2, 'one more')
    same_seq(e, have[:1], had[what], 'what there was stays', eq=lambda a, b: e.ident(a, b))
    new = e.res(have[1])
    for f, v in (('item', x),) if what == 'nodes' else (('source', x), ('target', y)):
        e.prove(zb(e.ident(get(e, new, f), v)), 'of the parts given')
    st = get(e, new, 'style')
    e.prove(zb(e.ident(st, s)) if given else st is None, 'in the style given')


def drawn_node(e, a, k):
    a = list(a) + [None] * (3 - len(a))
    e.ghost_emit('nodes', [Item((e.res(k.get('item', a[1])), e.res(k.get('style', a[2]))))])


def drawn_edge(e, a, k):
    a = list(a) + [None] * (4 - len(a))
    e.ghost_emit('edges', [Item((e.res(k.get('source', a[1])), e.res(k.get('target', a[2])), e.res(k.get('style', a[3]))))])


DRAW = {DOT + 'Graph.add_node': drawn_node, DOT + 'Graph.add_edge': drawn_edge}


def label_of(e, a, k):
    return Sym(STR, e.uf('label_of', IntSort, StrSort)(e.res(a[0]).ref))


LABELS = {'property:Predicate.label': label_of, 'property:Interpretator.label': label_of, 'property:Relation.label': label_of,
          'property:%s.label' % NODE: label_of, 'property:BNFRule.label': label_of, 'property:Pipeline.label': label_of}


def drawn(e, item, children, label, marks):
    """exactly one node, of the item, and an edge to each child in order"""
    nodes = flat(e, e.ghost.get('nodes', [])[marks[0]:])
    e.prove(len(nodes) == 1 and isinstance(nodes[0], tuple), label + ': one node')
    e.prove(same_obj(e, nodes[0][0], item), label + ': of the part')
    edges = e.ghost.get('edges', [])[marks[1]:]

    def eq(x, w):
        return z3.And(same_obj(e, x[0], item), same_obj(e, x[1], w))
    same_seq(e, edges, list(children), label + ': an edge to each direct part', eq=eq)
    return nodes[0][1]


def marks(e):
    return len(e.ghost.get('nodes', [])), len(e.ghost.get('edges', []))


def labelled(e, style, want, label):
    e.prove(style is not None, label + ': it has a label')
    d = get(e, style, 'attributes')
    e.prove(zb(e.dict_has(d, 'label')), label + ': it has a label')
    e.prove(zb(e.eq(e.dict_get(d, 'label'), want)), label + ': its own label')


CHILDREN = {c: fs[0][0] for c, fs in c05.FIELDS.items()}
CHILDREN.update({'ForwardRule': 'rule', 'Production': 'terms', 'PipelineProduction': 'terms', 'EmptyProduction': None,
                 'EmptyRule': None, 'PipelineRule': None})


def children_of(e, item, field):
    if field is None:
        return []
    v = get(e, item, field)
    if v is None:
        return []
    return v.parts if isinstance(v, ListV) else [Item(v)]


def draws(e, cls, item, field):
    t = e.res(e.call(e.w.get(TR + 'DotRuleTransformator'), []))
    m = marks(e)
    e.call(e.getattr(t, 'visit'), [item])
    s = drawn(e, item, children_of(e, item, field), cls, m)
    if cls == 'NamedRule':
        labelled(e, s, get(e, item, 'name'), cls)
    elif cls in ('Predicate', 'BNFRule'):
        labelled(e, s, get(e, item, 'label'), cls)
    elif cls in ('InterpretationRule', 'RelationRule'):
        labelled(e, s, get(e, get(e, item, 'relation' if cls == 'RelationRule' else 'interpretator'), 'label'), cls)
    frame(e)


def part(cls):
    @unit('C19', 'one node for a part and an edge to each of its parts: ' + cls, [
        TR + 'DotRuleTransformator.visit_' + cls, DOT + 'DotTransformator.style', 'yargy.visitor.Visitor.visit',
        'yargy.visitor.Visitor.resolve_method'], schema=SCHEMA19, contracts=merged(LABELS, DRAW), budget=120)
    def u(e):
        name = c05.BNF + cls if cls == 'BNFRule' else 'yargy.pipelines.' + cls if cls == 'PipelineProduction' else \
            'yargy.predicates.constructors.Predicate' if cls == 'Predicate' else RC + cls
        if cls == 'EmptyProduction':
            return draws(e, cls, e.res(e.call(e.w.get(name), [])), None)
        field = 'productions' if cls == 'BNFRule' else None if cls == 'Predicate' else CHILDREN[cls]
        base = e.w.get(name)
        kinds = [c for c in e.fresh(OBJ(name), 'any').cands or [base]] if cls in ('BNFRule', 'Predicate') else [base]
        for kind in kinds:
            def thunk():
                item = e.fresh(OBJ(name), 'item')
                item.cls, item.cands = kind, None
                e.type_facts(item)
                c05.bounded(e, item, cls)
                draws(e, cls, item, field)
            e.run_paths(thunk)


for _c in list(CHILDREN) + ['BNFRule', 'Predicate']:
    part(_c)


def tied(e, a, k):
    e.ghost_emit('tied', [Item((e.res(a[0]), e.res(a[1]), e.res(a[2])))])


@unit('C19', 'one node for a phrase or a word and an edge to each of its parts', [
    TT + 'DotTreeTransformator.visit_Node', TT + 'DotTreeTransformator.visit_Leaf', TT + 'DotTreeTransformator.__init__'],
    schema=merged(SCHEMA19, {('BNFRule', 'relation'): OPT(OBJ('Relation')), ('BNFRule', 'interpretator'): OPT(OBJ('Interpretator'))}),
    contracts=merged(LABELS, DRAW, {'yargy.relations.graph.RelationsGraph.add': tied}), budget=120)
def phrase(e):
    t = e.res(e.call(e.w.get(TT + 'DotTreeTransformator'), []))
    leaf = e.res(e.call(e.w.get(TC + 'Leaf'), [e.fresh(OBJ('Predicate'), 'predicate'), e.fresh(OBJ('Token'), 'token')]))
    m = marks(e)
    e.call(e.getattr(t, 'visit'), [leaf])
    drawn(e, leaf, [], 'a word', m)
    e.prove(not e.ghost.get('tied'), 'a word is not tied')
    item = c15.node(e)
    m = marks(e)
    e.call(e.getattr(t, 'visit'), [item])
    s = drawn(e, item, get(e, item, 'children').parts, 'a phrase', m)
    labelled(e, s, get(e, item, 'label'), 'a phrase')
    rel = get(e, get(e, item, 'rule'), 'relation')
    got = flat(e, e.ghost.get('tied', []))
    if rel is None:
        e.prove(not got, 'a phrase without a relation is not tied')
    else:
        e.prove(len(got) == 1 and zb(same_obj(e, got[0][0], get(e, t, 'relations'))), 'a phrase with a relation is tied once')
        e.prove(z3.And(same_obj(e, got[0][1], rel), same_obj(e, got[0][2], item)), 'by its relation, as a whole')
    frame(e)


def seen(e, a, k):
    e.ghost_emit('seen', [Item(e.res(a[1]))])


def ties(e, a, k):
    return e.symlist(e.uf('ties_of', IntSort, IntSort)(e.res(a[0]).ref), OBJ(c08.EDGE), GenV)


@unit('C19', 'every node of a match is drawn, and an edge for each tie', [
    TT + 'DotTreeTransformator.__call__', DOT + 'DotTransformator.__call__', TC + 'Tree.walk'],
    schema=merged(SCHEMA19, c08.SCHEMA8, {('Edge', 'first'): OBJ(NODE), ('Edge', 'second'): OBJ(NODE)}),
    contracts=merged(LABELS, DRAW, {TC + 'dfs_tree': c15.c_walk, 'yargy.visitor.Visitor.visit': seen,
                                    'property:RelationsGraph.edges': ties, 'yargy.relations.graph.RelationsGraph.edges': ties}))
def every_node(e):
    tree = e.fresh(OBJ('Tree'), 'tree')
    t = e.res(e.call(e.w.get(TT + 'DotTreeTransformator'), []))
    r = e.res(e.call(t, [tree]))
    same_seq(e, e.ghost.get('seen', []), c15.walked(e, get(e, tree, 'root')).parts, 'every node once',
             eq=lambda a, b: e.ident(a, b))
    every = ties(e, [get(e, t, 'relations')], {})
    e.prove(not flat(e, e.ghost.get('nodes', [])), 'a tie is no node')
    edges = e.ghost.get('edges', [])

    def eq(x, w):
        d = get(e, x[2], 'attributes')
        return z3.And(z3.Or(z3.And(same_obj(e, x[0], get(e, w, 'first')), same_obj(e, x[1], get(e, w, 'second'))),
                            z3.And(same_obj(e, x[1], get(e, w, 'first')), same_obj(e, x[0], get(e, w, 'second')))),
                      zb(e.eq(e.dict_get(d, 'label'), label_of(e, [get(e, w, 'relation')], {}))))
    same_seq(e, edges, every.parts, 'one edge for each tie, with the label of its relation', eq=eq)
    e.prove(same_obj(e, r, get(e, t, 'graph')), 'the drawing')
    frame(e)


# --- walking a grammar --------------------------------------------------------------------------------------

class Part(object):
    """a part of a grammar: its direct parts are a sequence of parts"""
    is_object = True

    def __init__(self, eng, ref):
        self.ref = ref

    def method_model(self, e, name):
        if name == 'children':
            return e.symlist(children_list(e, self.ref), PART, GenV)
        return None

    def isinstance_model(self, e, cls):
        return e.uf('part_is_' + cls.qualname, IntSort, BoolSort)(self.ref)

    def subst_model(self, e, k, x):
        return Part(e, z3.substitute(self.ref, (k, x)))


PART = T('model', Part)


def children_list(e, ref):
    return e.uf('children_of', IntSort, IntSort)(ref)


class Seen(object):
    """a state of the walk: the parts seen so far, seq(0) .. seq(m-1), none twice; visited: exactly those"""

    def __init__(self, e, name):
        self.e = e
        self.seq, self.place = e.uf(name, IntSort, IntSort), e.uf('place_in_' + name, IntSort, IntSort)
        self.m, self.ref = e.const('size_of_' + name, IntSort), e.const('visited_' + name, IntSort)
        self.v = lambda x: e.mem(self.ref, INT, x)
        self.reach = e.uf('part_of_the_grammar', IntSort, BoolSort)

    def assume(self):
        e, x, i = self.e, q(self.e), q(self.e)
        e.assume(self.m >= 1)
        e.assume(z3.ForAll([x], z3.Implies(self.v(x), z3.And(self.place(x) >= 0, self.place(x) < self.m,
                                                             self.seq(self.place(x)) == x)), patterns=[self.v(x)]))
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.m), z3.And(
            self.v(self.seq(i)), self.place(self.seq(i)) == i, self.reach(self.seq(i)))), patterns=[self.seq(i)]))

    def part(self, i):
        return Part(self.e, self.seq(i))


class Walk(object):
    """the loops of the walk: at any moment the parts seen are those given out, then those in the queue"""

    function = RC + 'bfs_rule'

    def matches(self, e, node_, seq, sc):
        if sc is None or sc.func is None or sc.func.qualname != self.function:
            return False
        return isinstance(node_, ast.While) or isinstance(node_, ast.For) and hasattr(e, 'walk_state')

    def variables(self, sc):
        lists = [v for v in sc.vars.values() if isinstance(v, ListV) and v is not sc.yields and v.kind == 'list']
        sets = [v for v in sc.vars.values() if isinstance(v, ListV) and v.kind == 'set']
        if len(lists) != 1 or len(sets) != 1 or sc.yields is None:
            raise Unsupported('walk 1')
        return lists[0], sets[0]

    def forget(self, sc, stmts):
        keep = self.variables(sc)
        for name in sorted({x.id for b in stmts for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}):
            if any(sc.vars.get(name) is v for v in keep):
                raise Unsupported('walk 2')
            sc.vars.pop(name, None)

    def given(self, e, visited_, s):
        e.mutate_parts(visited_, list(e.symlist(s.ref, INT, SetV).parts), 'reorder', ())

    def run_while(self, e, st, sc):
        queue, visited_ = self.variables(sc)
        root = e.the_root
        entry, ids = e.concrete(queue.parts), e.concrete(visited_.parts)
        if entry is None or ids is None or sc.yields.parts:
            raise Unsupported('walk 3')
        e.prove(len(entry) == 1 and zb(e.ident(entry[0], root)) and len(ids) == 1 and
                zb(e.eq(ids[0], Sym(INT, root.ref))), 'at first only the whole is seen')
        s = Seen(e, 'seen')
        s.assume()
        y = e.const('given_out', IntSort)
        e.assume(z3.And(y >= 0, y <= s.m, s.seq(0) == root.ref, s.reach(root.ref)))
        i, j = q(e), q(e)
        done = lambda t, y_, a, b: z3.Implies(z3.And(a >= 0, a < y_, b >= 0, b < self.size(e, t.seq(a))),      # noqa: E731
                                              t.v(self.child(e, t.seq(a), b)))
        e.assume(z3.ForAll([i, j], done(s, y, i, j), patterns=[self.child(e, s.seq(i), j)]))
        k = e.index()
        e.mutate_parts(queue, [For(k, s.m - y, [Item(s.part(y + k))])], 'reorder', ())
        self.given(e, visited_, s)
        self.forget(sc, st.body + [st.test])
        if not e.branch(zb(e.truth(e.ev(st.test, sc)))):
            e.prove(y == s.m, 'it ends when all that is seen is given out')
            k = e.index()
            w = [For(k, s.m, [Item(s.part(k))])]
            e.mutate_parts(sc.yields, w, 'extend', (w,))
            return
        e.walk_state = s
        e.walk_item = s.seq(y)
        e.assume(z3.And(y >= 0, y < s.m))
        e.ex(st.body, sc)
        t = e.walk_state
        del e.walk_state
        out = e.concrete(sc.yields.parts)
        if out is None or any(p is not True for p in [x.guard for x in sc.yields.parts]):
            raise Unsupported('walk 4')
        e.prove(len(out) == 1, 'one part at a time')
        e.prove(e.res(out[0]).ref == s.seq(y), 'the part that was the first to come')
        if [x for x in visited_.parts] != self.at_end:
            raise Unsupported('walk 5')
        size = e.length(queue.parts)
        e.prove(size == t.m - y - 1, 'what is still to come')
        k = e.index()
        with e.loopctx(k, size):
            e.prove(zb(e.sub_truth(lambda: e.mkbool(e.res(e.at(queue.parts, k)).ref == t.seq(y + 1 + k)))), 'in order')
        i, j = e.const('i', IntSort), e.const('j', IntSort)
        e.prove(done(t, y + 1, i, j), 'the parts of what is given out are seen')
        e.prove(t.seq(0) == root.ref, 'the whole is the first')
        raise PathEnd()

    def child(self, e, x, j):
        return e.uf('el_' + tname(PART), IntSort, IntSort, IntSort)(children_list(e, x), j)

    def size(self, e, x):
        return e.uf('len_' + tname(PART), IntSort, IntSort)(children_list(e, x))

    def run(self, e, node_, seq, sc, body):
        """the loop over the parts of the part in hand"""
        queue, visited_ = self.variables(sc)
        s, x = e.walk_state, e.walk_item
        n = self.size(e, x)
        parts = e.parts_of(seq)
        k = e.index()
        if len(parts) != 1 or not isinstance(parts[0], For) or not e.valid(parts[0].n == n):
            raise Unsupported('walk 6')
        with e.loopctx(k, n):
            if not e.valid(e.res(e.at(parts, k)).ref == self.child(e, x, k)):
                raise Unsupported('walk 7')
        t = Seen(e, 'seen_then')
        t.assume()
        i = q(e)
        e.assume(t.m >= s.m)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.m), t.seq(i) == s.seq(i)), patterns=[t.seq(i)]))
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.m), t.seq(i) == s.seq(i)), patterns=[s.seq(i)]))
        e.assume(z3.ForAll([i], z3.Implies(s.v(i), t.v(i)), patterns=[s.v(i)]))
        at = e.const('part', IntSort)
        e.assume(z3.And(at >= 0, at <= n))
        j = q(e)
        e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < at), t.v(self.child(e, x, j))), patterns=[self.child(e, x, j)]))
        k = e.index()
        e.mutate_parts(queue, queue.parts + [For(k, t.m - s.m, [Item(t.part(s.m + k))])], 'reorder', ())
        self.given(e, visited_, t)
        self.forget(sc, [node_])
        self.at_end = list(visited_.parts)
        e.walk_state = t
        if e.branch(at == n):
            return
        had_q, had_v = list(queue.parts), list(visited_.parts)
        e.stamp += 1
        mark, stamp = len(e.logs), e.stamp
        c = e.res(e.at(parts, at))
        try:
            body(c)
        except ContinueX:
            pass
        for op in e.logs[mark:]:
            if op.kind in ('env', 'resolve') and op.target is sc or op.kind == 'resolve' or op.target is queue or \
                    op.target is visited_ or not e.pre_existing(op.target, stamp):
                continue
            raise Unsupported('effect %s in the loop' % op.kind)
        if queue.parts[:len(had_q)] != had_q or visited_.parts[:len(had_v)] != had_v:
            raise Unsupported('walk 8')
        more = [e.res(v).ref for v in flat(e, queue.parts[len(had_q):])]
        ids = [e.num(v) for v in flat(e, visited_.parts[len(had_v):])]
        # the parts of a part of the grammar are parts of the grammar
        e.assume(z3.Implies(t.reach(x), t.reach(c.ref)))
        for a in more:
            e.prove(z3.Not(t.v(a)), 'a part seen before does not come again')
            e.prove(t.reach(a), 'only parts of the grammar')
            e.prove(z3.Or(*[a == b for b in ids]), 'what is to come is seen')
        for n_, a in enumerate(more):
            e.prove(z3.And(*[a != b for b in more[:n_]]), 'a part does not come twice')
        for a in ids:
            e.prove(z3.Or(t.v(a), *[a == b for b in more]), 'what is seen is to come')
        e.prove(z3.Or(t.v(c.ref), *[c.ref == a for a in ids]), 'the part is seen')
        raise PathEnd()


@unit('C19', 'a walk over a grammar gives every part once', [RC + 'bfs_rule'], loops=[Walk()], timeout=15000, budget=120)
def walk(e):
    root = e.fresh(PART, 'rule')
    e.the_root = root
    parts = e.parts_of(e.call(e.w.get(RC + 'bfs_rule'), [root]))
    n = e.length(parts)
    el = lambda i: e.res(e.at(parts, i)).ref               # noqa: E731
    e.prove(n >= 1, 'the whole')
    e.prove(el(z3.IntVal(0)) == root.ref, 'the whole first')
    i, j = e.const('i', IntSort), e.const('j', IntSort)
    inside = z3.And(i >= 0, i < n)
    e.prove(z3.Implies(z3.And(inside, j >= 0, j < n, el(i) == el(j)), i == j), 'no part twice')
    e.prove(z3.Implies(inside, e.uf('part_of_the_grammar', IntSort, BoolSort)(el(i))), 'only parts of the grammar')
    child = e.uf('el_' + tname(PART), IntSort, IntSort, IntSort)(children_list(e, el(i)), j)
    k = q(e)
    e.prove(z3.Implies(z3.And(inside, j >= 0, j < e.uf('len_' + tname(PART), IntSort, IntSort)(children_list(e, el(i)))),
                       z3.Exists([k], z3.And(k >= 0, k < n, el(k) == child))), 'with a part, all its parts')
    frame(e)


def every_part(e, a, k):
    """contract of bfs_rule: every part of the grammar once, the whole first"""
    return e.symlist(e.uf('every_part', IntSort, IntSort)(e.res(a[0]).ref), PARTS, GenV)


@unit('C19', 'the parts of a kind, in order', [RC + 'Rule.walk'], schema=SCHEMA19, contracts={RC + 'bfs_rule': every_part})
def walk_types(e):
    r = e.fresh(OBJ('Rule'), 'rule')
    every = every_part(e, [r], {})
    k = e.index()
    x = e.res(e.at(every.parts, k))
    same_seq(e, e.parts_of(e.call(e.getattr(r, 'walk'), [])), every.parts, 'all of them', eq=lambda a, b: e.ident(a, b))
    want = [For(k, e.length(every.parts), [Item(x, is_cls(e, x, c05.BNF + 'BNFRule'))])]
    for got in (e.call(e.getattr(r, 'walk'), [], {'types': e.w.get(c05.BNF + 'BNFRule')}),
                e.call(e.getattr(r, 'walk'), [e.w.get(c05.BNF + 'BNFRule')])):
        same_seq(e, e.parts_of(got), want, 'those of the kind', eq=lambda a, b: e.ident(a, b))
    frame(e)


@unit('C19', 'every part of a grammar is drawn', [DOT + 'DotTransformator.__call__', DOT + 'DotTransformator.__init__'],
      schema=SCHEMA19, contracts=merged(LABELS, DRAW, {RC + 'bfs_rule': every_part, 'yargy.visitor.Visitor.visit': seen}))
def grammar(e):
    r = e.fresh(OBJ('Rule'), 'rule')
    t = e.res(e.call(e.w.get(TR + 'DotRuleTransformator'), []))
    g = e.res(e.call(t, [r]))
    same_seq(e, e.ghost.get('seen', []), every_part(e, [r], {}).parts, 'every part once', eq=lambda a, b: e.ident(a, b))
    e.prove(same_obj(e, g, get(e, t, 'graph')), 'the drawing')
    e.prove(isinstance(g, ObjV) and g.fresh and g.cls is e.w.get(DOT + 'Graph'), 'a drawing of its own')
    frame(e)


@unit('C19', 'a grammar and a match are drawn as a whole', [RC + 'Rule.as_dot', TC + 'Tree.as_dot',
                                                        'yargy.visitor.TransformatorsComposition.__call__'], schema=SCHEMA19,
      contracts={TR + 'DotRuleTransformator.__call__': lambda e, a, k: Sym(ANY, e.uf('rule_drawing', IntSort, ValSort)(e.res(a[1]).ref)),
                 DOT + 'DotTransformator.__call__': lambda e, a, k: Sym(ANY, e.uf('rule_drawing', IntSort, ValSort)(e.res(a[1]).ref)),
                 TT + 'DotTreeTransformator.__call__': lambda e, a, k: Sym(ANY, e.uf('tree_drawing', IntSort, ValSort)(e.res(a[1]).ref))})
def as_dot(e):
    for cls, name in (('Rule', 'rule_drawing'), ('Tree', 'tree_drawing')):
        x = e.fresh(OBJ(cls), 'whole')
        got = e.getattr(x, 'as_dot')
        e.prove(e.term(got) == e.uf(name, IntSort, ValSort)(x.ref), 'the drawing of it: ' + cls)
    frame(e)


# the nodes of a match come one by one, each tie once
share('C19', 'C15', 'a tree is walked', 'the nodes of a kind')
share('C19', 'C08', 'every two words of a relation are tied once')
