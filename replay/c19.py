"""C19: DOT source of grammars and matches, read back by a reader of the DOT language."""
from gram import *
import re
from collections import Counter

from yargy.relations import Relation
from yargy.dot import style, Graph
from yargy.interpretation import fact
from yargy.parser import Context
from yargy.tokenizer import Tokenizer
from yargy.morph import Form, Grams
from yargy.predicates import Predicate


class Bad(Exception):
    pass


TOKEN = re.compile(r'\s*("(?:[^"\\]|\\.)*"|[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*|-?(?:\.\d+|\d+(?:\.\d*)?)'
                   r'|->|[{}\[\];=,])', re.S)


def lex(source):
    at, out = 0, []
    while source[at:].strip():
        m = TOKEN.match(source, at)
        if not m:
            raise Bad('not DOT at %r' % source[at:at + 40])
        out.append(m.group(1))
        at = m.end()
    return out


def unquote(t):
    """label text a quoted value stands for"""
    if not t.startswith('"'):
        return t
    body, out, i = t[1:-1], [], 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            d = body[i + 1]
            if d not in 'nr"\\':
                raise Bad('escape \\%s in %r' % (d, t))
            out.append({'n': '\n', 'r': '\r'}.get(d, d))
            i += 2
        else:
            if c in '\n\r':
                raise Bad('line break inside %r' % t)
            out.append(c)
            i += 1
    return ''.join(out)


def read(source):
    """nodes [(id, attrs)], edges [(a, b, attrs)]"""
    ts = lex(source)
    pos = [0]

    def peek():
        return ts[pos[0]] if pos[0] < len(ts) else None

    def take(want=None):
        t = peek()
        if t is None or want is not None and t != want:
            raise Bad('expected %r, got %r' % (want, t))
        pos[0] += 1
        return t

    def attrs():
        out = {}
        while peek() == '[':
            take('[')
            while peek() != ']':
                k = take()
                take('=')
                out[unquote(k)] = unquote(take())
                if peek() in (',', ';'):
                    take()
            take(']')
        return out

    take('digraph')
    if peek() != '{':
        take()
    take('{')
    nodes, edges = [], []
    while peek() != '}':
        t = take()
        if t == ';':
            continue
        if t in ('graph', 'node', 'edge'):
            attrs()
            continue
        if t in ('{', '[', ']', '=', ',', '->'):
            raise Bad('unexpected %r' % t)
        if peek() == '->':
            ids = [t]
            while peek() == '->':
                take()
                ids.append(take())
            a = attrs()
            edges.extend((x, y, a) for x, y in zip(ids, ids[1:]))
        else:
            nodes.append((t, attrs()))
        if peek() == ';':
            take()
    take('}')
    if peek() is not None:
        raise Bad('text after }')
    return nodes, edges


ODD = ['"', '\\', '\n', '\r', '\\n', '\\"', 'a', 'é', '<b>', ']', ';', '->', '\\\\', '{', "'", ' ', '=', 'стали', '%', '{x}',
       '\\N', '0', ',', '|', '\t']


def odd():
    return ''.join(RNG.choice(ODD) for _ in range(RNG.randrange(1, 6)))


def quoting():
    for i in range(20000 if THOROUGH else 3000):
        if R.full():
            return
        values = {k: (odd() if RNG.random() < .9 else RNG.choice([0, 1.5, None, True]))
                  for k in RNG.sample(['label', 'color', 'x'], RNG.randrange(1, 4))}
        g = Graph()
        class Item(object):
            pass
        items = [Item() for _ in range(2)]
        for it in items:
            g.add_node(it, style(**values))
        g.add_edge(items[0], items[1], style=style(**values))
        try:
            nodes, edges = read('\n'.join(g.source))
        except Bad as x:
            R.fail('the source is not well formed: %s' % x, values, source='\n'.join(g.source))
            continue
        want = {k: str(v) for k, v in values.items()}
        R.same([a for _, a in nodes] + [a for _, _, a in edges], [want] * 3, 'attributes read back', values)
        R.check(len({n for n, _ in nodes}) == 2 and [(a, b) for a, b, _ in edges] == [(nodes[0][0], nodes[1][0])],
                'nodes and edges of a graph', values)


def parts(root, children):
    seen, order = {id(root)}, [root]
    for x in order:
        for c in children(x):
            if id(c) not in seen:
                seen.add(id(c))
                order.append(c)
    return order


def color(ids, edges, labels, rounds=6):
    """refined signatures of a labelled directed multigraph"""
    sig = {i: hash(labels[i]) for i in ids}
    for _ in range(rounds):
        down, up = {i: [] for i in ids}, {i: [] for i in ids}
        for a, b in edges:
            down[a].append(sig[b])
            up[b].append(sig[a])
        sig = {i: hash((labels[i], tuple(sorted(down[i])), tuple(sorted(up[i])))) for i in ids}
    return Counter(sig.values())


def dot(x):
    g = x.as_dot
    if g is None or isinstance(g, (type(x), type(rule('a')))):
        # a rule or a tree instead of its drawing
        raise TypeError('not a drawing: %r' % (g,))
    return '\n'.join(g.source)


def compare(what, case, source, root, children, known, ties=()):
    try:
        nodes, edges = read(source)
    except Bad as x:
        R.fail('%s: the source is not well formed: %s' % (what, x), case, source=source)
        return
    R.case((what, repr(case)[:300]))
    ids = [n for n, _ in nodes]
    if len(set(ids)) != len(ids):
        R.fail('%s: two nodes have one identifier' % what, case, source=source)
        return
    for a, b, _ in edges:
        if a not in ids or b not in ids:
            R.fail('%s: edge to an unknown node' % what, case, source=source)
            return
    ps = parts(root, children)
    if len(ids) != len(ps):
        R.fail('%s: %d nodes for %d parts' % (what, len(ids), len(ps)), case, source=source)
        return
    want_labels = {id(p): known(p) for p in ps}
    names = {l for l in want_labels.values() if l is not None}
    got_labels = {n: (a.get('label') if a.get('label') in names else None) for n, a in nodes}
    plain = [(a, b) for a, b, s in edges if s.get('dir') != 'none']
    want_plain = [(id(p), id(c)) for p in ps for c in children(p)]
    if color(ids, plain, got_labels) != color([id(p) for p in ps], want_plain, want_labels):
        R.fail('%s: the drawing is not the one of the parts' % what, case, source=source)
        return
    tie = [(a, b, s.get('label')) for a, b, s in edges if s.get('dir') == 'none']
    # ties go between the parts: count them per pair of labels
    got = Counter((frozenset([got_labels[a], got_labels[b]]), l) for a, b, l in tie)
    want = Counter((frozenset([want_labels[id(a)], want_labels[id(b)]]), l) for a, b, l in ties)
    R.check(got == want, '%s: agreement ties' % what, case, got=got, want=want)
    both = [(a, b) for a, b, _ in tie] + plain
    wboth = [(id(a), id(b)) for a, b, _ in ties] + want_plain
    R.check(len(both) == len(wboth), '%s: number of edges' % what, case)


def rule_children(x):
    """direct parts of a rule, by its declared fields"""
    from yargy.rule.constructors import Production, WrapperRule, OrRule, ForwardRule, PipelineRule, EmptyRule
    if isinstance(x, Predicate) or isinstance(x, (PipelineRule, EmptyRule)):
        return []
    if isinstance(x, OrRule):
        return list(x.rules)
    if isinstance(x, WrapperRule):
        return [x.rule]
    if isinstance(x, ForwardRule):
        return [x.rule] if x.rule is not None else []
    if isinstance(x, Production):
        return list(x.terms)
    return list(x.productions)


def rule_label(x):
    from yargy.rule.constructors import NamedRule, Production
    if isinstance(x, NamedRule):
        return x.name
    if isinstance(x, Predicate):
        return x.label
    return None


def bnf_label(x):
    return getattr(x, 'label', None)


class Tie(Relation):
    __attributes__ = ['name']

    def __init__(self, name):
        self.name = name

    def __call__(self, form, other):
        return True

    @property
    def label(self):
        return 'tie ' + self.name


class Forms(Tokenizer):
    def __call__(self, text):
        for i, t in enumerate(Tokenizer.__call__(self, text)):
            yield t.morphed([Form(i, Grams(set()), raw=None)])


def grammars():
    tokenizer = Forms()
    end = time.time() + R.left(.9)
    F = fact('F', ['a'])
    while time.time() < end and not R.full():
        gen = Gen(RNG, marks=.5, mains=True, share=RNG.choice([0, .1, .3]), pipes=RNG.random() < .3)
        g = gen.grammar(RNG.choice([1, 2, 3]), 1)
        if cyclic(g) or known_defect(g):
            continue
        names = {}
        rels = [Tie(odd()) for _ in range(2)]
        kinds = {}

        def wrap(r, label):
            k = kinds.setdefault(label, RNG.randrange(4))
            names.setdefault(label, odd())
            if k == 0:
                return r.named(label + names[label])
            if k == 1:
                return r.named(label + names[label]).match(rels[0])
            if k == 2:
                return r.match(rels[1])
            return r.interpretation(F.a)
        try:
            made = build(g, wrap)
            stages = [('rule', made)]
            active = made.activate(Context(tokenizer))
            stages.append(('active rule', active))
            stages.append(('normal rule', active.normalized))
        except RecursionError:
            continue
        for what, r in stages:
            case = (repr(g), names, kinds)
            ok, s = R.guard(what, case, lambda: dot(r))
            if ok:
                compare(what, case, s, r, rule_children, rule_label)
        try:
            parser = limited(5, lambda: Parser(made, tokenizer=tokenizer))
        except (Slow, RecursionError):
            continue
        case = (repr(g), names, kinds)
        ok, s = R.guard('compiled', case, lambda: dot(parser.rule))
        if ok:
            compare('compiled rule', case, s, parser.rule, rule_children, bnf_label)
        for _ in range(3):
            words = [RNG.choice('abc') for _ in range(RNG.randrange(1, 5))]
            case = (repr(g), names, kinds, words)
            ok, m = attempt('match', case, parser.match, text_of(words))
            if not ok or m is None:
                continue
            def kids(x):
                return list(x.children)
            every = parts(m.tree.root, kids)
            ties = []
            for rel in rels:
                tied = [x for x in every if getattr(x, 'relation', None) is rel]
                ties.extend((a, b, rel.label) for i, a in enumerate(tied) for b in tied[i + 1:])
            ok, s = R.guard('tree', case, lambda: dot(m.tree))
            if ok:
                compare('match', case, s, m.tree.root, kids, lambda x: x.label, ties)


R.rule = 'a set of attribute values; a grammar at each stage of compilation; a match of it'
R.bound = 'grammars up to depth 3 with shared and recursive parts, texts up to 4 words, labels of up to 5 odd pieces'
main(quoting, grammars)
