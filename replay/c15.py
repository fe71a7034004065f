from gram import *
from yargy.morph import Form, Grams
from yargy.relations import Relation
from yargy.tokenizer import TokenRule
from yargy.interpretation import fact


class Recorder(Relation):
    """remembers which words are compared"""
    __attributes__ = []

    def __init__(self):
        self.seen = set()

    def __call__(self, form, other):
        self.seen.add((form.normalized, other.normalized))
        return True


class Forms(Tokenizer):
    def __call__(self, text):
        for i, t in enumerate(Tokenizer.__call__(self, text)):
            yield t.morphed([Form(i, Grams(set()), raw=None)])


class Undecided(Exception):
    pass


def head(nodes):
    """main word of a phrase; None when it has no words"""
    present = [n for n in nodes if words_of((n,))]
    if not present:
        return None
    n = present[0]
    if n[0] == 'w':
        return n[1]
    if n[0] == 'm':
        return head(n[2])
    groups = n[1]
    if n[2]:
        if not words_of(groups[n[2]]):
            raise Undecided()
        return head(groups[n[2]])
    return head([x for g in groups for x in g])


def tied(nodes, rel, out):
    for n in nodes:
        if n[0] == 'm':
            if n[4] > n[3] and isinstance(n[1], str) and rel(n[1]):
                out.append(head(n[2]))
            tied(n[2], rel, out)
        elif n[0] == 's':
            for g in n[1]:
                tied(g, rel, out)
    return out


def run():
    for nested in (True, False):
        gen = Gen(RNG, marks=.7, mains=True, share=.1, nested=nested)
        end = time.time() + R.left(.5)
        while time.time() < end and not R.full():
            g = gen.grammar(RNG.choice([1, 2, 3]), 1)
            if cyclic(g) or known_defect(g):
                continue
            rec = Recorder()
            chosen = {}

            def rel(label):
                if label not in chosen:
                    chosen[label] = RNG.random() < .5
                return chosen[label]
            wrap = lambda r, label: r.named(label).match(rec) if rel(label) else r.named(label)
            ok, parser = R.guard('Parser', g, lambda: Parser(build(g, wrap), tokenizer=Forms()))
            if not ok:
                return
            for _ in range(5):
                words = tuple(RNG.choice('abc') for _ in range(RNG.choice([1, 2, 3, 4, 5])))
                one(g, parser, words, rec, rel, chosen, nested)


def one(g, parser, words, rec, rel, chosen, nested):
    text, starts = text_of(words), positions(words)
    case = (str(g), text, sorted(l for l in chosen if chosen[l]))
    try:
        D = Derivations(g, words, 100)
        ok, found = attempt('extract', case, lambda: list(parser.extract(text)))
        if not ok:
            return
        for m in found:
            a, b = index_range(m, starts)
            R.case(case + (a, b), b - a > 1)
            if [starts[t.span.start] for t in m.tokens] != list(range(a, b)):
                R.fail('words of the match are not the words of the run', case, run=(a, b), got=m.tokens)
                return
            leaves = [t.token.value for t in m.tree.walk() if hasattr(t, 'token')]
            if leaves != list(words[a:b]):
                R.fail('words of the tree', case, run=(a, b), got=leaves)
                return
            got = node_marks(m, starts, named)
            want = [[x for x in marks(d.nodes) if isinstance(x[0], str)] for d in D.of(g.start, a, b)]
            if got not in want:
                R.fail('a marked phrase is lost or gained', case, run=(a, b), got=got, want=want[:4])
                return
        rec.seen.clear()
        ok, m = attempt('match', case, lambda: parser.match(text))
        if not ok or m is None:
            return
        n = len(words)
        best = D.best(0, n)
        ds = D.of(g.start, 0, n)
        if len(ds) != 1 and nested:
            # modifiers of modified rules are merged: which derivation is preferred is not known here
            return
        # only the preferred derivation is checked for agreement: it comes first
        heads = tied(best.nodes, rel, [])
        import itertools
        want = {(x, y) for x, y in itertools.combinations(heads, 2)}
        got = set(rec.seen)
        norm = lambda s: {tuple(sorted(p)) for p in s}
        R.case(case + ('heads',), len(heads) > 1)
        if norm(got) != norm(want):
            R.fail('other words stand for the phrases in agreement', case, got=sorted(norm(got)), want=sorted(norm(want)))
    except (Cyclic, Undecided):
        return


def lengths():
    """phrases of many parts"""
    from yargy import rule
    from yargy.relations import main as main_
    from yargy.predicates import eq

    F = fact('F', ['a'])

    def nest(ps, shape):
        if shape == 'row':
            return rule(*ps)
        if shape == 'right':
            r = rule(ps[-1])
            for p in reversed(ps[:-1]):
                r = rule(p, r)
            return r
        if shape == 'left':
            r = rule(ps[0])
            for p in ps[1:]:
                r = rule(r, p)
            return r
        h = len(ps) // 2
        return rule(nest(ps[:h], 'half'), nest(ps[h:], 'half')) if h else rule(ps[0])
    for k in range(1, 26):
        for shape in ('row', 'right', 'left', 'half', 'repeated', 'named'):
            words = ['w%d' % i if shape != 'repeated' else 'w' for i in range(k)]
            ps = [eq(w) for w in words]
            if shape == 'repeated':
                r = rule(ps[0]).repeatable()
            elif shape == 'named':
                r = rule(*[rule(p).named('n%d' % i) for i, p in enumerate(ps)])
            else:
                r = nest(ps, shape)
            case = (shape, k)
            text = ' '.join(words)
            ok, m = R.guard('match', case, lambda: Parser(r, tokenizer=Tokenizer([TokenRule('W', r'\w+')])).match(text))
            if not ok:
                return
            R.case(case, k > 1)
            if m is None or [t.value for t in m.tokens] != words:
                R.fail('words of a long match', case, got=m and m.tokens)
                return
            leaves = [t.token.value for t in m.tree.walk() if hasattr(t, 'token')]
            if leaves != words:
                R.fail('words of the tree of a long match', case, got=leaves)
            ok, m = R.guard('match', case, lambda: Parser(r.interpretation(F.a).interpretation(F), tokenizer=Tokenizer(
                [TokenRule('W', r'\w+')])).match(text))
            if ok and (m is None or m.fact.a != text or [tuple(x) for x in m.fact.spans] != [(0, len(text))]):
                R.fail('text of a long phrase in a fact', case, got=m and m.fact)
                return
            if shape == 'named':
                m = Parser(r, tokenizer=Tokenizer([TokenRule('W', r'\w+')])).match(text)
                got = [named(n) for n in m.tree.walk() if named(n)]
                if [x for x in got if x[:1] == 'n'] != ['n%d' % i for i in range(k)]:
                    R.fail('a marked phrase is lost', case, got=got)
    for k in range(1, 15):
        for at in range(k):
            rec = Recorder()
            words = ['w%d' % i for i in range(k)]
            ps = [main_(eq(w)) if i == at else eq(w) for i, w in enumerate(words)]
            r = rule(rule(*ps).match(rec), rule('z').match(rec))
            tok = Numbered([TokenRule('W', r'\w+')])
            ok, m = R.guard('match', (k, at), lambda: Parser(r, tokenizer=tok).match(' '.join(words + ['z'])))
            if not ok:
                return
            R.case(('main', k, at), True)
            if m is None or rec.seen != {(at, k)}:
                R.fail('another word stands for a long phrase', (k, at), got=rec.seen)
                return


class Numbered(Tokenizer):
    def __call__(self, text):
        for i, t in enumerate(Tokenizer.__call__(self, text)):
            yield t.morphed([Form(i, Grams(set()), raw=None)])


R.rule = 'grammar with marked main parts, text and run; non-trivial: more than one word, or more than one tied phrase'
R.bound = 'random grammars to depth 3 with main parts, optional parts and agreement marks; texts to 5 words'
main(lengths, run)
