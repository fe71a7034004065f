from gram import *
from yargy.tokenizer import TokenRule
import itertools

KEY = 'min-over-repeatable'


def key_of(g):
    return KEY if known_defect(g) else None


def check(g, parser, words, wrapped=None):
    text = text_of(words)
    starts = positions(words)
    case = (str(g), ' '.join(words))
    S_ = Spans(g, words)
    want = {(i, j) for i, j in S_.of(g.start) if i < j}
    ok, found = attempt('extract', case, lambda: list(parser.extract(text)))
    if not ok:
        return
    R.case(case, bool(want))
    got = {index_range(m, starts) for m in found}
    if got != want:
        R.fail('compiled grammar accepts other runs', case, key=key_of(g), extra=sorted(got - want),
               missing=sorted(want - got))
        return
    if known_defect(g):
        return
    try:
        D = Derivations(g, words, 400)
        by = {}
        for m in found:
            by.setdefault(index_range(m, starts), set()).add(tuple(node_marks(m, starts, wrapped or named)))
        for (a, b) in want:
            views = {tuple(x for x in marks(d.nodes) if isinstance(x[0], str)) for d in D.of(g.start, a, b)}
            if by[a, b] != views:
                R.fail('names, interpretations or relations are attached to other parts', case, run=(a, b),
                       extra=sorted(by[a, b] - views)[:4], missing=sorted(views - by[a, b])[:4])
                return
    except Cyclic:
        pass


MODS = ([('opt', r) for r in (False, True)]
        + [('rep', lo, hi, r) for lo, hi in [(None, None), (1, None), (2, None), (3, None), (None, 1), (None, 2),
                                             (None, 3), (1, 2), (2, 2), (2, 3), (1, 1)] for r in (False, True)])


def apply(x, mods):
    for m in mods:
        x = ('opt', x, m[1]) if m[0] == 'opt' else ('rep', x, m[1], m[2], m[3])
    return x


def chain(mods, base, unit):
    g = Grammar(apply(base, mods), {})
    case = str(g)
    ok, parser = R.guard('Parser', case, lambda: Parser(build(g), tokenizer=Tokenizer()))
    if not ok:
        return
    for n in range(1, 7 if len(mods) < 3 else 6):
        words = ('a',) * n
        want = (0, n) in Spans(g, words).of(g.start)
        ok, m = attempt('match', (case, n), lambda: parser.match(text_of(words)))
        if not ok:
            return
        R.case((case, n), len(mods) > 1)
        if (m is not None) != want:
            R.fail('%d repeats are %s' % (n, 'accepted' if m else 'rejected'), case, key=key_of(g))
            return


def chains():
    """every nesting of optional and repeatable"""
    a = ('t', ('a',))
    for k in (1, 2):
        for mods in itertools.product(MODS, repeat=k):
            if R.full():
                return
            chain(mods, a, 1)
    for _ in range(1500 if not THOROUGH else 10000):
        if R.full() or R.left(.5) < 0:
            return
        chain([RNG.choice(MODS) for _ in range(RNG.choice([3, 3, 4]))], a, 1)
    for _ in range(200 if not THOROUGH else 2000):
        if R.full() or R.left(.55) < 0:
            return
        chain([RNG.choice(MODS) for _ in range(2)], ('seq', [a, a], 0), 2)


def optional_first():
    """in context: an option that may be left out"""
    a, b = ('t', ('a',)), ('t', ('b',))
    for mods in itertools.product(MODS, repeat=2):
        if R.full() or R.left(.6) < 0:
            return
        if RNG.random() > .4:
            continue
        g = Grammar(('seq', [b, apply(a, mods), b], 0), {})
        ok, parser = R.guard('Parser', g, lambda: Parser(build(g), tokenizer=Tokenizer()))
        if not ok:
            return
        for n in range(0, 5):
            words = ('b',) + ('a',) * n + ('b',)
            want = (0, n + 2) in Spans(g, words).of(g.start)
            ok, m = attempt('match', (str(g), n), lambda: parser.match(text_of(words)))
            R.case((str(g), n))
            if ok and (m is not None) != want:
                R.fail('%d repeats are %s' % (n, 'accepted' if m else 'rejected'), str(g), key=key_of(g))


def grammars():
    gen = Gen(RNG, marks=.6, share=.3)
    for g, parser, words in cases(gen, R.left(.72), sizes=(1, 2, 3, 4, 5), skip=lambda g: False):
        check(g, parser, words)


def attached():
    attach(40, R.left(.86))


def equal():
    """the same marks on several parts, and on one part several times"""
    attach(2, R.left(.98))


def attach(pool, seconds):
    """interpretations and relations instead of names"""
    from yargy.interpretation import fact
    from yargy.relations import gender_relation, number_relation, case_relation
    F = [fact('F%d' % i, ['a']) for i in range(40)]
    of, relations = {}, {}

    def what(label):
        """(kind, number) of a mark: few kinds of marks when the pool is small"""
        i = int(label[1:])
        return i % 3, i if pool > 9 else i // 3 % pool

    def wrap(r, label):
        kind, i = what(label)
        if kind == 0:
            if i not in of:
                of[i] = [gender_relation, number_relation, case_relation][i % 3]()
                relations[id(of[i])] = of[i], i
            return r.match(of[i])
        if kind == 1:
            return r.interpretation(F[i % 40].a)
        return r.named('n%d' % i)

    def view(node, out, starts):
        """(kind, what, range) of marked parts, in any nesting order at one range"""
        def leaves(n):
            return [n] if hasattr(n, 'predicate') else [l for c in n.children for l in leaves(c)]
        rule = getattr(node, 'rule', None)
        if rule is not None:
            ls = leaves(node)
            at = starts[ls[0].token.span.start], starts[ls[-1].token.span.start] + 1
            if rule.interpretator:
                out.append(('i', rule.interpretator.attribute.fact.__name__) + at)
            if rule.relation:
                out.append(('r', relations[id(rule.relation)][1]) + at)
            if rule.name and rule.name.startswith('n'):
                out.append(('n', rule.name) + at)
        for c in node.children:
            view(c, out, starts)
        return out

    def want_of(nodes):
        out = []
        for l, i, j in marks(nodes):
            if isinstance(l, str):
                kind, k = what(l)
                out.append((('r', k) if kind == 0 else ('i', 'F%d' % (k % 40)) if kind == 1 else ('n', 'n%d' % k)) + (i, j))
        return tuple(sorted(out))
    gen = Gen(RNG, marks=.6 if pool > 9 else .8, share=.3)
    for g, parser, words in cases(gen, seconds, sizes=(1, 2, 3, 4), wrap=wrap):
        text, starts = text_of(words), positions(words)
        try:
            D = Derivations(g, words, 300)
            # trees as parsed, before agreement is checked
            ok, trees = attempt('matches', g, lambda: [
                t for t in ((s.node, s.range) for s in parser.matches(text))])
            if not ok or not trees:
                continue
            from yargy.tree import Tree
            by = {}
            for node, rng in trees:
                tree = Tree(node, rng).normalized
                if tree.root:
                    by.setdefault(rng, set()).add(tuple(sorted(view(tree.root, [], starts))))
            for (a, b), got in by.items():
                views = {want_of(d.nodes) for d in D.of(g.start, a, b)}
                R.case((str(g), words, a, b, 'attached', pool), len(words) > 1)
                if got != views:
                    R.fail('names, interpretations or relations are attached to other parts', (str(g), words),
                           run=(a, b), got=sorted(got)[:3], want=sorted(views)[:3])
                    break
        except Cyclic:
            continue


def unusual():
    """names that look like those given to rules without a name, and repeated names"""
    from yargy import rule
    from yargy.predicates import eq
    for _ in range(150):
        k = RNG.choice([1, 2, 3, 4])
        names = [RNG.choice(['R0', 'R1', 'R2', 'R3', 'R4', 'x', 'Rule', 'R']) for _ in range(k)]
        twice = [RNG.random() < .3 for _ in range(k)]
        words = ['w%d' % i for i in range(k)]
        parts = []
        for w, n, t in zip(words, names, twice):
            r = rule(eq(w)).named(n)
            parts.append(r.named('outer') if t else r)
        ok, m = R.guard('match', names, lambda: Parser(rule(*parts), tokenizer=Tokenizer([TokenRule('W', r'\w+')])).match(
            ' '.join(words)))
        if not ok:
            return
        want = []
        for n, t in zip(names, twice):
            want += ['outer', n] if t else [n]
        R.case((names, twice), True)
        got = [n.rule.name for n in m.tree.walk() if hasattr(n, 'rule')] if m else None
        # the root has a name of its own
        if m is None or got[len(got) - len(want):] != want:
            R.fail('named parts of the tree', (names, twice), got=got, want=want)
            return


def twins():
    """a part marked twice with equal marks keeps both"""
    from yargy import rule, or_
    from yargy.interpretation import fact
    F = fact('F', ['x'])
    more = F.x.custom(lambda _: (_ if isinstance(_, str) else str(_)) + '!')
    for n in (1, 2, 3, 4):
        for text in ('a', 'a b'):
            r = rule(*text.split())
            for _ in range(n):
                r = r.interpretation(more)
            for whole, words in ((r, text), (rule(r), text), (or_(r, rule('z')), text), (rule('c', r), 'c ' + text)):
                ok, f = R.guard('fact', (n, words), lambda: Parser(
                    rule(whole).interpretation(F), tokenizer=Tokenizer()).match(words).fact)
                if not ok:
                    return
                R.case(('twins', n, words), n > 1)
                if f.x != text + '!' * n:
                    R.fail('equal marks on one part', (n, words), got=f.x, want=text + '!' * n)
                    return
    names = rule('a')
    for n in range(1, 4):
        names = names.named('n')
        ok, m = R.guard('match', n, lambda: Parser(rule('b', names), tokenizer=Tokenizer()).match('b a'))
        if not ok or m is None:
            return
        got = sum(1 for x in m.tree.walk() if getattr(getattr(x, 'rule', None), 'name', None) == 'n')
        R.case(('twin names', n), True)
        if got != n:
            R.fail('equal names on one part', n, got=got)


R.rule = 'grammar and text; non-trivial: nested modifiers, or a text in which something matches'
R.bound = 'all nestings of two modifiers (24 kinds) and random ones to 4, to 6 repeats; random grammars to depth 3 with marks, texts to 5 words'
main(unusual, twins, chains, optional_first, grammars, attached, equal)
