from gram import *
import itertools
from yargy.morph import Form, Grams
from yargy.relations import gender_relation, number_relation, case_relation, gnc_relation, Relation
from yargy import and_, or_, not_

FEATURES = ['masc', 'femn', 'neut', 'sing', 'plur', 'nomn', 'gent', 'Fixd', 'GNdr', 'Ms-f', 'Sgtm', 'Pltm']
LETTERS = 'abcd'


def random_forms(letter):
    out = []
    for _ in range(RNG.choice([1, 1, 2, 2, 3, 4])):
        grams = {RNG.choice(['masc', 'femn', 'neut'])} if RNG.random() < .8 else set()
        grams |= {RNG.choice(['sing', 'plur'])} if RNG.random() < .8 else set()
        grams |= {RNG.choice(['nomn', 'gent'])} if RNG.random() < .8 else set()
        if RNG.random() < .15:
            grams |= {RNG.choice(FEATURES)}
        f = Form(letter + str(len(out)), Grams(grams), raw=None)
        if RNG.random() < .1 and out:
            f = Form(out[0].normalized, Grams(set(out[0].grams.values)), raw=None)
        out.append(f)
    return out


class Forms(Tokenizer):
    table = None

    def __call__(self, text):
        for i, t in enumerate(Tokenizer.__call__(self, text)):
            yield t.morphed(list(self.table[i]))


class Undecided(Exception):
    pass


def mains(nodes, i, j):
    """main word of a forest, None if empty"""
    if len(nodes) == 1:
        n = nodes[0]
        if n[0] == 'w':
            return n[1]
        if n[0] == 'm':
            return mains(n[2], n[3], n[4])
        groups = n[1]
        if n[2]:
            m = mains(groups[n[2]], i, j) if words_of(groups[n[2]]) else None
            if m is None:
                raise Undecided()
            return m
        for g in groups:
            if words_of(g):
                return mains(g, i, j)
        return None
    for n in nodes:
        if words_of((n,)):
            return mains((n,), i, j)
    return None


def ties(nodes, relation_of, out):
    for n in nodes:
        if n[0] == 'm':
            if n[4] > n[3] and isinstance(n[1], str):
                rel = relation_of(n[1])
                if rel is not None:
                    out.append((rel, mains(n[2], n[3], n[4])))
            ties(n[2], relation_of, out)
        elif n[0] == 's':
            for g in n[1]:
                ties(g, relation_of, out)
    return out


def same(f, g):
    return f.normalized == g.normalized and f.grams.values == g.grams.values


def subset(a, b):
    return all(any(same(x, y) for y in b) for x in a)


def check(g, parser, words, table, relation_of, case):
    starts = positions(words)
    D = Derivations(g, words, 100)
    ok, found = attempt('extract', case, lambda: list(parser.extract(text_of(words))))
    if not ok:
        return
    by = {}
    for m in found:
        by.setdefault(index_range(m, starts), []).append(m)
    for a, b in sorted(D.spans.of(g.start)):
        if a == b:
            continue
        ds = D.of(g.start, a, b)
        if len(ds) != 1:
            continue
        tied = ties(ds[0].nodes, relation_of, [])
        pairs = [(r, x, y) for (r, x), (q, y) in itertools.combinations(tied, 2) if r is q]
        if any(x == y for _, x, y in pairs):
            continue
        ms = by.get((a, b), [])
        tied_words = sorted({x for _, x in tied})
        R.case((case, a, b), bool(pairs))
        # assignments in which all tied pairs agree
        good = []
        size = 1
        for w in tied_words:
            size *= len(table[w])
        if size > 4000:
            continue
        for forms in itertools.product(*[table[w] for w in tied_words]):
            f = dict(zip(tied_words, forms))
            if all(r(f[x], f[y]) for r, x, y in pairs):
                good.append(f)
        if good and not ms:
            R.fail('parts can agree, but the match is not reported', case, run=(a, b), tied=pairs)
            return
        for m in ms:
            kept = {starts[t.span.start]: t for t in m.tokens}
            for i in range(a, b):
                t = kept[i]
                if t.value != words[i]:
                    R.fail('words of the match changed', case, run=(a, b))
                    return
                if i not in tied_words:
                    if [id(x) for x in t.forms] != [id(x) for x in table[i]]:
                        R.fail('a word not tied by a relation lost or changed forms', case, run=(a, b), word=i)
                        return
                    continue
                if not t.forms:
                    R.fail('a tied word keeps no form', case, run=(a, b), word=i)
                    return
                if not subset(t.forms, table[i]):
                    R.fail('a tied word has a form it did not have', case, run=(a, b), word=i)
                    return
                if any(sum(same(f, h) for h in t.forms) > sum(same(f, h) for h in table[i]) for f in t.forms):
                    R.fail('a form is kept more often than the word had it', case, run=(a, b), word=i,
                           forms=[str(x) for x in table[i]], kept=[str(x) for x in t.forms])
                    return
                need = [f[i] for f in good]
                if not subset(need, t.forms):
                    R.fail('a form of an agreeing choice is removed', case, run=(a, b), word=i,
                           forms=[str(x) for x in table[i]], kept=[str(x) for x in t.forms])
                    return
            if pairs:
                for r, x, y in pairs:
                    one = len(tied_words) == 2 and len({(id(r), x, y) for r, x, y in pairs}) == 1
                    for p, q in ((x, y), (y, x)):
                        for f in kept[p].forms:
                            if not any(r(f, h) for h in (kept[q].forms if one else table[q])):
                                R.fail('a kept form agrees with no form of the other word', case, run=(a, b), word=p,
                                       form=str(f))
                                return


def relations():
    return [RNG.choice([number_relation, gender_relation, case_relation, gnc_relation])(),
            RNG.choice([number_relation, gender_relation, case_relation,
                        lambda: and_(number_relation(), case_relation()),
                        lambda: or_(number_relation(), case_relation()),
                        lambda: not_(number_relation()), lambda: not_(case_relation())])()]


def random_tables(words):
    """word forms of every word; equal words may share them, as those of a caching analyser do"""
    out = []
    for w in words:
        out.append(RNG.choice(out) if out and RNG.random() < .15 else random_forms(w))
    return out


def grammars():
    gen = Gen(RNG, alphabet=LETTERS, marks=.8, mains=True, pipes=False, share=.05)
    end = R.left(.8)
    stop = time.time() + end
    while time.time() < stop and not R.full():
        g = gen.grammar(RNG.choice([1, 2, 2, 3]), 1)
        if cyclic(g) or known_defect(g):
            continue
        pool = relations()
        of = {}

        def relation_of(label):
            if label not in of:
                of[label] = RNG.choice([pool[0], pool[0], pool[1], None])
            return of[label]

        def wrap(r, label):
            rel = relation_of(label)
            return r.match(rel) if rel is not None else r.named(label)
        tokenizer = Forms()
        ok, parser = R.guard('Parser', g, lambda: Parser(build(g, wrap), tokenizer=tokenizer))
        if not ok:
            return
        for _ in range(6):
            words = tuple(RNG.choice(LETTERS) for _ in range(RNG.choice([1, 2, 3, 4, 5])))
            table = random_tables(words)
            tokenizer.table = table
            case = (str(g), ' '.join(words), [[str(f) for f in fs] for fs in table],
                    {l: r and r.label for l, r in of.items()})
            try:
                check(g, parser, words, table, relation_of, case)
            except (Cyclic, Undecided):
                pass


def pairs():
    """two to four tied words in a row, by one or two relations"""
    for _ in range(1500 if not THOROUGH else 15000):
        if R.full() or R.left(.4) < 0:
            return
        k = RNG.choice([2, 2, 3, 3, 4])
        pool = relations()
        of = {}
        items = []
        for i in range(k):
            x = ('t', (LETTERS[i],))
            for q in range(2):
                if RNG.random() < (.8 if q == 0 else .3):
                    label = 'n%d_%d' % (i, q)
                    of[label] = pool[q]
                    x = ('mark', label, x)
            if RNG.random() < .2:
                x = ('opt', x, RNG.random() < .5)
            items.append(x)
        g = Grammar(('seq', items, 0), {})
        words = tuple(LETTERS[:k])
        table = random_tables(words)
        tokenizer = Forms()
        tokenizer.table = table
        ok, parser = R.guard('Parser', g, lambda: Parser(
            build(g, lambda r, label: r.match(of[label])), tokenizer=tokenizer))
        if not ok:
            return
        case = (str(g), [[str(f) for f in fs] for fs in table], {l: r.label for l, r in of.items()})
        try:
            check(g, parser, words, table, lambda l: of[l], case)
        except (Cyclic, Undecided):
            pass


def real():
    """dictionary words"""
    from yargy import rule
    from yargy.predicates import gram
    from yargy.tokenizer import MorphTokenizer
    from yargy.token import is_morph_token
    gnc = gnc_relation()
    tok = MorphTokenizer()
    phrase = rule(gram('ADJF').match(gnc), gram('NOUN').match(gnc))
    parser = Parser(phrase, tokenizer=tok)
    adj = ['красивый', 'красивая', 'красивое', 'красивые', 'старого', 'новой', 'синее', 'первым', 'наше', 'больших']
    noun = ['дом', 'мать', 'окно', 'дома', 'матери', 'пальто', 'сирота', 'судьи', 'ножницы', 'молоко', 'кенгуру', 'врача']
    for a in adj:
        for n in noun:
            fa = [f for t in tok(a) for f in t.forms if 'ADJF' in f.grams.values]
            fn = [f for t in tok(n) for f in t.forms if 'NOUN' in f.grams.values]
            want_a = [f for f in fa if any(gnc(f, g) for g in fn)]
            want_n = [g for g in fn if any(gnc(f, g) for f in fa)]
            ok, m = R.guard('match', (a, n), lambda: parser.match(a + ' ' + n))
            if not ok:
                return
            R.case((a, n), True)
            if (m is not None) != bool(want_a):
                R.fail('agreement of dictionary words', (a, n), got=m)
            elif m is not None:
                for t, want in zip(m.tokens, (want_a, want_n)):
                    if not subset(want, t.forms) or not subset(t.forms, want):
                        R.fail('kept forms of dictionary words', (a, n), got=t.forms, want=want)


R.rule = 'grammar, text with random word forms and run; non-trivial: at least one pair of words is tied'
R.bound = 'rows of 2-4 tied words; random grammars to depth 3 with two relations, texts to 5 words, 4 forms per word'
main(pairs, grammars, real)
