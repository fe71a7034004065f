from gram import *
from yargy.morph import Form, Grams
from yargy.relations import number_relation, gnc_relation, gender_relation
from yargy.predicates import gram, normalized, type as type_, eq, in_, is_single, dictionary
from yargy.pipelines import morph_pipeline, pipeline, caseless_pipeline
from yargy.interpretation import fact, attribute
from yargy.tokenizer import MorphTokenizer
from yargy.tagger import Tagger
from yargy import rule, or_, and_, not_, forward, empty
from yargy.predicates import tag


def snap_token(t):
    return (type(t).__name__, t.value, t.span.start, t.span.stop, t.type, getattr(t, 'tag', None),
            tuple((f.normalized, tuple(sorted(f.grams.values))) for f in getattr(t, 'forms', ())) if hasattr(t, 'forms') else None)


def snap_tree(n):
    if hasattr(n, 'predicate'):
        return ('leaf', repr(n.predicate), snap_token(n.token))
    return (n.rule.label, n.rank, tuple(snap_tree(c) for c in n.children))


def snap(m):
    out = [tuple(snap_token(t) for t in m.tokens), tuple(m.span), snap_tree(m.tree.root)]
    try:
        f = m.fact
    except (ValueError, TypeError):
        f = None
    out.append(repr(f))
    if f is not None and hasattr(f, 'as_json'):
        out.append(repr(f.as_json))
    return out


def results(parser, text):
    m = parser.match(text)
    return [[snap(x) for x in parser.findall(text)], sorted(repr(snap(x)) for x in parser.extract(text)),
            m and snap(m)]


class Tags(Tagger):
    tags = ['B', 'O']

    def __call__(self, tokens):
        for t in tokens:
            yield t.tagged('B' if t.value[:1].isupper() else 'O')


def zoo():
    """grammars that use every kind of part"""
    F = fact('F', ['a', attribute('b').repeatable(), 'c'])
    gnc, num = gnc_relation(), number_relation()
    noun, adj = gram('NOUN'), gram('ADJF')
    X = forward()
    X.define(or_(rule(type_('RU'), X), type_('RU').repeatable(max=1)))
    Y = forward()
    np = rule(adj.match(gnc).optional().repeatable(), noun.match(gnc)).named('NP')
    city = morph_pipeline(['москва', 'нижний новгород', 'нижний'])
    out = [
        np, np.interpretation(F.a.normalized()).interpretation(F),
        np.interpretation(F.a.inflected({'gent'})).interpretation(F),
        rule(np.interpretation(F.a), np.interpretation(F.b).optional()).interpretation(F),
        X.interpretation(F.a).interpretation(F), rule(X, noun),
        rule(city.interpretation(F.a.normalized()), noun.interpretation(F.b).repeatable()).interpretation(F),
        or_(rule(city), np).repeatable(),
        rule(normalized('мыть'), noun.match(num), noun.match(num).optional()),
        rule(and_(noun, not_(gram('Name'))).match(num), is_single()).repeatable(min=1, max=2),
        rule(dictionary({'мама', 'дом'}).interpretation(F.a), or_(rule('и'), empty()), type_('RU').interpretation(F.c)).interpretation(F),
        caseless_pipeline(['мама мыла', 'мама']).interpretation(F.a.normalized()).interpretation(F),
        Y.define(or_(rule(noun.match(gnc)), rule(Y, noun.match(gnc)))).interpretation(F.a).interpretation(F),
    ]
    tagged = [rule(tag('B'), tag('O').optional()), rule(tag('B').interpretation(F.a), noun.match(gnc), adj.match(gnc).optional()).interpretation(F)]
    return out, tagged


TEXTS = ['мама мыла раму', 'Москва', 'в нижнем новгороде стали', 'красивые дома и красивая мама', 'мыла дома', 'стали стали стали',
         'нижний новгород дом', '', '1 2 3', 'мама', 'Мама и дом', 'синее пальто врача', 'x мама y', 'новые дома', 'новый дом']


def reuse():
    rules, tagged = zoo()
    morph = MorphTokenizer()
    for i, r in enumerate(rules + tagged):
        tagger = Tags() if i >= len(rules) else None
        mk = lambda: Parser(r, tokenizer=morph, tagger=tagger)
        before = repr(r), '\n'.join(r.as_dot.source)
        ok, parser = R.guard('Parser', i, mk)
        if not ok:
            return
        first = {}
        for t in TEXTS:
            ok, v = R.guard('parse', (i, t), lambda: results(parser, t))
            if not ok:
                return
            first[t] = v
        texts = TEXTS * 2
        RNG.shuffle(texts)
        held = []
        for t in texts:
            ok, ms = R.guard('findall', (i, t), lambda: list(parser.findall(t)))
            if not ok:
                return
            held += [(t, m, snap(m)) for m in ms]
            R.case((i, t), bool(ms))
            if results(parser, t) != first[t]:
                R.fail('the same text gives other matches', (i, t, repr(r)[:300]))
                return
        for t, m, s in held:
            if snap(m) != s:
                R.fail('an earlier match changed', (i, t, repr(r)[:300]))
                return
        ok, second = R.guard('second parser', i, mk)
        if not ok:
            return
        if (repr(r), '\n'.join(r.as_dot.source)) != before:
            R.fail('building a parser changed the rule', (i, before[0][:300]), got=repr(r)[:600])
            return
        fresh = Parser(r, tokenizer=MorphTokenizer(), tagger=tagger)
        for t in TEXTS:
            if results(second, t) != first[t]:
                R.fail('a second parser from the same rule differs', (i, t, repr(r)[:300]))
                return
            if RNG.random() < .3 and results(fresh, t) != first[t]:
                R.fail('a parser with a tokenizer of its own differs', (i, t, repr(r)[:300]))
                return


def lazily():
    """matches requested one by one while other texts are parsed"""
    rules, tagged = zoo()
    morph = MorphTokenizer()
    for i, r in enumerate(rules):
        parser = Parser(r, tokenizer=morph)
        for _ in range(6):
            a, b = RNG.sample(TEXTS, 2)
            want_a, want_b = [snap(m) for m in parser.extract(a)], [snap(m) for m in parser.extract(b)]
            ga, gb = parser.extract(a), parser.findall(b)
            got_a, got_b = [], []
            fb = [snap(m) for m in parser.findall(b)]
            while True:
                m = next(ga, None)
                if m is None:
                    break
                got_a.append((m, snap(m)))
                q = next(gb, None)
                if q is not None:
                    got_b.append((q, snap(q)))
            R.case((i, a, b, 'lazily'), len(want_a) > 1)
            if [s for _, s in got_a] != want_a or any(snap(m) != s for m, s in got_a + got_b) or [
                    s for _, s in got_b] != fb[:len(got_b)]:
                R.fail('matches of two texts influence each other', (i, a, b, repr(r)[:300]))
                return


class Forms(Tokenizer):
    def __call__(self, text):
        table = {'s': ['sing'], 'p': ['plur'], 'b': ['sing', 'plur']}
        for t in Tokenizer.__call__(self, text):
            yield t.morphed([Form(t.value, Grams({x}), raw=None) for x in table.get(t.value, ['sing'])])


def overlapping():
    """matches of one text do not influence each other's words"""
    num = number_relation()
    w = in_({'s', 'p', 'b'})
    for r in [rule(w.match(num), w.match(num)), rule(w.match(num)).repeatable(), rule(w.match(num), w, w.match(num).optional()),
              or_(rule(w.match(num), w.match(num)), rule(w), rule(w, w)), rule(w, gram_any(w, num))]:
        parser = Parser(r, tokenizer=Forms())
        for _ in range(60 if not THOROUGH else 600):
            words = tuple(RNG.choice('spbb') for _ in range(RNG.choice([2, 3, 4, 5])))
            text = text_of(words)
            ok, ms = R.guard('extract', text, lambda: list(parser.extract(text)))
            if not ok:
                return
            R.case((repr(r)[:60], text), len(ms) > 1)
            after = [snap(m) for m in ms]
            for _ in range(2):
                alone = []
                for m in parser.extract(text):
                    alone.append(snap(m))
                if alone != after:
                    R.fail('matches of one text influence each other', (repr(r), text))
                    return
            # each match on its own: the text of just its words gives the same words
            for m, s in zip(ms, after):
                if len(set(tuple(q[1]) for q in after)) != len(after):
                    break
                a, b = m.span
                n = sum(1 for q in ms if tuple(q.span) == (a, b))
                own = [snap(x) for x in parser.extract(text[a:b]) if tuple(x.span) == (0, b - a)]
                if n == 1 and own and [x[6] for x in own[0][0]] != [x[6] for x in s[0]]:
                    R.fail('the words of a match depend on other matches', (repr(r), text, (a, b)), got=s[0], want=own[0][0])
                    return


def many():
    """many rules, one after another, with one tokenizer: each parser is that of its rule"""
    plain, morph = Tokenizer(), MorphTokenizer()
    words = 'abcdef'
    kept = []
    for k in range(1500 if THOROUGH else 250):
        a, b = RNG.sample(words, 2)
        kind = RNG.randrange(5)
        make = [lambda: rule(a, b), lambda: pipeline([a + ' ' + b]), lambda: or_(rule(a, b), rule(b)),
                lambda: rule(a).repeatable(max=1).named('x') and rule(eq(a), in_({b})),
                lambda: rule(caseless_pipeline([a]), morph_pipeline([b]) if k % 2 else eq(b))][kind]
        tok = morph if kind == 4 or k % 2 else plain
        ok, parser = R.guard('Parser', (k, kind, a, b), lambda: Parser(make(), tokenizer=tok))
        if not ok:
            return
        want = {a + ' ' + b} | ({b} if kind == 2 else set())
        texts = [a + ' ' + b, b, a, b + ' ' + a]
        R.case(('many', k, kind, a, b))
        got = {t for t in texts if parser.match(t) is not None}
        if got != want:
            R.fail('a parser is not that of its rule', (k, kind, a, b), got=got, want=want)
            return
        if k % 7 == 0:
            kept.append((parser, want, texts))
        del parser
    for k in range(600):
        # the objects of one go where those of the one before were
        a, b = RNG.sample(words, 2)
        r = rule(a, b)
        p = Parser(r, tokenizer=plain)
        if p.match(a + ' ' + b) is None:
            R.fail('a parser is not that of its rule', ('one after another', k, a, b))
            return
        del r, p
    for parser, want, texts in kept:
        if {t for t in texts if parser.match(t) is not None} != want:
            R.fail('an earlier parser is changed by later ones', sorted(want))
            return
    # one rule, several tokenizers and taggers
    r = rule(type_('RU'), type_('INT').optional())
    toks = [Tokenizer(), Tokenizer().remove_types('INT'), MorphTokenizer()]
    for _ in range(3):
        for i, tok in enumerate(toks):
            if i == 1:
                if raises(lambda: Parser(r, tokenizer=tok)) is not ValueError:
                    R.fail('a rule is activated with another tokenizer', i)
                continue
            ok, p = R.guard('Parser', i, lambda: Parser(r, tokenizer=tok))
            if ok:
                R.check(p.tokenizer is tok and (p.match('мама 1') is not None), 'a rule with several tokenizers', i)


def gram_any(w, num):
    return or_(rule(w.match(num), w.match(num)), rule(w))


def grammars():
    gen = Gen(RNG, marks=.4)
    for g, parser, words in cases(gen, R.left(.5), sizes=(1, 2, 3, 4, 5), texts=3):
        text = text_of(words)
        r = build(g)
        ok, before = attempt('repr', g, lambda: (repr(r), '\n'.join(r.as_dot.source)))
        if not ok:
            continue
        ok, v = attempt('Parser', g, lambda: (Parser(r, tokenizer=Tokenizer()), Parser(r, tokenizer=Tokenizer())))
        if not ok:
            continue
        ok, after = attempt('repr', g, lambda: (repr(r), '\n'.join(r.as_dot.source)))
        R.case((str(g), text), True)
        if ok and after != before:
            R.fail('building a parser changed the rule', str(g), got=after[0][:500], want=before[0][:500])
            return
        pos = lambda p, t: sorted((tuple(m.span), repr(snap_names(m.tree.root))) for m in p.extract(t))
        ok, got = attempt('extract', (str(g), text), lambda: [pos(p, text) for p in (v[0], v[1], v[0], parser)])
        if ok and any(x != got[0] for x in got):
            R.fail('parsers from the same rule differ, or a parser differs from itself', (str(g), text), got=got)
            return
    for kind in (0, 1):
        pass


def snap_names(n):
    if hasattr(n, 'predicate'):
        return n.token.value
    name = n.rule.name or ''
    return (name if name.startswith('n') else '', n.rank, tuple(snap_names(c) for c in n.children))


R.rule = 'grammar and text (or two texts); non-trivial: something matches'
R.bound = '15 grammars with every construct over 15 texts in random order, twice; random grammars to depth 3'
main(many, reuse, lazily, overlapping, grammars)
