from gram import *
from yargy.interpretation import fact, attribute
from yargy.tokenizer import TokenRule

ALPHABET = 'abcd'
DEFAULTS = {'x': None, 'y': 7, 'r': [], 's': [], 'z': None}
ORDER = ['x', 'r', 'y', 's', 'z']


def make_facts():
    return [fact(n, ['x', attribute('r').repeatable(), attribute('y', 7), attribute('s').repeatable(), 'z'])
            for n in ('F', 'G', 'H')]


FACTS = make_facts()


class Letters(Tokenizer):
    def __init__(self):
        Tokenizer.__init__(self, [TokenRule('W', r'\w+')])


class Value(object):
    """what a marked part contributes"""

    def __init__(self, kind, text=None, span=None, fact=None):
        self.kind, self.text, self.span, self.fact = kind, text, span, fact

    def value(self):
        return self.text if self.kind == 'text' else self.fact.value()

    def json(self):
        return self.text if self.kind == 'text' else self.fact.json()

    def spans(self):
        return [self.span] if self.kind == 'text' else self.fact.spans()


class FactValue(object):
    def __init__(self, kind):
        self.kind = kind
        self.got = {}

    def set(self, k, v):
        if k in ('r', 's'):
            self.got.setdefault(k, []).append(v)
        else:
            self.got[k] = v

    def merge(self, other):
        for k, v in other.got.items():
            if k in ('r', 's'):
                self.got.setdefault(k, []).extend(v)
            else:
                self.got[k] = v

    def value(self):
        out = {}
        for k in ORDER:
            if k in ('r', 's'):
                out[k] = [v.value() for v in self.got.get(k, [])]
            else:
                out[k] = self.got[k].value() if k in self.got else DEFAULTS[k]
        return (self.kind, out)

    def json(self):
        out = []
        for k in ORDER:
            if k in ('r', 's'):
                out.append((k, [v.json() for v in self.got.get(k, [])]))
            elif k in self.got:
                out.append((k, self.got[k].json()))
            elif DEFAULTS[k] is not None:
                out.append((k, DEFAULTS[k]))
        return out

    def spans(self):
        out = []
        for k in ORDER:
            for v in (self.got.get(k, []) if k in ('r', 's') else [self.got[k]] if k in self.got else []):
                out.extend(v.spans())
        return sorted(out)


def flat(nodes):
    """nearest marked parts and bare words, in text order"""
    for n in nodes:
        if n[0] == 'w':
            yield n
        elif n[0] == 'm':
            if isinstance(n[1], str):
                if n[4] > n[3]:
                    yield n
            else:
                for x in flat(n[2]):
                    yield x
        else:
            for g in n[1]:
                for x in flat(g):
                    yield x


def evaluate(n, info, at):
    """value of a marked part: ('attr', fact, name, Value) or ('fact', FactValue)"""
    what = info[n[1]]
    items = list(flat(n[2]))
    if what[0] == 'attr':
        if all(x[0] == 'w' for x in items):
            a, b = items[0][1], items[-1][1]
            v = Value('text', ' '.join(at[2][a:b + 1]) if at[3] else None, (at[0][a], at[1][b]))
            v.text = at[4](a, b)
        else:
            inner = evaluate(items[0], info, at)
            v = inner[3] if inner[0] == 'attr' else Value('fact', fact=inner[1])
        return ('attr', what[1], what[2], v)
    f = FactValue(what[1])
    for x in items:
        if x[0] == 'w':
            continue
        got = evaluate(x, info, at)
        if got[0] == 'attr' and got[1] == what[1]:
            f.set(got[2], got[3])
        elif got[0] == 'fact' and got[1].kind == what[1]:
            f.merge(got[1])
    return ('fact', f)


class FactGen(Gen):
    """phrases with marks at sensible places"""

    def __init__(self, rng):
        Gen.__init__(self, rng, alphabet=ALPHABET, marks=False, refs=False, nested=False, share=0)
        self.info = {}

    def new(self, what):
        l = self.label()
        self.info[l] = what
        return l

    def plain(self, depth):
        return Gen.term(self, depth, [])

    def attr(self, kind, depth, ordinary=None):
        """a part marked as an attribute"""
        name = self.rng.choice(ORDER)
        k = self.rng.random()
        if k < .65 or depth <= 0:
            x = self.plain(self.rng.choice([0, 0, 1]))
        elif k < .75:
            x = self.attr(self.rng.choice([kind, self.rng.randrange(3)]), 0)
        else:
            x = self.fact(self.rng.randrange(3), depth - 1)
        return ('mark', self.new(('attr', kind, name)), x)

    def part(self, kind, depth):
        r = self.rng
        k = r.random()
        if k < .5:
            x = self.attr(kind, depth)
        elif k < .6:
            x = self.attr(r.randrange(3), depth)
        elif k < .75 and depth > 0:
            x = self.fact(r.choice([kind, kind, r.randrange(3)]), depth - 1)
        elif k < .85:
            x = ('seq', [self.part(kind, depth - 1) for _ in range(2)], 0) if depth > 0 else self.plain(0)
        else:
            x = self.plain(0)
        k = r.random()
        if k < .15:
            x = ('opt', x, r.random() < .5)
        elif k < .3:
            x = ('rep', x, None, r.choice([None, 2, 3]), r.random() < .3)
        elif k < .4:
            x = ('alt', [x, self.part(kind, depth - 1)]) if depth > 0 else x
        return x

    def fact(self, kind, depth):
        n = self.rng.choice([1, 2, 2, 3])
        parts = [self.part(kind, depth) for _ in range(n)]
        return ('mark', self.new(('fact', kind)), ('seq', parts, 0))

    def grammar(self, depth=2, refs=0):
        self.pool, self.counter, self.info = [], 0, {}
        return Grammar(self.fact(self.rng.randrange(3), depth), {})


def deep(value):
    """facts as plain data"""
    if isinstance(value, list):
        return [deep(v) for v in value]
    for i, F in enumerate(FACTS):
        if isinstance(value, F):
            return (i, {k: deep(getattr(value, k)) for k in ORDER})
    return value


def plain_json(x):
    if isinstance(x, list):
        return [plain_json(v) for v in x]
    if hasattr(x, 'items'):
        return [(k, plain_json(v)) for k, v in x.items()]
    return x


def run():
    gen = FactGen(RNG)
    end = time.time() + R.left(.7)
    while time.time() < end and not R.full():
        g = gen.grammar(RNG.choice([0, 1, 2, 2]))
        if cyclic(g) or known_defect(g):
            continue
        info = dict(gen.info)

        def wrap(r, label):
            what = info[label]
            if what[0] == 'fact':
                return r.interpretation(FACTS[what[1]])
            return r.interpretation(getattr(FACTS[what[1]], what[2]))
        ok, parser = R.guard('Parser', g, lambda: Parser(build(g, wrap), tokenizer=Tokenizer()))
        if not ok:
            return
        for _ in range(6):
            words, text = sample(g)
            if not words or len(words) > 9:
                continue
            check(g, parser, words, text, info)


def sample(g):
    """a text the grammar derives, mostly"""
    words = []

    def walk(x):
        k = x[0]
        if len(words) > 12:
            return
        if k == 't':
            words.append(RNG.choice(x[1]))
        elif k == 'seq':
            for y in x[1]:
                walk(y)
        elif k == 'alt':
            walk(RNG.choice(x[1]))
        elif k == 'opt':
            if RNG.random() < .6:
                walk(x[1])
        elif k in ('rep', 'optrep'):
            lo, hi = expand(x) if k == 'rep' else (0, None)
            for _ in range(RNG.randint(lo, min(hi or lo + 2, lo + 2))):
                walk(x[1])
        elif k == 'pipe':
            words.extend(RNG.choice(x[1]))
        elif k == 'mark':
            walk(x[2])
    walk(g.start)
    text, at = '', []
    for i, w in enumerate(words):
        if i:
            text += RNG.choice([' ', ' ', '  ', '\t'])
        text += w
    return tuple(words), text


def check(g, parser, words, text, info):
    case = (str(g), {k: v for k, v in info.items()}, text)
    try:
        D = Derivations(g, words, 150)
        best = D.best(0, len(words))
    except Cyclic:
        return
    ok, m = attempt('match', case, lambda: parser.match(text))
    if not ok:
        return
    if best is None or m is None:
        if (best is None) != (m is None):
            R.fail('match', case, got=m)
        return
    ts = list(Tokenizer()(text))
    starts, stops = [t.span.start for t in ts], [t.span.stop for t in ts]
    at = (starts, stops, words, True, lambda a, b: ' '.join(words[a:b + 1]))
    top = [n for n in flat(best.nodes)]
    if len(top) != 1:
        return
    want = evaluate(top[0], info, at)[1]
    ok, f = R.guard('fact', case, lambda: m.fact)
    if not ok:
        return
    wv = want.value()
    R.case(case, any(v not in (None, 7, []) for v in wv[1].values()))
    if deep(f) != deep_want(wv):
        R.fail('fact', case, got=deep(f), want=wv)
        return
    ok, js = R.guard('as_json', case, lambda: plain_json(f.as_json))
    if ok and js != want.json():
        R.fail('JSON view', case, got=js, want=want.json())
        return
    ok, sp = R.guard('spans', case, lambda: [tuple(s) for s in f.spans])
    if ok and (sorted(sp) != want.spans() or [a for a, b in sp] != sorted(a for a, b in sp)):
        R.fail('spans of the fact', case, got=sp, want=want.spans())
    ok, f2 = R.guard('fact', case, lambda: m.fact)
    if ok and deep(f2) != deep(f):
        R.fail('asking for the fact twice', case, got=deep(f2), want=deep(f))


def deep_want(v):
    if isinstance(v, tuple):
        return (v[0], {k: deep_want(x) for k, x in v[1].items()})
    if isinstance(v, list):
        return [deep_want(x) for x in v]
    return v


def direct():
    """facts built by hand: defaults, unknown names"""
    F = fact('F', ['a', attribute('b', 5), attribute('c').repeatable()])
    for _ in range(200):
        k = {n: RNG.choice([1, None, [1]]) for n in 'abc' if RNG.random() < .5}
        f = F(**k)
        R.case(('direct', sorted(k.items(), key=str)))
        if (f.a, f.b, f.c) != (k.get('a'), k.get('b', 5), k.get('c', [])):
            R.fail('fact built by hand', k, got=f)
    f, g = F(), F()
    f.c.append(1)
    if g.c or F().c:
        R.fail('facts share the list of a repeatable attribute')


def valued():
    """values of every kind, given by defaults and normalizers, in the fact and its JSON view"""
    from yargy import rule
    from yargy.predicates import eq
    values = [0, 1, False, True, '', 'v', 0.0, [], [1], (), {}, {'k': 1}, None]
    for _ in range(120):
        if R.full():
            return
        p, q, d, t = [RNG.choice(values) for _ in range(4)]
        F = fact('F', ['a', attribute('d', d), attribute('r').repeatable(), 'n', attribute('t', d)])
        phrase = rule(
            rule(eq('a').interpretation(F.a.const(p))).optional(),
            rule(eq('b').interpretation(F.r)).repeatable(max=2).optional(),
            rule(eq('c').interpretation(F.t.const(t))).optional(),
            rule(eq('n').interpretation(F.n.custom(lambda _: q))).optional(),
            'end').interpretation(F)
        ok, parser = R.guard('Parser', (p, q, d, t), lambda: Parser(phrase, tokenizer=Tokenizer()))
        if not ok:
            return
        for text in ('end', 'a end', 'b end', 'b b c end', 'a b c end', 'c end', 'a n end'):
            has = text.split()
            want = [('a', p if 'a' in has else None), ('d', d), ('r', ['b'] * has.count('b')), ('n', q if 'n' in has else None),
                    ('t', t if 'c' in has else d)]
            case = ('values', want, text)
            R.case(case)
            ok, m = attempt('match', case, lambda: parser.match(text))
            if not ok or m is None:
                R.fail('match', case)
                return
            ok, f = R.guard('fact', case, lambda: m.fact)
            if not ok:
                return
            got = [(k, getattr(f, k)) for k, _ in want]
            if str(got) != str(want):
                R.fail('fact', case, got=got, want=want)
                return
            ok, js = R.guard('as_json', case, lambda: list(f.as_json.items()))
            view = [(k, v) for k, v in want if v is not None]
            if ok and str(js) != str(view):
                R.fail('JSON view', case, got=js, want=view)
                return


def long():
    """facts of many parts"""
    from yargy import rule, or_
    from yargy.predicates import eq
    F, G = FACTS[0], FACTS[1]
    for n in (1, 2, 5, 9, 10, 11, 14, 20):
        words = ['w%d' % i for i in range(n)]
        parts = [eq(w).interpretation(F.r) for w in words]
        nested = rule(parts[-1])
        for p in reversed(parts[:-1]):
            nested = rule(p, nested)
        inner = [rule(eq(w).interpretation(G.x)).interpretation(G).interpretation(F.s) for w in words]
        for r, kind in ((rule(*parts), 'r'), (nested, 'r'), (or_(*map(rule, parts)).repeatable(), 'r'), (rule(*inner), 's'),
                        (or_(*inner).repeatable(), 's')):
            case = (n, kind)
            ok, m = R.guard('match', case, lambda: Parser(r.interpretation(F), tokenizer=Letters()).match(' '.join(words)))
            if not ok:
                return
            R.case(('long', n, kind), True)
            if m is None:
                R.fail('match of many parts', case)
                return
            ok, f = R.guard('fact', case, lambda: m.fact)
            if not ok:
                return
            got = f.r if kind == 'r' else [g.x for g in f.s]
            if got != words:
                R.fail('fact of many parts', case, got=got)
            if len(f.spans) != n or [tuple(s)[0] for s in f.spans] != sorted(tuple(s)[0] for s in f.spans):
                R.fail('spans of a fact of many parts', case, got=f.spans)


def mixed():
    """an attribute over a phrase of bare words and marked parts, of any order, with and without a normalizer"""
    from yargy import rule
    from yargy.predicates import eq
    F, G = FACTS[0], FACTS[1]
    for _ in range(60):
        k = RNG.choice([2, 2, 3, 4])
        inner = [RNG.random() < .5 for _ in range(k)]
        words = ['w%d' % i for i in range(k)]
        parts = [eq(w).interpretation(G.x) if m else eq(w) for w, m in zip(words, inner)]
        marks = sum(inner)
        for how in ('const', 'plain', 'custom'):
            if marks and how != 'const' and k != 1:
                continue
            scheme = {'const': F.x.const(5), 'plain': F.x, 'custom': F.x.custom(len)}[how]
            case = (inner, how)
            ok, f = R.guard('fact', case, lambda: Parser(
                rule(rule(*parts).interpretation(scheme), 'end').interpretation(F), tokenizer=Letters()).match(
                    ' '.join(words + ['end'])).fact)
            if not ok:
                return
            R.case(('mixed', case), 0 < marks < k)
            want = {'const': 5, 'plain': ' '.join(words), 'custom': 3 * k - 1}[how]
            if f.x != want:
                R.fail('an attribute over words and marked parts', case, got=f.x, want=want)
                return
            ok, spans = R.guard('spans', case, lambda: [tuple(s) for s in f.spans])
            each = [(3 * i, 3 * i + 2) for i in range(k)]
            if ok and spans != (each if marks else [(0, 3 * k - 1)]):
                if not (0 < marks):
                    R.fail('spans of an attribute over words', case, got=spans)
                    return
                # bare words next to marked parts: every marked part is accounted for, nothing lies outside
                if any((each[i] not in spans) for i in range(k) if inner[i]) or spans != sorted(spans) or \
                        any(a < 0 or b > 3 * k - 1 for a, b in spans):
                    R.fail('spans of an attribute over words and marked parts', case, got=spans)
                    return


def namesakes():
    """facts of the same name are of different kinds"""
    from yargy import rule, or_
    from yargy.predicates import eq
    A, B = fact('F', ['x', 'y']), fact('F', ['x', 'y'])
    for one, two in ((A, B), (B, A), (A, A), (B, B)):
        x = eq('a').interpretation(two.x)
        r = rule(x, eq('b').interpretation(one.y)).interpretation(one)
        ok, f = R.guard('fact', (one is two), lambda: Parser(r, tokenizer=Tokenizer()).match('a b').fact)
        if not ok:
            return
        R.case(('namesakes', one is A, two is A))
        want = ('a' if one is two else None, 'b')
        if type(f) is not one or (f.x, f.y) != want:
            R.fail('an attribute of another fact of the same name', (one is A, two is A), got=(f.x, f.y), want=want)
        r = rule(rule(x).interpretation(two), eq('b').interpretation(one.y)).interpretation(one)
        ok, f = R.guard('fact', (one is two), lambda: Parser(r, tokenizer=Tokenizer()).match('a b').fact)
        if ok and (f.x, f.y) != want:
            R.fail('a fact of another kind of the same name is merged', (one is A, two is A), got=(f.x, f.y), want=want)


def reparse():
    """facts of several texts do not share values"""
    F = FACTS[0]
    from yargy import rule
    from yargy.predicates import in_
    X = in_({'a', 'b'}).interpretation(F.r)
    parser = Parser(rule(X, X.optional()).interpretation(F), tokenizer=Tokenizer())
    ms = [parser.match(t) for t in ('a', 'b a', 'b')]
    got = [m.fact.r for m in ms] + [m.fact.r for m in ms]
    R.same(got, [['a'], ['b', 'a'], ['b']] * 2, 'facts of several matches')
    for every in (FACTS[0], fact('E', ['r', attribute('x', 3)])):
        X = in_({'a', 'b'}).interpretation(every.r)
        parser = Parser(rule(X, X.optional()).interpretation(every), tokenizer=Tokenizer())
        ts = ['a', 'b a', ' b', 'a  a']
        views = lambda f: (plain_json(f.as_json), [tuple(s) for s in f.spans])      # noqa: E731
        made = []
        for t in ts:
            ok, f = R.guard('fact', t, lambda: parser.match(t).fact)
            if not ok:
                return
            made.append((t, f, views(f)))
        for t, f, want in made * 2:
            R.case(('views of several facts', t))
            R.same(views(f), want, 'views of a fact after other facts', t)


R.rule = 'grammar with marks and text; non-trivial: the fact has at least one value'
R.bound = 'random facts of three kinds nested to depth 2, five attributes each, texts to 9 words'
main(valued, mixed, direct, reparse, long, namesakes, run)
