"""C17 against pymorphy2's own raw parses."""
from base import *
from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer, Form, Grams, Gender, Number, Case, prepare_form
from yargy.tokenizer import MorphTokenizer
from pymorphy2 import MorphAnalyzer as Raw

RAW = Raw()
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']
WORDS = ('стали сталь учителя врачи Иванова иванова ёж Ёж ЕЖ мыло пальто ножницы кофе сирота коллега Вася мама рама '
         'который 5 в чтобы красивые московская область ОМОН США Ю привет бутявка глокая куздра бешеная щец щецы '
         'тридцать тридцатью двое наискосок пальтом медведица санкт петербург эээ ъ ааа').split()
LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'


def words():
    for w in WORDS:
        yield w
        yield w.title()
        yield w.upper()
    while True:
        n = RNG.randrange(1, 9)
        w = ''.join(RNG.choice(LETTERS) for _ in range(n))
        if RNG.random() < .6:
            w = RNG.choice(WORDS)[:RNG.randrange(1, 6)] + w[:RNG.randrange(4)]
        yield w


def reading(r):
    return r.normal_form, frozenset(r.tag.grammemes)


def view(f):
    return f.normalized, frozenset(f.grams.values)


def features(g, want, case):
    """g: Grams, want: the grammemes it stands for"""
    x = g.gender
    R.same((bool(x.male), bool(x.female), bool(x.neutral), bool(x.bi), bool(x.general)),
           ('masc' in want, 'femn' in want, 'neut' in want, 'Ms-f' in want or 'ms-f' in want, 'GNdr' in want),
           'gender', case)
    x = g.number
    R.same((bool(x.single), bool(x.plural), bool(x.only_single), bool(x.only_plural)),
           ('sing' in want, 'plur' in want, 'Sgtm' in want, 'Pltm' in want), 'number', case)
    x = g.case
    R.same(([bool(_) for _ in x.mask], bool(x.fixed)), ([c in want for c in CASES], 'Fixd' in want), 'case', case)


def dictionary():
    plain, cached = MorphAnalyzer(), CachedMorphAnalyzer()
    shared = MorphAnalyzer(RAW)
    seen = []
    for i, w in enumerate(words()):
        if R.left(.7) < 0 or R.full() or i > (40000 if THOROUGH else 2500):
            break
        raw = RAW.parse(w)
        want = [reading(r) for r in raw]
        a = RNG.choice([plain, cached, shared])
        ok, forms = R.guard('analyse', w, a, w)
        if not ok:
            continue
        R.same([view(f) for f in forms], want, 'forms', w)
        for f, r in zip(forms, raw):
            R.check(f.raw.tag == r.tag and f.raw.normal_form == r.normal_form and f.raw.word == r.word,
                    'the form does not stand for its reading', w)
            features(f.grams, set(r.tag.grammemes), w)
            g = RNG.choice(sorted(r.tag.grammemes) + ['NOUN', 'xx'])
            R.same(g in f.grams, g in r.tag.grammemes, 'gram in grams', (w, g))
        R.same(set(a.normalized(w)), {n for n, _ in want}, 'normal forms', w)
        seen.append(w)
        # a repeated and an other analyser's answer
        v = RNG.choice(seen)
        first, again = [view(f) for f in cached(v)], [view(f) for f in cached(v)]
        R.same(first, again, 'same word twice', v)
        R.same(first, [view(f) for f in plain(v)], 'cached against plain', v)
        R.same(first, [reading(r) for r in RAW.parse(v)], 'cached against dictionary', v)


def eviction():
    """answers stay the same past the size of the cache"""
    cached = CachedMorphAnalyzer()
    other = CachedMorphAnalyzer()
    keep = ['стали', 'стать', 'Вася', 'вася']
    before = {w: [view(f) for f in cached(w)] for w in keep}
    n = 0
    for w in words():
        cached(w)
        n += 1
        if n > 300 or R.left() < 0:
            break
    for w in keep:
        R.same([view(f) for f in cached(w)], before[w], 'after other words', w)
        R.same([view(f) for f in other(w)], before[w], 'other analyser', w)


def grammemes():
    a = MorphAnalyzer(RAW)
    known = sorted(RAW.TagClass.KNOWN_GRAMMEMES)
    for g in known + ['XX', 'noun', 'NOUN ', '', 'Sing', 'мн', 'masc,sing'] + [k.lower() for k in known]:
        want = RAW.TagClass.grammeme_is_known(g)
        R.same(raises(a.check_gram, g) is None, want, 'check_gram', g)


class Tag(object):
    def __init__(self, g):
        self.grammemes = frozenset(g)


class Record(object):
    def __init__(self, n, g):
        self.normal_form, self.tag, self.word = n, Tag(g), n


class Fake(object):
    """a dictionary of our own: any readings at all, also repeated ones"""
    def __init__(self):
        self.answers = {}

    def parse(self, word):
        return self.answers[word]


def synthetic():
    grams = CASES + ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'sing', 'plur', 'Sgtm', 'Pltm', 'Fixd', 'NOUN',
                     'Ms-F', 'MASC']
    for i in range(3000 if THOROUGH else 600):
        if R.left() < 0 or R.full():
            return
        fake = Fake()
        rs = [Record(RNG.choice('абв'), RNG.sample(grams, RNG.randrange(7))) for _ in range(RNG.randrange(5))]
        fake.answers['w'] = rs
        a = MorphAnalyzer(fake)
        ok, forms = R.guard('analyse', [reading(r) for r in rs], a, 'w')
        if not ok:
            continue
        case = [(n, sorted(g)) for n, g in map(reading, rs)]
        R.same([view(f) for f in forms], [reading(r) for r in rs], 'forms', case)
        R.check(all(f.raw is r for f, r in zip(forms, rs)), 'raw reading', case)
        R.same(set(a.normalized('w')), {r.normal_form for r in rs}, 'normal forms', case)
        for f, r in zip(forms, rs):
            features(f.grams, set(r.tag.grammemes), case)


R.rule = 'a word and its dictionary readings, a grammeme, or a synthetic dictionary entry'
R.bound = 'word list and seeded letter strings up to 13 letters; every grammeme of the dictionary'
main(grammemes, synthetic, eviction, dictionary)
