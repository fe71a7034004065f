from base import *
import itertools
from yargy.morph import Form, Grams
from yargy import relations as rel
from yargy import and_, or_, not_

GENDER = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'plur']
NUMBER = ['sing', 'plur', 'Sgtm', 'Pltm']
CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']
CASE = CASES + ['Fixd']
NOISE = ['NOUN', 'ADJF', 'anim', 'inan', 'Name', 'Surn', 'gen1', 'gen2', 'loc1', 'loc2', 'acc2', 'sing', 'plur', 'pres']


def gender(A, B):
    bi = lambda X: 'Ms-f' in X or 'ms-f' in X
    both = lambda g: g in A and g in B
    return (both('plur') or both('masc') or both('femn') or both('neut')
            or bi(A) and ('masc' in B or 'femn' in B) or bi(B) and ('masc' in A or 'femn' in A)
            or 'GNdr' in A or 'GNdr' in B)


def number(A, B):
    one = lambda A, B: 'Sgtm' in A and 'sing' in B or 'Pltm' in A and 'plur' in B
    return 'sing' in A and 'sing' in B or 'plur' in A and 'plur' in B or one(A, B) or one(B, A)


def case(A, B):
    return 'Fixd' in A or 'Fixd' in B or all((c in A) == (c in B) for c in CASES)


def gnc(A, B):
    return gender(A, B) and number(A, B) and case(A, B)


def form(grams):
    return Form('слово', Grams(set(grams)), raw=None)


def subsets(xs):
    for n in range(len(xs) + 1):
        for c in itertools.combinations(xs, n):
            yield frozenset(c)


def table(make, spec, features, name):
    r = make()
    forms = [(A, form(A)) for A in subsets(features)]
    for A, f in forms:
        for B, g in forms:
            got = r(f, g)
            R.cases += 1
            if bool(got) != spec(A, B):
                R.fail(name, (sorted(A), sorted(B)), got=got, want=spec(A, B))
                if R.full():
                    return
        R.case((name, tuple(sorted(A))))


def tables():
    table(rel.gender_relation, gender, GENDER, 'gender_relation')
    table(rel.number_relation, number, NUMBER, 'number_relation')
    table(rel.case_relation, case, CASE, 'case_relation')


def mixed():
    every = sorted(set(GENDER + NUMBER + CASE + NOISE))
    specs = [(rel.gnc_relation, gnc), (rel.gender_relation, gender), (rel.number_relation, number),
             (rel.case_relation, case)]
    for _ in range(30000 if not THOROUGH else 300000):
        base = RNG.sample(CASES, RNG.choice([0, 1, 1, 1, 2]))
        A = frozenset(RNG.sample(every, RNG.choice([0, 1, 2, 3, 5]))) | frozenset(base)
        B = frozenset(RNG.sample(every, RNG.choice([0, 1, 2, 3, 5]))) | frozenset(base if RNG.random() < .7 else [])
        if RNG.random() < .6:
            A |= {'sing', 'masc'}
            B |= {RNG.choice(['sing', 'plur']), RNG.choice(GENDER)}
        f, g = form(A), form(B)
        for make, spec in specs:
            R.case((make.__name__, A, B))
            got = bool(make()(f, g))
            if got != spec(A, B):
                R.fail(make.__name__, (sorted(A), sorted(B)), got=got, want=spec(A, B))
            if bool(make()(g, f)) != got:
                R.fail(make.__name__ + ' symmetry', (sorted(A), sorted(B)))
        if R.full():
            return


def connectives():
    base = [(rel.gender_relation, gender), (rel.number_relation, number), (rel.case_relation, case), (rel.gnc_relation, gnc)]
    every = GENDER + NUMBER + CASE

    def tree(depth):
        k = RNG.random()
        if depth == 0 or k < .3:
            m, s = RNG.choice(base)
            return m(), s, m.__name__
        if k < .5:
            r, s, n = tree(depth - 1)
            return not_(r), (lambda A, B: not s(A, B)), 'not_(%s)' % n
        parts = [tree(depth - 1) for _ in range(RNG.choice([1, 2, 2, 3]))]
        f, q = RNG.choice([(and_, all), (or_, any)])
        specs = [p[1] for p in parts]
        return (f(*[p[0] for p in parts]), (lambda A, B: q(s(A, B) for s in specs)),
                '%s(%s)' % (f.__name__, ', '.join(p[2] for p in parts)))
    for _ in range(1500 if not THOROUGH else 15000):
        r, s, n = tree(3)
        for _ in range(4):
            A = frozenset(RNG.sample(every, RNG.randrange(5)))
            B = frozenset(RNG.sample(every, RNG.randrange(5)))
            R.case((n, A, B))
            if bool(r(form(A), form(B))) != s(A, B):
                R.fail('connectives', (n, sorted(A), sorted(B)))
                return


R.rule = 'pairs of grammeme sets; non-trivial: distinct relation and pair (exhaustive tables counted once per left set)'
R.bound = 'all pairs of subsets of the grammemes each relation looks at; random mixtures with other grammemes; nested connectives to depth 3'
main(tables, mixed, connectives)
