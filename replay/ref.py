"""Reference semantics of grammars, written from the properties alone.

A grammar term (AST) is a tuple; ref semantics is computed by brute force on
short token sequences and compared with what yargy reports.

  ('t', chars)            one token whose text is in chars
  ('seq', items, main)    one after another
  ('alt', items)          one of
  ('opt', x, reverse)
  ('rep', x, min, max, reverse)
  ('optrep', x, rr, ro)   x.repeatable(rr).optional(ro)
  ('empty',)
  ('ref', name)           forward rule, defined in defs[name]
  ('pipe', lines)         pipeline of lines, each a tuple of words
  ('mark', label, x)      named / interpreted / related part
"""
from yargy import rule, or_, empty, forward
from yargy.predicates import eq, in_
from yargy.pipelines import pipeline


class Cyclic(Exception):
    pass


class Grammar(object):
    def __init__(self, start, defs):
        self.start = start
        self.defs = defs
        self.marks = {}

    def __repr__(self):
        return show(self.start) + ''.join('; %s := %s' % (k, show(v)) for k, v in sorted(self.defs.items()))


def show(x):
    k = x[0]
    if k == 't':
        return '/'.join(x[1])
    if k == 'seq':
        return '(' + ' '.join(('^' if i == x[2] and i else '') + show(y) for i, y in enumerate(x[1])) + ')'
    if k == 'alt':
        return '(' + ' | '.join(show(y) for y in x[1]) + ')'
    if k == 'opt':
        return show(x[1]) + '?' + ('r' if x[2] else '')
    if k == 'rep':
        return '%s{%s,%s}%s' % (show(x[1]), x[2] or '', x[3] or '', 'r' if x[4] else '')
    if k == 'optrep':
        return '%s*%s%s' % (show(x[1]), 'r' if x[2] else '', 'o' if x[3] else '')
    if k == 'empty':
        return 'e'
    if k == 'ref':
        return x[1]
    if k == 'pipe':
        return 'pipeline%r' % ([' '.join(l) for l in x[1]],)
    if k == 'mark':
        return '%s:%s' % (x[1], show(x[2]))
    raise ValueError(x)


def build(g, wrap=None, term=None):
    """the yargy rule of a grammar; wrap(rule, label) attaches a mark, term(letters) accepts a word of one of them"""
    wrap = wrap or (lambda r, label: r.named(label))
    forwards = {name: forward() for name in g.defs}
    shared = {}

    def b(x):
        key = id(x)
        if key in shared:
            return shared[key][1]
        r = make(x)
        shared[key] = x, r
        return r

    def make(x):
        k = x[0]
        if k == 't':
            if term:
                return rule(term(x[1]))
            return rule(eq(x[1][0]) if len(x[1]) == 1 else in_(set(x[1])))
        if k == 'seq':
            from yargy.relations import main
            items = [b(y) for y in x[1]]
            if x[2]:
                items[x[2]] = main(items[x[2]])
            return rule(*items)
        if k == 'alt':
            return or_(*[b(y) for y in x[1]])
        if k == 'opt':
            return b(x[1]).optional(reverse=x[2])
        if k == 'rep':
            return b(x[1]).repeatable(min=x[2], max=x[3], reverse=x[4])
        if k == 'optrep':
            return b(x[1]).repeatable(reverse=x[2]).optional(reverse=x[3])
        if k == 'empty':
            return empty()
        if k == 'ref':
            return forwards[x[1]]
        if k == 'pipe':
            return pipeline([' '.join(l) for l in x[1]])
        if k == 'mark':
            return wrap(b(x[2]), x[1])
        raise ValueError(x)
    start = b(g.start)
    for name, x in g.defs.items():
        forwards[name].define(b(x))
    return start


def expand(x):
    """repetitions of a term as (minimum, maximum or None)"""
    lo = x[2] or 1
    hi = x[3]
    return lo, hi


class Spans(object):
    """which runs i..j of the text each term derives: least fixpoint"""

    def __init__(self, g, words):
        self.g = g
        self.words = words
        self.n = len(words)
        self.tab = {name: set() for name in g.defs}
        while True:
            new = {name: self.of(x) for name, x in g.defs.items()}
            if new == self.tab:
                break
            self.tab = new

    def compose(self, a, b):
        by = {}
        for i, j in b:
            by.setdefault(i, []).append(j)
        return {(i, k) for i, j in a for k in by.get(j, ())}

    def of(self, x):
        k = x[0]
        n = self.n
        unit = {(i, i) for i in range(n + 1)}
        if k == 't':
            return {(i, i + 1) for i in range(n) if self.words[i] in x[1]}
        if k == 'seq':
            out = unit
            for y in x[1]:
                out = self.compose(out, self.of(y))
            return out
        if k == 'alt':
            return set().union(*[self.of(y) for y in x[1]])
        if k == 'opt':
            return unit | self.of(x[1])
        if k in ('rep', 'optrep'):
            one = self.of(x[1])
            lo, hi = expand(x) if k == 'rep' else (0, None)
            power = unit
            out = set()
            count = 0
            limit = max(lo, hi or 0) + n + 2
            while True:
                if count >= lo and (hi is None or count <= hi):
                    out |= power
                if hi is not None and count >= hi or count > limit:
                    break
                power = self.compose(power, one)
                count += 1
            return out
        if k == 'empty':
            return unit
        if k == 'ref':
            return self.tab[x[1]]
        if k == 'pipe':
            return {(i, i + len(l)) for l in x[1] for i in range(n)
                    if tuple(self.words[i:i + len(l)]) == tuple(l)}
        if k == 'mark':
            return self.of(x[2])
        raise ValueError(x)


class D(object):
    """derivation: choices in order of preference, marks and words"""
    __slots__ = ['key', 'nodes', 'i', 'j']

    def __init__(self, key, nodes, i, j):
        self.key = key          # tuple of choices, outer first, left to right
        self.nodes = nodes      # forest: ('w', index) or ('m', label, forest, ordered main info)
        self.i = i
        self.j = j


class Derivations(object):
    """all derivations of the term over a run, each with its choices"""

    def __init__(self, g, words, limit=3000):
        self.g = g
        self.words = words
        self.spans = Spans(g, words)
        self.memo = {}
        self.cache = {}
        self.stack = set()
        self.limit = limit

    def ok(self, x, i, j):
        key = id(x)
        if key not in self.cache:
            self.cache[key] = x, self.spans.of(x)
        return (i, j) in self.cache[key][1]

    def of(self, x, i, j):
        if not self.ok(x, i, j):
            return []
        key = (id(x), i, j)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack:
            raise Cyclic()
        self.stack.add(key)
        out = self.make(x, i, j)
        self.stack.discard(key)
        if len(out) > self.limit:
            raise Cyclic()
        self.memo[key] = out
        return out

    def seq(self, items, i, j):
        """derivations of a list of terms; nodes are grouped per item"""
        if not items:
            return [((), (), i, j)] if i == j else []
        out = []
        head, tail = items[0], items[1:]
        for k in range(i, j + 1):
            if not self.ok(head, i, k):
                continue
            if tail:
                rests = self.seq(tail, k, j)
            else:
                rests = self.seq(tail, k, j)
            if not rests:
                continue
            for d in self.of(head, i, k):
                for r in rests:
                    out.append((d.key + r[0], (d.nodes,) + r[1], i, j))
                    if len(out) > self.limit:
                        raise Cyclic()
        return out

    def make(self, x, i, j):
        k = x[0]
        if k == 't':
            return [D((), (('w', i),), i, j)]
        if k == 'seq':
            out = []
            for key, groups, _, _ in self.seq(x[1], i, j):
                out.append(D(key, (('s', groups, x[2]),), i, j))
            return out
        if k == 'alt':
            return [D((c,) + d.key, d.nodes, i, j) for c, y in enumerate(x[1]) for d in self.of(y, i, j)]
        if k == 'opt':
            skip, take = (1, 0) if x[2] else (0, 1)
            out = [D((take,) + d.key, d.nodes, i, j) for d in self.of(x[1], i, j)]
            if i == j:
                out.append(D((skip,), (('s', (), 0),), i, j))
            return out
        if k == 'rep':
            lo, hi = expand(x)
            y, rev = x[1], x[4]
            out = []
            # lo - 1 mandatory repeats, then a tail of one or more
            tail = self.tail(y, None if hi is None else hi - lo + 1, rev)
            for m in range(i, j + 1):
                heads = self.seq([y] * (lo - 1), i, m)
                for key, groups, _, _ in heads:
                    for d in tail(m, j):
                        out.append(D(key + d.key, (('s', groups + (d.nodes,), 0),), i, j))
            return out
        if k == 'optrep':
            y, rr, ro = x[1], x[2], x[3]
            names = ['e', 'more', 'stop']
            if rr:
                names = ['e', 'stop', 'more']
            if ro:
                names = names[1:] + names[:1]
            rank = {v: c for c, v in enumerate(names)}
            memo = {}

            def rest(a, b):
                if (a, b) in memo:
                    if memo[a, b] is None:
                        raise Cyclic()
                    return memo[a, b]
                memo[a, b] = None
                out = []
                if a == b:
                    out.append(D((rank['e'],), (('s', (), 0),), a, b))
                for d in self.of(y, a, b):
                    out.append(D((rank['stop'],) + d.key, d.nodes, a, b))
                for m in range(a, b + 1):
                    if self.ok(y, a, m):
                        for d in self.of(y, a, m):
                            for r in rest(m, b):
                                out.append(D((rank['more'],) + d.key + r.key,
                                             (('s', (d.nodes, r.nodes), 0),), a, b))
                memo[a, b] = out
                return out
            return rest(i, j)
        if k == 'empty':
            return [D((), (('s', (), 0),), i, j)]
        if k == 'ref':
            return self.of(self.g.defs[x[1]], i, j)
        if k == 'pipe':
            return [D((c,), (('m', ('line', ' '.join(l)), tuple(('w', i + q) for q in range(len(l))), i, j),), i, j)
                    for c, l in enumerate(x[1]) if tuple(self.words[i:j]) == tuple(l)]
        if k == 'mark':
            return [D(d.key, (('m', x[1], d.nodes, i, j),), i, j) for d in self.of(x[2], i, j)]
        raise ValueError(x)

    def tail(self, y, hi, rev):
        memo = {}
        more, stop = (1, 0) if rev else (0, 1)

        def rest(a, b, left):
            """one or more repeats, at most left of them; no choice when one is left"""
            key = (a, b, left)
            if key in memo:
                if memo[key] is None:
                    raise Cyclic()
                return memo[key]
            memo[key] = None
            out = []
            if left == 1:
                out = list(self.of(y, a, b))
            else:
                for d in self.of(y, a, b):
                    out.append(D((stop,) + d.key, d.nodes, a, b))
                for m in range(a, b + 1):
                    if self.ok(y, a, m):
                        rs = rest(m, b, None if left is None else left - 1)
                        if rs:
                            for d in self.of(y, a, m):
                                for r in rs:
                                    out.append(D((more,) + d.key + r.key, (('s', (d.nodes, r.nodes), 0),), a, b))
            if len(out) > self.limit:
                raise Cyclic()
            memo[key] = out
            return out
        return lambda a, b: rest(a, b, hi)

    def best(self, i, j):
        ds = self.of(self.g.start, i, j)
        return min(ds, key=lambda d: d.key) if ds else None


def marks(nodes):
    """marked non-empty parts (label, start, stop), outer first"""
    out = []
    for n in nodes:
        if n[0] == 'm':
            if n[4] > n[3]:
                out.append((n[1], n[3], n[4]))
                out.extend(marks(n[2]))
        elif n[0] == 's':
            for group in n[1]:
                out.extend(marks(group))
    return out


def words_of(nodes):
    out = []
    for n in nodes:
        if n[0] == 'w':
            out.append(n[1])
        elif n[0] == 'm':
            out.extend(words_of(n[2]))
        else:
            for group in n[1]:
                out.extend(words_of(group))
    return out


class Gen(object):
    """random grammars"""

    def __init__(self, rng, alphabet='abc', marks=False, nullable=True, refs=True, pipes=True, reps=True,
                 mains=False, nested=True, share=0.1):
        self.rng = rng
        self.alphabet = alphabet
        self.use_marks = marks
        self.nullable = nullable
        self.refs = refs
        self.pipes = pipes
        self.reps = reps
        self.mains = mains
        self.nested = nested
        self.share = share
        self.counter = 0
        self.pool = []

    def label(self):
        self.counter += 1
        return 'n%d' % self.counter

    def term(self, depth, names):
        x = self.make(depth, names)
        if self.use_marks and x[0] not in ('t',) or self.use_marks and self.rng.random() < .3:
            if self.rng.random() < (self.use_marks if isinstance(self.use_marks, float) else .7):
                x = ('mark', self.label(), x)
        self.pool.append(x)
        return x

    def make(self, depth, names):
        r = self.rng
        if self.pool and r.random() < self.share:
            return r.choice(self.pool)
        if depth <= 0:
            if names and self.refs and r.random() < .25:
                return ('ref', r.choice(names))
            if self.pipes and r.random() < .12:
                return self.pipe()
            n = 1 if r.random() < .7 else 2
            return ('t', tuple(sorted(r.sample(self.alphabet, n))))
        k = r.random()
        if k < .33:
            n = r.choice([1, 2, 2, 2, 3])
            items = [self.term(depth - 1, names) for _ in range(n)]
            return ('seq', items, r.randrange(n) if self.mains and r.random() < .5 else 0)
        if k < .6:
            return ('alt', [self.term(depth - 1, names) for _ in range(r.choice([2, 2, 3]))])
        if k < .7 and self.nullable:
            x = self.term(depth - 1, names)
            if not self.nested and core(x)[0] in ('rep', 'optrep', 'opt'):
                return x
            return ('opt', x, r.random() < .4)
        if k < .85 and self.reps:
            x = self.term(depth - 1, names)
            if not self.nested and core(x)[0] in ('rep', 'optrep', 'opt'):
                return x
            lo = r.choice([None, None, 1, 2, 3])
            hi = r.choice([None, None, 1, 2, 3])
            if lo and hi and hi < lo:
                hi = lo + 1
            return ('rep', x, lo, hi, r.random() < .4)
        if k < .9 and self.reps and self.nullable:
            x = self.term(depth - 1, names)
            if not self.nested and core(x)[0] in ('rep', 'optrep', 'opt'):
                return x
            return ('optrep', x, r.random() < .4, r.random() < .4)
        if k < .93 and self.nullable:
            return ('empty',)
        if k < .96 and self.refs and names:
            return ('ref', r.choice(names))
        if self.pipes:
            return self.pipe()
        return ('t', (r.choice(self.alphabet),))

    def pipe(self):
        r = self.rng
        lines = []
        for _ in range(r.choice([1, 2, 3])):
            l = tuple(r.choice(self.alphabet) for _ in range(r.choice([1, 1, 2, 3])))
            if l not in lines:
                lines.append(l)
        return ('pipe', tuple(lines))

    def grammar(self, depth=3, refs=2):
        self.pool = []
        self.counter = 0
        names = ['X%d' % i for i in range(self.rng.randrange(refs + 1))] if self.refs else []
        start = self.term(depth, names)
        if names and self.rng.random() < .25:
            start = ('ref', names[0])
        defs = {}
        for n in names:
            x = self.term(max(depth - 1, 1), names)
            while x[0] == 'ref' or x[0] == 'mark' and x[2][0] == 'ref':
                x = ('t', (self.rng.choice(self.alphabet),))
            defs[n] = x
        g = Grammar(start, defs)
        return g


def core(x):
    while x[0] == 'mark':
        x = x[2]
    return x


def terms(x, seen=None):
    """all sub-terms"""
    yield x
    if x[0] in ('seq', 'alt'):
        for y in x[1]:
            for z in terms(y):
                yield z
    elif x[0] in ('opt', 'rep', 'optrep'):
        for z in terms(x[1]):
            yield z
    elif x[0] == 'mark':
        for z in terms(x[2]):
            yield z


def nullables(g):
    """which terms derive the empty run"""
    s = Spans(g, ())
    return lambda x: (0, 0) in s.of(x)


def known_defect(g):
    """x.repeatable().repeatable(min=2 or more), no max: min is lost (finding C05/min-over-repeatable)"""
    return any(x[0] == 'rep' and (x[2] or 1) >= 2 and not x[3]
               and x[1][0] == 'rep' and not x[1][2] and not x[1][3]
               for top in [g.start] + list(g.defs.values()) for x in terms(top))


def cyclic(g):
    """could a run have infinitely many derivations?"""
    null = nullables(g)
    # repetition of a nullable part, or a unit cycle between forward rules

    def has_null_rep(x):
        return any(y[0] in ('rep', 'optrep') and null(y[1]) for y in terms(x))
    if any(has_null_rep(x) for x in [g.start] + list(g.defs.values())):
        return True
    # left corners with everything else nullable: name -> name derivable with the same span
    edges = {n: set() for n in g.defs}

    def unit(x):
        """names that x can stand for alone"""
        k = x[0]
        if k == 'ref':
            return {x[1]}
        if k == 'alt':
            return set().union(*[unit(y) for y in x[1]])
        if k in ('opt', 'optrep'):
            return unit(x[1])
        if k == 'rep':
            lo = x[2] or 1
            return unit(x[1]) if lo == 1 or null(x[1]) else set()
        if k == 'mark':
            return unit(x[2])
        if k == 'seq':
            out = set()
            for i, y in enumerate(x[1]):
                if all(null(z) for q, z in enumerate(x[1]) if q != i):
                    out |= unit(y)
            return out
        return set()
    for n, x in g.defs.items():
        edges[n] = unit(x)
    reach = {n: set(e) for n, e in edges.items()}
    for _ in edges:
        for n in reach:
            for m in list(reach[n]):
                reach[n] |= reach[m]
    return any(n in reach[n] for n in reach)
