from base import *
import re
import sys as _sys
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, RULES, EMAIL_RULE, PHONE_RULE

DEFAULT = [(r.type, r.pattern) for r in RULES]
PIECES = ['мама', 'Мыла', 'РАМУ', 'ёжик', 'Ё', 'abc', 'XYZ', 'x1', '12', '007', '٣', '²', '½', '-', '--', '«', '»', '…', '№',
          '“', 'ʼ', 'ʻ', '~', '`', '_', '\n', '\r\n', '\n\n', '\r', ' ', '  ', '\t', '\xa0', '\u2003', '\x0b', '\x0c', '\u2028', '\x85',
          '§', '€', 'é', 'ß', 'İ', 'ı', 'ſ', 'K', 'і', 'ў', '中', '😀', '\u0301', '\x00', '\u200b', '—', '–', '·', '́',
          'test@mail.ru', '8 (495) 123-45-67', '+7-916-1234567', 'a@b.c', '1.2.3', "'", '"', '\\', '[', ']', '^', '$', '\ufeff']


def reference(rules, text):
    """first rule that matches at the position, left to right"""
    out, at = [], 0
    compiled = [(t, re.compile(p, re.UNICODE | re.IGNORECASE)) for t, p in rules]
    while at < len(text):
        for t, p in compiled:
            m = p.match(text, at)
            if m and m.end() > at:
                out.append((m.group(), at, m.end(), t))
                at = m.end()
                break
        else:
            at += 1
    return out


def view(tokens):
    return [(t.value, t.span.start, t.span.stop, t.type) for t in tokens]


def faithful(tokens, text, case, default):
    last = 0
    for v, a, b, t in tokens:
        if a < last or b <= a:
            return R.fail('tokens overlap, are empty or out of order', case, got=tokens)
        last = b
        if text[a:b] != v:
            return R.fail('value is not the text at the span', case, got=(v, a, b))
    if default:
        covered = {i for v, a, b, t in tokens for i in range(a, b)}
        for i, c in enumerate(text):
            if not c.isspace() and i not in covered and re.match(r'\S', c):
                return R.fail('character %r at %d belongs to no token' % (c, i), case)
        for v, a, b, t in tokens:
            if any(re.match(r'\s', c) and c not in '\n\r' for c in v):
                return R.fail('a token contains spaces', case, got=(v, a, b, t))


def random_text():
    if RNG.random() < .2:
        return ''.join(chr(RNG.choice([RNG.randrange(32, 1200), RNG.randrange(0x2000, 0x2100), RNG.randrange(0x10000)]))
                       for _ in range(RNG.randrange(12))).encode('utf8', 'ignore').decode('utf8')
    return ''.join(RNG.choice(PIECES) + RNG.choice(['', '', ' ']) for _ in range(RNG.randrange(8)))


def default_rules():
    t, m = Tokenizer(), MorphTokenizer()
    for _ in range(30000 if THOROUGH else 5000):
        if R.full():
            return
        text = random_text()
        ok, got = R.guard('tokenize', text, lambda: view(t(text)))
        if not ok:
            return
        R.case(text, len(got) > 1)
        faithful(got, text, text, True)
        want = reference(DEFAULT, text)
        if got != want:
            R.fail('tokens', text, got=got, want=want)
        if t.split(text) != [x[0] for x in want]:
            R.fail('split', text)
        if RNG.random() < .05 and view(m(text)) != want:
            R.fail('morphological tokenizer', text, got=view(m(text)), want=want)


def every_character():
    """each code point alone and between letters"""
    t = Tokenizer()
    step = 1 if THOROUGH else 1
    for block in range(0, 0x110000, 256):
        if 0xd800 <= block < 0xe000:
            continue
        chars = [chr(c) for c in range(block, block + 256, step)]
        text = ' '.join(chars)
        ok, got = R.guard('tokenize', hex(block), lambda: view(t(text)))
        if not ok:
            return
        R.case(('block', block), True)
        by = {a: (v, b, ty) for v, a, b, ty in got}
        for i, c in enumerate(chars):
            at = 2 * i
            if re.match(r'\S', c):
                if at not in by or by[at][0] != c:
                    R.fail('character %r is not a token' % c, hex(ord(c)), got=by.get(at))
                    return
                ty = by[at][2]
                want = reference(DEFAULT, c)[0][3]
                if ty != want:
                    R.fail('type of character %r' % c, hex(ord(c)), got=ty, want=want)
                    return
            elif c in '\n\r':
                if at not in by or by[at][2] != 'EOL':
                    R.fail('line break is not a token', hex(ord(c)))
            elif at in by:
                R.fail('space %r is a token' % c, hex(ord(c)))
                return


EXTRA = [('EMAIL', EMAIL_RULE.pattern), ('PHONE', PHONE_RULE.pattern), ('YEAR', r'\d{4}'), ('DATE', r'\d+\.\d+\.\d+'),
         ('WORD', r'[а-яёa-z]+-[а-яёa-z]+'), ('MA', r'ма'), ('ABC', r'abc|xyz'), ('X', r'x\d'), ('NL', r'\n'),
         ('DASH', r'-+'), ('RU', r'[а-яё]{2}'), ('GROUP', r'(a)(b)?|1(2)'),
         ('WORD', r'[a-z]+'), ('WORD', r'1|[а-яё]+'), ('ABC', r'a|ab|[xyz]+'), ('INT', r'\d'), ('INT', r'[12]|0+'), ('X', r'x|a.?'),
         ('DASH', r'--|-'), ('RU', r'[мы]|[а-я]{3,}')]


def changed():
    """add_rules, remove_types, own rule lists, in any order; tokenizers do not share anything"""
    for _ in range(1200 if not THOROUGH else 10000):
        if R.full() or R.left(.8) < 0:
            return
        base = None if RNG.random() < .6 else [TokenRule(t, p) for t, p in RNG.sample(DEFAULT, RNG.choice([1, 3, 6]))]
        model = list(DEFAULT) if base is None else [(r.type, r.pattern) for r in base]
        mk = RNG.choice([Tokenizer, Tokenizer, Tokenizer, MorphTokenizer]) if RNG.random() < .1 else Tokenizer
        t = mk() if base is None else mk(base)
        other, other_model = Tokenizer(), DEFAULT
        steps = []
        for _ in range(RNG.randrange(4)):
            if RNG.random() < .6:
                new = RNG.sample(EXTRA, RNG.choice([1, 1, 2]))
                ok, r = R.guard('add_rules', steps, lambda: t.add_rules(*[TokenRule(a, b) for a, b in new]))
                model = new + model
                steps.append(('add', [a for a, _ in new]))
            else:
                types = sorted({a for a, _ in model})
                if len(types) < 2:
                    continue
                gone = RNG.sample(types, RNG.choice([1, 1, min(2, len(types) - 1)]))
                ok, r = R.guard('remove_types', steps, lambda: t.remove_types(*gone))
                model = [(a, b) for a, b in model if a not in gone]
                steps.append(('remove', gone))
            if not ok:
                return
            if r is not t:
                R.fail('add_rules and remove_types return the tokenizer', steps)
                return
        if not model:
            continue
        for _ in range(3):
            text = random_text()
            case = (steps, base is None, text)
            ok, got = R.guard('tokenize', case, lambda: view(t(text)))
            if not ok:
                return
            R.case(case, bool(steps))
            faithful(got, text, case, False)
            # a named alternative inside a rule does not change the type
            want = reference(model, text)
            if got != want:
                R.fail('tokens with changed rules', case, got=got, want=want)
                return
            if any(ty not in {a for a, _ in model} for _, _, _, ty in got):
                R.fail('a removed type occurs', case, got=got)
            if view(other(text)) != reference(other_model, text):
                R.fail('another tokenizer is affected', case)
                return
        if [(r.type, r.pattern) for r in RULES] != DEFAULT:
            R.fail('the default rules are changed', steps)
            return
        if base is not None and len(base) and view(Tokenizer(base)('мама abc 12')) != reference(
                [(r.type, r.pattern) for r in base], 'мама abc 12'):
            R.fail('the rules given to a tokenizer are changed', steps)
        for ty in {a for a, _ in DEFAULT} | {a for a, _ in model}:
            known = raises(t.check_type, ty) is None
            if known != (ty in {a for a, _ in model}):
                R.fail('check_type(%s)' % ty, steps)
    ok, _ = R.guard('add_rules twice', None, twice)


def twice():
    a = Tokenizer().add_rules(EMAIL_RULE)
    b = Tokenizer()
    c = Tokenizer().remove_types('EOL')
    d = Tokenizer()
    text = 'a@b.ru\nx'
    for t, rules in ((a, [('EMAIL', EMAIL_RULE.pattern)] + DEFAULT), (b, DEFAULT),
                     (c, [x for x in DEFAULT if x[0] != 'EOL']), (d, DEFAULT)):
        R.same(view(t(text)), reference(rules, text), 'tokenizers share rules', text)
    R.check(raises(c.remove_types, 'EOL') is ValueError, 'removing an unknown type')


R.rule = 'text (and history of changes to the tokenizer); non-trivial: several tokens or a changed tokenizer'
R.bound = 'every code point alone; texts of up to 8 pieces; histories of up to 3 changes'
main(default_rules, every_character, changed)
