"""C07: agreement relations."""
import z3
from pyvc.values import *
from pyvc.engine import zb
from pyvc.unit import unit


def has(e, values, gram):
    return e.mem(values.ref, STR, e.lit(gram))


def form(e):
    """arbitrary form; its set of grammemes"""
    values = e.fresh(SET(STR), 'grams')
    grams = e.call(e.w.get('yargy.morph.Grams'), [values])
    f = e.call(e.w.get('yargy.morph.Form'), [e.fresh(STR, 'normalized'), grams], {'raw': e.fresh(ANY, 'raw')})
    return f, values


def gender(e, a, b):
    A, B = (lambda g: has(e, a, g)), (lambda g: has(e, b, g))
    bi = lambda X: z3.Or(X('Ms-f'), X('ms-f'))
    return z3.Or(
        z3.And(A('plur'), B('plur')),
        z3.And(A('masc'), B('masc')), z3.And(A('femn'), B('femn')), z3.And(A('neut'), B('neut')),
        z3.And(bi(A), z3.Or(B('masc'), B('femn'))), z3.And(bi(B), z3.Or(A('masc'), A('femn'))),
        A('GNdr'), B('GNdr'))


def number(e, a, b):
    A, B = (lambda g: has(e, a, g)), (lambda g: has(e, b, g))
    return z3.Or(
        z3.And(A('sing'), B('sing')), z3.And(A('plur'), B('plur')),
        z3.And(A('Sgtm'), B('sing')), z3.And(A('Pltm'), B('plur')),
        z3.And(B('Sgtm'), A('sing')), z3.And(B('Pltm'), A('plur')))


CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']


def case(e, a, b):
    A, B = (lambda g: has(e, a, g)), (lambda g: has(e, b, g))
    return z3.Or(A('Fixd'), B('Fixd'), z3.And(*[A(c) == B(c) for c in CASES]))


def gnc(e, a, b):
    return z3.And(gender(e, a, b), number(e, a, b), case(e, a, b))


SPECS = {'gender_relation': gender, 'number_relation': number, 'case_relation': case, 'gnc_relation': gnc}


def make(name, spec):
    @unit('C07', 'table of ' + name, ['yargy.relations.bank.%s.__call__' % name, 'yargy.morph.Gender.__init__',
                                      'yargy.morph.Number.__init__', 'yargy.morph.Case.__init__',
                                      'yargy.morph.Grams.__contains__'])
    def table(e):
        (f, a), (g, b) = form(e), form(e)
        rel = e.call(e.w.get('yargy.relations.' + name), [])
        r = e.truth(e.call(rel, [f, g]))
        e.prove(zb(r) == spec(e, a, b), '%s holds exactly when the documented condition does' % name)

    @unit('C07', 'symmetry of ' + name, ['yargy.relations.bank.%s.__call__' % name])
    def symmetric(e):
        (f, a), (g, b) = form(e), form(e)
        rel = e.call(e.w.get('yargy.relations.' + name), [])
        r = e.truth(e.call(rel, [f, g]))
        s = e.truth(e.call(rel, [g, f]))
        e.prove(zb(r) == zb(s), '%s does not depend on the order of forms' % name)


for name, spec in SPECS.items():
    make(name, spec)


def rel_contract(e, args, kwargs):
    """Relation.__call__ of an arbitrary relation: a function of the two forms"""
    rel, f, g = args
    return Sym(ANY, e.uf('answer', IntSort, IntSort, IntSort, ValSort)(rel.ref, f.ref, g.ref))


def holds(e, r, f, g):
    return e.uf('truthy', ValSort, BoolSort)(e.uf('answer', IntSort, IntSort, IntSort, ValSort)(r, f, g))


ABSTRACT = {'dispatch:Relation.__call__': rel_contract}


def connective(cls, spec):
    @unit('C07', cls, ['yargy.relations.constructors.%s.__call__' % cls,
                       'yargy.relations.constructors.RelationsComposition.__init__'], contracts=ABSTRACT)
    def u(e):
        C = e.w.get('yargy.relations.constructors.' + cls)
        f, _ = form(e)
        g, _ = form(e)
        if cls == 'NotRelation':
            x = e.fresh(OBJ('Relation'), 'rel')
            r = e.call(C, [x])
            want = z3.Not(holds(e, x.ref, f.ref, g.ref))
        else:
            xs = e.fresh(LIST(OBJ('Relation')), 'rels')
            r = e.call(C, [xs])
            k = z3.Int('q')
            el = e.uf('el_obj_Relation', IntSort, IntSort, IntSort)(xs.ref, k)
            h = holds(e, el, f.ref, g.ref)
            n = e.length(xs.parts)
            rng = z3.And(k >= 0, k < n)
            want = z3.ForAll([k], z3.Implies(rng, h)) if spec == 'all' else z3.Exists([k], z3.And(rng, h))
        got = e.truth(e.call(r, [f, g]))
        e.prove(zb(got) == want, '%s combines its parts as the connective does' % cls)


connective('AndRelation', 'all')
connective('OrRelation', 'any')
connective('NotRelation', 'not')
