# -*- coding: utf-8 -*-
"""Contracts of inflection."""
from .common import *

M = 'analyzer.MorphAnalyzer.'
U_upd = z3.Function('updated', Obj, SetS, SetS)
U_fix = z3.Function('fix_rare', SetS, SetS)
U_agree = z3.Function('agreement', Obj, IntS, SetS)
U_pos = z3.Function('place', Obj, IntS)


class FormTag(STag):
    """A tag with the contracts of updated_grammemes (C11) and numeral_agreement_grammemes (C09)."""

    def updated_grammemes(self, required=None):
        return SSet(U_upd(self.e, zset(required)), True)

    def numeral_agreement_grammemes(self, num):
        return SSet(U_agree(self.e, zint(num)))


class TagClass(object):
    """fix_rare_cases by its contract (C11)."""
    @staticmethod
    def fix_rare_cases(grammemes):
        return SSet(U_fix(zset(grammemes)))


def lexeme_of(v, base):
    """The lexeme the unit builds for a form: any forms, in any number."""
    f = lambda n, s, i: z3.Function('lex_' + n, Obj, IntS, s)(base, i)
    n = z3.Function('n_lexeme', Obj, IntS)(base)
    S.assume(n >= 0)
    form = lambda i: (SStr(f('word', StrS, i)), FormTag(f('tag', Obj, i)), SStr(f('nf', StrS, i)), SReal(f('score', RealS, i)),
                      Stack(f('stack', Obj, i)))
    # ghost state: the place of a form in its lexeme
    return v.regular_list('lexeme', form, n=n, facts=lambda i: [U_pos(f('stack', Obj, i)) == i])


def analyzer(v, wrap):
    A = mod('pymorphy2.analyzer')
    words = type(str('Dict'), (object,), {})()
    words.Tag = TagClass
    m = bare(A.MorphAnalyzer, dictionary=words)
    m._result_type = v.obj('Parse', lambda: type(str('Parse'), (A.Parse,), {})) if wrap else None
    if wrap:
        m._result_type._morph = m
        m._result_type._dict = words
    return m


def similarity(target, gs):
    both = rt.card(z3.SetIntersect(target, gs))
    diff = rt.card(z3.SetUnion(z3.SetDifference(target, gs), z3.SetDifference(gs, target)))
    return z3.ToReal(both) - z3.RealVal('1/10') * z3.ToReal(diff)


def inflection(v, inflect, req, form):
    lex = lexeme_of(v, form[4].base)

    def hook(what, f):
        v.check(names[7], zand(what == 'get_lexeme', *[zb(eq(a, b)) for a, b in zip(f, form)]))
        return lex
    BaseUnit.hook = staticmethod(hook)
    names = ['nothing only if no form has the grammemes', 'nothing only if no form has them after the rare-case replacement',
             'the result is a form of the lexeme', 'the result has the grammemes, at least after the replacement',
             'the replacement is used only if no form has the grammemes', 'no matching form is more similar', 'earlier forms win ties',
             'the lexeme is the one of this form']
    v.declare(*names)
    fixed = U_fix(req.e)
    gram = lambda f: U_gram(f[1].e)
    res = inflect()
    if res is None:
        e = v.each(lex)
        if e is not None:
            v.check(names[0], z3.Not(z3.IsSubset(req.e, gram(e[0]))))
            v.check(names[1], z3.Not(z3.IsSubset(fixed, gram(e[0]))))
        return
    plain = z3.IsSubset(req.e, gram(res))
    e = v.each(lex)
    if e is None:
        v.check(names[2], v.some(lex, lambda f: zand(*[zb(eq(a, b)) for a, b in zip(f, res)])))
        v.check(names[3], z3.Or(plain, z3.IsSubset(fixed, gram(res))))
        return
    f = e[0]
    which = S.choose(['replacement', 'similar'], 'claim')
    if which == 'replacement':
        v.check(names[4], implies(z3.Not(plain), z3.Not(z3.IsSubset(req.e, gram(f)))))
        return
    used = SSet(z3.If(plain, req.e, fixed)).e
    if S.fork(plain):
        used = req.e
    else:
        used = fixed
    target = U_upd(form[1].e, used)
    mine, his = similarity(target, gram(res)), similarity(target, gram(f))
    S.assume(z3.IsSubset(used, gram(f)))
    v.check(names[5], his <= mine)
    v.check(names[6], implies(U_pos(f[4].base) < U_pos(res[4].base), his < mine))


for _name, _wrap in [('Parse results', True), ('plain tuples', False)]:
    def _make(_name=_name, _wrap=_wrap):
        @proof('C08', 'inflection, ' + _name, ['analyzer.Parse.inflect', M + '_inflect', M + 'get_lexeme'])
        def prove(v):
            m = analyzer(v, _wrap)
            form = (v.str('word'), FormTag(z3.Const('tag', Obj)), v.str('nf'), v.real('score'), Stack(z3.Const('stack', Obj)))
            req = v.set('required')
            if _wrap:
                form = m._result_type(*form)
                inflect = lambda: v.call('inflect', form.inflect, req)
            else:
                def inflect():
                    r = as_list(v.call('_inflect', m._inflect, form, req))
                    if not truth(r._truth()):
                        return None
                    v.check('at most one result', z3.BoolVal(len(r.items()) == 1))
                    return r.items()[0]
            inflection(v, inflect, req, form)
    _make()


@proof('C09', 'make_agree_with_number', ['analyzer.Parse.make_agree_with_number'])
def agree(v):
    m = analyzer(v, True)
    form = m._result_type(v.str('word'), FormTag(z3.Const('tag', Obj)), v.str('nf'), v.real('score'), Stack(z3.Const('stack', Obj)))
    num = v.int('num')
    req = SSet(U_agree(form[1].e, num.e))
    inflection(v, lambda: v.call('make_agree_with_number', form.make_agree_with_number, num), req, form)


@proof('C07', 'Parse.lexeme and Parse.normalized', ['analyzer.Parse.lexeme', 'analyzer.Parse.normalized', M + 'get_lexeme'])
def lexeme(v):
    m = analyzer(v, True)
    form = m._result_type(v.str('word'), FormTag(z3.Const('tag', Obj)), v.str('nf'), v.real('score'), Stack(z3.Const('stack', Obj)))
    lex = lexeme_of(v, form[4].base)
    normal = sym_form(None, 'normal')
    names = ['the unit of the last method is asked about this form', 'the lexeme has the unit\'s forms', 'in the unit\'s order',
             'the results are Parse objects', 'the normalised form is the unit\'s']
    v.declare(*names)
    asked = []

    def hook(what, f):
        asked.append(what)
        v.check(names[0], zand(*[zb(eq(a, b)) for a, b in zip(f, form)]))
        return lex if what == 'get_lexeme' else normal
    BaseUnit.hook = staticmethod(hook)
    if S.choose(['lexeme', 'normalized'], 'what') == 'normalized':
        r = v.call('normalized', lambda: form.normalized)
        v.check(names[0], asked == ['normalized'])
        v.check(names[3], isinstance(r, m._result_type))
        v.check(names[4], zand(*[zb(eq(a, b)) for a, b in zip(r, normal)]))
        return
    r = v.call('lexeme', lambda: form.lexeme)
    v.check(names[0], asked == ['get_lexeme'])
    which = S.choose(['in', 'all', 'order'], 'claim')
    if which == 'in':
        f = v.any(r)
        v.check(names[3], isinstance(f, m._result_type))
        v.check(names[1], v.some(lex, lambda g: zand(*[zb(eq(a, b)) for a, b in zip(f, g)])))
    elif which == 'all':
        f = v.any(lex)
        v.check(names[1], v.contains(r, f))
    else:
        f, g = v.pair(r)
        v.check(names[2], U_pos(f[4].base) < U_pos(g[4].base))
