# -*- coding: utf-8 -*-
"""Contracts of the dictionary XML import."""
from .common import *

P = 'opencorpora_dict.parse.'
XML = 'the XML library by its contract: elements in document order, with their attributes, children and texts'
E_attr = z3.Function('attribute', Obj, StrS, StrS)
E_hasattr = z3.Function('has_attribute', Obj, StrS, BoolS)
E_tag = z3.Function('element_name', Obj, StrS)
E_len = z3.Function('n_children', Obj, IntS)
E_n = z3.Function('n_below', Obj, StrS, IntS)
E_at = z3.Function('below', Obj, StrS, IntS, Obj)
E_text = z3.Function('text_below', Obj, StrS, StrS)
E_gram = z3.Function('grammemes_of', Obj, StrS)


class Silent(object):
    """A logger."""
    def __getattr__(self, n):
        return lambda *a, **k: None


class Text(object):
    _symbolic = True

    def __init__(self, e):
        self.text = SStr(e)


class Elem(SObj):
    """An element."""
    tag = property(lambda self: SStr(E_tag(self.e)))

    def get(self, name, default=None):
        if default is not None:
            raise Unsupported('attribute with a default')
        return SStr(E_attr(self.e, str_val(name)))

    def find(self, name):
        return Text(E_text(self.e, str_val(name)))

    def findtext(self, name):
        return SStr(E_text(self.e, str_val(name)))

    def _len_(self):
        return SInt(E_len(self.e))

    def _below(self, name):
        n = E_n(self.e, str_val(name))
        S.assume(n >= 0)
        i = S.fresh_binder('el', IntS, 'elements')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], Elem(E_at(self.e, str_val(name), i)))], (i, n))])

    def iter(self, name):
        return self._below(name)

    def clear(self):
        raise Unsupported('clearing an element')


class Forms(SObj):
    pass


def elem(v, name):
    return Elem(z3.Const(name, Obj))


@proof('C28', 'grammemes of an element', [P + '_grammemes_from_elem'], assumes=[XML])
def grammemes(v):
    m = mod('pymorphy2.opencorpora_dict.parse')
    e = elem(v, 'e')
    names = ['the names', 'every name', 'in order']
    v.declare('joined by commas', *names)
    r = v.call('_grammemes_from_elem', m._grammemes_from_elem, e)
    p = contracts.join_parts(r) if isinstance(r, SStr) else None
    if p is None:
        raise Unsupported('not made by joining')
    sep, items = p
    v.check('joined by commas', sep.e == ',')
    claim = S.choose(range(3), 'claim')
    if claim == 0:
        x = v.any(items)
        v.check(names[0], v.some(e._below('g'), lambda g: E_attr(g.e, str_val('v')) == zstr(x)))
    elif claim == 1:
        g = v.any(e._below('g'))
        v.check(names[1], v.some(items, lambda x: zstr(x) == E_attr(g.e, str_val('v'))))
    else:
        v.subsequence(names[2], items)


@proof('C28', 'forms of a lemma', [P + '_word_forms_from_xml_elem'], assumes=[XML, '_grammemes_from_elem by its contract (proved separately)'])
def forms(v):
    m = mod('pymorphy2.opencorpora_dict.parse')
    e = elem(v, 'e')
    names = ['the id of the lemma', 'no children: no forms', 'every form is given, lower-cased, with the grammemes of the lemma and its own',
             'nothing else is given', 'in document order', 'a form without grammemes: an empty lexeme']
    v.declare(*names)
    saved, m._grammemes_from_elem = m._grammemes_from_elem, lambda x: SStr(E_gram(x.e))
    log, m.logger = m.logger, Silent()
    S.assume(zand(E_len(e.e) >= 0, z3.Implies(E_len(e.e) > 0, E_n(e.e, str_val('l')) == 1)))
    fs = e._below('f')
    S.assume(z3.Implies(E_len(e.e) == 0, E_n(e.e, str_val('f')) == 0))
    try:
        r = v.call('_word_forms_from_xml_elem', m._word_forms_from_xml_elem, e)
    finally:
        m._grammemes_from_elem, m.logger = saved, log
    lid, lexeme = r
    base = E_gram(E_at(e.e, str_val('l'), z3.IntVal(0)))
    v.check(names[0], zstr(lid) == E_attr(e.e, str_val('id')))
    lexeme = as_list(lexeme)

    def bare_form(f):
        return zand(z3.Length(base) == 0, z3.Length(E_gram(f.e)) == 0)

    def pair(x, f):
        want = SStr(z3.Concat(base, z3.StringVal(' '), E_gram(f.e))).strip()
        return zand(zstr(x[0]) == SStr(E_attr(f.e, str_val('t'))).lower().e, zstr(x[1]) == want.e)
    claim = S.choose(range(5), 'claim')
    if claim == 0:
        if truth(E_len(e.e) == 0):
            v.check(names[1], v.empty(lexeme))
    elif claim == 1:
        f = v.any(fs)
        k = z3.Int('k')
        S.set_kind(k, 'elements')
        S.add_univ([k], z3.Or(z3.Length(base) > 0, z3.Length(E_gram(E_at(e.e, str_val('f'), k))) > 0))
        S.assume(E_len(e.e) > 0)
        v.check(names[2], v.some(lexeme, lambda x: pair(x, f)))
    elif claim == 2:
        x = v.any(lexeme)
        v.check(names[3], v.some(fs, lambda f: pair(x, f)))
    elif claim == 3:
        v.subsequence(names[4], lexeme)
    else:
        f = v.any(fs)
        S.assume(zand(E_len(e.e) > 0, bare_form(f)))
        v.check(names[5], v.empty(lexeme))


@proof('C28', 'parse_opencorpora_xml', [P + 'parse_opencorpora_xml'],
       assumes=[XML, '_word_forms_from_xml_elem by its contract (proved separately): its id and forms', 'clearing an element that has been read changes '
                'no element read later', 'with_progress gives the items it is given'])
def parse_xml(v):
    m = mod('pymorphy2.opencorpora_dict.parse')
    n = z3.Int('n_elements')
    at = z3.Function('element', IntS, Obj)
    S.assume(n >= 0)
    U_forms = z3.Function('forms_of_lemma', Obj, Obj)
    cleared = []

    def elements():
        i = S.fresh_binder('ev', IntS, 'events')
        return RList(segs=[FSeg([Family([i], [Entry('range', zand(i >= 0, i < n))], ('end', Elem(at(i))))], (i, n))])
    saved = dict((k, getattr(m, k)) for k in ('iterparse', 'logger', 'with_progress', '_word_forms_from_xml_elem', 'get_dictionary_info', 'xml_clear_elem'))
    m.logger = Silent()
    m.iterparse = lambda fn, *a, **k: RIter(elements())
    m.with_progress = lambda it, *a, **k: it
    m._word_forms_from_xml_elem = lambda e: (SStr(E_attr(e.e, str_val('id'))), Forms(U_forms(e.e)))
    m.get_dictionary_info = lambda fn: ('version', 'revision')
    m.xml_clear_elem = lambda e: None
    names = ['every link', 'only links', 'links in document order', 'every grammeme', 'only grammemes', 'grammemes in document order', 'the forms of every lemma',
             'only ids of lemmas', 'version and revision']
    v.declare(*names)
    try:
        r = v.call('parse_opencorpora_xml', m.parse_opencorpora_xml, 'file')
    finally:
        for k, x in saved.items():
            setattr(m, k, x)
    v.check(names[8], r.version == 'version' and r.revision == 'revision')
    A = lambda e, k: E_attr(e, str_val(k))
    T = lambda e, k: E_text(e, str_val(k))

    def link(x, e):
        return zand(zstr(x[0]) == A(e, 'from'), zstr(x[1]) == A(e, 'to'), zstr(x[2]) == A(e, 'type')) if isinstance(x, tuple) and len(x) == 3 else z3.BoolVal(False)

    def gram(x, e):
        return zand(zstr(x[0]) == T(e, 'name'), zstr(x[1]) == A(e, 'parent'), zstr(x[2]) == T(e, 'alias'), zstr(x[3]) == T(e, 'description')) \
            if isinstance(x, tuple) and len(x) == 4 else z3.BoolVal(False)
    claim = S.choose(range(8), 'claim')
    i = v.int('i')
    S.assume(zand(i.e >= 0, i.e < n))
    v.cand(i, kind='events')
    e = at(i.e)
    for k, (what, lst, same_) in enumerate((('link', r.links, link), ('grammeme', r.grammemes, gram))):
        if claim == 3 * k:
            S.assume(E_tag(e) == what)
            v.check(names[claim], v.some(lst, lambda x: same_(x, e)))
        elif claim == 3 * k + 1:
            x = v.any(lst)
            v.check(names[claim], v.some(elements(), lambda y: zand(E_tag(y[1].e) == what, same_(x, y[1].e))))
        elif claim == 3 * k + 2:
            v.subsequence(names[claim], lst)
    if claim == 6:
        # lemmas have different ids
        a, b = z3.Ints('a b')
        S.set_kind(a, 'events')
        S.set_kind(b, 'events')
        S.add_univ([a, b], z3.Implies(zand(a >= 0, a < n, b >= 0, b < n, a != b, E_tag(at(a)) == 'lemma', E_tag(at(b)) == 'lemma'),
                                      A(at(a), 'id') != A(at(b), 'id')))
        S.assume(E_tag(e) == 'lemma')
        o = v.run(lambda: r.lexemes[SStr(A(e, 'id'))])
        v.check(names[6], z3.BoolVal(o.exc is None))
        if o.exc is None:
            v.check(names[6], o.value.e == U_forms(e))
    elif claim == 7:
        x = v.any(list_(r.lexemes.keys()))
        v.check(names[7], v.some(elements(), lambda y: zand(E_tag(y[1].e) == 'lemma', zstr(x) == A(y[1].e, 'id'))))
