# -*- coding: utf-8 -*-
"""C17: ids are unique in a document, stay unique when documents are put together, and are looked up reliably."""
import ast

from ..core import *
from ..schema import bindings, schema_of
from .copying import ran
from .segments import feasible
from .lexical import pieces

DATA = ('p', 'dataset')
INDEX = ('sub', DATA, K('elements_by_id'))
ID = ('attr', SELF, 'id')
MIXIN = 'bindings.validation.base:IDMixin'


def with_ids(ctx):
    s = schema_of(ctx)
    out = [c for c, t in bindings(ctx) if not c.name.startswith('d_') and t in s.types and 'id' in s.attrs(t)]
    ctx.need(len(out) >= 5, 'elements with ids')
    return out


def names_used(f):
    return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}


def reaching(ctx, word):
    """functions of the bindings that use a key, and the ones calling them"""
    fs = [f for f in ctx.prog.funcs if f.mod.name.startswith('ebu_tt_live.bindings')]
    out = {f for f in fs if any(isinstance(n, ast.Constant) and n.value == word for n in ast.walk(f.node))}
    # helpers of these in the same class
    while True:
        more = {g for g in fs if g not in out and g.cls is not None and any(
            f.cls is g.cls and g.name in names_used(f) and not g.name.startswith('__') for f in out)}
        if not more:
            break
        out |= more
    while True:
        names = {f.name for f in out}
        more = {f for f in fs if f not in out and names_used(f) & names and not f.name.startswith('__')}
        if not more:
            return out
        out |= more


def registering(ctx):
    ctx.rule('register', 'validating an element with an id records it under the id, and fails if another element has the id')
    touch = reaching(ctx, 'elements_by_id')
    mix = ctx.prog.cls(MIXIN)
    for c in with_ids(ctx):
        ctx.expect(mix in ctx.prog.mro(c), 'register', c.name + '/mixin', 'the elements are not treated as elements with ids', c)
        f = ctx.prog.find_method(c, '_semantic_before_traversal')
        ctx.need(f is not None, 'validation hook of ' + c.name)
        w = ctx.walker(types={SELF: c}, noexc=True, follow=lambda g: g in touch)
        free = taken = 0
        for p in ran(ctx, w, f, c):
            sets = [e for e in p.events if e.kind == 'setitem' and e.recv == INDEX] + \
                   [e for e in p.events if e.kind == 'call' and e.recv == INDEX and e.name in ('setdefault', 'update', 'pop', 'clear')]
            none = p.facts.get(('isnone', ID))
            if none is None and p.facts.get(('truthy', ID)) is False:
                none = True
            known = p.facts.get(('in', ID, INDEX))
            for a, v in p.facts.items():
                if a[0] == 'isnone' and a[1] == ('call', ('bm', INDEX, 'get'), (ID,), ()):
                    known = not v
            if known is True and none is not True:
                taken += p.kind == 'raise'
                ctx.expect(p.kind == 'raise' and w.exc_name(p.exc) == 'SemanticValidationError', 'register', c.name + '/duplicate',
                           'an id already taken is accepted; path: ' + show_facts(p.facts), f)
            elif none is True:
                ctx.expect(p.kind == 'return' and not sets, 'register', c.name + '/none', 'an element without an id is recorded or refused', f)
            else:
                ok = known is False and len(sets) == 1 and sets[0].kind == 'setitem' and sets[0].name == ID and sets[0].value == SELF
                if ctx.expect(p.kind == 'return' and ok, 'register', c.name + '/new', 'a new id is not recorded, or without looking at the ones '
                              'there are; path: ' + show_facts(p.facts), f):
                    free += 1
        ctx.some(free, 'register', c.name + '/new', 'the id of an element is never recorded', f)
        ctx.some(taken, 'register', c.name + '/duplicate', 'an id already taken is never refused', f)


def index(ctx):
    ctx.rule('index', 'the ids of a document are collected anew by each validation, and looking one up gives its element, of the kind asked for, or an error')
    c = ctx.prog.cls('bindings:tt_type')
    f = ctx.prog.find_method(c, '_semantic_before_traversal')
    g = ctx.prog.find_method(c, 'get_element_by_id')
    ctx.need(f is not None and g is not None, 'validation and lookup of the root')
    elem, typ = ('p', g.params[1]), ('p', g.params[2])
    held = set()
    w = ctx.walker(types={SELF: c}, noexc=True)
    ps = ran(ctx, w, g, c)
    good = 0
    for p in ps:
        name = w.exc_name(p.exc) if p.kind == 'raise' and p.exc is not None else None
        stores = {t for x in list(p.facts) + [p.ret or NONE] for t in subterms(x) if t[0] == 'attr' and t[1] == SELF}
        held |= {t[2] for t in stores if not any(t != o and mentions(o, t) for o in stores) or True}
        store = sorted(stores, key=repr)[0] if stores else None
        if store is None:
            ctx.bad('index', 'lookup', 'nothing is looked up; path: ' + show_facts(p.facts), g)
            continue
        found = [('call', ('bm', store, 'get'), (elem, NONE), ()), ('call', ('bm', store, 'get'), (elem,), ()), ('sub', store, elem)]
        missing = [v for a, v in p.facts.items() if a[0] == 'isnone' and a[1] in found] + \
                  [not v for a, v in p.facts.items() if a == ('in', elem, store)]
        wrong = [not v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] in found]
        unset = p.facts.get(('isnone', store)) is True
        if unset:
            ctx.expect(name == 'SemanticValidationError', 'index', 'lookup/unvalidated', 'looking up without validation gives ' +
                       (name or show(p.ret)), g)
        elif True in missing:
            ctx.expect(name == 'LookupError', 'index', 'lookup/missing', 'a missing id gives ' + (name or show(p.ret)), g)
        elif True in wrong:
            given = p.facts.get(('isnone', typ)) is False or p.facts.get(('truthy', typ)) is True
            ctx.expect(given, 'index', 'lookup/any', 'elements of all kinds are to be found but their kind is looked at', g)
            ctx.expect(name == 'LookupError', 'index', 'lookup/type', 'an element of another kind gives ' + (name or show(p.ret)), g)
        else:
            anytype = p.facts.get(('isnone', typ)) is True or p.facts.get(('truthy', typ)) is False
            ok = p.kind == 'return' and p.ret in found and False in missing and (False in wrong or anytype)
            good += ctx.expect(ok, 'index', 'lookup/found', 'the element is given out as %s; path: %s' % (show(p.ret) if p.ret else name, show_facts(p.facts)), g)
    ctx.some(good, 'index', 'lookup/found', 'no element is ever found', g)
    if not ctx.expect(len(held) == 1, 'index', 'lookup', 'the elements are held in ' + str(sorted(held)), g):
        return
    d = ctx.prog.cls('documents.ebutt3:EBUTT3Document')
    h = ctx.prog.find_method(d, 'get_element_by_id')
    ctx.need(h is not None and len(h.params) > 2, 'lookup of the document')
    for p in ran(ctx, ctx.walker(types={SELF: d}, noexc=True), h, d):
        looked = [e for e in p.events if e.kind in ('call', 'follow') and e.name == 'get_element_by_id']
        ok = p.kind == 'return' and len(looked) == 1 and p.ret == looked[0].value and \
            arg_of(ctx, looked[0], g, g.params[1]) == ('p', h.params[1]) and arg_of(ctx, looked[0], g, g.params[2]) == ('p', h.params[2])
        ctx.expect(ok, 'index', 'lookup/document', 'the document does not look up the id and the kind asked for', h)
    store = ('attr', SELF, held.pop())
    w = ctx.walker(types={SELF: c}, noexc=True, follow=lambda x: x.cls is c)
    for p in ran(ctx, w, f, c):
        sets = [e for e in p.events if e.kind == 'setitem' and e.recv == DATA and e.name == K('elements_by_id')]
        ok = len(sets) == 1 and (sets[0].value[0] == 'dict' or sets[0].value == ('call', ('ext', 'dict'), (), ()))
        if p.kind == 'raise' and not sets:
            continue
        if not ctx.expect(ok, 'index', 'fresh', 'a validation goes on with the ids of the one before; path: ' + show_facts(p.facts), f):
            continue
        filled = [e for e in p.events if e.recv == sets[0].value and e.kind in ('setitem', 'call')]
        ctx.expect(not filled, 'index', 'fresh', 'there are ids before the validation', f)
        kept = [e for e in p.events if e.kind == 'store' and (('attr', e.recv, e.name)) == store]
        h = ctx.prog.find_method(c, '_semantic_after_traversal')
        late = False
        if h is not None:
            qs = ctx.walker(types={SELF: c}, noexc=True).run(h, c)
            late = bool(qs) and all(q.kind == 'return' and [e.value for e in q.events if e.kind == 'store' and ('attr', e.recv, e.name) == store][-1:] in
                                    ([INDEX], [] if kept and kept[-1].value == sets[0].value else [INDEX]) for q in qs)
        ctx.expect(late, 'index', 'kept', 'the ids collected are not the ones looked up', f)


def deconflicting(ctx):
    ctx.rule('rename', 'every id in the segments of a sequence is made of the number of the document and the id in it, unambiguously')
    c = ctx.prog.cls('EBUTT3Segmenter')
    f = ctx.prog.find_method(c, '_process_element')
    ctx.need(f is not None, 'copying of elements')
    value = ('p', 'value')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'_semantic_copy', '_semantic_before_subtree_copy'})
    flags, n = set(), 0
    for p in ran(ctx, w, f, c):
        cop = [e.value for e in p.events if e.kind == 'setitem' and e.name == value]
        if not cop:
            continue
        cop = cop[0]
        mine = [(a, v) for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'attr' and a[1][1] == SELF]
        flags |= {a[1][2] for a, v in mine}
        st = [e for e in p.events if e.kind == 'store' and e.name == 'id']
        if any(not v for a, v in mine):
            ctx.expect(not st, 'rename', 'off', 'ids are changed although they are not to be', f)
            continue
        old = ('attr', cop, 'id')
        isid = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == cop and a[2][0] == 'cls' and a[2][1].endswith('.IDMixin')]
        none = p.facts.get(('isnone', old)) is True or p.facts.get(('truthy', old)) is False
        if False in isid or none:
            ctx.expect(not st, 'rename', 'none', 'an element without an id is given one', f)
            continue
        n += 1
        if not ctx.expect(len(st) == 1 and st[0].recv == cop, 'rename', 'on', 'the id of a copied element is not changed; path: ' + show_facts(p.facts), f):
            continue
        xs = [x[1] if x[0] == 'spec' and x[2] in ('', 'd') else x for x in pieces(st[0].value)]
        if xs and xs[0][0] != 'k':
            xs = [K('')] + xs
        ok = len(xs) == 4 and xs[0][0] == 'k' and xs[1][0] == 'attr' and xs[1][2] == 'sequence_number' and xs[2][0] == 'k' and xs[3] == old
        ctx.expect(ok, 'rename', 'form', 'the new id is ' + show(st[0].value), f)
        if ok:
            ctx.expect(xs[1][1][0] == 'attr' and xs[1][1][1] == SELF, 'rename', 'form', 'the new id has the number of ' + show(xs[1][1]), f)
            ctx.expect(xs[2][1] and not xs[2][1][0].isdigit(), 'rename', 'form', 'the number of the document and the id run together', f)
            first = xs[0][1][:1]
            ctx.expect(first.isalpha() or first == '_', 'rename', 'form', 'the new id is not a valid id', f)
            ctx.expect(all(ch.isalnum() or ch in '._-' for ch in xs[0][1] + xs[2][1]), 'rename', 'form', 'the new id is not a valid id', f)
    ctx.some(n, 'rename', 'on', 'ids are never changed', f)
    if not ctx.expect(len(flags) == 1, 'rename', 'switch', 'ids are changed depending on ' + str(sorted(flags)), f):
        return
    flag = flags.pop()
    init = ctx.prog.find_method(c, '__init__')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'compute_document_segment'})
    for p in ran(ctx, w, init, c):
        if p.kind != 'return':
            continue
        v = last_store(p, SELF, flag)
        ctx.expect(v is not None and v.value == ('p', 'deconflict_ids'), 'rename', 'switch', 'the choice is kept as ' + (show(v.value) if v else 'nothing'), init)
        go = [e for e in p.events if e.kind == 'call' and e.name == 'compute_document_segment']
        ctx.expect(v is not None and (not go or v.idx < go[0].idx), 'rename', 'switch', 'the choice is kept after the segment was made', init)
    # the documents of a sequence are extracted with it
    s = ctx.prog.cls('EBUTT3DocumentSequence')
    d = ctx.prog.cls('EBUTT3Document')
    f = ctx.prog.find_method(s, 'extract_segment')
    g = ctx.prog.find_method(d, 'extract_segment')
    ctx.need(f is not None and g is not None, 'extraction of segments')
    w = ctx.walker(types={SELF: s}, noexc=True, opaque={'lookup_range_on_timeline', 'discard_before', 'create_compatible_document', 'create_from_raw_binding'},
                   follow=lambda x: x.cls is s)
    n = 0
    for p in ran(ctx, w, f, s):
        spl = [e for e in p.events if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1].endswith('Splicer')]
        for e in p.events:
            if e.kind == 'call' and e.name == 'extract_segment' and e.recv != SELF:
                n += 1
                v = arg_of(ctx, e, g, 'deconflict_ids')
                ctx.expect(v == TRUE, 'rename', 'sequence', 'segments are put together with the ids they had', e)
        for e in spl:
            got = arg_of(ctx, e, ctx.prog.find_method(ctx.prog.cls('EBUTT3Splicer'), '__init__'), 'document_segments')
            ctx.expect(got is not None and got[0] in ('lst', 'comp', 'call'), 'rename', 'sequence', 'something else than the segments is put together', e)
    ctx.some(n, 'rename', 'sequence', 'no segments are extracted from the documents', f)
    w = ctx.walker(types={SELF: d}, noexc=True, follow=lambda x: x.cls is d)
    for p in ran(ctx, w, g, d):
        for e in p.events:
            if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1].endswith('.EBUTT3Segmenter'):
                v = arg_of(ctx, e, init, 'deconflict_ids')
                ctx.expect(v == ('p', 'deconflict_ids'), 'rename', 'document', 'the choice is passed on as ' + (show(v) if v else 'nothing'), e)


def merging(ctx):
    ctx.rule('merge', 'each style, region and content element put into a merged document has an id that none of the others of its kind has')
    for name in ('bindings:styling', 'bindings:layout', 'body_type'):
        c = ctx.prog.cls(name)
        f = ctx.prog.find_method(c, 'merge')
        ctx.need(f is not None, 'merge of ' + name)
        key = c.name
        taken = ('sub', DATA, K('ids'))
        w = ctx.walker(types={SELF: c}, noexc=True, facts={('truthy', ('p', 'other_elem')): True, ('isnone', ('p', 'other_elem')): False})
        fs = [(f, {})]
        if name == 'body_type':
            hs = {e.target for p in w.run(f, c) for e in p.events if e.kind == 'follow' and e.target is not None}
            every = {k.name: k for x in ctx.prog.mro(c) if hasattr(x, 'methods') for k in x.methods.values()}

            def reached(m):
                out, todo = set(), [m]
                while todo:
                    for x in names_used(todo.pop()) & set(every):
                        if x not in out:
                            out.add(x)
                            todo.append(every[x])
                return out
            helpers = [m for n, m in sorted(every.items()) if n in reached(f) and n in reached(m) and 'ids' in m.params]
            ctx.need(helpers, 'merging of content')
            fs = [(h, None) for h in helpers]
            for p in ran(ctx, w, f, c):
                for e in p.events:
                    if e.kind in ('call', 'follow') and e.name in {h.name for h in helpers}:
                        ctx.expect(any(v == taken for v in list(e.args) + [v for _, v in e.kwargs]), 'merge', key + '/shared',
                                   'the ids in use are not passed on', e)
        for g, _ in fs:
            if g is not f:
                w = ctx.walker(types={SELF: c}, noexc=True)
                taken = ('p', 'ids')
                ctx.need('ids' in g.params, 'ids in use of ' + g.name)
            own, n = ('call', ('bm', SELF, 'orderedContent'), (), ()), 0
            mix = 'IDMixin'
            for p in ran(ctx, w, g, c):
                if p.kind != 'return' or not feasible(p):
                    continue
                adds = [e for e in p.events if e.kind == 'call' and e.name == 'add' and e.recv == taken]
                for e in p.events:
                    if e.kind in ('call', 'follow') and e.name == g.name and g is not f:
                        ctx.expect(any(v == taken for v in list(e.args) + [v for _, v in e.kwargs]), 'merge', key + '/shared',
                                   'the ids in use are not passed on', e)
                if g is f and any(e.kind == 'loop' and e.value == own for e in p.events):
                    item = ('attr', ('attr', ('it', own, 0), 'value'), 'id')
                    ctx.expect(any(e.args == (item,) for e in adds) or
                               any(e.kind == 'call' and e.name == 'update' and e.recv == taken for e in p.events), 'merge', key + '/own',
                               'the ids the first document has are not known', g)
                puts = [e for e in p.events if e.kind == 'call' and e.name in ('append', 'insert', 'extend') and e.args]
                seen = set()
                for e in puts:
                    x = e.args[-1]
                    if x in seen or not (x[0] == 'call' and 'copy' in repr(x[1])):
                        continue
                    seen.add(x)
                    isid = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == x and a[2][0] == 'cls' and a[2][1].endswith('.' + mix)]
                    txt = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[2][0] in ('ext', 'cls') and mentions(x, a[1]) and
                           a[2][1].endswith('.NonElementContent')]
                    if False in isid or True in txt:
                        continue
                    old = ('attr', x, 'id')
                    if p.facts.get(('isnone', old)) is True:
                        continue
                    n += 1
                    st = [s for s in p.events if s.kind == 'store' and s.recv == x and s.name == 'id']
                    fin = st[-1].value if st else old
                    ctx.expect(p.facts.get(('in', fin, taken)) is False, 'merge', key + '/unique', 'an element is given an id that may be in use: %s; path: %s' %
                               (show(fin), show_facts(p.facts)), e)
                    ctx.expect(any(a.args == (fin,) for a in adds), 'merge', key + '/used', 'the id of an element is not known to be in use: %s; path: %s' %
                               (show(fin), show_facts(p.facts)), e)
                    ctx.expect(mentions(fin, old), 'merge', key + '/unique', 'the new id is ' + show(fin), e)
            ctx.some(n, 'merge', key, 'no element with an id is merged', g)
    # one record of the ids for all merges of a splice
    c = ctx.prog.cls('EBUTT3Splicer')
    init = ctx.prog.find_method(c, '__init__')
    w = ctx.walker(types={SELF: c}, noexc=True, follow=lambda x: x.cls is c, opaque={'_do_splice'})
    n = 0
    for p in ran(ctx, w, init, c):
        if p.kind != 'return':
            continue
        sets = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[0] == 'dict']
        go = [e for e in p.events if e.kind == 'call' and e.name == '_do_splice']
        for e in sets:
            items, _ = w.dict_items(e.value, p.state)
            v = dict(items).get(K('ids'))
            n += 1
            ctx.expect(v is not None and (v[0] == 'lst' and not v[2] or v[0] == 'call' and v[1] == ('ext', 'set') and not v[2]), 'merge', 'splicer',
                       'a splice starts with the ids ' + (show(v) if v else 'of nothing'), init)
            ctx.expect(not go or e.idx < go[0].idx, 'merge', 'splicer', 'the splice starts before the record of ids is made', init)
    ctx.some(n, 'merge', 'splicer', 'a splice has no record of the ids', init)


@check('C17')
def c17(ctx):
    registering(ctx)
    index(ctx)
    deconflicting(ctx)
    merging(ctx)
