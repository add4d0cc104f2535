# -*- coding: utf-8 -*-
"""C15: copies of document elements (segments, merges) keep attributes, content and references."""
from ..core import *
from .documents import accessor
from ..schema import schema_of, bindings

SEG = 'documents.ebutt3_segmentation:EBUTT3Segmenter'
DATA = ('p', 'dataset')
MIXIN = 'SemanticValidationMixin'


def ran(ctx, w, f, c):
    ps = w.run(f, c)
    ctx.account(w, ps)
    return ps


def own_copy(ctx, c):
    """copy functions a binding class defines"""
    out = []
    base = ctx.prog.cls(MIXIN)
    for n in ('_semantic_copy', '__copy__'):
        f = ctx.prog.find_method(c, n)
        if f is not None and f.cls is not base:
            out.append((n, f))
    return out


def made(p, c):
    """the instance of class c a path returns, with the final values of its attributes"""
    r = p.ret
    if r is None or r[0] != 'new' or r[1] != c.qualname:
        return None
    vals = dict((k, v) for k, v in r[4] if k != '_strict_keywords')
    for e in p.events:
        if e.kind == 'store' and e.recv == r:
            vals[e.name] = e.value
    return vals


def mapped(v, mapping, ref, tt, attr='id'):
    """v is the id of the copy of the element ref names"""
    if v is None or v[0] != 'attr' or v[2] != attr:
        return False
    m = v[1]
    if m[0] == 'sub' and m[1] == mapping:
        el = m[2]
    elif m[0] == 'call' and m[1][0] == 'bm' and m[1][1] == mapping and m[1][2] == 'get' and m[2]:
        el = m[2][0]
    else:
        return False
    if el[0] == 'call' and el[1][0] == 'bm' and el[1][2] == 'get_element_by_id' and el[1][1] == tt:
        args = el[2] + tuple(x for k, x in el[3] if k == 'elem_id')
        return args[:1] == (ref,)
    return False


def ids_of(p, v, mapping, ref, tt):
    """v lists the ids of the copies of the elements the list ref names, in order"""
    if v[0] == 'comp' and v[1] in ('list', 'gen'):
        return v[3] == (ref,) and not v[4] and mapped(v[2], mapping, ('it', ref, 0), tt)
    if v[0] == 'call' and v[1] in (('ext', 'list'), ('ext', 'tuple')) and len(v[2]) == 1:
        return ids_of(p, v[2][0], mapping, ref, tt)
    if v[0] == 'lst':
        n = len([e for e in p.events if e.kind == 'loop' and e.value == ref and e.name in (0, None)])
        got = [e.args[0] for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv == v]
        ended = [e for e in p.events if e.kind == 'loopend' and e.value == ref]
        return bool(n or ended) and len(got) == n + len(v[2]) * 99 and all(mapped(x, mapping, ('it', ref, 0), tt) for x in got)
    return False


def text_fact(p, t):
    """whether the path takes t for a text"""
    for a, v in p.facts.items():
        if a[0] == 'isinst' and a[1] == t and ('text' in repr(a[2]) or 'str' in repr(a[2]) or 'unicode' in repr(a[2])):
            return v
        if a[0] == 'isinst' and a[1] == t and 'list' in repr(a[2]).lower():
            return not v
    return None


@check('C15')
def attributes(ctx):
    ctx.rule('copy-attrs', 'a copy of a document element carries every attribute the schema defines for it with the value of the '
                           'original; references to styles and regions name the copies of the elements referred to')
    sch = schema_of(ctx)
    base = ctx.prog.cls(MIXIN)
    n = 0
    for c, ty in bindings(ctx):
        if not ctx.prog.is_sub(c, base):
            continue
        attrs = sch.attrs(ty)
        for name, f in own_copy(ctx, c):
            w = ctx.walker(types={SELF: c})
            paths = ran(ctx, w, f, c)
            ctx.need(paths, 'paths of %s.%s' % (c.name, name))
            label = '%s.%s' % (c.name, name)
            for p in paths:
                if p.kind != 'return':
                    continue
                vals = made(p, c)
                if p.ret is not None and p.ret[0] == 'call' and 'copy' in repr(p.ret[1]) and p.ret[2] == (SELF,):
                    # the plain copy of the object, attributes changed afterwards
                    vals = {a: ('attr', SELF, a) for a in attrs}
                    vals.update({e.name: e.value for e in p.events if e.kind == 'store' and e.recv == p.ret})
                if vals is None:
                    ctx.bad('copy-attrs', label, 'the copy is %s instead of a new %s' % (show(p.ret) if p.ret else None, c.name), f)
                    continue
                n += 1
                for a, at in sorted(attrs.items()):
                    src = ('attr', SELF, a)
                    v = vals.get(a, NONE)
                    absent = p.facts.get(('isnone', src))
                    if name == '_semantic_copy' and at in ('IDREF', 'IDREFS') and not (c.name == 'style_type' and v == src):
                        t = text_fact(p, src)
                        if absent is not True and t is not None and t is (at == 'IDREFS'):
                            continue    # the type of the attribute rules this path out
                        mapping, tt = ('sub', DATA, K('instance_mapping')), ('sub', DATA, K('tt_element'))
                        good = v == NONE and absent is True or v == src and absent is True or absent is False and (
                            mapped(v, mapping, src, tt) if at == 'IDREF' else ids_of(p, v, mapping, src, tt))
                        what = 'the ids of the copies of what it refers to'
                    else:
                        good = v == src or v == NONE and absent is True
                        what = 'that of the original'
                    ctx.expect(good, 'copy-attrs', '%s/%s' % (label, a), '%s of the copy is %s, not %s; path: %s' % (
                        a, show(v), what, show_facts(p.facts)), f)
                for k in vals:
                    if k not in attrs and k not in sch.children(ty):
                        ctx.bad('copy-attrs', '%s/%s' % (label, k), 'the copy gets an attribute the schema does not have', f)
    ctx.need(n >= 10, 'copy functions')


@check('C15')
def style_refs(ctx):
    ctx.rule('copy-style-refs', 'references between styles name the copies once all styles are copied')
    c = ctx.prog.cls('bindings:styling')
    f = ctx.prog.find_method(c, '_semantic_after_subtree_copy')
    ctx.need(f, 'styling copy hook')
    st = ctx.prog.cls('bindings:style_type')
    item = None
    w = ctx.walker(types={SELF: c}, noexc=True)
    first = w.run(f, c)
    el = set()
    for p in first:
        for a in p.facts:
            for x in subterms(a):
                if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm' and x[1][2] == 'get' and \
                        x[1][1] == ('sub', DATA, K('instance_mapping')) and x[2]:
                    el.add(x[2][0])
                elif x[0] in ('in', ) and x[2] == ('sub', DATA, K('instance_mapping')):
                    el.add(x[1])
    if not ctx.some(len(el) == 1, 'copy-style-refs', 'lookup', 'the styles looked up in the mapping are ' + (', '.join(map(show, el)) or 'none'), f):
        return
    item = el.pop()
    ok = item == ('attr', ('it', ('call', ('bm', SELF, 'orderedContent'), (), ()), 0), 'value') or \
        item == ('it', ('attr', SELF, 'style'), 0) or 'orderedContent' in repr(item)
    ctx.expect(ok, 'copy-style-refs', 'styles', 'the styles looked at are %s' % show(item), f)
    w = ctx.walker(types={SELF: c, item: st}, noexc=True)
    mapping, tt = ('sub', DATA, K('instance_mapping')), ('sub', DATA, K('tt_element'))
    ref = ('attr', item, 'style')
    hit = 0
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            continue
        copy = [x for x in (('call', ('bm', mapping, 'get'), (item,), ()), ('sub', mapping, item))]
        stores = [e for e in p.events if e.kind == 'store' and e.name == 'style']
        entered = any(e.kind == 'loop' for e in p.events) or any(mentions(a, item) for a in p.facts)
        for e in stores:
            ctx.expect(e.recv in copy, 'copy-style-refs', 'target', 'the references are put into %s' % show(e.recv), e)
            if text_fact(p, ref) is True:
                continue
            hit += 1
            ctx.expect(ids_of(p, e.value, mapping, ref, tt), 'copy-style-refs', 'value',
                       'the references of the copy become %s; path: %s' % (show(e.value), show_facts(p.facts)), e)
        if entered and not stores:
            missing = any(p.facts.get(('isnone', x)) is True or p.facts.get(('truthy', x)) is False for x in copy) or \
                p.facts.get(('in', item, mapping)) is False
            empty = p.facts.get(('isnone', ref)) is True or any(
                a[0] == 'truthy' and v is False and (a[1][0] in ('lst', 'comp') or a[1] == ref) for a, v in p.facts.items()) or \
                any(e.kind == 'loopend' and e.value == ref and not any(x.kind == 'loop' and x.value == ref for x in p.events)
                    for e in p.events)
            other = any(a[0] == 'isinst' and v is False and mentions(a, item[1] if item[0] == 'attr' else item) for a, v in p.facts.items())
            ctx.expect(missing or empty or other or text_fact(p, ref) is True, 'copy-style-refs', 'kept',
                       'the references of a copied style keep the old ids; path: %s' % show_facts(p.facts), f)
    ctx.some(hit, 'copy-style-refs', 'kept', 'the references of copied styles are never set', f)


def seg_paths(ctx, name, **kw):
    c = ctx.prog.cls(SEG)
    f = ctx.prog.find_method(c, name)
    ctx.need(f, 'segmenter hook %s' % name)
    kw.setdefault('types', {SELF: c})
    w = ctx.walker(**kw)
    return c, f, ran(ctx, w, f, c), w


SDATA = ('attr', SELF, '_semantic_dataset')


def dataset_of(t):
    return t[0] == 'sub' and t[2] == K('instance_mapping')


VALUE, ELEMENT, PARENT = ('p', 'value'), ('p', 'element'), ('p', 'parent_binding')
SEMANTIC = ('isinst', VALUE, ('cls', 'ebu_tt_live.bindings.validation.base.SemanticValidationMixin'))


@check('C15')
def tree(ctx):
    ctx.rule('copy-tree', 'every element visited is copied once and found under its original; text and element copies are put under '
                          'the copy of their parent, in order; the copy of the root is the segment')
    # copying
    c, f, paths, w = seg_paths(ctx, '_process_element', opaque={'_semantic_copy'}, noexc=True)
    dec = accessor(ctx, c, 'deconflict_ids')
    for p in paths:
        if p.kind != 'return':
            ctx.bad('copy-tree', 'copy', 'an element is not copied: %s' % show_facts(p.facts), f)
            continue
        maps = [e for e in p.events if e.kind == 'setitem' and dataset_of(e.recv)]
        ctx.expect(len(maps) == 1 and maps[0].name == VALUE, 'copy-tree', 'copy/mapped',
                   'the copy is registered %d times; path: %s' % (len(maps), show_facts(p.facts)), f)
        for e in maps:
            v = e.value
            deep = v[0] == 'call' and (v[1] == ('bm', VALUE, '_semantic_copy') or isinstance(v[1], tuple) and v[1][:2] == ('bm', VALUE)
                                       and v[1][2] == '_semantic_copy')
            plain = v[0] == 'call' and v[1] == ('ext', 'copy.copy') and v[2] == (VALUE,)
            ctx.expect(deep or plain and (p.facts.get(('hasattr', VALUE, K('_semantic_copy'))) is False or p.facts.get(SEMANTIC) is False),
                       'copy-tree', 'copy/value', 'the copy of an element is %s; path: %s' % (show(v), show_facts(p.facts)), e)
            # renaming of ids
            idm = p.facts.get(('isinst', v, ('cls', 'ebu_tt_live.bindings.validation.base.IDMixin')))
            hasid = p.facts.get(('isnone', ('attr', v, 'id')))
            ren = [x for x in p.events if x.kind == 'store' and x.recv == v and x.name == 'id']
            if ren:
                ctx.expect(p.facts.get(('truthy', dec)) is True, 'copy-ids', 'asked', 'ids are changed although %s' % show_facts(p.facts), ren[0])
                ctx.expect(len(ren) == 1 and hasid is False, 'copy-ids', 'once', 'an id is changed %d times' % len(ren), ren[0])
                val = ren[0].value
                ctx.expect(mentions(val, ('attr', v, 'id')) and any(
                    x[0] == 'attr' and x[2] in ('sequence_number', '_sequence_number', 'sequenceNumber') or
                    x[0] == 'call' and 'sequence_number' in repr(x[1]) for x in subterms(val)),
                    'copy-ids', 'value', 'the id becomes %s' % show(val), ren[0])
            else:
                ctx.expect(p.facts.get(('truthy', dec)) is False or idm is False or hasid is True, 'copy-ids', 'renamed',
                           'an id is not made unique to its document although asked for; path: %s' % show_facts(p.facts), f)
            pre = [x for x in p.events if x.kind in ('call', 'follow') and x.name == '_semantic_before_subtree_copy']
            if p.facts.get(SEMANTIC) is True:
                ctx.expect(len(pre) == 1 and pre[0].idx > e.idx, 'copy-tree', 'copy/hook',
                           'the hook before copying the children is called %d times' % len(pre), f)
    ctx.rule('copy-ids', 'ids of a segment are made unique to the number of its document exactly when asked for')
    # text
    c, f, paths, w = seg_paths(ctx, '_process_non_element', noexc=True)
    for p in paths:
        adds = [e for e in p.events if e.kind == 'call' and e.name in ('append', '_append', 'extend')]
        good = p.kind == 'return' and len(adds) == 1 and dataset_of(adds[0].recv[1] if adds[0].recv[0] == 'sub' else NONE) and \
            adds[0].recv[2] == PARENT and adds[0].name == 'append' and (
                adds[0].args[0] == VALUE or adds[0].args[0][0] == 'call' and 'copy' in repr(adds[0].args[0][1]) and adds[0].args[0][2][:1] == (VALUE,))
        ctx.expect(good, 'copy-tree', 'text', 'text is not put under the copy of its parent; path: %s' % show_facts(p.facts),
                   adds[0] if adds else f)
    # linking
    c, f, paths, w = seg_paths(ctx, '_after_element', opaque={'_semantic_after_subtree_copy'},
                               raises={'_semantic_after_subtree_copy': (('cls', 'ebu_tt_live.errors.DiscardElement'),),
                                       'isPlural': (), 'localName': (), 'name': (), 'append': ()})
    for p in paths:
        if p.kind != 'return':
            ctx.bad('copy-tree', 'link/error', 'linking the copy fails; path: %s' % show_facts(p.facts), f)
            continue
        hook = [e for e in p.events if e.kind == 'call' and e.name == '_semantic_after_subtree_copy']
        drop = [e for e in p.events if e.kind == 'except']
        adds = [e for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv[0] == 'sub' and dataset_of(e.recv[1])]
        sets = [e for e in p.events if e.kind == 'setattr' or e.kind == 'store' and e.recv[0] == 'sub' and dataset_of(e.recv[1])]
        root = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[0] == 'sub' and dataset_of(e.value[1])]
        links = adds + sets + root
        sem = p.facts.get(SEMANTIC)
        if sem is False:
            ctx.expect(not links, 'copy-tree', 'link/other', 'an element without copy hooks is linked', f)
            continue
        ctx.expect(len(hook) == 1 and all(e.idx > hook[0].idx for e in links), 'copy-tree', 'link/hook',
                   'the copy is linked before its subtree is finished; path: %s' % show_facts(p.facts), f)
        for e in hook:
            cp = kw(e, 'copied_instance') or e.arg(0, 'copied_instance')
            ctx.expect(cp is not None and cp[0] == 'sub' and dataset_of(cp[1]) and cp[2] == VALUE, 'copy-tree', 'link/instance',
                       'the hook gets %s instead of the copy' % show(cp or NONE), e)
        if drop:
            ctx.expect(not links, 'copy-tree', 'link/discarded', 'a discarded element is put into the segment', f)
            continue
        if p.facts.get(('truthy', ELEMENT)) is False or p.facts.get(('isnone', ELEMENT)) is True:
            ctx.expect(len(root) == 1 and not adds and not sets and root[0].value[2] == VALUE, 'copy-tree', 'link/root',
                       'the copy of the root does not become the segment', f)
            continue
        plural = [v for a, v in p.facts.items() if a[0] == 'truthy' and 'isPlural' in repr(a) and mentions(a, ELEMENT)]
        good = len(links) == 1 and not root
        if good and adds:
            good = plural == [True] and adds[0].recv[2] == PARENT and adds[0].args[0][0] == 'sub' and dataset_of(adds[0].args[0][1]) and \
                adds[0].args[0][2] == VALUE
        elif good:
            e = sets[0]
            v = e.value
            good = plural == [False] and e.recv[0] == 'sub' and dataset_of(e.recv[1]) and e.recv[2] == PARENT and \
                v[0] == 'sub' and dataset_of(v[1]) and v[2] == VALUE and 'localName' in repr(e.name) and mentions(e.name, ELEMENT)
        ctx.expect(good, 'copy-tree', 'link', 'a copy is not put under the copy of its parent the way the schema says; path: %s' %
                   show_facts(p.facts), links[0] if links else f)


def stored(ctx, c, p):
    """(attribute, event) of the dictionary a path of the run keeps its arguments in"""
    return [e for e in p.events if e.kind == 'store' and e.recv == SELF and (
        e.value[0] in ('dict', 'kdict') or e.value[0] == 'call' and e.value[1] == ('ext', 'dict') or e.value == REST or
        e.value[0] == 'call' and 'copy' in repr(e.value[1]) and mentions(e.value, REST))]


REST = ('p', '**kwargs')


@check('C28')
@check('C15')
def hooks(ctx):
    ctx.rule('copy-run', 'every segment is made with its own set of data, handed to the traversal and to the hooks of every element: before it is '
                         'copied, before and after its children and when it is linked; what the hooks raise ends the branch')
    c = ctx.prog.cls(SEG)
    base = ctx.prog.cls('bindings.pyxb_utils:RecursiveOperation')
    c, f, paths, w = seg_paths(ctx, 'proceed', noexc=True, opaque={'_recursive_step'})
    attr = set()
    sup = ctx.prog.find_method(base, 'proceed')
    for p in paths:
        if p.kind != 'return':
            ctx.bad('copy-run', 'run/error', 'the segmentation fails; path: %s' % show_facts(p.facts), f)
            continue
        held = stored(ctx, c, p)
        ctx.expect(len(held) == 1, 'copy-run', 'run/data', 'the data of the segmentation is set %d times' % len(held), f)
        go = [e for e in p.events if e.kind == 'call' and e.name == '_recursive_step' or
              e.kind == 'call' and e.name == 'proceed' and e.recv != ('p', 'self')]
        ctx.expect(len(go) == 1, 'copy-run', 'run/traversal', 'the document is traversed %d times' % len(go), f)
        for e in held:
            attr.add(e.name)
            v = e.value
            fill = [x for x in p.events if x.kind == 'call' and x.recv == v and x.name == 'update' and (
                x.args[:1] == (REST,) or any(k == '**' and t == REST for k, t in x.kwargs or ()))]
            items, rest = w.dict_items(v, p.state)
            looped = any(x.kind in ('loop', 'loopend') and mentions(x.value, REST) for x in p.events) and (
                not any(x.kind == 'loop' and mentions(x.value, REST) for x in p.events) or any(mentions(k, REST) for k, _ in items or ()))
            full = mentions(v, REST) or v == REST or bool(fill) or REST in (rest or ()) or looped
            first = [x.idx for x in fill] or [e.idx]
            ctx.expect(full, 'copy-run', 'run/arguments', 'the data of the segmentation is lost', e)
            ctx.expect(not go or max(first + [e.idx]) < go[0].idx, 'copy-run', 'run/order', 'the traversal starts before the data is there', e)
    if not ctx.some(len(attr) == 1, 'copy-run', 'run/data', 'the data of the segmentation is kept in %s' % (sorted(attr) or 'nothing'), f):
        return
    data = ('attr', SELF, attr.pop())
    copied = lambda t: t is not None and t[0] == 'sub' and dataset_of(t[1]) and t[2] == VALUE

    def given(e, name, want):
        fn = ctx.prog.find_method(ctx.prog.cls(MIXIN), e.name)
        ctx.need(fn, 'hook %s' % e.name)
        got = arg_of(ctx, e, fn, name)
        good = copied(got) or any(x.kind == 'setitem' and dataset_of(x.recv) and x.name == VALUE and x.value == got for x in e_path[0].events) \
            if want is copied else got == want
        ctx.expect(good, 'copy-run', '%s/%s' % (e.name, name), 'the hook gets %s as %s' % (show(got or NONE), name), e)
    e_path = [None]
    for hook, where, extra in (('_semantic_before_copy', '_before_element', ()), ('_semantic_before_subtree_copy', '_process_element', ('copied_instance',)),
                               ('_semantic_after_subtree_copy', '_after_element', ('copied_instance',)),
                               ('_do_link_copy_with_copied_parent', '_after_element', ('parent_binding',))):
        ex = (('cls', 'ebu_tt_live.errors.OutsideSegmentError'),) if where == '_before_element' else \
            (('cls', 'ebu_tt_live.errors.DiscardElement'),) if hook == '_semantic_after_subtree_copy' else ()
        others = {'_semantic_before_copy', '_semantic_before_subtree_copy', '_semantic_after_subtree_copy', '_do_link_copy_with_copied_parent',
                  '_semantic_copy', 'deconflict_id', 'debug', 'format'}
        c, f, paths, w = seg_paths(ctx, where, opaque=others, raises={hook: ex}, noexc=not ex)
        hit = 0
        for p in paths:
            e_path[0] = p
            sem = p.facts.get(SEMANTIC)
            got = [e for e in p.events if e.kind == 'call' and e.name == hook]
            n = len(got)
            if p.kind == 'raise':
                ctx.expect(where == '_before_element' and n == 1 and 'OutsideSegment' in str(w.exc_name(p.exc)), 'copy-run', hook + '/error',
                           'the segmentation of an element fails; path: %s' % show_facts(p.facts), f)
                continue
            if where == '_before_element':
                ctx.expect(not any(e.kind == 'except' for e in p.events), 'copy-run', hook + '/swallowed',
                           'an element outside the segment is copied', f)
            if where == '_process_element':
                ctx.expect(sem is not None or n == 0, 'copy-run', hook + '/kind', 'elements without hooks are treated as if they had them', f)
            if sem is not True:
                ctx.expect(n == 0 and sem is False, 'copy-run', hook + '/other', 'the hook is %s although %s' % (
                    'called' if n else 'not called', show_facts(p.facts)), f)
                continue
            if hook == '_do_link_copy_with_copied_parent':
                dropped = any(e.kind == 'except' for e in p.events)
                root = p.facts.get(('truthy', ELEMENT)) is False or p.facts.get(('isnone', ELEMENT)) is True
                child = p.facts.get(('truthy', ELEMENT)) is True or p.facts.get(('isnone', ELEMENT)) is False
                ctx.expect(n == (0 if dropped or root else 1) and (dropped or root or child), 'copy-run', hook, 'a copy is linked %d times; path: %s' % (
                    n, show_facts(p.facts)), f)
            else:
                ctx.expect(n == 1, 'copy-run', hook, 'the hook is called %d times; path: %s' % (n, show_facts(p.facts)), f)
            for e in got:
                hit += 1
                ctx.expect(e.recv == VALUE, 'copy-run', hook + '/element', 'the hook of %s is called' % show(e.recv), e)
                given(e, 'dataset', data)
                given(e, 'element_content', ELEMENT)
                for x in extra:
                    given(e, x, copied if x == 'copied_instance' else PARENT)
            for e in p.events:
                if e.kind == 'call' and e.name == '_semantic_copy':
                    ctx.expect(e.args == (data,) or kw(e, 'dataset') == data, 'copy-run', '_semantic_copy/dataset',
                               'the copy is made with %s' % (show(e.args[0]) if e.args else 'nothing'), e)
        ctx.some(hit, 'copy-run', hook, 'the hook is never called', f)


ORPHANS = 'orphaned_elements'


def removed(p, container, item):
    """item is not left in container on the path"""
    if p.facts.get(('in', item, container)) is False:
        return True
    for e in p.events:
        if e.kind == 'call' and e.recv == container and (e.name in ('remove', 'discard') and e.args[:1] == (item,) or
                                                         e.name == 'difference_update' and item[0] == 'it' and e.args[:1] == (item[1],)):
            return True
        if e.kind == 'store' or e.kind == 'setitem':
            continue
    return False


@check('C15')
def pruning(ctx):
    ctx.rule('copy-needed', 'styles and regions any element of the segment refers to are copied and stay in its head; only the ones no '
                            'kept element refers to are removed')
    sch = schema_of(ctx)
    base = ctx.prog.cls('bindings.validation.presentation:StyledElementMixin')
    orphans = ('sub', DATA, K(ORPHANS))
    n = 0
    for c, ty in bindings(ctx):
        attrs = sch.attrs(ty)
        if c.name in ('style_type', 'region_type') or 'style' not in attrs or not ctx.prog.is_sub(c, base):
            continue
        f = ctx.prog.find_method(c, '_semantic_after_subtree_copy')
        ctx.need(f, 'copy hook of %s' % c.name)
        w = ctx.walker(types={SELF: c}, opaque={'_semantic_copy_apply_leaf_timing', 'is_empty', 'is_timed_leaf'}, noexc=True)
        styles = ('attr', SELF, '_validated_styles')
        region = ('attr', SELF, '_validated_region')
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                continue
            n += 1
            it = ('it', styles, 0)
            loops = [e for e in p.events if e.kind == 'loop' and e.value == styles]
            whole = any(e.kind == 'call' and e.recv == orphans and e.name == 'difference_update' and e.args[:1] == (styles,) for e in p.events)
            seen = whole or any(e.kind in ('loop', 'loopend') and e.value == styles for e in p.events)
            ctx.expect(seen and (not loops or removed(p, orphans, it)), 'copy-needed', '%s/styles' % c.name,
                       'the styles of a kept element may be removed from the segment; path: %s' % show_facts(p.facts), f)
            if 'region' in attrs:
                ctx.expect(p.facts.get(('isnone', region)) is True or p.facts.get(('truthy', region)) is False or
                           removed(p, orphans, region), 'copy-needed', '%s/region' % c.name,
                           'the region of a kept element may be removed from the segment; path: %s' % show_facts(p.facts), f)
    ctx.need(n >= 6, 'copy hooks of styled elements')
    # the removal itself
    c, f, paths, w = seg_paths(ctx, '_prune_orphan_elements', noexc=True)
    seg = accessor(ctx, c, 'segment')
    orph = ('sub', SDATA, K(ORPHANS))
    item = ('it', orph, 0)
    kinds = {'style_type': ('styling', 'style'), 'region_type': ('layout', 'region')}
    did, emptied = set(), 0
    headt = ('attr', seg, 'head')
    for p in paths:
        if p.kind != 'return':
            continue
        gone = [e for e in p.events if e.kind == 'call' and e.name in ('remove', 'pop') or e.kind == 'delitem']
        for k, (box, lst) in kinds.items():
            sort = p.facts.get(('isinst', item, ('cls', 'ebu_tt_live.bindings.' + k)))
            mine = [e for e in gone if e.recv == ('attr', ('attr', headt, box), lst)]
            if mine:
                did.add(k)
            if any(e.kind == 'loop' and e.value == orph for e in p.events) and sort is not None:
                ctx.expect(len(mine) == (1 if sort else 0), 'copy-needed', 'prune/unused', 'a %s no kept element refers to is removed %d times; path: %s' % (
                    k, len(mine), show_facts(p.facts)), f)
        styling, styles = ('attr', headt, 'styling'), ('attr', ('attr', headt, 'styling'), 'style')
        none = any(p.facts.get(('isnone', t)) is True or p.facts.get(('truthy', t)) is False for t in (headt, styling))
        empty = p.facts.get(('truthy', styles))
        empty = p.facts.get(('truthy', ('call', ('ext', 'len'), (styles,), ()))) if empty is None else empty
        zero = p.facts.get(('eq', ('call', ('ext', 'len'), (styles,), ()), K(0)))
        empty = zero if empty is None else not empty
        wiped = [e for e in p.events if e.kind == 'store' and e.recv == headt and e.name == 'styling' and e.value == NONE]
        emptied += bool(wiped)
        ctx.expect(none or empty is not None and bool(wiped) is empty, 'copy-needed', 'prune/styling',
                   'the styling of a segment without styles is %s; path: %s' % ('removed' if wiped else 'left', show_facts(p.facts)), f)
        for a in p.facts:
            for box, lst in kinds.values():
                t = ('attr', headt, box)
                if mentions(a, ('attr', t, lst)):
                    ctx.expect(p.facts.get(('isnone', t)) is False or p.facts.get(('truthy', t)) is True, 'copy-needed', 'prune/none',
                               'the %s of a segment without %s is asked for; path: %s' % (lst, box, show_facts(p.facts)), f)
        for e in gone:
            want = None
            for k, (box, lst) in kinds.items():
                if e.recv == ('attr', ('attr', ('attr', seg, 'head'), box), lst):
                    want = k
            a = e.args[0] if e.args else NONE
            ctx.expect(want is not None and e.name == 'remove' and a[0] == 'sub' and dataset_of(a[1]) and a[2] == item and
                       e.facts.get(('isinst', item, ('cls', 'ebu_tt_live.bindings.' + want))) is True,
                       'copy-needed', 'prune/only', '%s is removed from %s; path: %s' % (show(a), show(e.recv), show_facts(e.facts)), e)
        for e in p.events:
            if e.kind == 'store' and e.value == NONE and mentions(e.recv, seg):
                if e.name in ('styling', 'region', 'layout', 'style'):
                    lst = [x for x in ((('attr', ('attr', ('attr', seg, 'head'), 'styling'), 'style')) if e.name in ('styling', 'style') else
                                       ('attr', ('attr', ('attr', seg, 'head'), 'layout'), 'region'),)]
                    empty = any(e.facts.get(('truthy', x)) is False or e.facts.get(('eq', ('call', ('ext', 'len'), (x,), ()), K(0))) is True or
                                e.facts.get(('isnone', x)) is True for x in lst)
                    ctx.expect(empty, 'copy-needed', 'prune/empty', '%s is emptied although it may have content; path: %s' % (
                        e.name, show_facts(e.facts)), e)
                else:
                    ctx.bad('copy-needed', 'prune/empty', '%s of the segment is removed' % e.name, e)
    ctx.some(did == set(kinds), 'copy-needed', 'prune/unused', 'the styles or regions no kept element refers to are left in the segment', f)
    ctx.some(emptied, 'copy-needed', 'prune/styling', 'an empty styling is left in the segment', f)
    # the elements looked at for them
    seg = ctx.prog.cls(SEG)
    styled_cls = ('cls', base.qualname)
    for g in seg.methods.values():
        if len(g.params) != 2 or not recursive(g):
            continue
        par = ('p', g.params[1])
        wg = ctx.walker(types={SELF: seg}, noexc=True, opaque={g.name, 'orderedContent'})
        took = 0
        for p in ran(ctx, wg, g, seg):
            kids = [e for e in p.events if e.kind == 'call' and e.name == 'orderedContent' and e.recv == par]
            for e in kids:
                known = e.facts.get(('isnone', par)) is False or e.facts.get(('truthy', par)) is True
                ctx.expect(known, 'copy-needed', 'elements/none', 'the content of a missing body is asked for', e)
            if p.kind != 'return':
                ctx.bad('copy-needed', 'elements/error', 'looking for the elements fails; path: %s' % show_facts(p.facts), g)
                continue
            if not kids:
                absent = p.facts.get(('isnone', par)) is True or p.facts.get(('truthy', par)) is False
                ctx.expect(absent and p.ret[0] in ('lst', 'tup', 'call', 'k', 'new'), 'copy-needed', 'elements/all', 'the elements in an element are left out', g)
                continue
            given = [e.value for e in p.events if e.kind == 'yield' and e.value is not None]
            ctx.expect(par in subterms(p.ret) or par in given or any(e.kind == 'call' and e.name in ('append', 'add', 'insert', 'extend', 'update') and e.recv == p.ret and
                                                     any(par in subterms(x) for x in e.args) for e in p.events), 'copy-needed', 'elements/own',
                       'an element is left out', g)
            for e in p.events:
                src = e.value
                while src is not None and src[0] == 'comp' and len(src[3]) == 1:
                    src = src[3][0]
                if e.kind != 'loop' or src not in [k.value for k in kids]:
                    continue
                val = ('attr', ('it', src, e.name or 0), 'value')
                kind = p.facts.get(('isinst', val, styled_cls))
                rec = [x for x in p.events if x.kind == 'call' and x.name == g.name and x.args[:1] == (val,)]
                put = [x for x in p.events if x.kind == 'call' and x.name in ('extend', 'update') and any(x.args[:1] == (r.value,) for r in rec) or
                       x.kind == 'loop' and x.value in [r.value for r in rec] and ('it', x.value, x.name or 0) in given or
                       x.kind == 'loopend' and x.value in [r.value for r in rec] and given]
                if kind is True:
                    took += 1
                    ctx.expect(len(rec) == 1 and (put or mentions(p.ret, rec[0].value)), 'copy-needed', 'elements/children',
                               'the elements in an element are left out; path: %s' % show_facts(p.facts), g)
                else:
                    other = kind is False or any(a[0] == 'isinst' and not v and a[1] == val[1] for a, v in p.facts.items())
                    ctx.expect(not rec and other, 'copy-needed', 'elements/kind', 'content is taken for an element with styles; path: %s' %
                               show_facts(p.facts), g)
        ctx.some(took, 'copy-needed', 'elements/children', 'the elements in an element are left out', g)
    # which ones are copied
    again = {g.name for g in seg.methods.values() if len(g.params) == 2 and recursive(g)}
    c, f, paths, w = seg_paths(ctx, 'compute_document_segment', opaque={
        'proceed', '_prune_orphan_elements', 'validate', 'lookup_range_on_timeline', 'validated_styles', 'inherited_region', '_convert_time'} | again,
        noexc=True)
    tops, nested, calls = set(), 0, 0
    regions = 0
    body = None
    for p in paths:
        go = [e for e in p.events if e.kind == 'call' and e.name == 'proceed']
        if p.kind != 'return':
            continue
        ctx.expect(len(go) == 1, 'copy-needed', 'run', 'the segment is computed %d times' % len(go), f)
        cut = [e for e in p.events if e.kind == 'call' and e.name == '_prune_orphan_elements']
        ctx.expect(len(cut) == 1 and all(e.idx < cut[0].idx for e in go), 'copy-needed', 'run/prune',
                   'what no kept element refers to stays in the segment', f)
        for e in go:
            calls += 1
            aff, orp = kw(e, 'affected_elements'), kw(e, ORPHANS)
            ctx.need(aff is not None and orp is not None, 'sets of affected and orphaned elements')
            ctx.expect(kw(e, 'segment_begin') == accessor(ctx, c, 'begin') and kw(e, 'segment_end') == accessor(ctx, c, 'end'),
                       'copy-needed', 'run/range', 'the range of the segment is not passed on', e)
            ctx.expect(show(kw(e, 'tt_element') or NONE).endswith('binding') and mentions(kw(e, 'tt_element'), accessor(ctx, c, 'document')),
                       'copy-needed', 'run/document', 'the document copied is %s' % show(kw(e, 'tt_element') or NONE), e)
            first, second = sources(p, aff, e.idx), sources(p, orp, e.idx)
            later = {t for t, _ in second}
            for a, x in first:
                if a[0] == 'attr' and a[2] in ('validated_styles', '_validated_styles'):
                    tops.add(a[1])
                    ctx.expect(a in later, 'copy-needed', 'sets', 'a style that may end up unused is not removed again', x)
                elif a[0] == 'attr' and a[2] in ('inherited_region', '_inherited_region', 'validated_region'):
                    regions += 1
                    ctx.expect(x is None or x.facts.get(('isnone', a)) is False or x.facts.get(('truthy', a)) is True, 'copy-needed', 'run/region',
                               'a region is added that may be missing; path: %s' % show_facts(x.facts if x else {}), x or e)
                    ctx.expect(a in later, 'copy-needed', 'sets', 'a region that may end up unused is not removed again', x or e)
                elif show(a).endswith(('.styling.style', '.layout.region')):
                    tops.add(a)
                    nested += 1
                    regions += 1
            bodyt = ('attr', ('attr', accessor(ctx, c, 'document'), 'binding'), 'body')
            for x in p.events:
                if x.idx > e.idx:
                    break
                if x.kind == 'call' and x.name in ('extend', 'append', 'update', 'add', 'appendleft') and x.args and \
                        mentions(x.args[0], bodyt) and 'orderedContent' in repr(x.args[0]) or x.kind == 'call' and fn_recursive(x) or \
                        x.kind == 'call' and x.name in again and mentions(x.value, bodyt):
                    nested += 1
    ctx.need(calls, 'run of the segmenter')
    bodyt = ('attr', ('attr', accessor(ctx, c, 'document'), 'binding'), 'body')
    ctx.expect(any(t == bodyt or mentions(t, bodyt) or show(t).endswith('.styling.style') for t in tops) and nested, 'copy-needed', 'containers',
               'only the styles of some elements are copied, but the containers are copied, too (found: %s)' % ', '.join(
                   sorted(show(t)[:60] for t in tops)), f)
    ctx.expect(regions, 'copy-needed', 'regions', 'the regions of the elements are not copied', f)


def sources(p, t, upto, seen=()):
    """(term, event that adds it or None) for what a set, list or union holds"""
    out = []
    if t in seen:
        return out
    seen += (t,)
    if t[0] == 'bin' and t[1] in ('|', '+'):
        return sources(p, t[2], upto, seen) + sources(p, t[3], upto, seen)
    if t[0] == 'call' and t[1] in (('ext', 'set'), ('ext', 'list'), ('ext', 'tuple'), ('ext', 'frozenset')):
        for x in t[2]:
            out += [(x, None)] + sources(p, x, upto, seen)
    if t[0] in ('lst', 'tup', 'set'):
        for x in t[2] if t[0] == 'lst' else t[1] if t[0] == 'tup' else ():
            x = x[1] if x[0] == 'star' else x
            out += [(x, None)] + sources(p, x, upto, seen)
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][2] in ('union', 'copy'):
        for x in (t[1][1],) + t[2]:
            out += [(x, None)] + sources(p, x, upto, seen)
    for e in p.events:
        if e.idx > upto:
            break
        if e.kind == 'call' and e.recv == t and e.name in ('update', 'extend', 'add', 'append', '__ior__', '__iadd__') and e.args:
            out += [(e.args[0], e)] + sources(p, e.args[0], e.idx, seen)
    return out


def recursive(f):
    import ast
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and
               isinstance(n.func.value, ast.Name) and n.func.value.id == f.params[0] for n in ast.walk(f.node))


def fn_recursive(e):
    return e.kind == 'call' and e.args and 'orderedContent' in repr(e.args[0]) and e.recv == SELF


@check('C15')
def regions(ctx):
    ctx.rule('copy-region', 'every validation notes anew for every element in which region it is, so that its segments have that region')
    base = ctx.prog.cls('bindings.validation.presentation:StyledElementMixin')
    f = ctx.prog.find_method(base, '_semantic_collect_applicable_styles')
    ctx.need(f, 'collection of styles')
    t = accessor(ctx, base, 'inherited_region')
    if not ctx.some(t[0] == 'attr' and t[1] == SELF, 'copy-region', 'kept', 'the region of an element is %s' % show(t), f):
        return
    olds = [('call', ('bm', DATA, 'get'), (K('region'), NONE), ()), ('call', ('bm', DATA, 'get'), (K('region'),), ()), ('sub', DATA, K('region'))]
    for p in ran(ctx, ctx.walker(types={SELF: base}, noexc=True, opaque={'get_element_by_id', 'ordered_styles', 'resolve_styles', 'compute_style'}), f, base):
        if p.kind != 'return':
            continue
        v = p.heap.get((SELF, t[2]))
        none = any(p.facts.get(('isnone', x)) is True or p.facts.get(('truthy', x)) is False for x in olds) or \
            p.facts.get(('in', K('region'), DATA)) is False
        ctx.expect(v in olds or v == NONE and none, 'copy-region', 'noted', 'the region of an element is %s; path: %s' % (
            show(v) if v else 'that of the last validation', show_facts(p.facts)), f)


@check('C15')
def merging(ctx):
    ctx.rule('copy-merge', 'merging two documents puts a copy of every child of both bodies, styles and regions into the result, in order')
    c = ctx.prog.cls('bindings:body_type')
    f = ctx.prog.find_method(c, 'merge')
    helpers = {n for k in ctx.prog.mro(c) if isinstance(k, Cls) for n, m in k.methods.items() if 'orderedContent' in ast_names(m)}
    w = ctx.walker(types={SELF: c}, noexc=True)
    other = ('p', 'other_elem')
    n = 0
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            continue
        n += 1
        absent = p.facts.get(('isnone', other)) is True or p.facts.get(('truthy', other)) is False
        fresh = p.ret[0] == 'new' or p.ret[0] == 'call' and 'copy' in repr(p.ret[1])
        ctx.expect(fresh, 'copy-merge', 'body/result', 'the result of the merge is %s' % show(p.ret), f)
        for src in (SELF,) if absent else (SELF, other):
            content = ('call', ('bm', src, 'orderedContent'), (), ())
            item = ('it', content, 0)
            passed = [e for e in p.events if e.kind in ('loop', 'loopend') and e.value == content]
            ctx.expect(passed, 'copy-merge', 'body/%s' % show(src), 'the children of %s are not merged; path: %s' % (show(src), show_facts(p.facts)), f)
            loops = [e for e in passed if e.kind == 'loop']
            if not loops:
                continue
            isn = p.facts.get(('isinst', item, ('ext', 'pyxb.binding.basis.NonElementContent')))
            ise = p.facts.get(('isinst', item, ('ext', 'pyxb.binding.basis.ElementContent')))
            if isn is False and ise is False:
                continue
            val = ('attr', item, 'value')
            cp = ('call', ('ext', 'copy.copy'), (val,), ())
            put = [e for e in p.events if e.kind == 'call' and e.name == 'append' and e.args and (
                e.args[0] == cp or e.args[0][0] == 'call' and 'copy' in repr(e.args[0][1]) and e.args[0][2][:1] == (val,))]
            direct = [e for e in put if e.recv == p.ret]
            staged = [e for e in put if e.recv != p.ret]
            if staged and not direct:
                # a list filled first and emptied into the result afterwards
                box = staged[0].recv
                later = [e for e in p.events if e.kind == 'loop' and e.value == box]
                if not later:
                    # the list has one element: this path can not happen, as long as it is the list that is emptied
                    whole = any(e.kind == 'loopend' and e.value == box for e in p.events) or any(
                        e.kind == 'call' and e.name == 'extend' and e.recv == p.ret and e.args[:1] == (box,) for e in p.events)
                    ctx.expect(whole, 'copy-merge', 'body/all', 'only some children of %s are put into the result; path: %s' % (
                        show(src), show_facts(p.facts)), f)
                    continue
            ctx.expect(len(direct) == 1, 'copy-merge', 'body/child', 'a child of %s is put %d times into the result; path: %s' % (
                show(src), len(direct), show_facts(p.facts)), f)
            if isn is not True and ise is True or isn is False:
                deep = [e for e in p.events if e.kind in ('call', 'follow') and e.name in helpers and e.args[:1] == (val,) or
                        e.kind in ('call', 'follow') and kw(e, 'element') == val]
                wipe = [e for e in p.events if e.kind == 'call' and e.name == '_resetContent' and direct and e.recv == direct[0].args[0]]
                ctx.expect(len(deep) == 1 and (len(wipe) == 1 and wipe[0].idx < deep[0].idx), 'copy-merge', 'body/subtree',
                           'the children of a merged element are not copied once; path: %s' % show_facts(p.facts), f)
    ctx.some(n >= 4, 'copy-merge', 'body/paths', 'there are too few paths merging the children of bodies', f)
    for name in ('styling', 'layout'):
        c = ctx.prog.cls('bindings:' + name)
        f = ctx.prog.find_method(c, 'merge')
        w = ctx.walker(types={SELF: c}, noexc=True)
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                continue
            content = ('call', ('bm', other, 'orderedContent'), (), ())
            absent = p.facts.get(('isnone', other)) is True or p.facts.get(('truthy', other)) is False
            if absent:
                ctx.expect(p.ret == SELF, 'copy-merge', name + '/result', 'merging nothing gives %s' % show(p.ret), f)
                continue
            passed = [e for e in p.events if e.kind in ('loop', 'loopend') and e.value == content]
            ctx.expect(passed, 'copy-merge', name, 'the content of the other %s is not merged' % name, f)
            val = ('attr', ('it', content, 0), 'value')
            put = [e for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv == p.ret and e.args and
                   e.args[0][0] == 'call' and 'copy' in repr(e.args[0][1]) and e.args[0][2][:1] == (val,)]
            if any(e.kind == 'loop' for e in passed):
                ctx.expect(len(put) == 1, 'copy-merge', name + '/child', 'an element of the other %s is put %d times into the result' % (
                    name, len(put)), f)


def ast_names(f):
    import ast
    return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}


@check('C15')
def splicing(ctx):
    ctx.rule('copy-splice', 'splicing merges head, styling, layout and body of every document, first to last, into one document with the '
                            'details asked for')
    c = ctx.prog.cls('documents.ebutt3_splicer:EBUTT3Splicer')
    f = ctx.prog.find_method(c, '_do_splice')
    ctx.need(f, 'splice')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'merge'})
    segs = ('attr', SELF, '_document_segments')
    n = 0
    ps = ran(ctx, w, f, c)
    for p in ps:
        if p.kind != 'return':
            continue
        pops = [e for e in p.events if e.kind == 'call' and e.name == 'pop' and e.recv == segs]
        merges = [e for e in p.events if e.kind == 'call' and e.name == 'merge']
        res = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.name == '_spliced_document']
        ctx.expect(len(res) == 1, 'copy-splice', 'result', 'the result is set %d times' % len(res), f)
        if not res:
            continue
        out = res[0].value
        for nm in ('sequenceIdentifier', 'sequenceNumber'):
            st = [e for e in p.events if e.kind == 'store' and e.recv == out and e.name == nm]
            ctx.expect(len(st) == 1 and st[0].value[0] == 'attr' and st[0].value[1] == SELF and
                       st[0].value[2].replace('_', '') == nm.lower(), 'copy-splice', nm,
                       'the %s of the result is %s' % (nm, show(st[0].value) if st else 'left alone'), f)
        st = {e.name: e.value for e in p.events if e.kind == 'store' and e.recv == out}
        head = st.get('head')
        ctx.expect(head is not None and st.get('body') is not None, 'copy-splice', 'parts', 'head or body are not set', f)
        if head is None:
            continue
        hs = {e.name: e.value for e in p.events if e.kind == 'store' and e.recv == head}
        ctx.expect({'styling', 'layout'} <= set(hs), 'copy-splice', 'head', 'styling or layout of the result are not set', f)
        if len(pops) == 2:
            n += 1
            for what, got in (('body', st.get('body')), ('styling', hs.get('styling')), ('layout', hs.get('layout'))):
                if got is None:
                    continue
                m = [e for e in merges if e.value == got]
                good = bool(m) and show(m[0].args[0]).endswith('.' + what) and show(m[0].recv).endswith('.' + what) and m[0].recv != m[0].args[0]
                alone = not m and show(got).endswith('.' + what)
                if alone:
                    # the first document has none
                    first = [a for a, v in p.facts.items() if a[0] in ('truthy', 'isnone') and show(a[1]).endswith('.' + what) and
                             (v is False if a[0] == 'truthy' else v)]
                    mine = [a for a in first if got == a[1] or a[0] == 'isnone' and got == NONE]
                    alone = bool(first) and (not mine or len({a[1] for a in first}) > 1) or any(v is (a[0] == 'isnone') and show(a[1]).endswith('.head') for a, v in p.facts.items()
                                               if a[0] in ('isnone', 'truthy'))
                ctx.expect(good or alone, 'copy-splice', what, 'the %s of the result is %s; path: %s' % (what, show(got), show_facts(p.facts)), f)
                for e in m:
                    ctx.expect(len(e.args) >= 2 and e.args[1] == ('attr', SELF, '_dataset') or e.kwargs, 'copy-splice', 'ids',
                               'the ids in use are not shared between the merges', e)
    ctx.some(n, 'copy-splice', 'two', 'no path puts two documents together', f)
    # order: the list is reversed and popped from its end
    g = ctx.prog.find_method(c, '__init__')
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque={'_do_splice'}), g, c):
        st = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.name == '_document_segments']
        if p.kind != 'return':
            continue
        back = all(e.args == () or e.args == (K(-1),) for q in ps for e in q.events if e.kind == 'call' and e.name == 'pop' and e.recv == segs)
        rev = bool(st) and 'reversed' in repr(st[-1].value) or bool(st) and "K(-1)" in repr(st[-1].value)
        front = all(e.args == (K(0),) for q in ps for e in q.events if e.kind == 'call' and e.name == 'pop' and e.recv == segs)
        ctx.expect(bool(st) and mentions(st[-1].value, ('p', 'document_segments')) and (back and rev or front and not rev),
                   'copy-splice', 'order', 'the documents are not spliced in the order given', g)
        go = [e for e in p.events if e.kind == 'call' and e.name == '_do_splice']
        ctx.expect(len(go) == 1, 'copy-splice', 'run', 'the documents are not spliced', g)
