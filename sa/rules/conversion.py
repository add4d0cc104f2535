# -*- coding: utf-8 -*-
"""C18: conversion of documents to EBU-TT-D."""
from ..core import *
from ..schema import schema_of
from .copying import ran

CONV = 'bindings.converters.ebutt3_ebuttd:EBUTT3EBUTTDConverter'
E, DS = ('p', 'element'), ('p', 'dataset')
#: source class -> schema type of the result
PAIRS = (('tt_type', 'd_tt_type'), ('head_type', 'd_head_type'), ('styling', 'd_styling_type'), ('layout', 'd_layout_type'),
         ('style_type', 'd_style_type'), ('region_type', 'd_region_type'), ('body_type', 'd_body_type'), ('div_type', 'd_div_type'),
         ('p_type', 'd_p_type'), ('span_type', 'd_span_type'), ('br_type', 'd_br_type'))
RESULT = {'d_tt_type': ('d_tt_type', 'ttd', 'tt')}
COLORS = ('color', 'backgroundColor')
#: attributes that are replaced by generated styles
GENERATED = {('style_type', 'fontSize'), ('style_type', 'lineHeight')}
CHILD = {'head_type': {'styling': 'd_styling_type', 'layout': 'd_layout_type'}, 'layout': {'region': 'd_region_type'},
         'styling': {'style': 'd_style_type'}}


def ctor_of(t):
    """(name, positional, keywords) of a construction"""
    if t is None:
        return None
    if t[0] == 'new':
        return t[1].split('.')[-1], t[3], dict(t[4])
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] in ('ext', 'g', 'cls', 'raw'):
        return str(t[1][1]).split('.')[-1], t[2], dict(t[3])
    if t[0] == 'call':
        n = show(t).split('(')[0]
        return n.split('.')[-1], t[2], dict(t[3])
    return None


def conv(ctx):
    c = ctx.prog.cls(CONV)
    f = ctx.prog.find_method(c, 'convert_element')
    ctx.need(f, 'conversion of an element')
    return c, f


def runs(ctx, name, **kw):
    c, f = conv(ctx)
    k = ctx.prog.cls('bindings:' + name)
    kw.setdefault('opaque', {'convert_children'})
    w = ctx.walker(types={SELF: c, E: k}, noexc=True, **kw)
    return ran(ctx, w, f, c), f


def timebase(p, t):
    """the time bases a path allows, of media and clock"""
    out = {'media', 'clock'}
    for a, v in p.facts.items():
        if a[0] == 'eq' and t in a[1:]:
            o = a[2] if a[1] == t else a[1]
            if is_k(o):
                if v:
                    out &= {o[1]}
                else:
                    out -= {o[1]}
        elif a[0] == 'in' and a[1] == t and a[2][0] in ('tup', 'lst'):
            xs = {x[1] for x in a[2][-1] if is_k(x)}
            out = out & xs if v else out - xs
    return out


def colour(p, v, src):
    named = [x for a, x in p.facts.items() if a[0] == 'isinst' and a[1] == src and 'namedColor' in repr(a[2])]
    if v == src:
        return named == [False] or p.facts.get(('isnone', src)) is True
    return named == [True] and v is not None and v[0] in ('call', 'fmt', 'str') and mentions(v, src)


def size(p, v, src):
    cell = [x for a, x in p.facts.items() if a[0] == 'isinst' and a[1] == src and 'cell' in repr(a[2]).lower()]
    if v == src:
        return cell == [False] or p.facts.get(('isnone', src)) is True
    res = ('sub', DS, K('cellResolution'))
    if v is None or v[0] == 'k' or not cell or cell[0] is not True:
        return False
    parts = [x for x in subterms(v)]
    hs = {(x[1], x[2]) for x in parts if x[0] == 'attr' and x[2] in ('horizontal', 'vertical')}
    if hs == set():
        return mentions(v, src) and mentions(v, res)
    if hs != {(src, 'horizontal'), (src, 'vertical'), (res, 'horizontal'), (res, 'vertical')}:
        return False
    axes = [x[2] for x in ordered(v) if x[0] == 'attr' and x[1] in (src, res) and x[2] in ('horizontal', 'vertical')]
    for x in parts:
        if x[0] == 'bin' and x[1] in ('/', 'Div', '//', 'FloorDiv') and not (mentions(x[2], src) and not mentions(x[2], res) and mentions(x[3], res)):
            return False
        if x[0] == 'bin' and x[1] in ('//', 'FloorDiv'):
            return False
    nums = {x[1] for x in parts if is_k(x) and isinstance(x[1], (int, float))}
    return axes[:2] == ['horizontal'] * 2 and axes[2:] == ['vertical'] * 2 and 100 in nums and nums <= {100, 1.0}


def ordered(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            for y in ordered(x):
                yield y
        elif isinstance(x, tuple):
            for z in x:
                if isinstance(z, tuple):
                    for y in ordered(z):
                        yield y


@check('C18')
def attributes(ctx):
    ctx.rule('conv-attrs', 'every attribute the EBU-TT-D schema shares with the live schema is taken over from the converted element, '
                           'converted where the value types differ')
    sch = schema_of(ctx)
    for name, out in PAIRS:
        paths, f = runs(ctx, name)
        ctx.need(paths, 'conversion of %s' % name)
        want = sch.attrs(out)
        have = sch.attrs({'tt_type': 'tt_type', 'styling': 'styling', 'layout': 'layout', 'style_type': 'style', 'region_type': 'region'}.get(
            name, name))
        done = 0
        for p in paths:
            if p.kind == 'raise' and not timebase(p, ('sub', DS, K('timeBase'))):
                continue
            if p.kind != 'return':
                ctx.bad('conv-attrs', name, 'the conversion fails; path: %s' % show_facts(p.facts), f)
                continue
            if p.ret == NONE:
                div = ('attr', E, 'div')
                ln = ('call', ('ext', 'len'), (div,), ())
                empty = p.facts.get(('truthy', div)) is False or p.facts.get(('truthy', ln)) is False or any(
                    a[0] == 'eq' and v is True and set(a[1:]) == {ln, K(0)} or a == ('lt', ln, K(1)) and v is True or
                    a == ('lt', K(0), ln) and v is False for a, v in p.facts.items())
                ctx.expect(name == 'body_type' and empty, 'conv-attrs', '%s/dropped' % name,
                           'an element is dropped; path: %s' % show_facts(p.facts), f)
                continue
            k = ctor_of(p.ret)
            ok = k is not None and (k[0] == out or k[0] in RESULT.get(out, ()))
            ctx.expect(ok, 'conv-attrs', '%s/type' % name, 'the element is converted to %s' % show(p.ret)[:80], f)
            if not ok:
                continue
            done += 1
            if name == 'body_type':
                div = ('attr', E, 'div')
                ln = ('call', ('ext', 'len'), (div,), ())
                some = p.facts.get(('truthy', div)) is True or p.facts.get(('truthy', ln)) is True or any(
                    a[0] == 'eq' and v is False and set(a[1:]) == {ln, K(0)} or a == ('lt', ln, K(1)) and v is False or
                    a == ('lt', K(0), ln) and v is True for a, v in p.facts.items())
                ctx.expect(some, 'conv-attrs', name + '/empty', 'a body without content, which EBU-TT-D does not allow, is kept', f)
            vals = dict(k[2])
            for e in p.events:
                if e.kind == 'store' and e.recv == p.ret:
                    vals[e.name] = e.value
            extra = [a for a, v in k[2].items() if a not in want and a not in sch.children(out) and not a.startswith('_')]
            strict = k[2].get('_strict_keywords', K(True))
            ctx.expect(not extra or strict == K(False), 'conv-attrs', name + '/keywords',
                       'the attributes %s, which the result does not have, make its creation fail' % ', '.join(sorted(extra)), f)
            for a in sorted(want):
                src, v = ('attr', E, a), vals.get(a, NONE)
                key = '%s/%s' % (name, a)
                if name == 'tt_type' and a == 'timeBase':
                    ctx.expect(v == K('media'), 'conv-attrs', key, 'the time base of the result is %s' % show(v), f)
                elif (name, a) in GENERATED:
                    ctx.expect(v == NONE, 'conv-attrs', key, '%s is %s although its unit differs' % (a, show(v)), f)
                elif a not in have:
                    ctx.expect(v == NONE or mentions(v, E), 'conv-attrs', key, '%s is %s' % (a, show(v)), f)
                elif name == 'style_type' and a in COLORS:
                    ctx.expect(colour(p, v, src), 'conv-attrs', key, '%s is %s; path: %s' % (a, show(v), show_facts(p.facts)), f)
                elif name == 'region_type' and a in ('origin', 'extent'):
                    ctx.expect(size(p, v, src), 'conv-attrs', key, '%s is %s; path: %s' % (a, show(v), show_facts(p.facts)), f)
                elif a in ('begin', 'end'):
                    tb = timebase(p, ('sub', DS, K('timeBase')))
                    if not tb:
                        continue
                    if p.facts.get(('isnone', src)) is True:
                        good = v in (NONE, src)
                    else:
                        good = p.facts.get(('isnone', src)) is False
                        if 'media' in tb:
                            good = good and v == src and tb == {'media'}
                        if 'clock' in tb:
                            good = good and tb == {'clock'} and clocked(v, src)
                    ctx.expect(good, 'conv-attrs', key, '%s is %s; path: %s' % (a, show(v), show_facts(p.facts)), f)
                else:
                    ctx.expect(v == src or v == NONE and p.facts.get(('isnone', src)) is True, 'conv-attrs', key,
                               '%s of the converted element is %s; path: %s' % (a, show(v), show_facts(p.facts)), f)
        ctx.expect(done, 'conv-attrs', name, 'the element is never converted', f)
    # timing of containers
    for name, out in (('body_type', 'd_body_type'), ('div_type', 'd_div_type')):
        attrs = [a for a in ('begin', 'end', 'dur') if a in sch.attrs(name) and a not in sch.attrs(out)]
        if attrs:
            _, f = runs(ctx, 'p_type')
            used = set()
            for nm in ('p_type', 'span_type'):
                for p in runs(ctx, nm)[0]:
                    k = ctor_of(p.ret) if p.kind == 'return' and p.ret else None
                    for a in ('begin', 'end'):
                        v = k[2].get(a) if k else None
                        if v is not None and any(x[0] == 'attr' and 'computed' in x[2] for x in subterms(v)):
                            used.add(a)
            ctx.expect(used == {'begin', 'end'}, 'conv-attrs', 'container-timing/%s' % name,
                       'the timing of %s (%s), which EBU-TT-D does not have, does not reach the paragraphs' % (name, ', '.join(attrs)), f)


def clocked(v, src):
    """v is the media time of the time of day src"""
    inner = None
    for x in subterms(v):
        if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm' and x[1][2] == 'get_media_time':
            inner = x
        elif x[0] == 'new' and x[1].endswith('TimingType'):
            pass
    return inner is not None and inner[2] + tuple(y for _, y in inner[3]) == (('attr', src, 'timedelta'),)


@check('C18')
def children(ctx):
    ctx.rule('conv-children', 'converted elements get the converted children of their original, in order and none left out; text is copied')
    c, f = conv(ctx)
    kids = lambda x: x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm' and x[1][2] == 'convert_children' and \
        x[2] + tuple(v for _, v in x[3]) == (E, DS)
    for name, out in PAIRS:
        if name in ('tt_type', 'head_type', 'br_type'):
            continue
        for p in runs(ctx, name)[0]:
            if p.kind != 'return' or p.ret == NONE:
                continue
            k = ctor_of(p.ret)
            if k is None:
                continue
            calls = [e for e in p.events if e.kind == 'call' and e.name == 'convert_children']
            put = [x for x in k[1] if x[0] == 'star' and kids(x[1])]
            if not put:
                put = [e for e in p.events if e.kind == 'call' and e.name in ('append', 'extend') and e.recv == p.ret and e.args and
                       any(kids(x) for x in subterms(e.args[0]))]
            ctx.expect(len(put) == 1 and len(calls) == 1, 'conv-children', name, 'the converted children are used %d times (converted %d times)' % (
                len(put), len(calls)), f)
    # the root: head and body
    for p in runs(ctx, 'tt_type')[0]:
        if p.kind != 'return':
            continue
        k = ctor_of(p.ret)
        if k is None:
            continue
        for a in ('head', 'body'):
            v = k[2].get(a, NONE)
            good = v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'bm' and v[1][2] in ('convert_element', 'convert_' + a) and \
                v[2] + tuple(x for _, x in v[3]) == (('attr', E, a), DS)
            ctx.expect(good, 'conv-children', 'tt_type/%s' % a, 'the %s of the result is %s' % (a, show(v)), f)
        sets = {e.name: e for e in p.events if e.kind == 'setitem' and e.recv == DS}
        conv_at = [e.idx for e in p.events if e.kind == 'call' and e.name in ('convert_element', 'convert_head', 'convert_body')]
        for n in ('timeBase', 'cellResolution'):
            e = sets.get(K(n))
            ctx.expect(e is not None and e.value == ('attr', E, n) and all(e.idx < i for i in conv_at), 'conv-children', 'tt_type/%s' % n,
                       'the %s of the document is not at hand when its elements are converted' % n, f)
    # the head: styling, layout and the rest
    for p in runs(ctx, 'head_type')[0]:
        if p.kind != 'return':
            continue
        src = [e for e in p.events if e.kind == 'loop']
        for e in src:
            item = ('it', e.value, e.name)
            if not kids(e.value):
                continue
            put = [x for x in p.events if x.kind == 'store' and x.recv == p.ret and x.value == item or
                   x.kind == 'call' and x.name == 'append' and x.recv == p.ret and x.args == (item,)]
            ctx.expect(len(put) == 1, 'conv-children', 'head_type/child', 'a child of the head is put %d times into the result; path: %s' % (
                len(put), show_facts(p.facts)), f)
            for x in put:
                if x.kind == 'store':
                    isn = [a for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == item and v and x.name in repr(a[2])]
                    ctx.expect(isn, 'conv-children', 'head_type/%s' % x.name, 'the %s of the head is set to another kind of child' % x.name, x)
    # the children of an element
    g = ctx.prog.find_method(c, 'convert_children')
    ctx.need(g, 'conversion of the children')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'convert_element', '_fix_fontsize'})
    content = ('call', ('bm', E, 'orderedContent'), (), ())
    item = ('it', content, 0)
    val = ('attr', item, 'value')
    n = 0
    for p in ran(ctx, w, g, c):
        text = p.facts.get(('isinst', item, ('ext', 'pyxb.binding.basis.NonElementContent')))
        elem = p.facts.get(('isinst', item, ('ext', 'pyxb.binding.basis.ElementContent')))
        if p.kind != 'return':
            ctx.expect(text is False and elem is False, 'conv-children', 'list/error', 'the conversion of children fails; path: %s' %
                       show_facts(p.facts), g)
            continue
        if not any(e.kind == 'loop' and e.value == content for e in p.events):
            ctx.expect(any(e.kind == 'loopend' and e.value == content for e in p.events), 'conv-children', 'list/all',
                       'not all children are converted', g)
            continue
        n += 1
        app = [e for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv == p.ret]
        if text is True:
            good = len(app) == 1 and (app[0].args == (val,) or app[0].args[0][0] == 'call' and 'copy' in repr(app[0].args[0][1]) and
                                      app[0].args[0][2] == (val,))
            ctx.expect(good, 'conv-children', 'list/text', 'text is not taken over', g)
        elif elem is not False:
            calls = [e for e in p.events if e.kind == 'call' and e.name == 'convert_element']
            good = len(calls) == 1 and calls[0].args + tuple(v for _, v in calls[0].kwargs or ()) == (val, DS)
            ctx.expect(good, 'conv-children', 'list/element', 'a child element is converted %d times' % len(calls), g)
            if good:
                got = calls[0].value
                gone = p.facts.get(('isnone', got)) is True or p.facts.get(('truthy', got)) is False
                ctx.expect(gone and not app or len(app) == 1 and app[0].args == (got,), 'conv-children', 'list/kept',
                           'a converted child is added %d times; path: %s' % (len(app), show_facts(p.facts)), g)
                styled = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == val and 'StyledElementMixin' in repr(a[2])]
                isstyle = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == val and 'style_type' in repr(a[2])]
                fix = [e for e in p.events if e.kind == 'call' and e.name == '_fix_fontsize']
                if app:
                    need = False in styled or True in isstyle
                    ctx.expect(len(fix) == (0 if need else 1), 'conv-children', 'list/font', 'the font size of a child is adjusted %d times; path: %s' % (
                        len(fix), show_facts(p.facts)), g)
                for e in fix:
                    ok = kw_or(ctx, e, 'elem', 0) == val and kw_or(ctx, e, 'celem', 1) == got and kw_or(ctx, e, 'parent', 2) == E
                    ctx.expect(ok, 'conv-children', 'list/font-args', 'the font size of another element is adjusted', e)
    ctx.expect(n >= 3, 'conv-children', 'list', 'children are not converted', g)
    # whatever came before it, a child is kept
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'convert_element', '_fix_fontsize'}, loop=2)
    for p in ran(ctx, w, g, c):
        if p.kind != 'return':
            continue
        for k in (0, 1):
            val = ('attr', ('it', content, k), 'value')
            for e in p.events:
                if e.kind == 'call' and e.name == 'convert_element' and val in e.args + tuple(v for _, v in e.kwargs or ()):
                    got = e.value
                    gone = p.facts.get(('isnone', got)) is True or p.facts.get(('truthy', got)) is False
                    app = [x for x in p.events if x.kind == 'call' and x.name == 'append' and x.recv == p.ret and x.args == (got,)]
                    ctx.expect(len(app) == (0 if gone else 1), 'conv-children', 'list/kept', 'a converted child is added %d times after others; path: %s' % (
                        len(app), show_facts(p.facts)), g)


def initial_size(t):
    """one cell, the initial font size"""
    if 'CellFontSizeType' not in show(t):
        return False
    args = t[3] if t[0] == 'new' else t[2] if t[0] == 'call' else ()
    return args == (K('1c'),) or bool(args) and all(a in (K(1), K(1.0)) for a in args)


def kw_or(ctx, e, name, i):
    v = kw(e, name)
    if v is not None:
        return v
    return e.args[i] if len(e.args) > i else None


@check('C18')
def kinds(ctx):
    ctx.rule('conv-kinds', 'elements EBU-TT-D does not have are left out instead of failing')
    c, f = conv(ctx)
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'convert_children'}, follow=None)
    ps = ran(ctx, w, f, c)
    n = 0
    for p in ps:
        tests = [(a, v) for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == E]
        if tests and not any(v for a, v in tests):
            n += 1
            ctx.expect(p.kind == 'return' and p.ret == NONE, 'conv-kinds', 'unknown', 'an unknown element becomes %s' % (
                show(p.ret) if p.ret else p.kind), f)
    ctx.expect(n, 'conv-kinds', 'unknown/path', 'unknown elements are converted', f)


@check('C18')
def defaults(ctx):
    ctx.rule('conv-defaults', 'a converted head has styling and layout, styling a style and layout a region, added exactly when missing')
    sch = schema_of(ctx)
    for name, kinds_ in CHILD.items():
        paths, f = runs(ctx, name)
        for p in paths:
            if p.kind != 'return':
                continue
            for child, ty in kinds_.items():
                made = [e for e in p.events if e.kind == 'call' and e.value is not None and ctor_of(e.value) and e.value[0] in ('new',) and
                        ctor_of(e.value)[0] == ty]
                put = [e for e in p.events if e.recv == p.ret and (e.kind == 'store' and e.name == child and ctor_of(e.value) and ctor_of(e.value)[0] == ty or
                                                                   e.kind == 'call' and e.name == 'append' and e.args and ctor_of(e.args[0]) and
                                                                   ctor_of(e.args[0])[0] == ty)]
                have = None
                for a, v in p.facts.items():
                    if a[0] == 'in' and ty in show(a[1]):
                        have = v if a[2][0] != 'sub' else None
                    elif a[0] in ('isnone',) and a[1] == ('attr', p.ret, child):
                        have = not v
                    elif a[0] == 'truthy' and (a[1] == ('attr', p.ret, child) or a[1][0] in ('comp', 'any') and ty in show(a[1])):
                        have = v
                if have is None:
                    # looked for in a loop
                    hits = [v for a, v in p.facts.items() if a[0] in ('eq', 'is', 'isinst') and ty in show(a) and 'orderedContent' in repr(a)]
                    ends = [e for e in p.events if e.kind == 'loopend' and 'orderedContent' in show(e.value)]
                    have = True if True in hits else False if ends else None
                ctx.expect(have is not None and bool(put) == (not have), 'conv-defaults', '%s/%s' % (name, child),
                           'a default %s is added %d times; path: %s' % (child, len(put), show_facts(p.facts)), f)
                if put and made:
                    d = put[0].value if put[0].kind == 'store' else put[0].args[0]
                    for t in [d] + [x for x in ctor_of(d)[1]]:
                        k = ctor_of(t)
                        if k and k[0] in ('d_region_type', 'd_style_type'):
                            vals = dict(k[2])
                            vals.update({e.name: e.value for e in p.events if e.kind == 'store' and e.recv == t})
                            for a in sorted(sch.required(k[0])):
                                ctx.expect(vals.get(a, NONE) != NONE, 'conv-defaults', '%s/%s-%s' % (name, k[0], a),
                                           'the default element lacks its required %s' % a, put[0])
                if put:
                    src = [e for e in p.events if e.kind in ('loopend', 'loop') and 'convert_children' in show(e.value)]
                    ctx.expect(all(put[0].idx > e.idx for e in src), 'conv-defaults', '%s/%s-after' % (name, child),
                               'the default is added before the children are known', put[0])


@check('C18')
def fonts(ctx):
    ctx.rule('conv-fonts', 'generated styles are kept per document, told apart by everything they contain, referred to first and all put '
                           'into the result')
    c, f = conv(ctx)
    sch = schema_of(ctx)
    # per document
    g = ctx.prog.find_method(c, 'convert_document')
    ctx.need(g, 'conversion of a document')
    store = None
    n = 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque={'convert_element'}), g, c):
        if p.kind != 'return':
            continue
        n += 1
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'convert_element']
        given = ('p', 'dataset')
        ctx.expect(len(calls) == 1 and calls[0].args[:1] == (('p', 'root_element'),) and p.ret == calls[0].value, 'conv-fonts', 'document',
                   'the document is converted %d times' % len(calls), g)
        if not calls:
            continue
        st = [e for e in p.events if e.kind == 'store' and e.recv == SELF]
        val = calls[0].args[1] if len(calls[0].args) > 1 else kw(calls[0], 'dataset')
        for e in st:
            store = e.name
            ctx.expect(e.idx < calls[0].idx, 'conv-fonts', 'document/first', 'the data of the document is set after its conversion', e)
        fresh = st and (st[-1].value[0] == 'dict' or st[-1].value == given and p.facts.get(('isnone', given)) is not True)
        ctx.expect(bool(fresh), 'conv-fonts', 'document/fresh', 'data of an earlier document is used; path: %s' % show_facts(p.facts), g)
        ctx.expect(not st or val == st[-1].value or val == ('attr', SELF, store), 'conv-fonts', 'document/same',
                   'the elements are converted with other data', g)
    ctx.expect(n and store, 'conv-fonts', 'document/data', 'the data of a document is not set before its conversion', g)
    if not store:
        return
    # put into the result
    root = ('attr', SELF, store)
    for p in runs(ctx, 'tt_type')[0]:
        if p.kind != 'return':
            continue
        adds = [e for e in p.events if e.kind == 'call' and e.name in ('extend', 'append') and show(e.recv).endswith('.styling.style') or
                e.kind == 'call' and e.name in ('extend', 'append') and show(e.recv).endswith('.style') and mentions(e.args[0], root)]
        empty = any(a[0] == 'truthy' and v is False and mentions(a[1], root) for a, v in p.facts.items()) or any(
            a[0] == 'in' and v is False and a[2] == root for a, v in p.facts.items()) or any(
            e.kind == 'loopend' and e.name == 0 and mentions(e.value, root) for e in p.events)
        for x in p.events:
            if x.kind == 'store' and x.name in ('head', 'styling') and x.recv != SELF:
                old = ('attr', x.recv, x.name)
                ctx.expect(p.facts.get(('isnone', old)) is True or p.facts.get(('truthy', old)) is False or x.recv[0] == 'new' and
                           x.recv != p.ret, 'conv-fonts', 'linked/%s' % x.name, 'the %s of the result is replaced; path: %s' % (
                               x.name, show_facts(p.facts)), x)
        whole = [e for e in adds if e.args and mentions(e.args[0], root)]
        ctx.expect(empty or len(whole) == 1, 'conv-fonts', 'linked', 'the generated styles are put %d times into the result; path: %s' % (
            len(whole), show_facts(p.facts)), f)
        done = [e.idx for e in p.events if e.kind == 'call' and e.name in ('convert_element', 'convert_body', 'convert_head')]
        looked = [e.idx for e in p.events if e.kind == 'call' and e.recv == root]
        ctx.expect(all(e.idx > i for e in whole for i in done), 'conv-fonts', 'linked/last', 'the styles are put in before all are known', f)
        for e in whole:
            v = e.args[0]
            ctx.expect(e.name == 'extend' and every_value(v) or e.name == 'append' and (
                v[0] == 'it' or v[0] == 'sub' and v[2][0] == 'it'), 'conv-fonts', 'linked/values', 'the styles put in are %s' % show(v), e)
            # they end up in the head of the result
            t = e.recv
            while t[0] == 'attr':
                t = t[1]
            held = t == p.ret or any(x.kind == 'store' and x.value == t for x in p.events)
            ctx.expect(held, 'conv-fonts', 'linked/where', 'the styles are put into %s, which the result does not contain' % show(e.recv), e)
    # adjusting an element
    h = ctx.prog.find_method(c, '_fix_fontsize')
    ctx.need(h, 'font size adjustment')
    el, cel, par = ('p', 'elem'), ('p', 'celem'), ('p', 'parent')
    n = 0
    for name in ('p_type', 'span_type'):
        k = ctx.prog.cls('bindings:' + name)
        w = ctx.walker(types={SELF: c, el: k}, noexc=True, opaque={'computed_style', 'vertical', 'horizontal'})
        own = ('attr', ('attr', el, 'computed_style'), 'fontSize')
        for p in ran(ctx, w, h, c):
            if p.kind != 'return':
                ctx.bad('conv-fonts', name, 'the adjustment fails; path: %s' % show_facts(p.facts), h)
                continue
            eqs = [(a, v) for a, v in p.facts.items() if a[0] == 'eq' and own in a[1:]]
            refs = [e for e in p.events if e.kind == 'call' and e.name in ('insert', 'append') and e.recv == ('attr', cel, 'style')] + \
                [e for e in p.events if e.kind == 'store' and e.recv == cel and e.name == 'style']
            base = None
            for a, v in eqs:
                base = a[2] if a[1] == own else a[1]
                good = base == ('attr', ('attr', par, 'computed_style'), 'fontSize') if name == 'span_type' else initial_size(base)
                ctx.expect(good, 'conv-fonts', name + '/base', 'the font size is compared with %s' % show(base), h)
            ctx.expect(len(eqs) == 1 and len(refs) == (0 if eqs[0][1] else 1), 'conv-fonts', name + '/needed',
                       'a generated style is referred to %d times; path: %s' % (len(refs), show_facts(p.facts)), h)
            if not refs or not eqs:
                continue
            n += 1
            e = refs[0]
            none = p.facts.get(('isnone', ('attr', cel, 'style')))
            if e.kind == 'store':
                v = e.value
                only = v[0] == 'lst' and len(v[2]) == 1
                both = v[0] == 'bin' or 'style' in show(v) and mentions(v, ('attr', cel, 'style'))
                ctx.expect(only and (none is True or p.facts.get(('truthy', ('attr', cel, 'style'))) is False) or both, 'conv-fonts', name + '/kept',
                           'the styles of the element become %s; path: %s' % (show(v), show_facts(p.facts)), e)
                ident = v[2][0] if only else None
            else:
                ctx.expect(none is False or p.facts.get(('truthy', ('attr', cel, 'style'))) is True, 'conv-fonts', name + '/kept',
                           'a reference is added although there may be no list of references', e)
                ctx.expect(e.name == 'insert' and e.args[:1] == (K(0),), 'conv-fonts', name + '/first',
                           'the generated style is not the first reference, so it overrides others', e)
                ident = e.args[-1]
            # the style: stored in the data of the document under its own id
            saved = [x for x in p.events if x.kind == 'setitem' and mentions(x.recv, root)]
            found = [a for a, v in p.facts.items() if a[0] == 'in' and v is True and mentions(a[2], root)]
            got = [a for a, v in p.facts.items() if a[0] == 'isnone' and v is False and a[1][0] == 'call' and mentions(a[1], root)]
            if saved:
                s = saved[0]
                k2 = ctor_of(s.value)
                ctx.expect(len(saved) == 1 and k2 is not None and k2[0] == 'd_style_type', 'conv-fonts', name + '/new', 'the generated style is %s' % show(s.value), s)
                if k2:
                    vals = dict(k2[2])
                    vals.update({x.name: x.value for x in p.events if x.kind == 'store' and x.recv == s.value})
                    ctx.expect(vals.get('id') == s.name, 'conv-fonts', name + '/id', 'the style is kept under %s but its id is %s' % (
                        show(s.name), show(vals.get('id', NONE))), s)
                    ctx.expect(ident in (vals.get('id'), ('attr', s.value, 'id')), 'conv-fonts', name + '/ref', 'the reference is %s' % (
                        show(ident) if ident else None), e)
                    fs = vals.get('fontSize', NONE)
                    ctx.expect(mentions(fs, own) and base is not None and mentions(fs, base), 'conv-fonts', name + '/value',
                               'the font size of the generated style is %s' % show(fs), s)
                    lh = ('attr', ('attr', el, 'computed_style'), 'lineHeight')
                    cells = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == lh and 'Cell' in repr(a[2])]
                    got_lh = vals.get('lineHeight', NONE)
                    ctx.expect(cells and (mentions(got_lh, lh) and mentions(got_lh, own)) == cells[0], 'conv-fonts', name + '/line-height',
                               'the line height of the generated style is %s; path: %s' % (show(got_lh), show_facts(p.facts)), s)
                    if cells and cells[0]:
                        ks = {x for x in subterms(core_value(got_lh)) if is_k(x)}
                        ctx.expect(K(100) in ks and all(x[1] in (100, 1, None) for x in ks if not isinstance(x[1], str)), 'conv-fonts', name + '/percent',
                                   'the line height of the generated style is %s' % show(got_lh), s)
                    for a, v in vals.items():
                        if a == 'id':
                            continue
                        ctx.expect(a in sch.attrs('d_style_type'), 'conv-fonts', '%s/%s' % (name, a), 'a style has no %s' % a, s)
                        inner = core_value(v)
                        ctx.expect(contains(s.name, inner), 'conv-fonts', '%s/key-%s' % (name, a),
                                   'styles of different %s (%s) are kept under one id %s' % (a, show(inner), show(s.name)), s)
            else:
                ctx.expect(found or got, 'conv-fonts', name + '/known', 'no style is generated although none is known', h)
                inplace = [x for x in p.events if x.kind == 'store' and x.recv not in (cel, SELF) and x.name in sch.attrs('d_style_type')]
                ctx.expect(not inplace, 'conv-fonts', name + '/shared', 'a style other elements refer to is changed', inplace[0] if inplace else h)
                key = found[0][1] if found else None
                if key is not None:
                    ok = ident is not None and (ident == key or ident[0] == 'attr' and ident[2] == 'id' and mentions(ident[1], key))
                    ctx.expect(ok, 'conv-fonts', name + '/ref', 'the reference is %s' % (show(ident) if ident else None), e)
    ctx.expect(n >= 4, 'conv-fonts', 'adjusted', 'paragraphs and spans of other font sizes are not adjusted', h)


def every_value(v):
    """the values of a dictionary, all of them"""
    if v[0] == 'call' and v[1][0] == 'bm' and v[1][2] in ('values', 'itervalues', 'viewvalues'):
        return True
    if v[0] == 'call' and v[1][0] == 'ext' and v[1][1] in ('list', 'tuple', 'sorted', 'iter', 'reversed') and v[2]:
        return every_value(v[2][0])
    if v[0] == 'comp' and not v[4] and len(v[3]) == 1:
        src, x = v[3][0], v[2]
        return x[0] == 'it' and x[1] == src and every_value(src) or x[0] == 'sub' and x[2][0] == 'it' and x[2][1] in (x[1], src) and \
            (src == x[1] or every_value(src) or src[0] == 'call' and x[1] in subterms(src))
    return False


def contains(key, v):
    """different v give different keys: v is written into the key as it is"""
    if key == v:
        return True
    if key[0] in ('fmt', 'str', 'tup'):
        return any(isinstance(x, tuple) and x and contains(x, v) for x in (key[1] if isinstance(key[1], tuple) and key[1] and isinstance(
            key[1][0], tuple) else key[1:]))
    if key[0] == 'call' and key[1] in (('ext', 'str'), ('ext', 'repr'), ('ext', 'unicode'), ('ext', 'six.text_type'), ('ext', 'tuple')):
        return any(contains(x, v) for x in key[2])
    if key[0] == 'bin' and key[1] in ('+', 'Add', '%', 'Mod'):
        return contains(key[2], v) or contains(key[3], v)
    return False


def core_value(v):
    """the value a typed value is made of"""
    if v[0] == 'new' and len(v[3]) == 1 and not v[4]:
        return core_value(v[3][0])
    if v[0] == 'call' and v[1][0] == 'ext' and len(v[2]) == 1 and not v[3]:
        return core_value(v[2][0])
    return v


@check('C18')
def colours(ctx):
    ctx.rule('conv-colours', 'every colour name of the schema has an RGBA value')
    import xml.etree.ElementTree as ET
    import ast
    import glob
    import os
    names = None
    XS = '{http://www.w3.org/2001/XMLSchema}'
    for fn in glob.glob(os.path.join(ctx.prog.root, 'ebu_tt_live', 'xsd', '*.xsd')):
        for t in ET.parse(fn).getroot().iter(XS + 'simpleType'):
            if t.get('name') == 'namedColorType':
                names = {x.get('value') for x in t.iter(XS + 'enumeration')}
    ctx.need(names, 'colour names of the schema')
    f = ctx.prog.func('bindings._ebuttdt:named_color_to_rgba')
    w = ctx.walker(noexc=True)
    table = None
    for m in [f.mod]:
        for d in ast.walk(m.tree):
            if isinstance(d, ast.Dict) and len(d.keys) > 5 and all(isinstance(k, ast.Constant) and isinstance(v, ast.Constant)
                                                                 for k, v in zip(d.keys, d.values)):
                t = {k.value: v.value for k, v in zip(d.keys, d.values)}
                if len(set(t) & names) > 5:
                    table = t, d
    ctx.need(table, 'table of colours')
    css = dict(transparent='00000000', black='000000ff', silver='c0c0c0ff', gray='808080ff', white='ffffffff', maroon='800000ff', red='ff0000ff',
               purple='800080ff', fuchsia='ff00ffff', magenta='ff00ffff', green='008000ff', lime='00ff00ff', olive='808000ff', yellow='ffff00ff',
               navy='000080ff', blue='0000ffff', teal='008080ff', aqua='00ffffff', cyan='00ffffff')
    for n in sorted(names):
        v = table[0].get(n)
        ctx.expect(v is not None and v.lstrip('#').lower() == css.get(n, v.lstrip('#').lower()), 'conv-colours', n, 'the colour %s becomes %s' % (n, v), f)


@check('C18')
def used(ctx):
    ctx.rule('conv-use', 'encoder, adapter and conversion function hand on the converted binding of the document given, converted with their '
                         'clock, in the form configured')
    conv_call = lambda t: t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][2] == 'convert_document'

    def look(t, doc, label, where, p):
        # the document handed on: a new EBU-TT-D document of the converted binding
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'convert_document']
        ctx.expect(len(calls) == 1 and calls[0].args + tuple(v for _, v in calls[0].kwargs or ()) == (('attr', doc, 'binding'),), 'conv-use',
                   label + '/converted', 'the conversion is called with %s' % [show(x) for e in calls for x in e.args], where)
        if len(calls) != 1:
            return
        got = [e for e in p.events if e.kind in ('store',) and e.recv == t and e.value == calls[0].value]
        made = t is not None and (mentions(t, calls[0].value) or got)
        ctx.expect(bool(made), 'conv-use', label + '/result', 'the document handed on is %s' % (show(t) if t else None), where)

    # the encoder
    c = ctx.prog.cls('node.encoder:EBUTTDEncoder')
    f = ctx.prog.find_method(c, 'process_document')
    ctx.need(f, 'encoder')
    n = 0
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'is_document', 'limit_sequence_to_one', 'convert_document'})
    for p in ran(ctx, w, f, c):
        out = [e for e in p.events if e.kind == 'call' and e.name == 'emit_data']
        for e in out:
            n += 1
            t = kw_or(ctx, e, 'data', 0)
            look(t, ('p', 'document'), 'encoder', e, p)
            ns = [x for x in p.events if x.kind == 'store' and x.recv == t and x.name == '_implicit_ns' or
                  x.kind == 'call' and x.name == 'set_implicit_ns' and x.recv == t]
            ctx.expect(ns and ns[-1].idx < e.idx, 'conv-use', 'encoder/namespace', 'the namespace option is not applied to the document', e)
            for x in ns:
                v = x.value if x.kind == 'store' else x.args[0]
                ctx.expect(v[0] == 'attr' and v[1] == SELF, 'conv-use', 'encoder/namespace-value', 'the namespace option is %s' % show(v), x)
    ctx.expect(n, 'conv-use', 'encoder', 'the encoder emits nothing', f)
    # its clock
    g = ctx.prog.find_method(c, '__init__')
    w = ctx.walker(types={SELF: c}, noexc=True)
    zero = ('p', 'media_time_zero')
    for p in ran(ctx, w, g, c):
        if p.kind != 'return':
            continue
        news = [x for e in p.events if e.kind in ('call', 'store') and e.value is not None for x in subterms(e.value)
                if x[0] == 'new' and x[1].endswith('EBUTT3EBUTTDConverter')]
        clocks = {v for x in news for v in list(x[3]) + [b for _, b in x[4]]}
        ctx.expect(len(clocks) == 1 and all(x[0] == 'new' and x[1].endswith('MediaClock') for x in clocks), 'conv-use', 'encoder/clock',
                   'the encoder converts with %s' % [show(x) for x in clocks], g)
        maps = [e for e in p.events if e.kind == 'store' and e.recv in clocks and e.name == '_reference_mapping'] + \
            [e for e in p.events if e.kind == 'call' and e.name == 'adjust_time' and e.recv in clocks]
        last = maps[-1] if maps else None
        v = None if last is None else last.value if last.kind == 'store' else ('tup', tuple(last.args))
        ctx.expect(v is not None and mentions(v, zero) or p.facts.get(('isnone', zero)) is True, 'conv-use', 'encoder/zero', 'the media time zero configured is not used', g)
        ns = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value == ('p', 'default_ns')]
        ctx.expect(len(ns) == 1, 'conv-use', 'encoder/option', 'the namespace option is not kept', g)
        for q in ps_ns(ctx, c):
            ctx.expect(not ns or q == ns[0].name, 'conv-use', 'encoder/option-used', 'the namespace applied is %s' % q, g)
    # the function
    f = ctx.prog.func('documents.converters:ebutt3_to_ebuttd')
    w = ctx.walker(noexc=True, opaque={'convert_document'})
    for p in ran(ctx, w, f, None):
        if p.kind != 'return':
            continue
        look(p.ret, ('p', 'ebutt3_in'), 'function', f, p)
        news = [x for e in p.events if e.recv is not None and e.name == 'convert_document' for x in subterms(e.recv) if x[0] == 'new']
        ctx.expect(any(mentions(x, ('p', 'media_clock')) for x in news), 'conv-use', 'function/clock', 'the clock given is not used', f)
        ctx.expect(any(e.kind in ('call', 'follow') and e.name in ('validate', 'validateBinding') for e in p.events), 'conv-use', 'function/valid',
                   'the result is not validated', f)
    # the adapter
    c = ctx.prog.cls('adapters.document_data:EBUTT3toEBUTTDAdapter')
    f = ctx.prog.find_method(c, 'convert_data')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'convert_document'})
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            continue
        t = p.ret[1][0] if p.ret[0] == 'tup' and p.ret[1] else None
        look(t, ('p', 'data'), 'adapter', f, p)
        rest = p.ret[1][1] if p.ret[0] == 'tup' and len(p.ret[1]) == 2 else NONE
        ctx.expect('kwargs' in show(rest) or rest[0] == 'dict' and any('kwargs' in show(x) for x in w.dict_items(rest, p.state)[1]), 'conv-use', 'adapter/kwargs',
                   'the details of the document are dropped', f)


def ps_ns(ctx, c):
    """attributes of the encoder applied as the namespace option"""
    f = ctx.prog.find_method(c, 'process_document')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'is_document', 'limit_sequence_to_one', 'convert_document'})
    out = set()
    for p in w.run(f, c):
        for x in p.events:
            v = x.value if x.kind == 'store' and x.name == '_implicit_ns' else x.args[0] if x.kind == 'call' and x.name == 'set_implicit_ns' else None
            if v is not None and v[0] == 'attr':
                out.add(v[2])
    return out
