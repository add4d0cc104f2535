# -*- coding: utf-8 -*-
"""C16: style resolution (order of styles, specified and computed style of every styled element)."""
from ..core import *
from ..schema import schema_of
from .copying import ran
from .contract import getter
from .dedupe import closure

STYLE = 'bindings:style_type'
SPEC, PARENT, REGION = ('p', 'specified_style'), ('p', 'parent_computed_style'), ('p', 'region_computed_style')
ALONE = {'backgroundColor', 'padding', 'unicodeBidi'}           # not inherited
DEFAULTS = {'backgroundColor': 'transparent', 'padding': '0px', 'unicodeBidi': 'normal', 'color': None, 'direction': 'ltr',
            'fontFamily': 'default', 'fontStyle': 'normal', 'fontWeight': 'normal', 'linePadding': '0c', 'multiRowAlign': 'auto',
            'textAlign': 'start', 'textDecoration': 'none', 'wrapOption': 'wrap', 'lineHeight': 'normal'}
ERROR = 'SemanticValidationError'
LOOKUP = 'get_element_by_id'


def style_attrs(ctx):
    return sorted(set(schema_of(ctx).attrs('style')) - {'id', 'style'})


def final(p, obj, name):
    """value of obj.name when the path ends"""
    for k, v in p.heap.items():
        if isinstance(k, tuple) and k[0] == obj and k[1] == name:
            return v
    return None


# --------------------------------------------------------------------------- specified style
def resolve(ctx):
    c = ctx.prog.cls(STYLE)
    f = ctx.prog.find_method(c, 'resolve_styles')
    ctx.need(f is not None and len(f.params) >= 2, 'resolve_styles of ' + c.name)
    attrs = style_attrs(ctx)
    new = [p.ret for p in ctx.walker(types={SELF: c}, noexc=True, follow=lambda fn: fn.cls is c).run(f, c, args={f.params[1]: ('tup', ())}) if p.kind == 'return']
    if not ctx.expect(new and new[0] is not None and new[0][0] == 'new', 'spec-first', 'start', 'the references are not resolved to a new style', f):
        return
    new = new[0]
    ctx.expect(not new[3] and not [k for k, _ in new[4] if k in attrs], 'spec-first', 'start', 'the resolved style starts with values of its own', f)
    one, two = ('p', 'first style'), ('p', 'second style')
    for x in attrs:
        facts = {}
        for o in (one, two, new):
            for y in attrs:
                if y != x:
                    facts[('isnone', ('attr', o, y))] = True
        facts[('isnone', ('attr', new, x))] = True
        w = ctx.walker(types={SELF: c, one: c, two: c}, noexc=True, facts=facts, maxstates=400)
        try:
            ps = w.run(f, c, args={f.params[1]: ('tup', (one, two))})
        except AnalysisError:
            ctx.bad('spec-first', x, 'the styles are not taken one by one in their order', f)
            continue
        ctx.account(w, ps)
        vals = [('attr', o, x) for o in (one, two)]
        seen = set()
        for p in ps:
            if p.kind != 'return':
                ctx.bad('spec-first', x, 'resolving styles fails; path: ' + show_facts(p.facts), f)
                continue
            got = final(p, p.ret, x) or NONE
            seen.add(got)
            there = [Present(v).ev(p.facts) for v in vals]
            if got == vals[0]:
                ok = True
            elif got == vals[1]:
                ok = there[0] is False
            else:
                ok = (got == NONE or got == ('attr', new, x)) and there == [False, False]
            ctx.expect(ok, 'spec-first', x, 'the specified %s is %s; path: %s' % (x, show(got), brief(p, facts)), f)
            for k, v in p.heap.items():
                if isinstance(k, tuple) and k[0] == p.ret and k[1] in attrs and k[1] != x:
                    ctx.expect(not any(mentions(v, t) for t in vals), 'spec-first', x, 'it is stored as ' + k[1], f)
                if isinstance(k, tuple) and k[0] in (one, two) and k[1] in attrs:
                    ctx.bad('spec-first', x, 'the referenced style itself is changed', f)
        for v in vals:
            ctx.some(v in seen, 'spec-first', x, 'the %s is never used' % show(v), f)


def member(p, item, lst):
    """was item looked up in the list built on the path?"""
    v = p.facts.get(('in', item, lst))
    if v is None and lst[0] == 'lst' and lst[2]:
        vs = [implied(canon_eq(item, x), p.facts) for x in lst[2]]
        v = True if True in vs else None if None in vs else False
    return v


# --------------------------------------------------------------------------- chain of styles
def chain(ctx):
    c = ctx.prog.cls(STYLE)
    f = ctx.prog.find_method(c, 'ordered_styles')
    ctx.need(f is not None, 'ordered_styles of ' + c.name)
    ids = ('attr', SELF, 'style')
    w = ctx.walker(types={SELF: c}, noexc=False, opaque={LOOKUP, f.name}, raises={LOOKUP: ('LookupError',)})
    ps = ran(ctx, w, f, c)
    locked = lookups = missing = appended = 0
    for p in ps:
        lock = [a for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1][0] == 'bm' and a[1][1][2] in ('locked', 'acquire')]
        calls = [e for e in p.events if e.kind == 'call' and e.name == LOOKUP]
        inner = [e for e in p.events if e.kind == 'call' and e.name == f.name]
        open_ = [a for a in lock if p.facts[a] == (a[1][1][2] == 'acquire')]
        ctx.expect(open_ or not inner, 'chain-circle', 'guard', 'styles are followed without looking at whether this one is being followed already', f)
        if p.kind == 'raise':
            name = w.exc_name(p.exc)
            if lock and not open_ and not calls:
                locked += 1
                ctx.expect(name.endswith(ERROR), 'chain-circle', 'error', 'a circle of styles ends in ' + name, f)
            elif any(e.kind == 'mayraise' and e.name == LOOKUP for e in p.events) or name.endswith('LookupError') or calls:
                missing += 1
                ctx.expect(name.endswith(ERROR), 'chain-missing', 'error', 'a reference to a missing style ends in ' + name, f)
            continue
        if p.kind != 'return':
            continue
        cached = p.ret[0] == 'attr' and p.ret[1] == SELF
        if cached:
            ctx.expect(Present(p.ret).ev(p.facts), 'chain-order', 'cache', 'a chain that was not computed is returned', f)
            continue
        cl = list(p.ret[2]) if p.ret[0] == 'lst' else []
        ctx.expect(cl[:1] == [SELF], 'chain-order', 'own', 'a style does not come before the ones it refers to; path: ' + show_facts(p.facts), f)
        if not any(e.kind in ('loop', 'loopend') and base_iter(e.value) == ids for e in p.events):
            ctx.expect(Present(ids).ev(p.facts) is False, 'chain-order', 'lookup', 'the styles referred to are not looked at; path: ' + show_facts(p.facts), f)
        if any(e.kind == 'loop' and base_iter(e.value) == ids for e in p.events):
            ends = [e for e in p.events if e.kind == 'loopend' and base_iter(e.value) == ids]
            ctx.expect(len(calls) == 1 and ends and not any(e.kind == 'except' for e in p.events), 'chain-missing', 'lookup',
                       'a reference is ignored; path: ' + show_facts(p.facts), f)
        for e in calls:
            lookups += 1
            have = list(e.args) + [v for _, v in e.kwargs or ()]
            ctx.expect(('it', ids, 0) in have, 'chain-order', 'lookup', 'another style than the one referred to is taken', e)
            ctx.expect(('cls', c.qualname) in have, 'chain-order', 'kind', 'the reference may lead to an element that is not a style', e)
            # the chain of that style follows in its order
        for e in inner:
            src = ('call',) + tuple(e.value[1:]) if e.value and e.value[0] == 'call' else None
            its = [x for x in p.events if x.kind == 'loop' and x.value[0] == 'call' and x.value[1][0] == 'bm' and x.value[1][2] == f.name]
            whole = [x for x in p.events if x.kind == 'call' and x.recv == p.ret and x.name == 'extend']
            for x in its:
                item = ('it', x.value, x.name)
                dup = member(p, item, p.ret)
                put = [y for y in p.events if y.kind == 'call' and y.recv == p.ret and y.args and y.args[-1] == item]
                ctx.expect(all(y.name == 'append' for y in put), 'chain-order', 'append', 'an inherited style comes before others', x)
                if dup is False:
                    appended += 1
                ctx.expect(dup is not None and bool(put) == (dup is False), 'chain-order', 'append',
                           'an inherited style is left out or repeated; path: ' + show_facts(p.facts), x)
                ctx.expect(any(y.kind == 'loopend' and y.value == x.value for y in p.events), 'chain-order', 'append', 'the chain is cut short', x)
            for x in whole:
                a = x.args[0]
                good = a[0] == 'comp' and a[2] == ('each', a[3][0], 0) or a[0] == 'comp' and len(a[3]) == 1
                neg = good and len(a[4]) == 1 and a[4][0][0][0] == 'in' and not a[4][0][1] and a[4][0][0][2] == p.ret
                ctx.expect(neg, 'chain-order', 'append', 'inherited styles are left out or repeated', x)
                appended += bool(neg)
    ctx.some(locked, 'chain-circle', 'error', 'a circle of styles is not reported', f)
    ctx.some(lookups, 'chain-order', 'lookup', 'the styles a style refers to are not looked up', f)
    ctx.some(missing, 'chain-missing', 'error', 'a reference to a missing style is not reported', f)
    ctx.some(appended, 'chain-order', 'append', 'inherited styles are not taken over', f)
    # validation starts with a fresh lock and without chains of an earlier state
    g = ctx.prog.find_method(c, '_semantic_before_traversal')
    ctx.need(g is not None, 'validation hook of ' + c.name)
    cache = {p.ret[2] for p in ps if p.kind == 'return' and p.ret[0] == 'attr' and p.ret[1] == SELF}
    guards = {a[1][1][1][2] for p in ps for a in p.facts if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1][0] == 'bm' and
              a[1][1][2] in ('locked', 'acquire') and a[1][1][1][0] == 'attr'}
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque={'_semantic_register_id', '_semantic_check_sizing_type'}), g, c):
        if p.kind != 'return':
            continue
        for a in cache:
            ctx.expect(final(p, SELF, a) == NONE, 'chain-order', 'fresh', 'a chain computed before a change is used again after it', g)
        for a in guards:
            v = final(p, SELF, a)
            ctx.expect(v is not None and v[0] in ('call', 'new') and v != NONE, 'chain-circle', 'fresh', 'validation does not start with an open lock', g)


# --------------------------------------------------------------------------- computed style
def scenario(attrs, x):
    facts = {}
    for o in (SPEC, PARENT, REGION):
        for y in attrs:
            if y != x:
                facts[('isnone', ('attr', o, y))] = True
                facts[('in', K(y), ('attr', o, 'default_attrs'))] = False
    return facts


def marks(p, obj, name):
    """the value is registered as a default of obj"""
    for e in p.events:
        if e.kind == 'call' and e.name in ('add', 'append') and e.args == (K(name),):
            r = e.recv
            if r[0] == 'attr' and r[1] == obj or any(isinstance(k, tuple) and k[0] == obj and v == r for k, v in p.heap.items()):
                return True
    return False


def available(p, obj, x):
    """the object has a value for x that is not just the default"""
    there = [Present(obj).ev(p.facts)]
    val = ('attr', obj, x)
    v = Present(val).ev(p.facts)
    d = p.facts.get(('in', K(x), ('attr', obj, 'default_attrs')))
    if there[0] is False or v is False or d is True:
        return False
    if obj == SPEC:
        return v
    if there[0] and v and d is False:
        return True
    return None


def base_value(v):
    """strips the conversions of a line height"""
    return v


def computed(ctx):
    c = ctx.prog.cls(STYLE)
    f = ctx.prog.find_method(c, 'compute_style')
    ctx.need(f is not None and {'specified_style', 'parent_computed_style', 'region_computed_style', 'defer_font_size'} <= set(f.params),
             'compute_style of ' + c.name)
    attrs = style_attrs(ctx)
    for x in attrs:
        if x == 'fontSize':
            continue
        facts = scenario(attrs, x)
        ctx.expect(x in DEFAULTS, 'computed', x, 'a style attribute without a rule for its computed value', f)
        for defer in (False, True):
            if defer and x != 'lineHeight':
                continue
            w = ctx.walker(facts=facts, noexc=True, opaque={'pixels_to_cells'})
            ps = w.run(f, c, args={'defer_font_size': K(defer)})
            ctx.account(w, ps)
            used = set()
            for p in ps:
                if p.kind == 'raise' and not (x == 'lineHeight'):
                    ctx.bad('computed', x, 'computing the style fails; path: ' + brief(p, facts), f)
                if p.kind != 'return':
                    continue
                got = final(p, p.ret, x)
                if got is None:
                    ctx.bad('computed', x, 'no computed value; path: ' + brief(p, facts), f)
                    continue
                order = [SPEC] if x in ALONE else [SPEC, PARENT, REGION]
                src = [o for o in (SPEC, PARENT, REGION) if mentions(got, ('attr', o, x))]
                if len(src) > 1:
                    ctx.bad('computed', x, 'the computed value mixes styles: ' + show(got), f)
                    continue
                if not src:
                    got_default = got == K(DEFAULTS.get(x)) or got[0] == 'new' and got[3][:1] == (K(DEFAULTS.get(x)),)
                    ctx.expect(got_default, 'computed', x, 'the default is %s, not %s' % (show(got), DEFAULTS.get(x)), f)
                    ctx.expect(marks(p, p.ret, x), 'computed-default', x, 'the default is not told apart from a value somebody gave', f)
                    for o in order:
                        ctx.expect(available(p, o, x) is False, 'computed', x, 'the default is used although the %s may have a value; path: %s' % (
                            WHO[o], brief(p, facts)), f)
                    used.add(None)
                    continue
                o = src[0]
                used.add(o)
                ctx.expect(o in order, 'computed', x, 'an attribute that is not inherited is taken from the ' + WHO[o], f)
                if o not in order:
                    continue
                for q in order[:order.index(o)]:
                    ctx.expect(available(p, q, x) is False, 'computed', x, 'the value of the %s is used although the %s may have one; path: %s' % (
                        WHO[o], WHO[q], brief(p, facts)), f)
                ctx.expect(available(p, o, x), 'computed', x, 'the value of the %s is used although it may be missing or only a default; path: %s' % (
                    WHO[o], brief(p, facts)), f)
                ctx.expect(not marks(p, p.ret, x), 'computed-default', x, 'a value somebody gave is registered as a default', f)
                if x != 'lineHeight':
                    ctx.expect(got == ('attr', o, x), 'computed', x, 'the value is changed: ' + show(got), f)
                else:
                    line_height(ctx, p, got, ('attr', o, x), defer, f)
            for o in [None, SPEC] if x in ALONE else [None, SPEC, PARENT, REGION]:
                ctx.some(o in used, 'computed', x, 'the value of the %s is never used' % WHO[o], f)


WHO = {None: 'default', SPEC: 'specified style', PARENT: 'parent', REGION: 'region'}


def brief(p, facts):
    return show_facts({a: v for a, v in p.facts.items() if a not in facts})[:600]


def kinds_of(p, t):
    """what the tests on the path say about the unit of t: {unit: bool}"""
    out = {}
    for a, v in p.facts.items():
        if a[0] == 'isinst' and a[1] == t:
            out[unit(a[2])] = v
    return out


def unit(cls):
    n = str(cls[1] if isinstance(cls, tuple) and len(cls) > 1 else cls).lower()
    return 'pct' if 'percentage' in n else 'px' if 'pixel' in n else 'cell' if 'cell' in n else '?'


def factors(t):
    """product -> list of factors"""
    if t[0] == 'bin' and t[1] in ('*', 'Mult'):
        return factors(t[2]) + factors(t[3])
    return [t]


def in_cells(t):
    """CellX(*pixels_to_cells(v, extent, cells)) -> v"""
    if t[0] != 'new' or 'ell' not in t[1].rsplit('.', 1)[-1]:
        return None
    for a in t[3]:
        if a[0] == 'star' and a[1][0] == 'call' and str(a[1][1][1]).endswith('pixels_to_cells') or a[0] == 'star' and 'pixels_to_cells' in str(a[1][1]):
            args = a[1][2]
            kws = dict(a[1][3])
            v = args[0] if args else None
            rest = list(args[1:]) + list(kws.values())
            if any(r[0] == 'attr' and r[2] == 'extent' for r in rest) and any(r[0] == 'attr' and r[2] == 'cellResolution' for r in rest):
                return v if v is not None else [r for r in kws.values() if r[0] != 'attr' or r[2] not in ('extent', 'cellResolution')][0]
    return None


def line_height(ctx, p, got, val, defer, f):
    k = kinds_of(p, val)
    px = in_cells(got)
    if px is not None:
        ctx.expect(px == val and k.get('px'), 'computed-units', 'lineHeight', 'a line height is converted from pixels although it is not known to be '
                   'in pixels; path: ' + show_facts(p.facts)[-300:], f)
        return
    fs = factors(got)
    if len(fs) > 1:
        ctx.expect(k.get('pct'), 'computed-units', 'lineHeight', 'a line height that is not a percentage is taken relative to the font size', f)
        rest = [x for x in fs if x != val]
        ctx.expect(len(fs) == 2 and len(rest) == 1 and rest[0] == final(p, p.ret, 'fontSize'), 'computed-units', 'lineHeight',
                   'a relative line height is not taken of the computed font size', f)
        return
    ctx.expect(k.get('px') is False, 'computed-units', 'lineHeight', 'a line height in pixels may not be converted; path: ' + show_facts(p.facts)[-300:], f)
    if not defer:
        font = final(p, p.ret, 'fontSize')
        iscell = [v for u, v in kinds_of(p, font).items() if u == 'cell'] if font else []
        ctx.expect(k.get('pct') is False or iscell == [False], 'computed-units', 'lineHeight', 'a line height in percent may stay relative; path: ' +
                   show_facts(p.facts)[-300:], f)


# --------------------------------------------------------------------------- font size
def expected(spec, parent, region, defer):
    if spec == 'cell':
        return ['spec']
    if spec == 'px':
        return 'cells'
    own = ['spec'] if spec == 'pct' else []
    if parent == 'cell':
        return ['parent'] + own
    if parent == 'pct':
        out = ['parent'] + own
    else:
        out = own
    if region == 'cell':
        return ['region'] + out
    if defer:
        return out or None
    return ['default'] + out


def font_size(ctx):
    c = ctx.prog.cls(STYLE)
    f = ctx.prog.find_method(c, 'compute_style')
    attrs = style_attrs(ctx)
    x = 'fontSize'
    vals = {'spec': ('attr', SPEC, x), 'parent': ('attr', PARENT, x), 'region': ('attr', REGION, x)}
    facts = scenario(attrs, x)
    facts[('isnone', SPEC)] = False
    for defer in (False, True):
        w = ctx.walker(facts=facts, noexc=True, opaque={'pixels_to_cells'})
        ps = w.run(f, c, args={'defer_font_size': K(defer)})
        ctx.account(w, ps)
        for spec in (None, 'pct', 'cell', 'px'):
            for parent in ('absent', None, 'pct', 'cell'):
                for region in ('absent', 'cell'):
                    if not defer and parent == 'absent' and region == 'cell' and spec is None:
                        pass
                    env = {vals['spec']: spec, vals['parent']: parent, vals['region']: region}
                    n = 0
                    for p in ps:
                        if not consistent(p, env):
                            continue
                        n += 1
                        want = expected(spec, parent, region, defer)
                        case = 'own %s, parent %s, region %s%s' % (spec, parent, region, ', deferred' if defer else '')
                        if p.kind != 'return':
                            ctx.bad('font-size', case, 'the font size is not computed: %s' % w.exc_name(p.exc), f)
                            continue
                        got = final(p, p.ret, x)
                        if want is None:
                            ctx.expect(got in (None, NONE), 'font-size', case, 'there should be none, but it is %s' % show(got or NONE), f)
                        elif want == 'cells':
                            ctx.expect(got is not None and in_cells(got) == vals['spec'], 'font-size', case, 'the pixels are not converted to cells: ' +
                                       show(got or NONE), f)
                        else:
                            fs = sorted(name_of(t, vals) for t in factors(got)) if got else []
                            ctx.expect(fs == sorted(want), 'font-size', case, 'it is %s, expected: %s' % (
                                ' x '.join(fs) or 'missing', ' x '.join(want)), f)
                    ctx.need(n, 'font size with ' + str(env))


def name_of(t, vals):
    for k, v in vals.items():
        if t == v:
            return k
    if t[0] == 'new' and t[3] == (K('1c'),):
        return 'default'
    return show(t)


def kind_of(t, env):
    if t in env:
        return env[t]
    if t[0] == 'bin':
        a, b = kind_of(t[2], env), kind_of(t[3], env)
        return 'pct' if a == b == 'pct' else 'cell' if {a, b} <= {'pct', 'cell'} else '?'
    if t[0] == 'new':
        return unit(t[1].rsplit('.', 1)[-1])
    if t == NONE:
        return None
    return '?'


def consistent(p, env):
    for o, v in ((PARENT, env[('attr', PARENT, 'fontSize')]), (REGION, env[('attr', REGION, 'fontSize')])):
        there = Present(o).ev(p.facts)
        if there is not None and there == (v == 'absent'):
            return False
    for a, v in p.facts.items():
        t = a[1]
        if not (isinstance(t, tuple) and t and isinstance(t[0], str)):
            continue
        k = kind_of(t, env)
        if k in ('?', 'absent'):
            continue
        if a[0] == 'isnone' and v != (k is None):
            return False
        if a[0] == 'truthy' and v != (k is not None):
            return False
        if a[0] == 'isinst' and unit(a[2]) != '?' and v != (unit(a[2]) == k):
            return False
    return True


# --------------------------------------------------------------------------- where styles come from during validation
DS, PB = ('p', 'dataset'), ('p', 'parent_binding')
STYLED = {'p_type': (False, True), 'span_type': (False, True), 'div_type': (True, True), 'body_type': (True, True), 'region_type': (False, False)}
HOOKS = ('_semantic_before_traversal', '_semantic_after_traversal')


def data(k):
    return ('sub', DS, K(k))


def is_data(t, k):
    """the entry of the dataset"""
    return t == data(k) or t[0] == 'call' and t[1][0] == 'bm' and t[1][1] == DS and t[1][2] in ('get', 'setdefault') and t[2][:1] == (K(k),)


def sequence_of(p, t):
    """parts of a list built on the path, in order"""
    if t[0] == 'bin' and t[1] in ('+', 'Add'):
        return sequence_of(p, t[2]) + sequence_of(p, t[3])
    if t[0] == 'call' and t[1] in (('ext', 'list'), ('ext', 'tuple')) and len(t[2]) == 1:
        return sequence_of(p, t[2][0])
    out = list(t[2]) if t[0] == 'lst' else list(t[1]) if t[0] == 'tup' else [t]
    if t[0] == 'lst':
        for e in p.events:
            if e.kind == 'call' and e.recv == t and e.name in ('append', 'extend', 'insert'):
                out.append(e.args[-1])
                if e.name == 'insert':
                    out.insert(0, out.pop())
    return out


def wiring(ctx):
    style = ctx.prog.cls(STYLE)
    opaque = {'compute_style', 'resolve_styles', 'ordered_styles', LOOKUP, '_semantic_register_id', '_semantic_timebase_validation',
              '_semantic_preprocess_timing', '_semantic_check_sizing_type', '_semantic_postprocess_timing', '_semantic_manage_timeline'}
    comp = ctx.prog.find_method(style, 'compute_style')
    shared = sorted(set(schema_of(ctx).attrs('region')) & set(style_attrs(ctx)))
    for cn, (defers, pushes) in sorted(STYLED.items()):
        c = ctx.prog.cls('bindings:' + cn)
        f, g = [ctx.prog.find_method(c, x) for x in HOOKS]
        ctx.need(f is not None and g is not None, 'validation hooks of ' + cn)
        regioned = cn in ('p_type', 'div_type')
        w = ctx.walker(types={SELF: c}, opaque=opaque, raises={LOOKUP: ('LookupError',)})
        ps = ran(ctx, w, f, c)
        own, ids = ('attr', SELF, 'region'), ('attr', SELF, 'style')
        getters = {n: getter(ctx, c, n)[0] for n in ('computed_style', 'specified_style', 'validated_styles')}
        saved = stacks = None
        used = lost = wrong = 0
        for p in ps:
            name = w.exc_name(p.exc) if p.kind == 'raise' else None
            looked = [e for e in p.events if e.kind == 'call' and e.name == LOOKUP]
            failed = [e for e in p.events if e.kind == 'except']
            if p.kind == 'raise':
                if failed or name.endswith('LookupError'):
                    lost += 1
                    ctx.expect(name.endswith(ERROR), 'missing', cn, 'a reference to something missing ends in ' + name, f)
                continue
            if p.kind != 'return':
                continue
            ctx.expect(not failed, 'missing', cn, 'a reference to something missing is ignored', f)
            calls = [e for e in p.events if e.kind == 'call' and e.name == 'compute_style']
            if len(calls) != 1:
                ctx.bad('scope', cn, 'the style is computed %d times; path: %s' % (len(calls), show_facts(p.facts)), f)
                continue
            e = calls[0]
            val = ('call',) + tuple(e.value[1:])
            arg = {n: arg_of(ctx, e, comp, n) for n in comp.params[1:]}
            for n, want in (('computed_style', val), ('specified_style', arg['specified_style'])):
                ctx.expect(any(t[0] == 'attr' and final(p, SELF, t[2]) == want for t in getters[n]), 'scope', cn + '/' + n,
                           'the result is not kept', f)
            ctx.expect(arg['dataset'] == DS, 'scope', cn, 'the style is computed for another document', e)
            d = arg['defer_font_size']
            ctx.expect(d == K(defers) or not defers and d in (None, NONE), 'scope', cn + '/defer', 'the font size is %sdeferred' % ('not ' if defers else ''), e)
            # parent and region
            pa = arg['parent_computed_style']
            if pa in (None, NONE):
                ctx.expect(Present(PB).ev(p.facts) is False or has(p, PB) is False, 'scope', cn + '/parent', 'the style of the parent is ignored; path: ' +
                           show_facts(p.facts), e)
            else:
                ctx.expect(pa == ('attr', PB, 'computed_style') and (Present(PB).ev(p.facts) or has(p, PB)) or pa[0] == 'getattr' and
                           pa[1:3] == (PB, K('computed_style')), 'scope', cn + '/parent', 'the parent is taken to be ' + show(pa), e)
            ra = arg['region_computed_style']
            mine = regioned and Present(own).ev(p.facts)
            here = [e2 for e2 in looked if own in list(e2.args) + [v for _, v in e2.kwargs or ()]]
            if regioned:
                ctx.expect(Present(own).ev(p.facts) is not None, 'scope', cn + '/region', 'the region is not looked at', f)
                ctx.expect(bool(here) == bool(mine), 'scope', cn + '/region', 'the region is %slooked up; path: %s' % ('' if here else 'not ', show_facts(p.facts)), f)
            for e2 in here:
                have = list(e2.args) + [v for _, v in e2.kwargs or ()]
                ctx.expect(any(t[0] == 'cls' and t[1].endswith('.region_type') for t in have), 'scope', cn + '/region', 'the reference may lead to '
                           'something that is not a region', e2)
            now = ('call',) + tuple(here[0].value[1:]) if here else None

            def current(t):
                return t == now if now is not None else is_data(t, 'region')
            if ra in (None, NONE):
                ok = any(a[0] in ('isnone', 'truthy', 'hasattr', 'in') and (a[0] == 'isnone') == v and any(current(t) for t in subterms(a[1]))
                         for a, v in p.facts.items() if isinstance(a[1], tuple)) or ('in', K('region'), DS) in p.facts
                ctx.expect(ok, 'scope', cn + '/region', 'the style of the region is ignored; path: ' + show_facts(p.facts), e)
            else:
                used += 1
                ctx.expect(ra[0] == 'getattr' or now is not None or Present(ra[1]).ev(p.facts) or has(p, ra[1]), 'scope', cn + '/region',
                           'computing the style fails without a region; path: ' + show_facts(p.facts), e)
                ctx.expect(ra[0] in ('attr', 'getattr') and current(ra[1]) and ra[2] in ('computed_style', K('computed_style')), 'scope', cn + '/region',
                           'the region is taken to be ' + show(ra), e)
            # the styles the element refers to
            spec = arg['specified_style']
            rs = [x for x in p.events if x.kind == 'call' and x.name == 'resolve_styles']
            if not ctx.expect(len(rs) == 1 and spec == ('call',) + tuple(rs[0].value[1:]) and len(rs[0].args) == 1, 'refs', cn,
                              'the specified style is not that of the styles referred to', e):
                continue
            seq = sequence_of(p, rs[0].args[0])
            extra = [x for x in seq if x[0] == 'new']
            if cn == 'region_type':
                ctx.expect(len(extra) == 1 and seq[0] == extra[0], 'refs', cn + '/own', 'the style attributes of the region itself do not come first', rs[0])
                for x in extra:
                    for a in shared:
                        ctx.expect((a, ('attr', SELF, a)) in x[4], 'refs', cn + '/' + a, 'the %s of the region itself is ignored' % a, rs[0])
            else:
                ctx.expect(not extra, 'refs', cn + '/own', 'a style from elsewhere is used', rs[0])
            refs = [x for x in seq if x not in extra]
            loops = [x for x in p.events if x.kind == 'loop' and base_iter(x.value) == ids]
            if not loops:
                ctx.expect(Present(ids).ev(p.facts) is False or any(x.kind == 'loopend' and base_iter(x.value) == ids for x in p.events), 'refs', cn,
                           'the styles referred to are not looked at; path: ' + show_facts(p.facts), f)
                ctx.expect(not refs, 'refs', cn, 'a style is used that the element does not refer to', rs[0])
            sl = [x for x in looked if x not in here]
            ctx.expect(len(sl) == len(loops), 'refs', cn, 'a reference is skipped; path: ' + show_facts(p.facts), f)
            for x in loops:
                ctx.expect(x.value == ids and any(y.kind == 'loopend' and y.value == ids for y in p.events), 'refs', cn,
                           'the styles are not all taken, in their order', x)
            for x in sl:
                have = list(x.args) + [v for _, v in x.kwargs or ()]
                ctx.expect(('it', ids, 0) in have and ('cls', style.qualname) in have, 'refs', cn, 'something else than the style referred to is taken', x)
                ch = [y for y in p.events if y.kind == 'call' and y.name == 'ordered_styles' and y.recv == ('call',) + tuple(x.value[1:])]
                ctx.expect(ch, 'refs', cn, 'the styles a referenced style refers to are ignored', x)
                for y in ch:
                    cv = ('call',) + tuple(y.value[1:])
                    item = ('it', cv, 0)
                    it = [z for z in p.events if z.kind == 'loop' and z.value == cv]
                    for z in it:
                        wrong += 1
                        ctx.expect(any(q.kind == 'loopend' and q.value == cv for q in p.events), 'refs', cn, 'a chain of styles is cut short', z)
                        dup = any(a[0] == 'in' and v and a[1] == item for a, v in p.facts.items())
                        ctx.expect((item in refs) != dup, 'refs', cn, 'a style is left out or repeated; path: ' + show_facts(p.facts), z)
                        cond = [a for a in p.facts if mentions(a, item) and a[0] != 'in']
                        ctx.expect(not cond, 'refs', cn, 'a style is only used under a condition: ' + ' '.join(show_atom(a) for a in cond), z)
                    comps = [t for t in refs if t[0] == 'comp' and t[3] == (cv,)]
                    if comps:
                        wrong += 1
                        ctx.expect(all(a[0][0] == 'in' and not a[1] for a in comps[0][4]), 'refs', cn, 'a style is only used under a condition', y)
                    ctx.expect(it or comps or cv in refs or not loops or any(q.kind == 'loop' and q.value == cv for q in p.events) or zero(p, cv), 'refs', cn,
                               'the chain of a style is not used', y)
                    bad = [z for z in p.events if z.kind == 'call' and z.name == 'insert' and z.recv and z.recv[0] == 'lst' and item in z.args]
                    ctx.expect(not bad, 'refs', cn, 'a later style comes first', y)
            # what the children see
            appends = [x for x in p.events if x.kind == 'call' and x.name == 'append' and x.recv is not None and any(
                is_data(t, 'styles_stack') for t in subterms(x.recv))]
            if pushes:
                ok = len(appends) == 1 and appends[0].args and [x for x in sequence_of(p, appends[0].args[0]) if x not in refs] == [] and \
                    len(sequence_of(p, appends[0].args[0])) == len(refs)
                ctx.expect(ok, 'stack', cn, 'the children do not see the styles of this element', f)
            else:
                ctx.expect(not appends, 'stack', cn, 'the styles of the region are passed on to its siblings', f)
            vs = [final(p, SELF, t[2]) for t in getters['validated_styles'] if t[0] == 'attr' and t[1] == SELF]
            cl = [t for v in vs if v is not None for t in closure(p, v)]
            for x in refs:
                ctx.expect(x in cl, 'stack', cn + '/all', 'a style that is used is not among the styles of the element', f)
            for x in p.events:
                if x.kind == 'loop' and x.value[0] == 'it' and is_data(x.value[1], 'styles_stack'):
                    item = ('it', x.value, 0)
                    ctx.expect(item in cl or any(a[0] == 'in' and v and a[1] == item for a, v in p.facts.items()), 'stack', cn + '/all',
                               'a style of a parent is not among the styles of the element', x)
            rv = [t for t in cl if t[0] in ('comp', 'it', 'attr') and any(y[0] == 'attr' and y[2] == 'validated_styles' and current(y[1]) for y in subterms(t))]
            if ra not in (None, NONE):
                dup = any(a[0] in ('in', 'eq') and v and any(y[0] == 'attr' and y[2] == 'validated_styles' for y in subterms(a)) for a, v in p.facts.items())
                none = not any(y.kind == 'loop' and any(z[0] == 'attr' and z[2] == 'validated_styles' for z in subterms(y.value)) for y in p.events)
                ctx.expect(rv or dup or none and any(y.kind == 'loopend' and any(z[0] == 'attr' and z[2] == 'validated_styles' for z in subterms(y.value))
                                                     for y in p.events), 'stack', cn + '/region', 'the styles of the region are not among the '
                           'styles of the element; path: ' + show_facts(p.facts), f)
                for t in rv:
                    if t[0] == 'comp':
                        ctx.expect(all(x[0][0] == 'in' and not x[1] for x in t[4]), 'stack', cn + '/region', 'a style of the region is only used '
                                   'under a condition', f)
            # the region is in force for the children, the one before is kept
            sets = [x for x in p.events if x.kind == 'setitem' and x.recv == DS and x.name == K('region')]
            if mine:
                ctx.expect(sets and sets[-1].value == now, 'region', cn, 'the region is not in force for the content', f)
                old = [x for x in p.events if x.kind in ('call', 'store') and (x.kind == 'store' and x.recv == SELF and is_data(x.value, 'region') or
                                                                              x.kind == 'call' and x.name == 'append' and x.args and is_data(x.args[0], 'region'))]
                if ctx.expect(old and sets and p.events.index(old[-1]) < p.events.index(sets[-1]), 'region', cn + '/saved',
                              'the enclosing region is not remembered', f):
                    saved = [x for x in old]
            else:
                ctx.expect(not sets, 'region', cn, 'the region changes without a reference to one', f)
        ctx.some(used, 'scope', cn + '/region', 'the style of the region is never used', f)
        ctx.some(lost >= (2 if regioned else 1), 'missing', cn, 'a reference to something missing is not reported', f)
        ctx.some(wrong, 'refs', cn, 'the styles referred to are not used', f)
        for p in ran(ctx, ctx.walker(types={SELF: c}, opaque=opaque, noexc=True), g, c):
            if p.kind != 'return':
                continue
            pops = [e for e in p.events if e.kind in ('call', 'delitem') and e.recv is not None and is_data(e.recv, 'styles_stack') and (
                e.kind == 'delitem' or e.name == 'pop' and e.args in ((), (K(-1),)))]
            ctx.expect(len(pops) == int(pushes), 'stack', cn + '/after', 'the styles of an element stay in force after it' if pushes else
                       'the styles of another element are removed', g)
            sets = [e for e in p.events if e.kind == 'setitem' and e.recv == DS and e.name == K('region')]
            if regioned and Present(own).ev(p.facts) is not False:
                ok = len(sets) == 1 and saved and Present(own).ev(p.facts) and any(restores(sets[0].value, x) for x in saved)
                ctx.expect(ok, 'region', cn + '/after', 'the enclosing region is not in force again after the element', g)
            else:
                ctx.expect(not sets, 'region', cn + '/after', 'the region changes', g)


def has(p, obj):
    for a, v in p.facts.items():
        if a[0] == 'hasattr' and a[1] == obj:
            return v
    return None


def zero(p, cv):
    return any(e.kind == 'loopend' and e.value == cv for e in p.events) or not any(e.kind == 'loop' and e.value == cv for e in p.events)


def restores(v, save):
    if save.kind == 'store':
        return v == ('attr', SELF, save.name)
    keys = [t for t in subterms(save.recv) if t[0] == 'k' and isinstance(t[1], str)]
    return v[0] == 'call' and v[1][0] == 'bm' and v[1][2] == 'pop' and not v[2] and any(is_data(v[1][1], k[1]) for k in keys)


@check('C16')
def c16(ctx):
    ctx.rule('refs', 'the specified style of an element is that of the styles it refers to, each with its chain; a region puts its own attributes first')
    ctx.rule('scope', 'the computed style of an element uses the computed styles of its parent and of the region in force')
    ctx.rule('missing', 'a reference to a missing style or region is reported')
    ctx.rule('stack', 'the styles of an element are those it refers to and those of the elements around it, as long as they are open')
    ctx.rule('region', 'a region is in force for the content of the element referring to it, then the one before again')
    ctx.rule('spec-first', 'the specified value of each style attribute is that of the first style, in the order given, that has one')
    ctx.rule('chain-order', 'the chain of a style is itself, then the chains of the styles it refers to, in order and without repetition')
    ctx.rule('chain-circle', 'styles that refer to each other in a circle are reported')
    ctx.rule('chain-missing', 'a reference to a missing style is reported')
    ctx.rule('computed', 'a computed value is the specified one, else the value somebody gave at the parent, else at the region, else the default')
    ctx.rule('computed-default', 'defaults are told apart from given values')
    ctx.rule('computed-units', 'line heights in pixels or percent are computed relative to the document and to the computed font size')
    ctx.rule('font-size', 'a relative font size is taken of the parent, else of the region, else of the default, and only deferred where allowed')
    resolve(ctx)
    chain(ctx)
    computed(ctx)
    font_size(ctx)
    wiring(ctx)
