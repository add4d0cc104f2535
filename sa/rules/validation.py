# -*- coding: utf-8 -*-
"""Semantic validation: scopes, computed times, identifiers, styles, root element."""
from ..core import *

DATA = ('p', 'dataset')
BEFORE, AFTER = '_semantic_before_traversal', '_semantic_after_traversal'
MIXIN = 'SemanticValidationMixin'
TT = 'bindings:tt_type'
QUIET = {'_semantic_register_id', '_semantic_timebase_validation', '_semantic_collect_applicable_styles',
         '_semantic_check_sizing_type'}


def hooked(ctx):
    """binding classes that take part in the semantic traversal"""
    base = ctx.prog.cls(MIXIN)
    out = []
    for c in ctx.prog.classes:
        if c is base or not ctx.prog.is_sub(c, base) or c.mod.name != 'ebu_tt_live.bindings':
            continue
        b, a = ctx.prog.find_method(c, BEFORE), ctx.prog.find_method(c, AFTER)
        if b is not None and b.cls is not base or a is not None and a.cls is not base:
            out.append(c)
    ctx.need(len(out) >= 5, 'element classes with validation hooks')
    return out


def key_of(t):
    """key of the dataset entry a term denotes"""
    if t is None:
        return None
    if t[0] == 'sub' and t[1] == DATA and t[2][0] == 'k':
        return t[2][1]
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][1] == DATA and \
            t[1][2] in ('get', 'setdefault', 'pop') and t[2] and t[2][0][0] == 'k':
        return t[2][0][1]
    return None


def simplify(t):
    """(x + b) - b = x; filled bottom up"""
    if not isinstance(t, tuple):
        return t
    t = tuple(simplify(x) if isinstance(x, tuple) else x for x in t)
    if len(t) == 4 and t[0] == 'bin' and t[1] == '-' and isinstance(t[2], tuple) and len(t[2]) == 4 and \
            t[2][0] == 'bin' and t[2][1] == '+':
        if t[2][3] == t[3]:
            return t[2][2]
        if t[2][2] == t[3]:
            return t[2][3]
    return t


def is_time(t):
    """value that can not be None because it was computed with arithmetic"""
    if t[0] == 'bin':
        return True
    return t[0] == 'call' and t[1] in (('ext', 'min'), ('ext', 'max')) and len(t[2]) >= 2


def fold(facts):
    """facts after substitution; None when they contradict each other"""
    out = {}
    for a, v in facts:
        if a[0] == 'isnone' and is_time(a[1]):
            if v is True:
                return None
            continue
        c = atom_const(a)
        if c is not None:
            if c != v:
                return None
            continue
        if out.setdefault(a, v) != v:
            return None
    for a, v in out.items():
        rest = {x: y for x, y in out.items() if x != a}
        i = implied(a, rest)
        if i is not None and i != v:
            return None
    return out


class Visit(object):
    """one path down into an element followed by one path up"""
    def __init__(self, down, up, events, facts, pops):
        self.down, self.up, self.events, self.facts, self.pops = down, up, events, facts, pops
        self.heap = up.heap


def visits(ctx, c):
    memo = ctx.__dict__.setdefault('_visits', {})
    if c.qualname not in memo:
        memo[c.qualname] = _visits(ctx, c)
    return memo[c.qualname]


def _visits(ctx, c, opaque=QUIET):
    """consistent pairs of a path through the before hook and one through the after hook. The children in
    between leave the stacks as they were, so a pop on the way up yields what was pushed on the way down."""
    b, a = ctx.prog.find_method(c, BEFORE), ctx.prog.find_method(c, AFTER)
    w = ctx.walker(types={SELF: c}, opaque=set(opaque), noexc=True)
    downs = w.run(b, c)
    out = []
    for d in downs:
        if d.kind != 'return':
            continue
        st = d.state.copy()
        st.ctrl = None
        n = len(d.events)
        pushed = {}
        for e in d.events:
            if e.kind == 'call' and e.name == 'append' and key_of(e.recv) is not None:
                pushed.setdefault(key_of(e.recv), []).append(e.args[0])
        for u in w.run(a, c, state=st):
            pops, maps = [], []
            left = {k: list(v) for k, v in pushed.items()}
            for e in u.events[n:]:
                if e.kind == 'call' and e.name == 'pop' and key_of(e.recv) is not None and e.args in ((), (K(-1),)) or \
                        e.kind == 'delitem' and key_of(e.recv) is not None and e.name == K(-1):
                    k = key_of(e.recv)
                    v = left[k].pop() if left.get(k) else None
                    pops.append((e, k, v))
                    if v is not None and e.kind == 'call':
                        maps.append((e.value, v))
            facts = list(u.facts.items())
            for old, new in maps:
                facts = [(subst(x, old, new), y) for x, y in facts]
            facts = fold(facts)
            if facts is None:
                continue
            out.append((Visit(d, u, u.events[n:], facts, pops), pushed, left, maps))
    ctx.account(w, [v[0].up for v in out])
    ctx.need(out, 'traversal of %s' % c.name)
    return out, w


def final_items(v, maps):
    """last value of every dataset entry set during a visit"""
    out = {}
    for e in v.up.events:
        if e.kind == 'setitem' and e.recv == DATA and e.name[0] == 'k':
            t = e.value
            for old, new in maps:
                t = subst(t, old, new)
            out[e.name[1]] = (simplify(t), e)
        elif e.kind == 'delitem' and e.recv == DATA and e.name[0] == 'k':
            out[e.name[1]] = (None, e)
    return out


@check('C09')
def c09(ctx):
    ctx.rule('scope-balance', 'on every way through an element, what is pushed on the way down is popped on the way up')
    ctx.rule('scope-restore', 'a context value that an element changes has its old value again when the element is left')
    ctx.rule('scope-root', 'the root element starts with empty scopes of its own')
    ctx.rule('scope-defined', 'everything the elements look up in the context is provided by the root element or the validator')
    ctx.rule('scope-region', 'an element with a region makes exactly that region current, other elements leave it alone')
    ctx.rule('scope-own', 'the attributes cleaned up on the way up are those set on the way down')
    root = ctx.prog.cls(TT)
    reads, opened, scanned = {}, set(), set()
    for c in hooked(ctx):
        b, a = ctx.prog.find_method(c, BEFORE), ctx.prog.find_method(c, AFTER)
        is_root = c is root
        vs, w = visits(ctx, c)
        for v, pushed, left, maps in vs:
            for e, k, val in v.pops:
                ctx.expect(val is not None, 'scope-balance', '%s/%s' % (c.name, k), 'the scope of an enclosing element is '
                           'popped; path: %s' % show_facts(v.facts), e)
            for k, rest in left.items():
                opened.add(k)
                ctx.expect(not rest, 'scope-balance', '%s/%s' % (c.name, k), 'an entry pushed on the way down stays for the '
                           'following elements; path: %s' % show_facts(v.facts), b)
            for k, (t, e) in final_items(v, maps).items():
                if is_root:
                    continue
                opened.add(k)
                olds = [('sub', DATA, K(k)), ('call', ('bm', DATA, 'get'), (K(k), NONE), ()),
                        ('call', ('bm', DATA, 'get'), (K(k),), ())]
                ctx.expect(t in olds, 'scope-restore', '%s/%s' % (c.name, k), 'is %s when the element is left; path: %s' % (
                    show(t) if t else 'removed', show_facts(v.facts)), e)
            # the region in between
            if not is_root and ctx.prog.is_sub(c, ctx.prog.cls('RegionedElementMixin')):
                reg = ('attr', SELF, 'region')
                sets = [e for e in v.down.events if e.kind == 'setitem' and e.recv == DATA and e.name == K('region')]
                has = Present(reg).ev(v.facts)
                if has is True:
                    good = len(sets) == 1 and sets[0].value[0] == 'call' and isinstance(sets[0].value[1], tuple) and \
                        sets[0].value[1][0] == 'bm' and sets[0].value[1][2] == 'get_element_by_id' and \
                        reg in sets[0].value[2] + tuple(x for _, x in sets[0].value[3])
                    ctx.expect(good, 'scope-region', c.name, 'the region of the element does not become the current one', b)
                    col = [e for e in v.down.events if e.kind == 'call' and e.name == '_semantic_collect_applicable_styles']
                    ctx.expect(good and col and col[0].idx > sets[0].idx, 'scope-region', c.name + '/styles',
                               'the styles of the element are not computed with its own region', b)
                else:
                    ctx.expect(has is False and not sets, 'scope-region', c.name, 'an element without region changes the '
                               'current region; path: %s' % show_facts(v.facts), b)
            # own attributes
            own = {(e.recv, e.name) for e in v.down.events if e.kind == 'store' and e.recv == SELF}
            for e in v.events:
                if e.kind == 'del' and e.recv == SELF:
                    ctx.expect((e.recv, e.name) in own, 'scope-own', '%s/%s' % (c.name, e.name), 'an attribute is removed that '
                               'was not set on the way down; path: %s' % show_facts(v.facts), e)
        # context entries that are read
        inner = {'compute_style', 'resolve_styles', 'ordered_styles', 'add'}
        for m in [b, a] + [ctx.prog.find_method(c, q) for q in sorted(QUIET)]:
            if m is None or (m.qualname in scanned and m not in (b, a)):
                continue
            scanned.add(m.qualname)
            hook = m in (b, a)
            for p in ctx.walker(types={SELF: c}, opaque=QUIET if hook else inner, noexc=True).run(m, c):
                for e in p.events:
                    for t in list(e.args or ()) + [x for _, x in e.kwargs or ()] + [e.value, e.recv] + \
                            [a for a in e.facts]:
                        if t is None or not isinstance(t, tuple):
                            continue
                        for s in subterms(t):
                            if isinstance(s, tuple) and len(s) == 3 and s[0] == 'sub' and s[1] == DATA and s[2][0] == 'k':
                                reads.setdefault(s[2][1], (c, m))
    # root element
    f = ctx.prog.find_method(root, BEFORE)
    ps = [p for p in ctx.walk(root, BEFORE) if p.kind == 'return']
    given = None
    for p in ps:
        vals = {}
        for e in p.events:
            if e.kind == 'setitem' and e.recv == DATA and e.name[0] == 'k':
                vals[e.name[1]] = e.value
        given = set(vals) if given is None else given & set(vals)
        for k in sorted(opened):
            if k not in vals:
                continue
            t = vals[k]
            empty = t[0] in ('lst', 'dict') and not t[2] if t[0] in ('lst', 'dict') else \
                t[0] == 'call' and t[1] in (('ext', 'datetime.timedelta'), ('ext', 'list'), ('ext', 'dict')) and \
                all(x in (K(0), K(0.0)) for x in t[2] + tuple(y for _, y in t[3])) or t[0] == 'new' and not t[3]
            ctx.expect(empty, 'scope-root', k, 'the root element starts with %s' % show(t), f)
        ctx.expect(vals.get('tt_element') == SELF, 'scope-root', 'tt_element', 'the root element does not make itself '
                   'available to the elements below', f)
        ids = vals.get('elements_by_id')
        ctx.expect(ids is not None and (ids[0] == 'dict' or ids[0] == 'new'), 'scope-root', 'elements_by_id',
                   'identifiers of an earlier validation are kept', f)
    doc = ctx.prog.cls('documents.ebutt3:EBUTT3Document')
    vfn = ctx.prog.find_method(doc, 'validate')
    passed = None
    for p in ctx.walk(doc, 'validate', opaque={'validateBinding'}):
        for e in p.events:
            if e.kind == 'call' and e.name == 'validateBinding':
                ks = {k for k, _ in e.kwargs}
                passed = ks if passed is None else passed & ks
    ctx.need(passed is not None, 'validateBinding call')
    soft = set()
    for k, (c, m) in sorted(reads.items()):
        if c is root:
            continue
        ok = k in (given or ()) or k in passed
        if not ok:
            ok = conditional(ctx, k)
        ctx.expect(ok, 'scope-defined', k, 'the context has no such entry', m)


def conditional(ctx, k):
    """entry created on the way down by every element that reads it on the way up"""
    for c in hooked(ctx):
        vs, w = visits(ctx, c)
        for v, pushed, left, maps in vs:
            use = False
            for e in v.up.events:
                if e.recv is not None and isinstance(e.recv, tuple) and e.recv == ('sub', DATA, K(k)):
                    use = True
            if use:
                made = any(e.kind == 'setitem' and e.recv == DATA and e.name == K(k) or
                           e.kind == 'call' and e.name == 'setdefault' and e.recv == DATA and e.args[0] == K(k)
                           for e in v.up.events)
                if not made:
                    return False
    return True
