# -*- coding: utf-8 -*-
"""C26: traversals of a document visit every element once, in document order, with its context; comparisons delegate to the compared key."""
from ..core import *
from .copying import ran
from .segments import feasible
from .dedupe import everything

BASE = 'bindings.pyxb_utils:RecursiveOperation'
HOOKS = ('_before_element', '_process_element', '_process_non_element', '_after_element')
REST = ('p', '**kwargs')
STOP = 'StopBranchIteration'


def arg(e, *names):
    d = dict(e.kwargs or ())
    for n in names:
        if n in d:
            return d[n]
    return None


def named(ctx, c, e):
    """arguments of a hook or visit by parameter name"""
    fn = ctx.prog.find_method(c, e.name)
    out = dict((k, v) for k, v in e.kwargs or () if k != '**')
    if fn is not None:
        for k, v in zip(fn.params[1:], e.args or ()):
            out[k] = v
    out['**'] = [v for k, v in e.kwargs or () if k == '**']
    return out


def is_children(t, value, attr):
    """the container is what the configured iterator of the element gives"""
    t = base_iter(t)
    if t[0] != 'call' or t[2] or t[3]:
        return False
    f = t[1]
    return f[0] == 'getattr' and f[1] == value and f[2] in attr or f[0] == 'bm' and f[1] == value and K(f[2]) in attr


def exc_is(ctx, x, base):
    name = x[1] if isinstance(x, tuple) and x[0] in ('cls', 'ext') else x
    return str(name).rsplit('.', 1)[-1].rsplit(':', 1)[-1] == base


def visit_roles(ctx, c, paths, attrs):
    """(name of the visiting method, call event) of the visit of a child"""
    for p in paths:
        for e in p.events:
            if e.kind == 'call' and e.recv == SELF and e.name not in HOOKS and ctx.prog.find_method(c, e.name) is not None and \
                    any(mentions(v, base_iter(x.value)) for x in p.events if x.kind == 'loop' for _, v in
                        list(e.kwargs or ()) + list(enumerate(e.args or ()))):
                return e.name
    return None


def kept(ctx, c):
    """{parameter: attributes that keep it where it is given}"""
    f = ctx.prog.find_method(c, '__init__')
    keep = {n: set() for n in f.params[1:]}
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
        for e in p.events:
            if e.kind == 'store' and e.recv == SELF and e.value[0] == 'p' and e.value[1] in keep:
                keep[e.value[1]].add(e.name)
    return keep


def init_rule(ctx, c):
    """what the constructor keeps: root, filter, order, iterator"""
    f = ctx.prog.find_method(c, '__init__')
    ctx.need(f is not None and {'root_element', 'filter', 'post_order', 'children_iterator'} <= set(f.params), 'constructor of RecursiveOperation')
    keep = kept(ctx, c)
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
        if p.kind != 'return':
            ctx.bad('visit', 'construct', 'constructing a traversal fails; path: ' + show_facts(p.facts), f)
            continue
        vals = {e.name: e for e in p.events if e.kind == 'store' and e.recv == SELF}
        for n in ('root_element', 'filter', 'post_order', 'children_iterator'):
            names = [a for a in keep[n]]
            ctx.expect(bool(names), 'visit', 'construct/' + n, 'the argument %s is not kept' % n, f)
            isnone = p.facts.get(('isnone', ('p', n)))
            if isnone is None:
                isnone = {True: False, False: True}.get(p.facts.get(('truthy', ('p', n))))
            for a in names:
                e = vals.get(a)
                if e is None:
                    ctx.bad('visit', 'construct/' + n, 'is not kept; path: ' + show_facts(p.facts), f)
                    continue
                v = e.value
                if v == ('p', n):
                    ctx.expect(n not in ('filter', 'children_iterator') or isnone is False, 'visit', 'construct/' + n,
                               'no default is used where none is given', e)
                elif n == 'filter':
                    ctx.expect(isnone is True and everything(v), 'visit', 'construct/filter',
                               'without a filter %s is used; path: %s' % (show(v), show_facts(p.facts)), e)
                elif n == 'children_iterator':
                    ctx.expect(isnone is True and v == K('orderedContent'), 'visit', 'construct/iterator',
                               'without a given iterator %s is used; path: %s' % (show(v), show_facts(p.facts)), e)
                else:
                    ctx.bad('visit', 'construct/' + n, 'is replaced by %s' % show(v), e)
    return keep


def selected(facts, value, element, filters):
    """whether the path is one where (value, element) is an element the filter accepts: True, False or None"""
    none = facts.get(('isnone', element))
    if element == NONE:
        none = True
    isel = None
    acc = None
    for a, v in facts.items():
        if a[0] == 'isinst' and a[1] == element and 'ElementContent' in repr(a[2]) and 'NonElementContent' not in repr(a[2]):
            isel = v
        if a[0] == 'truthy' and not v and a[1] == element and none is None:
            none = None
        t = a[1]
        if a[0] in ('truthy', 'eq') and isinstance(t, tuple) and t[0] == 'call' and t[2] == (value, element) and callee(t) in filters:
            acc = v
    shape = True if none is True or isel is True else False if none is False and isel is False else \
        False if isel is False and none is None else None
    if none is False and isel is None:
        shape = None
    if shape is False or acc is False:
        return False
    if shape is True and acc is True:
        return True
    return None


def callee(t):
    f = t[1]
    if isinstance(f, tuple) and f[0] == 'bm' and f[1] == SELF:
        return f[2]
    if isinstance(f, tuple) and f[0] == 'attr' and f[1] == SELF:
        return f[2]
    return None


@check('C26')
def traversal(ctx):
    ctx.rule('visit', 'a traversal starts at its root and visits the children of every visited element once, in their order, with their '
             'parent and the arguments of the traversal; each element the filter accepts is processed before (or after) its children, '
             'between its entry and exit hooks; everything else goes to the hook for other content')
    ctx.rule('branch', 'stopping a branch leaves out that branch only')
    ctx.rule('validator', 'validation enters and leaves every element that takes part in it, with one fresh set of data')
    ctx.rule('compare', 'comparisons compare the keys of both sides with the same operator, after their check')
    c = ctx.prog.cls(BASE)
    keep = init_rule(ctx, c)
    filters = set(keep['filter'])
    roots = {('attr', SELF, a) for a in keep['root_element']}
    orders = {('attr', SELF, a) for a in keep['post_order']}
    iters = {('attr', SELF, a) for a in keep['children_iterator']}
    for h in HOOKS:
        ctx.need(ctx.prog.find_method(c, h) is not None, h)
    proceed = ctx.prog.find_method(c, 'proceed')
    ctx.need(proceed is not None, 'proceed')
    opaque = set(HOOKS)
    first = ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque=opaque), proceed, c)
    visit = visit_roles(ctx, c, first, iters)
    if not ctx.some(visit, 'visit', 'children', 'the children of an element are not visited', proceed):
        return
    step = ctx.prog.find_method(c, visit)
    # the start
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque=opaque | {visit}), proceed, c):
        vs = [e for e in p.events if e.kind == 'call' and e.name == visit and e.recv == SELF]
        ok = p.kind == 'return' and len(vs) == 1 and not [e for e in p.events if e.kind == 'call' and e.name in HOOKS]
        if ctx.expect(ok, 'visit', 'start', 'the root is visited %d times; path: %s' % (len(vs), show_facts(p.facts)), proceed):
            a = named(ctx, c, vs[0])
            ctx.expect(any(v in roots for v in a.values() if isinstance(v, tuple)) and REST in a['**'], 'visit', 'start/arguments',
                       'the visit of the root gets %s' % {k: show(v) for k, v in a.items() if k != '**'}, vs[0])
            ctx.expect(p.ret == vs[0].value, 'visit', 'start/result', 'the result of the traversal is %s' % show(p.ret), proceed)
    # roles of the parameters of the visit
    roles = {}
    w = ctx.walker(types={SELF: c}, noexc=True, opaque=opaque)
    paths = [p for p in ran(ctx, w, step, c) if feasible(p)]
    for p in paths:
        for e in p.events:
            if e.kind == 'call' and e.name == visit and e.recv == SELF:
                a = named(ctx, c, e)
                for k, v in a.items():
                    if k == '**':
                        continue
                    if v[0] == 'attr' and v[2] == 'value' and v[1][0] == 'it':
                        roles['value'] = k
                    elif v[0] == 'it':
                        roles['element'] = k
    for e in (e for p in paths for e in p.events if e.kind == 'call' and e.name == visit and e.recv == SELF):
        for k, v in named(ctx, c, e).items():
            if k != '**' and v == ('p', roles.get('value')):
                roles['parent'] = k
    for k, text in (('value', 'its value'), ('element', 'its content item'), ('parent', 'its parent')):
        ctx.some(k in roles and roles[k] in step.params, 'visit', 'children/' + k, 'a child is visited without ' + text, step)
    if len(roles) < 3:
        return
    value, element, parent = (('p', roles[k]) for k in ('value', 'element', 'parent'))
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque=opaque | {visit}), proceed, c):
        for e in p.events:
            if e.kind == 'call' and e.name == visit and e.recv == SELF:
                ctx.expect(arg_of(ctx, e, step, roles['element']) == NONE, 'visit', 'start/element', 'the root is visited as a part of %s' % show(
                    arg_of(ctx, e, step, roles['element']) or K('?')), e)
    seen = {True: 0, False: 0, 'pre': 0, 'post': 0, 'children': 0}
    for loop in (1, 2):
        w = ctx.walker(types={SELF: c}, noexc=True, opaque=opaque, loop=loop)
        for p in ran(ctx, w, step, c):
            if feasible(p):
                one_visit(ctx, c, p, step, visit, roles, (value, element, parent), filters, orders, iters, seen)
    for k, text in ((True, 'an element that is processed'), (False, 'other content'), ('pre', 'processing before the children'),
                    ('post', 'processing after the children'), ('children', 'a visit of children')):
        ctx.some(seen[k], 'visit', 'cases', 'there is no path for ' + text, step)
    branch(ctx, c, step, visit, value, opaque)
    validator(ctx, visit)
    compare(ctx)
    for d in ctx.prog.classes:
        if c in ctx.prog.mro(d) and d is not c:
            for h in HOOKS[1:3]:
                ctx.expect(ctx.prog.find_method(d, h).cls is not c, 'visit', d.name + '/' + h, 'the hook fails for every element', d)
            f = ctx.prog.find_method(d, '__init__')
            for p in ran(ctx, ctx.walker(types={SELF: d}, noexc=True, opaque={'compute_document_segment'}), f, d):
                vals = {('attr', SELF, e.name): e.value for e in p.events if e.kind == 'store' and e.recv == SELF}
                ctx.expect(p.kind != 'return' or all(vals.get(r, NONE) != NONE for r in roots), 'visit', d.name + '/root', 'the traversal has '
                           'no root; path: ' + show_facts(p.facts), f)


def one_visit(ctx, c, p, step, visit, roles, terms, filters, orders, iters, seen):
    value, element, parent = terms
    where = 'path: ' + (show_facts(p.facts) or 'unconditional')
    if p.kind != 'return':
        ctx.bad('visit', 'fails', 'visiting an element fails with %s; %s' % (p.exc and show(p.exc), where), step)
        return
    sel = selected(p.facts, value, element, filters)
    if sel is None:
        ctx.bad('visit', 'filter', 'it is not decided whether the visited content is an element the filter accepts; ' + where, step)
        return
    hooks = [e for e in p.events if e.kind == 'call' and e.recv == SELF and e.name in HOOKS]
    visits = [e for e in p.events if e.kind == 'call' and e.recv == SELF and e.name == visit]
    for e in hooks:
        a = named(ctx, c, e)
        el = a.get('element', a.get('non_element'))
        ctx.expect(a.get('value') == value and el == element, 'visit', e.name + '/element', 'gets %s' % {
            k: show(v) for k, v in a.items() if k != '**'}, e)
        ctx.expect(a.get('parent_binding') == parent, 'visit', e.name + '/parent', 'does not get the parent of the element', e)
        ctx.expect(REST in a['**'], 'visit', e.name + '/arguments', 'does not get the arguments of the traversal', e)
    names = [e.name for e in hooks]
    seen[sel] += 1
    if not sel:
        ctx.expect(names == ['_process_non_element'] and not visits, 'visit', 'other', 'content that is no accepted element leads to %s; %s' % (
            names, where), step)
        ctx.expect(names and p.ret == hooks[0].value, 'visit', 'other/result', 'the result is %s' % show(p.ret), step)
        return
    if not ctx.expect(names == ['_before_element', '_process_element', '_after_element'], 'visit', 'hooks',
                      'an accepted element leads to %s; %s' % (names, where), step):
        return
    before, process, after = hooks
    ctx.expect(p.ret == process.value, 'visit', 'result', 'the result of an element is %s' % show(p.ret), step)
    # children
    loops = [e for e in p.events if e.kind == 'loop']
    ends = [e for e in p.events if e.kind == 'loopend']
    conts = {base_iter(e.value) for e in loops + ends}
    good = [t for t in conts if is_children(t, value, iters)]
    complex_ = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == value and 'complexTypeDefinition' in repr(a[2])]
    if not good:
        excs = [e for e in p.events if e.kind == 'except']
        ctx.expect(False in complex_ or excs, 'visit', 'children', 'the children of an element are not visited; ' + where, step)
        ctx.expect(not visits, 'visit', 'children', 'other content than the children is visited; ' + where, step)
        return
    cont = good[0]
    ctx.expect(True in complex_, 'visit', 'children/simple', 'elements without content of their own are not told apart; ' + where, step)
    raw = [e.value for e in loops + ends if base_iter(e.value) == cont]
    ctx.expect(all(ordered(v) for v in raw), 'visit', 'children/order', 'the children are visited in the order of %s' % show(raw[0]), step)
    n = len([e for e in loops if base_iter(e.value) == cont])
    done = [e.name for e in ends if base_iter(e.value) == cont]
    ctx.expect(done == [n], 'visit', 'children/all', 'the visit of the children is left after %d of them; %s' % (n, where), step)
    its = [('it', cont, i) for i in range(n)]
    got = []
    for e in visits:
        a = named(ctx, c, e)
        it = a.get(roles['element'])
        got.append(('it', base_iter(it[1])) + it[2:] if it is not None and it[0] == 'it' else it)
        seen['children'] += 1
        ctx.expect(a.get(roles['value']) == ('attr', it, 'value'), 'visit', 'children/value', 'a child is visited with %s as its value' %
                   show(a.get(roles['value']) or NONE), e)
        ctx.expect(a.get(roles['parent']) == value, 'visit', 'children/parent', 'a child is visited with %s as its parent' %
                   show(a.get(roles['parent']) or NONE), e)
        ctx.expect(REST in a['**'], 'visit', 'children/arguments', 'the arguments of the traversal do not reach the children', e)
    ctx.expect(got == its, 'visit', 'children/once', 'of %d children %s are visited; %s' % (n, [show(x) if x else '?' for x in got], where), step)
    post = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1] in orders]
    if visits:
        late = process.idx > max(e.idx for e in visits)
        early = process.idx < min(e.idx for e in visits)
        ctx.expect(post == [True] and late or post == [False] and early, 'visit', 'order', 'the element is processed %s its children; %s' % (
            'after' if late else 'before' if early else 'among', where), process)
        seen['post' if late else 'pre'] += 1
    ctx.expect(all(before.idx < e.idx < after.idx for e in visits), 'visit', 'order/hooks', 'children are visited outside of the entry and '
               'exit hooks of their parent', step)
    ctx.expect(before.idx < process.idx < after.idx, 'visit', 'order/hooks', 'the element is processed outside of its entry and exit hooks', step)
    # results of the children
    for e, need in ((after, True), (process, post == [True])):
        if not need:
            continue
        v = named(ctx, c, e).get('children')
        if not ctx.expect(v is not None and v[0] == 'lst', 'visit', 'children/results', '%s does not get the results of the children' % e.name, e):
            continue
        app = [x.args[0] for x in p.events if x.kind == 'call' and x.recv == v and x.name == 'append' and x.idx < e.idx and len(x.args) == 1]
        none = [implied(('isnone', x.value), p.facts) for x in visits]
        want = [x.value for x, k in zip(visits, none) if k is not True]
        ctx.expect(app == want and None not in none, 'visit', 'children/results', 'the results of the children become %s; %s' % ([show(x) for x in app], where), e)
    v = named(ctx, c, after).get('proc_value')
    ctx.expect(v == process.value, 'visit', 'result', 'the exit hook does not get the result of the element', after)


def ordered(t):
    """the container is not reordered"""
    while t[0] == 'call' and t[1] in (('ext', 'list'), ('ext', 'tuple'), ('ext', 'iter')) and len(t[2]) == 1:
        t = t[2][0]
    return not (t[0] == 'call' and t[1] in (('ext', 'sorted'), ('ext', 'reversed'), ('ext', 'set'), ('ext', 'frozenset'))) and t[0] != 'slice'


def branch(ctx, c, step, visit, value, opaque):
    # a child that stops its branch
    stop = ctx.prog.cls('errors:' + STOP)
    for sub in ('errors:OutsideSegmentError',):
        s = ctx.prog.cls(sub)
        ctx.expect(stop in ctx.prog.mro(s), 'branch', s.name, 'does not stop the branch it is raised for', s)
    other = ctx.prog.cls('errors:SemanticValidationError')
    cases = ((('cls', stop.qualname), True), (('cls', ctx.prog.cls('errors:OutsideSegmentError').qualname), True),
             (('cls', other.qualname), False), (('ext', 'ValueError'), False), (('cls', ctx.prog.cls('errors:DiscardElement').qualname), False))
    for typ, caught in cases:
        name = typ[1].rsplit('.', 1)[-1].rsplit(':', 1)[-1]
        w = ctx.walker(types={SELF: c}, noexc=True, opaque=opaque, loop=2, raises={visit: (typ,)})
        n = 0
        for p in ran(ctx, w, step, c):
            if not feasible(p):
                continue
            r = [e for e in p.events if e.kind == 'mayraise' and e.name == visit]
            if not r:
                continue
            n += 1
            if not caught:
                ctx.expect(p.kind == 'raise' and not [e for e in p.events if e.kind == 'call' and e.idx > r[0].idx and
                                                      e.name in HOOKS + (visit,)], 'branch', 'others/' + name,
                           'is lost while the children are visited', step)
                continue
            ctx.expect(p.kind == 'return', 'branch', 'siblings/' + name, 'stopping a branch stops the whole traversal', step)
            if p.kind != 'return':
                continue
            loops = [e for e in p.events if e.kind == 'loop']
            ends = [e.name for e in p.events if e.kind == 'loopend']
            ctx.expect(ends == [len(loops)], 'branch', 'siblings/' + name, 'stopping a branch leaves out the elements after it', step)
            calls = [e for e in p.events if e.kind == 'call' and e.name == visit]
            ctx.expect(len(calls) == len(loops), 'branch', 'siblings/' + name, 'stopping a branch leaves out the elements beside it', step)
            after = [e for e in p.events if e.kind == 'call' and e.name == '_after_element']
            ctx.expect(len(after) == 1, 'branch', 'parent/' + name, 'stopping a branch leaves out the exit of its parent', step)
            for e in after:
                v = named(ctx, c, e).get('children')
                app = [x for x in p.events if x.kind == 'call' and x.recv == v and x.name == 'append']
                ctx.expect(len(app) <= len(calls) - len(r), 'branch', 'results/' + name, 'a stopped branch still gives a result', e)
        ctx.some(n, 'branch', name, 'the visit of children is not reached', step)
    # a root that stops
    proceed = ctx.prog.find_method(c, 'proceed')
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque=opaque | {visit}, raises={visit: (('cls', stop.qualname),)}), proceed, c):
        calls = [e for e in p.events if e.kind == 'call' and e.name in HOOKS + (visit,)]
        ctx.expect(len(calls) == 1, 'branch', 'root', 'after the root has stopped its branch %s still happens' % [e.name for e in calls[1:]], proceed)
    # a hook that stops the branch
    for h in ('_before_element', '_process_element'):
        w = ctx.walker(types={SELF: c}, noexc=True, opaque=opaque, raises={h: (('cls', stop.qualname),)})
        for p in ran(ctx, w, step, c):
            r = [e for e in p.events if e.kind == 'mayraise' and e.name == h]
            if r and feasible(p):
                later = [e.name for e in p.events if e.kind == 'call' and e.recv == SELF and e.idx > r[0].idx and e.name in HOOKS + (visit,)]
                ctx.expect(not later and p.kind == 'raise', 'branch', 'own/' + h, 'after an element has stopped its branch %s still happens' % (
                    later or 'its parent goes on as if it had been processed'), step)
    # an element whose type has no content of elements
    typ = ('ext', 'pyxb.exceptions_.NotComplexContentError')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque=opaque, raises={n: (typ,) for n in ('()', 'orderedContent', 'getattr')})
    n = 0
    for p in ran(ctx, w, step, c):
        r = [e for e in p.events if e.kind == 'mayraise']
        if r and feasible(p):
            n += 1
            names = [e.name for e in p.events if e.kind == 'call' and e.name in HOOKS]
            ctx.expect(p.kind == 'return' and sorted(names) == sorted(set(HOOKS) - {'_process_non_element'}), 'branch', 'simple',
                       'an element with simple content stops the traversal', step)
    ctx.some(n, 'branch', 'simple', 'the children are not asked for', step)


def validator(ctx, visit):
    c = ctx.prog.cls('bindings.validation.validator:SemanticValidator')
    base = ctx.prog.cls(BASE)
    mixin = ctx.prog.cls('bindings.validation.base:SemanticValidationMixin')
    ctx.expect(base in ctx.prog.mro(c), 'validator', 'traversal', 'validation does not traverse the document', c)
    init = ctx.prog.find_method(c, '__init__')
    root = ('p', init.params[1])
    keep = kept(ctx, base)
    flt = None
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), init, c):
        if any(a[0] == 'isnone' and v and a[1][0] in ('bm', 'lam') for a, v in p.facts.items()):
            continue        # a method is not None
        ctx.expect(p.kind == 'return', 'validator', 'construct', 'constructing the validator fails', init)
        vals = {e.name: e.value for e in p.events if e.kind == 'store' and e.recv == SELF}
        ctx.expect(all(vals.get(a) == root for a in keep['root_element']), 'validator', 'root', 'it does not start at the given element', init)
        its = {show(vals[a]) for a in keep['children_iterator'] if a in vals}
        ctx.expect(its and its <= {"'_validatedChildren'", "'orderedContent'"}, 'validator', 'children', 'the children come from %s' % its, init)
        for a in keep['filter']:
            flt = vals.get(a)
        ctx.expect(all(vals.get(a, K(False)) == K(False) for a in keep['post_order']), 'validator', 'order', 'elements come after their content', init)
    g = flt[3] if flt is not None and flt[0] == 'bm' and len(flt) > 3 else None
    if flt is not None and flt[0] == 'bm':
        g = ctx.prog.find_method(c, flt[2])
    if ctx.some(g is not None, 'validator', 'filter', 'the filter of the validation is %s' % (show(flt) if flt else None), init):
        val = ('p', g.params[1] if g.kind == 'method' else g.params[0])
        for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), g, c):
            is_ = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == val and mixin.name in repr(a[2])]
            r = p.ret
            if r is not None and r[0] == 'bool':
                ok = r[1][0] == 'isinst' and r[1][1] == val and mixin.name in repr(r[1][2]) and r[2] is True
            else:
                ok = p.kind == 'return' and is_ == [r == TRUE] and r in (TRUE, K(False))
            ctx.expect(ok, 'validator', 'filter', 'the filter gives %s; path: %s' % (show(r) if r else None, show_facts(p.facts)), g)
    proceed = ctx.prog.find_method(c, 'proceed')
    sup = ctx.prog.find_method(base, 'proceed')
    data = None
    w = ctx.walker(types={SELF: c}, noexc=True, opaque=set(HOOKS) | {visit})
    for p in ran(ctx, w, proceed, c):
        ctx.expect(p.kind == 'return', 'validator', 'run', 'the validation fails by itself; path: ' + show_facts(p.facts), proceed)
        if p.kind != 'return':
            continue
        st = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value and e.value[0] == 'dict']
        ok = len(st) == 1 and p.ret == st[0].value
        if not ctx.expect(ok, 'validator', 'dataset', 'every run does not get a set of data of its own, which is its result', proceed):
            continue
        data = st[0].name
        fills = [e for e in p.events if e.kind == 'call' and e.recv == st[0].value and e.name == 'update']
        items, rest = w.dict_items(st[0].value, p.state)
        ok = rest == [REST] and not items or len(fills) == 1 and (fills[0].args == (REST,) or passes_rest(fills[0]))
        ctx.expect(ok, 'validator', 'dataset/arguments', 'the arguments of the run are not part of its data', proceed)
        runs = [e for e in p.events if e.kind in ('call', 'follow') and e.name == 'proceed' or e.kind == 'follow' and e.target is sup]
        ctx.expect(len(runs) == 1, 'validator', 'run', 'the elements are visited %d times' % len(runs), proceed)
        for e in runs:
            ctx.expect(e.idx > st[0].idx and all(e.idx > x.idx for x in fills), 'validator', 'dataset/order', 'the set of data is not '
                       'complete before the elements are visited', e)
    if not data:
        return
    for h, want in (('_before_element', '_semantic_before_traversal'), ('_after_element', '_semantic_after_traversal')):
        f = ctx.prog.find_method(c, h)
        for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
            es = [e for e in p.events if e.kind == 'call' and e.recv == ('p', 'value')]
            ok = p.kind == 'return' and [e.name for e in es] == [want]
            if ctx.expect(ok, 'validator', h, 'leads to %s; path: %s' % ([e.name for e in es], show_facts(p.facts)), f):
                d = dict(es[0].kwargs)
                names = ctx.prog.find_method(mixin, want).params[1:]
                d.update(zip(names, es[0].args))
                ctx.expect(d == {'dataset': ('attr', SELF, data), 'element_content': ('p', 'element'), 'parent_binding': ('p', 'parent_binding')},
                           'validator', h + '/arguments', 'the hook of the element gets %s' % {k: show(v) for k, v in d.items()}, es[0])
    for h in ('_process_element', '_process_non_element'):
        f = ctx.prog.find_method(c, h)
        ctx.expect(f is not None and f.cls is not base, 'validator', h, 'fails for every element', c)
        if f is not None and f.cls is not base:
            for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
                ctx.expect(p.kind == 'return' and not [e for e in p.events if e.kind in ('store', 'setitem')], 'validator', h,
                           'fails or changes something; path: ' + show_facts(p.facts), f)


OPS = {'__lt__': ('lt', 0, 1, True), '__gt__': ('lt', 1, 0, True), '__le__': ('lt', 1, 0, False), '__ge__': ('lt', 0, 1, False),
       '__eq__': ('eq', 0, 1, True), '__ne__': ('eq', 0, 1, False)}


def compare(ctx):
    """every ordering class compares keys"""
    mix = ctx.prog.cls('utils:ComparableMixin')
    subs = [c for c in ctx.prog.classes if mix in ctx.prog.mro(c) and ctx.prog.find_method(c, '_cmp_key').cls is not mix]
    ctx.some(subs, 'compare', 'classes', 'no class compares by a key', mix)
    for c in subs:
        for op, (kind, i, j, pol) in sorted(OPS.items()):
            f = ctx.prog.find_method(c, op)
            if not ctx.some(f is not None, 'compare', c.name + '/' + op, 'can not be compared with %s' % op, c):
                continue
            other = ('p', f.params[1])
            w = ctx.walker(types={SELF: c, other: c}, noexc=True, opaque={'_cmp_key', '_cmp_checks'})
            done = 0
            for p in ran(ctx, w, f, c):
                if p.kind != 'return' or not feasible(p):
                    ctx.bad('compare', c.name + '/' + op, 'comparing fails; path: ' + show_facts(p.facts), f)
                    continue
                keys = [e for e in p.events if e.kind == 'call' and e.name == '_cmp_key']
                chk = [e for e in p.events if e.kind == 'call' and e.name == '_cmp_checks' and e.recv == SELF and e.args == (other,)]
                ks = {e.recv: e.value for e in keys}
                if not ctx.expect(set(ks) == {SELF, other}, 'compare', c.name + '/' + op, 'the keys of both sides are not compared', f):
                    continue
                done += 1
                ctx.expect(len(chk) == 1 and all(chk[0].idx < e.idx for e in keys), 'compare', c.name + '/checks', 'it is not checked first '
                           'whether both sides can be compared', f)
                k = (ks[SELF], ks[other])
                ctx.expect(not {k, k[::-1]} & w.identities, 'compare', c.name + '/' + op, 'compares the keys by identity, which differs between '
                           'equal keys', f)
                r = p.ret
                want = (kind, k[i], k[j])
                sym = (kind, k[j], k[i]) if kind == 'eq' else None
                if r is not None and r[0] == 'bool':
                    ok = r[1] in (want, sym) and r[2] is pol
                else:
                    v = [x for a, x in p.facts.items() if a in (want, sym)]
                    ok = r in (TRUE, K(False)) and v == [(r == TRUE) is pol]
                ctx.expect(ok, 'compare', c.name + '/' + op, 'gives %s for keys %s and %s' % (show(r) if r else None, show(k[0]), show(k[1])), f)
            ctx.some(done, 'compare', c.name + '/' + op, 'never compares', f)
    # both sides have to be of one sequence
    d = ctx.prog.cls('documents.ebutt3:EBUTT3Document')
    f = ctx.prog.find_method(d, '_cmp_checks')
    ctx.need(f is not None and len(f.params) > 1, 'checks of the comparison')
    same = eq(('attr', SELF, 'sequence_identifier'), ('attr', ('p', f.params[1]), 'sequence_identifier'))
    seen = set()
    w = ctx.walker(types={SELF: d}, noexc=True, opaque={'sequence_identifier'})
    for p in ran(ctx, w, f, d):
        v = same.ev(p.facts)
        seen.add(v)
        ctx.expect(v is not None and (p.kind == 'return') is v, 'compare', d.name + '/sequence', 'documents %s compared; path: %s' % (
            'are' if p.kind == 'return' else 'can not be', show_facts(p.facts)), f)
    ctx.expect(seen >= {True, False}, 'compare', d.name + '/sequence', 'it does not matter whether both documents are of one sequence', f)
