# -*- coding: utf-8 -*-
"""C23: nodes, carriage mechanisms and adapters are only connected when their data types match."""
import ast

from ..core import *
from .copying import ran

#: class, registration method, parameter, own type, type of the other, interface of the other, getter, method called back
SIDES = (
    ('node.base:AbstractProducerNode', 'register_producer_carriage', 'provides', 'expects', 'IProducerCarriage', 'producer_carriage',
     'register_producer_node'),
    ('node.base:AbstractConsumerNode', 'register_consumer_carriage', 'expects', 'provides', 'IConsumerCarriage', 'consumer_carriage',
     'register_consumer_node'),
    ('carriage.base:AbstractProducerCarriage', 'register_producer_node', 'expects', 'provides', 'IProducerNode', 'producer_node', None),
    ('carriage.base:AbstractConsumerCarriage', 'register_consumer_node', 'provides', 'expects', 'IConsumerNode', 'consumer_node', None),
)


def meth(t, name):
    return ('call', ('bm', t, name), (), ())


def param(f, i=0):
    ps = [a.arg for a in f.node.args.args][1:]
    return ('p', ps[i])


def same(p, a, b):
    for x in (('eq', a, b), ('eq', b, a)):
        if x in p.facts:
            return p.facts[x]
    for x, v in p.facts.items():
        if x[0] == 'eq' and set(x[1:]) == {a, b}:
            return v
    return None


def inst(p, t, name):
    for a, v in p.facts.items():
        if a[0] == 'isinst' and a[1] == t and name in repr(a[2]):
            return v
    return None


def getter(ctx, c, name):
    """the attribute a property returns"""
    pr = ctx.prog.find_prop(c, name)
    f = pr.getter if pr is not None else ctx.prog.find_method(c, name)
    ctx.need(f, '%s.%s' % (c.name, name))
    w = ctx.walker(types={SELF: c}, noexc=True)
    out = {p.ret for p in ran(ctx, w, f, c) if p.kind == 'return'}
    return out, f


@check('C23')
def register(ctx):
    ctx.rule('link-types', 'a partner is accepted exactly when it implements the interface and its data type matches; otherwise it is '
                           'rejected before anything changes')
    ctx.rule('link-kept', 'the accepted partner is the one reported and used, and learns of the connection')
    for cn, mn, own, oth, iface, acc, back in SIDES:
        c = ctx.prog.cls(cn)
        f = ctx.prog.find_method(c, mn)
        ctx.need(f, '%s.%s' % (cn, mn))
        arg = param(f)
        # any subclass that overrides the method
        places = [(c, f)]
        for k in ctx.prog.subclasses(c):
            g = ctx.prog.find_method(k, mn)
            if g is not None and g is not f and (k, g) not in places and all(g is not x[1] for x in places):
                places.append((k, g))
        for k, g in places:
            label = '%s.%s' % (k.name, mn)
            a = param(g)
            got, h = getter(ctx, k, acc)
            ctx.expect(len(got) == 1 and list(got)[0][0] == 'attr' and list(got)[0][1] == SELF, 'link-kept', '%s/reported' % label,
                       '%s reports %s' % (acc, [show(x) for x in got]), h)
            field = list(got)[0]
            w = ctx.walker(types={SELF: k}, opaque={'expects', 'provides', back or '', 'format'}, noexc=True)
            o, t = meth(SELF, own), meth(a, oth)
            ok = 0
            for p in ran(ctx, w, g, k):
                ii, ss = inst(p, a, iface), same(p, o, t)
                st = [e for e in p.events if e.kind == 'store' and ('attr', e.recv, e.name) == field]
                calls = [e for e in p.events if e.kind == 'call' and back and e.name == back]
                if p.kind == 'return':
                    ok += 1
                    ctx.expect(ii is True, 'link-types', label + '/interface', 'a partner that is no %s is accepted; path: %s' % (
                        iface, show_facts(p.facts)), g)
                    ctx.expect(ss is True, 'link-types', label + '/data', 'a partner is accepted although the data types were not found '
                               'equal; path: %s' % show_facts(p.facts), g)
                    ctx.expect(len(st) == 1 and st[0].value == a, 'link-kept', label + '/stored', 'the partner is stored %d times' % len(st), g)
                    if back:
                        good = len(calls) == 1 and calls[0].recv in (a, field) and (
                            calls[0].args + tuple(v for _, v in calls[0].kwargs or ())) == (SELF,)
                        ctx.expect(good and st and st[0].idx < calls[0].idx, 'link-kept', label + '/told',
                                   'the partner is told of the connection %d times' % len(calls), g)
                else:
                    want = 'ComponentCompatError' if ii is False else 'DataCompatError'
                    ctx.expect(ii is False or ss is False, 'link-types', label + '/refused', 'a matching partner is refused; path: %s' %
                               show_facts(p.facts), g)
                    name = w.exc_name(p.exc) if p.exc is not None else None
                    ctx.expect(name is not None and name.endswith(want), 'link-types', label + '/error', 'a partner is refused with %s; path: %s' % (
                        name, show_facts(p.facts)), g)
                    ctx.expect(not st and not calls, 'link-types', label + '/unchanged', 'a refused partner is kept', g)
            ctx.expect(ok, 'link-types', label, 'no partner is ever accepted', g)


@check('C23')
def initial(ctx):
    ctx.rule('link-initial', 'nodes connect to the carriages they are created with and keep their identifier; without one they have none')
    node = ctx.prog.cls('node.interface:INode')
    n = 0
    for c in sorted(ctx.prog.subclasses(node), key=lambda c: c.qualname):
        if '.node.' not in c.qualname or c.mod.name.endswith('interface'):
            continue
        f = ctx.prog.find_method(c, '__init__')
        if f is None:
            continue
        names = {a.arg for a in f.node.args.args}
        w = ctx.walker(types={SELF: c}, opaque={'register_producer_carriage', 'register_consumer_carriage', 'create_template',
                                               'set_implicit_ns', 'adjust_time', 'validate'}, noexc=True)
        for kind in ('producer', 'consumer'):
            base = ctx.prog.cls('node.base:Abstract%sNode' % kind.capitalize())
            if not ctx.prog.is_sub(c, base):
                continue
            a = ('p', kind + '_carriage')
            label = '%s/%s' % (c.name, kind)
            if a[1] not in names:
                ctx.bad('link-initial', label, 'a %s can not be created with a carriage' % c.name, f)
                continue
            for p in ran(ctx, w, f, c):
                if p.kind != 'return':
                    continue
                n += 1
                calls = [e for e in p.events if e.kind == 'call' and e.name == 'register_%s_carriage' % kind]
                none = p.facts.get(('isnone', a))
                if none is None:
                    none = {True: False, False: True}.get(p.facts.get(('truthy', a)))
                good = [e for e in calls if e.recv == SELF and e.args + tuple(v for _, v in e.kwargs or ()) == (a,)]
                ctx.expect(len(calls) == len(good) and (none is True and not calls or none is False and len(calls) == 1), 'link-initial',
                           label, 'the carriage given is registered %d times; path: %s' % (len(calls), show_facts(p.facts)), f)
        if 'node_id' in names:
            got, h = getter(ctx, c, 'node_id')
            for p in ran(ctx, w, f, c):
                if p.kind == 'return':
                    st = [e for e in p.events if e.kind == 'store' and ('attr', e.recv, e.name) in got]
                    ctx.expect(st and st[-1].value == ('p', 'node_id'), 'link-initial', c.name + '/id', 'the node identifier is not kept', f)
    ctx.need(n >= 10, 'node constructors')
    for cn, mn, own, oth, iface, acc, back in SIDES:
        c = ctx.prog.cls(cn)
        got, h = getter(ctx, c, acc)
        for t in got:
            if t[0] == 'attr':
                d = [k.attrs.get(t[2]) for k in ctx.prog.mro(c) if isinstance(k, Cls) and t[2] in k.attrs]
                ctx.expect(d and isinstance(d[0], ast.Constant) and d[0].value is None, 'link-initial', '%s/%s' % (c.name, acc),
                           'a fresh %s already has a partner or fails when asked for it' % c.name, h)


@check('C23')
def declared(ctx):
    ctx.rule('link-declared', 'every component reports the data types its class declares')
    for cn, names in (('node.interface:IProducerNode', ('provides',)), ('node.interface:IConsumerNode', ('expects',)),
                      ('carriage.interface:IProducerCarriage', ('expects',)), ('carriage.interface:IConsumerCarriage', ('provides',)),
                      ('adapters.base:IDocumentDataAdapter', ('expects', 'provides'))):
        c = ctx.prog.cls(cn)
        for n in names:
            f = ctx.prog.find_method(c, n)
            ctx.need(f, '%s.%s' % (cn, n))
            w = ctx.walker(types={}, noexc=True)
            ok = 0
            for p in ran(ctx, w, f, c):
                if p.kind == 'return':
                    ok += 1
                    ctx.expect(p.ret[0] in ('attr', 'getattr') and p.ret[2] in ('_' + n, K('_' + n)), 'link-declared', '%s.%s' % (c.name, n),
                               'the declared type is %s' % show(p.ret), f)
                else:
                    missing = any(a[0] == 'isinst' and v and 'AbstractStaticMember' in repr(a[2]) for a, v in p.facts.items())
                    ctx.expect(missing, 'link-declared', '%s.%s/error' % (c.name, n), 'asking for the declared type fails; path: %s' %
                               show_facts(p.facts), f)
            ctx.expect(ok, 'link-declared', '%s.%s' % (c.name, n), 'the declared type is never reported', f)
            # concrete classes declare it
            for k in ctx.prog.subclasses(c):
                if k.mod.name.endswith('.interface') or k.name.startswith(('Abstract', '__Abstract', 'I')) or '.test' in k.mod.name:
                    continue
                g = ctx.prog.find_method(k, n)
                if g is not f:
                    continue
                decl = [m for m in ctx.prog.mro(k) if isinstance(m, Cls) and '_' + n in m.attrs]
                direct = bool(decl) and not (isinstance(decl[0].attrs['_' + n], ast.Call))
                emits = any(x for x in k.methods) and (n == 'expects' or 'process_document' in k.methods or 'emit_data' in k.methods)
                ctx.expect(direct or not emits or k.name == 'SwitcherNode', 'link-declared', '%s/_%s' % (k.name, n), '%s does not declare what it %s' % (
                    k.name, n), k.node if hasattr(k, 'node') else f)
    # what an unrestricted type equals
    c = ctx.prog.cls('utils:AnyType')
    for n, v in (('__eq__', True), ('__ne__', False)):
        f = ctx.prog.find_method(c, n)
        ctx.expect(f is not None, 'link-declared', 'ANY.' + n, 'the unrestricted type does not compare', c.node)
        if f is not None:
            for p in ran(ctx, ctx.walker(types={SELF: c}), f, c):
                ctx.expect(p.kind == 'return' and p.ret == K(v), 'link-declared', 'ANY.' + n, 'comparing the unrestricted type gives %s' % (
                    show(p.ret) if p.ret else p.kind), f)


@check('C23')
def chain(ctx):
    ctx.rule('link-adapters', 'a node and a carriage of different types are connected through adapters from the one type to the other, '
                              'found or given, or not at all')
    c = ctx.prog.cls('adapters.node_carriage:AbstractNodeCarriageAdapter')
    acc, h = getter(ctx, c, 'data_adapters')
    ctx.expect(len(acc) == 1 and list(acc)[0][0] == 'attr', 'link-adapters', 'reported', 'the adapters reported are %s' % [show(x) for x in acc], h)
    field = list(acc)[0]
    for kn, node, carr in (('ProducerNodeCarriageAdapter', ('p', 'producer_node'), ('p', 'producer_carriage')),
                           ('ConsumerNodeCarriageAdapter', ('p', 'consumer_node'), ('p', 'consumer_carriage'))):
        k = ctx.prog.cls('adapters.node_carriage:' + kn)
        f = ctx.prog.find_method(k, '__init__')
        side = 'producer' if 'Producer' in kn else 'consumer'
        if side == 'producer':
            src, dst = meth(node, 'provides'), meth(carr, 'expects')
        else:
            src, dst = meth(carr, 'provides'), meth(node, 'expects')
        given = ('p', 'data_adapters')
        w = ctx.walker(types={SELF: k}, noexc=True,
                       opaque={'get_document_data_adapter', 'register_producer_node', 'register_consumer_node'},
                       raises={'get_document_data_adapter': (('ext', 'ValueError'),)})
        # the registration of the node, which is another object, stays a call
        cases = set()
        for p in ran(ctx, w, f, k):
            label = kn
            st = [e for e in p.events if e.kind == 'store' and ('attr', e.recv, e.name) == field]
            eq = same(p, src, dst)
            if p.kind == 'return':
                ctx.expect(len(st) == 1, 'link-adapters', label + '/set', 'the adapters are set %d times' % len(st), f)
                if len(st) != 1:
                    continue
                v = st[0].value
                none = p.facts.get(('isnone', given))
                lookup = [e for e in p.events if e.kind == 'call' and e.name == 'get_document_data_adapter']
                for e in lookup:
                    ctx.expect(kw_or(e, 'expects', 0) == src and kw_or(e, 'provides', 1) == dst, 'link-adapters', label + '/lookup',
                               'an adapter from %s to %s is looked up' % (show(kw_or(e, 'expects', 0) or NONE), show(kw_or(e, 'provides', 1) or NONE)), e)
                empty = v[0] == 'lst' and not items(p, v) or p.facts.get(('truthy', v)) is False
                ctx.expect(none is not None, 'link-adapters', label + '/ignored', 'whether adapters are given is not considered; path: %s' %
                           show_facts(p.facts), f)
                cases.add('given' if none is False and not empty else 'none' if none is False else 'equal' if eq else 'found')
                if none is False:
                    ctx.expect(given_list(v, given), 'link-adapters',
                               label + '/given', 'the adapters used are %s instead of those given' % show(v), st[0])
                    if not empty:
                        first, last = ends(p, v)
                        ctx.expect(first == src and last == dst, 'link-adapters', label + '/ends',
                                   'the given adapters are accepted without leading from the one type to the other; path: %s' % show_facts(p.facts), f)
                    else:
                        ctx.expect(eq is True, 'link-adapters', label + '/none', 'different types are connected without adapters; path: %s' %
                                   show_facts(p.facts), f)
                elif eq is True:
                    ctx.expect(empty or first_last(p, v, src, dst), 'link-adapters', label + '/equal', 'an adapter is used between equal types', f)
                else:
                    ctx.expect(not empty and len(lookup) == 1 and items(p, v) == (lookup[0].value,), 'link-adapters', label + '/found',
                               'different types are connected with %s; path: %s' % (show(v), show_facts(p.facts)), f)
                # both partners registered
                for who, m in ((carr, 'register_%s_node' % side), (node, 'register_%s_carriage' % side)):
                    calls = [e for e in p.events if e.kind == 'call' and e.name == m and (e.recv == who or e.recv == ('attr', SELF, '_%s_carriage' % side))]
                    good = len(calls) == 1 and (calls[0].args + tuple(x for _, x in calls[0].kwargs or ())) == (SELF,)
                    ctx.expect(good and calls[0].idx > st[0].idx, 'link-adapters', '%s/%s' % (label, m),
                               'the adapter is registered %d times with its %s' % (len(calls), show(who)), f)
                for n, t in (('expects', src), ('provides', dst)):
                    got, g = getter(ctx, k, n)
                    for a in got:
                        stt = [e for e in p.events if e.kind == 'store' and ('attr', e.recv, e.name) == a]
                        ctx.expect(stt and stt[-1].value == t, 'link-adapters', '%s/%s' % (label, n), 'the adapter says it %s %s' % (
                            n, show(stt[-1].value) if stt else show(a)), f)
            else:
                name = w.exc_name(p.exc) if p.exc is not None else None
                ctx.expect(name is not None and name.endswith('DataCompatError'), 'link-adapters', label + '/error', 'the connection fails with %s' % name, f)
                ctx.expect(not st and not [e for e in p.events if e.kind == 'call' and e.name.startswith('register_')], 'link-adapters',
                           label + '/unchanged', 'a refused connection is kept', f)
                none = p.facts.get(('isnone', given))
                if none is False:
                    vs = [x for a in p.facts for x in subterms(a) if given_list(x, given)] or [given]
                    v = [x for x in vs if x != given][:1] or [given]
                    v = v[0]
                    empty = p.facts.get(('truthy', v)) is False
                    no = False
                    for a, val in p.facts.items():
                        if a[0] == 'eq' and not val:
                            for x, y in ((a[1], a[2]), (a[2], a[1])):
                                if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm':
                                    if x[1][2] == 'expects' and is_end(x[1][1], v, False) and y == src or \
                                            x[1][2] == 'provides' and is_end(x[1][1], v, True) and y == dst:
                                        no = True
                    matched = eq is True if empty else not no
                else:
                    tried = any(e.kind == 'mayraise' and e.name == 'get_document_data_adapter' or e.kind == 'call' and
                                e.name == 'get_document_data_adapter' for e in p.events)
                    matched = eq is True or not tried
                ctx.expect(not matched, 'link-adapters', label + '/refused', 'equal types are refused; path: %s' % show_facts(p.facts), f)
        for case in ('given', 'equal', 'found'):
            ctx.expect(case in cases, 'link-adapters', '%s/%s' % (kn, case), 'no connection is ever made with adapters %s' % case, f)
        # accessors
        for n in ('%s_node' % side, '%s_carriage' % side):
            g = ctx.prog.find_method(k, 'register_' + n)
            got, h = getter(ctx, k, n)
            for p in ran(ctx, ctx.walker(types={SELF: k}, noexc=True, opaque={'register_producer_node', 'register_consumer_node'}), g, k):
                st = [e for e in p.events if e.kind == 'store' and ('attr', e.recv, e.name) in got]
                ctx.expect(p.kind == 'return' and len(st) == 1 and st[0].value == param(g), 'link-kept', '%s/%s' % (kn, n),
                           'the %s reported is not the registered one' % n, g)


def items(p, v):
    """what a list built on the path holds"""
    out = list(v[2]) if v[0] in ('lst', 'tup') else [None]
    for e in p.events:
        if e.kind == 'call' and e.recv == v:
            out.append(e.args[0] if e.name == 'append' and len(e.args) == 1 else None)
    return tuple(out)


def given_list(v, given):
    """the term is a list of exactly the adapters given"""
    if v == given or v == ('call', ('ext', 'list'), (given,), ()):
        return True
    if v[0] == 'comp' and not v[4] and len(v[3]) == 1:
        return v[3][0] == given and v[2][0] in ('it', 'each') and v[2][1] == given
    return False


def is_end(x, v, last):
    if x[0] != 'sub' or x[1] != v:
        return False
    if not last:
        return x[2] == K(0)
    n = ('call', ('ext', 'len'), (v,), ())
    return x[2] == K(-1) or x[2][0] == 'bin' and x[2][1] in ('-', 'Sub') and x[2][3] == K(1) and (x[2][2] == n or x[2][2][0] == 'len')


def kw_or(e, name, i):
    v = kw(e, name)
    return v if v is not None else e.args[i] if len(e.args) > i else None


def ends(p, v):
    """the types found equal to the input of the first and the output of the last adapter"""
    first = last = None
    for a, val in p.facts.items():
        if a[0] == 'eq' and val:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm':
                    if x[1][2] == 'expects' and is_end(x[1][1], v, False):
                        first = y
                    elif x[1][2] == 'provides' and is_end(x[1][1], v, True):
                        last = y
    return first, last


def first_last(p, v, src, dst):
    return ends(p, v) == (src, dst)


@check('C23')
def registry(ctx):
    ctx.rule('link-registry', 'the adapter found for two types is the one registered for exactly these; unknown pairs are an error')
    c = ctx.prog.cls('adapters.base:IDocumentDataAdapter')
    f = ctx.prog.find_method(c, 'auto_register_impl')
    ctx.need(f, 'registration of adapters')
    impl = param(f)
    exp, pro = meth(impl, 'expects'), meth(impl, 'provides')
    w = ctx.walker(types={}, noexc=True, opaque={'expects', 'provides', 'format', 'debug', 'warning'})
    box, n = set(), 0
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            ctx.bad('link-registry', 'register/error', 'registering an adapter fails; path: %s' % show_facts(p.facts), f)
            continue
        sets = [e for e in p.events if e.kind == 'setitem' and e.value == impl]
        known = [v for a, v in p.facts.items() if a[0] == 'in' and a[1] == pro]
        ctx.expect(len(sets) == (0 if True in known else 1), 'link-registry', 'register', 'an adapter is registered %d times; path: %s' % (
            len(sets), show_facts(p.facts)), f)
        for e in sets:
            n += 1
            ctx.expect(e.name == pro and mentions(e.recv, exp), 'link-registry', 'register/key', 'an adapter is registered under %s of %s' % (
                show(e.name), show(e.recv)), e)
            for x in subterms(e.recv):
                if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm' and x[1][2] == 'setdefault':
                    box.add(x[1][1])
                    ctx.expect(x[2][:1] == (exp,), 'link-registry', 'register/outer', 'adapters are kept under %s' % show(x[2][0]), e)
    ctx.expect(n, 'link-registry', 'register', 'adapters are never registered', f)
    g = ctx.prog.find_method(c, 'get_registered_impl')
    w = ctx.walker(types={}, noexc=True, opaque={'format'})
    e_, p_ = ('p', 'expects'), ('p', 'provides')
    ok = 0
    for p in ran(ctx, w, g, c):
        if p.kind == 'return':
            ok += 1
            t = p.ret
            r = chainkeys(t)
            ctx.expect(r is not None and r[1:] == (e_, p_), 'link-registry', 'lookup', 'the adapter found is %s' % show(t), g)
            if r:
                ctx.expect(not box or r[0] in box, 'link-registry', 'lookup/box', 'adapters are looked up in %s' % show(r[0]), g)
            found = p.facts.get(('isnone', t)) is False or p.facts.get(('truthy', t)) is True
            ctx.expect(found, 'link-registry', 'lookup/found', 'no adapter may be returned', g)
        else:
            name = w.exc_name(p.exc) if p.exc is not None else None
            ctx.expect(name == 'ValueError' or name and name.endswith('ValueError'), 'link-registry', 'lookup/error', 'the lookup fails with %s' % name, g)
    ctx.expect(ok, 'link-registry', 'lookup', 'no adapter is ever found', g)
    h = ctx.prog.func('adapters.document_data:get_document_data_adapter')
    w = ctx.walker(noexc=True, opaque={'get_registered_impl'})
    for p in ran(ctx, w, h, None):
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'get_registered_impl']
        good = len(calls) == 1 and kw_or(calls[0], 'expects', 0) == e_ and kw_or(calls[0], 'provides', 1) == p_
        ctx.expect(good, 'link-registry', 'function', 'the lookup is asked for other types', h)
        ctx.expect(p.kind == 'return' and good and p.ret[0] in ('call', 'new') and mentions(p.ret, calls[0].value) and p.ret != calls[0].value, 'link-registry',
                   'function/new', 'the adapter handed out is %s' % (show(p.ret) if p.ret else p.kind), h)
    # every adapter class is registered
    d = ctx.prog.cls('adapters.base:IDocumentDataAdapter')
    pairs = {}
    for k in ctx.prog.subclasses(d):
        if '.test' in k.mod.name:
            continue
        key = tuple(ast.unparse(k.attrs[n]) if n in k.attrs else None for n in ('_expects', '_provides'))
        ctx.expect(None not in key, 'link-registry', k.name, 'the adapter does not declare its types', k.node)
        ctx.expect(key not in pairs, 'link-registry', k.name + '/unique', 'the adapter converts the same types as %s and is never used' % pairs.get(key), k.node)
        pairs[key] = k.name


def chainkeys(t):
    """(registry, outer key, inner key) of a two level lookup"""
    def one(x):
        if x[0] == 'sub':
            return x[1], x[2]
        if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'bm' and x[1][2] == 'get' and x[2]:
            if len(x[2]) > 1 and x[2][1] not in (NONE,) and x[2][1][0] != 'dict':
                return None
            return x[1][1], x[2][0]
        return None
    a = one(t)
    b = one(a[0]) if a else None
    return (b[0], b[1], a[1]) if b else None


@check('C23')
def twisted(ctx):
    ctx.rule('link-backend', 'a push producer registers itself with the carriage it is created for and starts without connections')
    c = ctx.prog.cls('twisted.websocket:TwistedWSPushProducer')
    f = ctx.prog.find_method(c, '__init__')
    ctx.need(f, 'push producer constructor')
    a = param(f)
    w = ctx.walker(types={SELF: c}, opaque={'register_backend_producer'}, noexc=True)
    for p in ran(ctx, w, f, c):
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'register_backend_producer']
        stores = {t for t in (('attr', e.recv, e.name) for e in p.events if e.kind == 'store' and e.value == a)} | {a}
        good = len(calls) == 1 and calls[0].recv in stores and calls[0].args + tuple(v for _, v in calls[0].kwargs or ()) == (SELF,)
        ctx.expect(p.kind == 'return' and good, 'link-backend', 'producer', 'the push producer is registered %d times' % len(calls), f)
    g = ctx.prog.find_method(c, 'resumeProducing')
    ctx.need(g, 'resumeProducing')
    for p in ran(ctx, ctx.walker(types={SELF: c}, opaque={'resume_producing'}, noexc=True), g, c):
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'resume_producing']
        ctx.expect(p.kind == 'return' and len(calls) == 1 and calls[0].recv in stores, 'link-backend', 'resume',
                   'a request for data reaches the carriage %d times' % len(calls), g)
    k = ctx.prog.cls('carriage.websocket:WebsocketProducerCarriage')
    r = ctx.prog.find_method(k, 'register_backend_producer')
    e_ = ctx.prog.find_method(k, 'emit_data')
    ctx.need(r and e_, 'websocket carriage')
    kept = set()
    for p in ran(ctx, ctx.walker(types={SELF: k}, noexc=True), r, k):
        kept |= {('attr', e.recv, e.name) for e in p.events if e.kind == 'store' and e.value == param(r)}
    ctx.expect(kept, 'link-backend', 'carriage', 'the push producer is not kept', r)
    n = 0
    for p in ran(ctx, ctx.walker(types={SELF: k}, opaque={'emit_data'}, noexc=True), e_, k):
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'emit_data']
        ctx.expect(all(e.recv in kept for e in calls), 'link-backend', 'carriage/used', 'data is handed to another producer', e_)
        n += len(calls)
        none = any(p.facts.get(('truthy', t)) is False or p.facts.get(('isnone', t)) is True for t in kept)
        ctx.expect(len(calls) == (0 if none else 1), 'link-backend', 'carriage/emit', 'data is emitted %d times; path: %s' % (
            len(calls), show_facts(p.facts)), e_)
    ctx.expect(n, 'link-backend', 'carriage/emit', 'data is never emitted', e_)


@check('C23')
def registering(ctx):
    m = ctx.prog.cls('utils:AutoRegisteringABCMeta')
    f = m.methods.get('__new__')
    ctx.need(f, 'class registration')
    w = ctx.walker(types={}, noexc=True, opaque={'auto_register_impl', 'validate', 'format', 'items', '__new__'}, loop=1)
    n = 0
    for p in ran(ctx, w, f, m):
        if p.kind != 'return':
            continue
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'auto_register_impl']
        for e in calls:
            ctx.expect(e.args == (p.ret,), 'link-registry', 'metaclass', 'a base is told of %s instead of the new class' % show(e.args[0] if e.args else NONE), e)
        known = [a[1] for a, v in p.facts.items() if a[0] == 'isinst' and v and a[1][0] == 'it' and a[1][1] == ('p', 'bases')]
        ctx.expect({e.recv for e in calls} == set(known) and len(calls) == len(set(known)), 'link-registry', 'metaclass/bases',
                   '%d of %d bases learn of a new concrete class' % (len(calls), len(known)), f)
        n += len(calls)
    ctx.expect(n, 'link-registry', 'metaclass', 'concrete classes are not registered', f)


@check('C23')
def converted(ctx):
    ctx.rule('link-converts', 'an adapter hands on data of the type it declares, made from the data it was given')
    d = ctx.prog.cls('adapters.base:IDocumentDataAdapter')
    n = 0
    for k in sorted(ctx.prog.subclasses(d), key=lambda k: k.name):
        if '.test' in k.mod.name:
            continue
        f = ctx.prog.find_method(k, 'convert_data')
        ctx.expect(f is not None, 'link-converts', k.name, 'the adapter does not convert', k.node)
        if f is None or '_provides' not in k.attrs:
            continue
        want = k.attrs['_provides']
        text = not isinstance(want, ast.Name)
        w = ctx.walker(types={SELF: k}, noexc=True, opaque={'create_from_xml', 'create_from_raw_binding', 'get_xml', 'convert_document',
                                                           'CreateFromDocument', 'format', 'sequence_identifier', 'sequence_number',
                                                           'availability_time', 'time_base', 'clock_mode', 'binding'})
        made = set()
        for p in ran(ctx, w, f, k):
            if p.kind != 'return':
                continue
            n += 1
            t = p.ret
            ctx.expect(t[0] == 'tup' and len(t[1]) == 2, 'link-converts', k.name + '/pair', 'the adapter returns %s' % show(t), f)
            if t[0] != 'tup' or len(t[1]) != 2:
                continue
            doc = t[1][0]
            ctx.expect(mentions(doc, ('p', 'data')), 'link-converts', k.name + '/input', 'the result %s does not come from the data given' % show(doc), f)
            if doc[0] == 'call' and isinstance(doc[1], tuple) and doc[1][0] == 'bm':
                made.add('text' if doc[1][2] == 'get_xml' else doc[1][1][1].split('.')[-1] if doc[1][1][0] == 'cls' else show(doc))
            else:
                made.add(show(doc))
        have = 'text' if text else want.id
        ctx.expect(have in made and made <= {have, 'EBUTTAuthorsGroupControlRequest'}, 'link-converts', k.name + '/type',
                   'the adapter declares %s and provides %s' % (have, sorted(made)), f)
    ctx.need(n >= 5, 'adapters')
