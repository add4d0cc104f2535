# -*- coding: utf-8 -*-
"""C34: what is written of a document is all of it, and nothing else."""
import ast
from ..core import *
from .copying import ran
from .contract import getter

ROOTS = (('bindings:tt_type', 'bindings'), ('bindings:d_tt_type', 'bindings'), ('bindings._ebuttlm:message_type', 'bindings._ebuttlm'))
PLAIN = 'toxml'
PRETTY = 'toprettyxml'
PREFIXES = {'bindings._ebuttlm': {'ebuttlm', 'ebuttp'}, 'bindings': {'tt', 'ebuttdt', 'ttp', 'tts', 'ttm', 'ebuttm', 'ebutts', 'ebuttp', 'ebuttlm'}}
SUPPORT = 'BindingDOMSupport'


def named(e, *names):
    """value of a parameter given by position (in this order) or by name"""
    d = dict(e.kwargs or ())
    out = {}
    for i, n in enumerate(names):
        if i < len(e.args or ()):
            out[n] = e.args[i]
        if n in d:
            out[n] = d[n]
    return out


def is_default(t, mod):
    """DOM support made with the prefixes of the module"""
    if t[0] != 'call' or t[1][0] != 'ext' or t[1][1].rpartition('.')[2] != SUPPORT or t[2]:
        return False
    d = dict(t[3])
    pm = d.get('namespace_prefix_map')
    return set(d) == {'namespace_prefix_map'} and pm is not None and (pm[0] == 'glob' and pm[1] == 'ebu_tt_live.' + mod or
                                                                      pm[0] == 'kdict' and {k[1] for k, _ in pm[1]} == PREFIXES[mod])


@check('C34')
def binding(ctx):
    ctx.rule('write-support', 'a root element is written with the namespaces asked for, and otherwise with the prefixes of the specifications')
    ctx.rule('write-all', 'the text of a document is made from all of the document, in the encoding asked for')
    ctx.rule('write-space', 'writing a document adds nothing to its text')
    ctx.rule('write-root', 'an EBU-TT-D document is written with the root element tt, with a prefix unless its namespace is the default one')
    for qual, mod in ROOTS:
        c = ctx.prog.cls(qual)
        f = ctx.prog.find_method(c, 'toDOM')
        if not ctx.some(f is not None, 'write-support', c.name, '%s has no way of its own to be written: the prefixes of the specifications are not used' % c.name, mod):
            continue
        BDS, PARENT, NAME = ('p', 'bds'), ('p', 'parent'), ('p', 'element_name')
        w = ctx.walker(types={SELF: c}, noexc=True)
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                continue
            sup = [e for e in p.calls('toDOM') if e.recv == SELF]
            if not ctx.expect(len(sup) == 1 and p.ret == sup[0].value, 'write-all', c.name + '/dom', 'the document made is %s' % show(p.ret)[:200], f):
                continue
            got = named(sup[0], 'bds', 'parent', 'element_name')
            given = given_fact(p, BDS)
            bds = got.get('bds', NONE)
            ctx.expect(given is not None and (bds == BDS if given else is_default(bds, mod)), 'write-support', c.name, 'where DOM support is %s the document is made with %s' % (
                'given' if given else 'not given', show(bds)), f)
            ctx.expect(got.get('parent') == PARENT and got.get('element_name') == NAME, 'write-all', c.name + '/arguments', 'parent and element name are not passed on', f)
            if c.name == 'd_tt_type':
                root(ctx, f, p, sup[0].value, bds)
        g = ctx.prog.find_method(c, 'toxml')
        if not ctx.some(g is not None, 'write-support', c.name + '/text', '%s has no way of its own to be written' % c.name, mod):
            continue
        w = ctx.walker(types={SELF: c}, noexc=True, opaque=('toDOM',))
        for prm, default in zip(reversed(g.node.args.args), reversed(g.node.args.defaults)):
            ctx.expect(isinstance(default, ast.Constant) and not default.value, 'write-all', '%s/default/%s' % (c.name, prm.arg), 'when nothing is asked for %s is %s' % (prm.arg, ast.unparse(default)), g)
        pretty = plain = False
        for p in ran(ctx, w, g, c):
            if p.kind != 'return':
                continue
            dom = [e for e in p.calls('toDOM') if e.recv == SELF]
            out = [e for e in p.events if e.kind == 'call' and e.name in (PLAIN, PRETTY) and e.recv is not None]
            if not ctx.expect(len(dom) == 1 and len(out) == 1 and p.ret == out[0].value, 'write-all', c.name + '/text', 'the text is %s' % show(p.ret)[:200], g):
                continue
            got = named(dom[0], 'bds', 'parent', 'element_name')
            given = given_fact(p, BDS)
            bds = got.get('bds', NONE)
            ok = bds == BDS or given is False and (bds == NONE or is_default(bds, mod))
            ctx.expect(ok, 'write-support', c.name + '/text', 'where DOM support is %s the text is made with %s' % ('given' if given else 'not given', show(bds)), g)
            ctx.expect(got.get('element_name') == NAME and got.get('parent', NONE) == NONE, 'write-all', c.name + '/name', 'the element name is not passed on', g)
            only = given_fact(p, ('p', 'root_only'))
            want = dom[0].value if only is False else ('attr', dom[0].value, 'documentElement') if only else None
            ctx.expect(out[0].recv == want, 'write-all', c.name + '/part', 'where %s is asked for the text is made of %s' % (
                'the root element only' if only else 'the document', show(out[0].recv)[:120]), g)
            o = named(out[0], 'indent', 'newl', 'encoding') if out[0].name == PRETTY else named(out[0], 'encoding')
            ctx.expect(o.get('encoding') == ('p', 'encoding'), 'write-all', c.name + '/encoding', 'the text is not made in the encoding asked for', g)
            if c.name != 'message_type':
                if out[0].name == PLAIN or o.get('indent') == K('') and o.get('newl') == K(''):
                    plain = True
                else:
                    pretty = True
        if c.name != 'message_type':
            ctx.expect(plain and not pretty, 'write-space', c.name, 'white space is put between the spans of a paragraph and around its text and line breaks (%s)' % PRETTY, g)
    # prefixes
    for mod in sorted({m for _, m in ROOTS}):
        m = ctx.prog.mods['ebu_tt_live.' + mod]
        expr = [x.value for x in m.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'namespace_prefix_map' for t in x.targets)]
        ctx.need(len(expr) == 1, 'prefixes of ' + mod)
        d = expr[0]
        pairs = list(zip(d.keys, d.values)) if isinstance(d, ast.Dict) else [(ast.Constant(k.arg), k.value) for k in d.keywords] if isinstance(d, ast.Call) else []
        ctx.need(pairs and all(isinstance(k, ast.Constant) for k, _ in pairs), 'prefixes of ' + mod)
        used = {}
        for k, v in pairs:
            src = ast.unparse(v)
            owner = src.rpartition('.')[0].rpartition('.')[2]
            own = {'tt': ('raw', ''), 'ebuttlm': ('ebuttlm', '') if mod.endswith('_ebuttlm') else ('ebuttlm',)}.get(k.value, (k.value,))
            ctx.expect(src.rpartition('.')[2] == 'Namespace' and owner in own and src not in used.values(), 'write-support', 'prefix/%s/%s' % (mod, k.value),
                       'the prefix %s stands for %s' % (k.value, src), '%s namespace_prefix_map' % mod)
            used[k.value] = src
        for k in sorted(PREFIXES[mod]):
            ctx.expect(k in used, 'write-support', 'prefix/%s/%s' % (mod, k), 'there is no prefix %s' % k, '%s namespace_prefix_map' % mod)


def given_fact(p, t):
    for a, v in p.facts.items():
        if a == ('truthy', t):
            return v
        if a == ('isnone', t):
            return not v
    return None


def root(ctx, f, p, dom, bds):
    elem = ('attr', dom, 'documentElement')
    st = [e for e in p.events if e.kind == 'store' and e.recv == elem and e.name in ('tagName', 'nodeName')]
    cmp = [(a, v) for a, v in p.facts.items() if a[0] == 'eq' and any(x == ('call', ('bm', bds, 'defaultNamespace'), (), ()) for x in a[1:])]
    if not ctx.expect(len(st) >= 1 and len(cmp) == 1, 'write-root', 'd_tt_type', 'the root element is written with the name of the schema, ttd, or its name does not depend on the default namespace', f):
        return
    a, same = cmp[0]
    other = [x for x in a[1:] if 'defaultNamespace' not in str(x)]
    ctx.expect(len(other) == 1 and 'Namespace' in str(other[0]) and not any(m in str(other[0]) for m in ('_tt', 'ebutt')), 'write-root', 'd_tt_type/namespace',
               'the default namespace is compared with %s' % (show(other[0]) if other else 'itself'), f)
    want = K('tt') if same else K('tt:tt')
    ctx.expect(st[-1].value == want, 'write-root', 'd_tt_type/%s' % ('default' if same else 'prefix'), 'where the namespace of TTML is %s the root element is written as %s' % (
        'the default one' if same else 'written with a prefix', show(st[-1].value)), f)


@check('C34')
def documents(ctx):
    ctx.rule('write-own', 'the text and the tree of a document are those of its own content')
    ctx.rule('write-implicit', 'the default namespace is used exactly where it was asked for, and it is that of TTML')
    ctx.rule('write-message', 'a message is written with its identifier, kind, sender, recipients and content, and read back with them')
    for cn in ('documents.ebutt3:EBUTT3Document', 'documents.ebuttd:EBUTTDDocument'):
        c = ctx.prog.cls(cn)
        content = content_of(ctx, c)
        if content is None:
            continue
        for m, how in (('get_xml', 'toxml'), ('get_dom', 'toDOM')):
            f = ctx.prog.find_method(c, m)
            if f is None:
                ctx.bad('write-own', '%s.%s' % (c.name, m), 'cannot be written', cn)
                continue
            w = ctx.walker(types={SELF: c}, noexc=True, opaque=('toxml', 'toDOM'))
            for p in ran(ctx, w, f, c):
                es = p.calls(how)
                ok = p.kind == 'return' and len(es) == 1 and es[0].recv == ('attr', SELF, content) and p.ret == es[0].value
                if not ctx.expect(ok, 'write-own', '%s.%s' % (c.name, m), 'gives %s' % show(p.ret or NONE)[:200], f):
                    continue
                d = named(es[0], *(('encoding', 'bds', 'root_only', 'element_name') if how == 'toxml' else ('bds', 'parent', 'element_name')))
                ctx.expect(not (set(d) - {'bds'}) or all(d[k] in (NONE, K(False)) for k in set(d) - {'bds'}), 'write-own', '%s.%s/whole' % (c.name, m), 'writes only a part, or with %s' % sorted(d), f)
                if c.name == 'EBUTTDDocument':
                    implicit(ctx, c, f, p, d.get('bds', NONE))
                else:
                    ctx.expect(d.get('bds', NONE) == NONE or is_default(d['bds'], 'bindings'), 'write-own', '%s.%s/support' % (c.name, m), 'is written with %s' % show(d.get('bds', NONE)), f)
    c = ctx.prog.cls('documents.ebuttd:EBUTTDDocument')
    f = ctx.prog.find_method(c, 'set_implicit_ns')
    if f is None:
        raise AnalysisError('EBUTTDDocument.set_implicit_ns not found')
    V = ('p', f.params[1])
    w = ctx.walker(types={SELF: c}, noexc=True)
    for p in ran(ctx, w, f, c):
        b = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == V and a[2] == ('ext', 'bool')]
        st = [e for e in p.events if e.kind == 'store' and e.recv == SELF]
        if b == [True]:
            ctx.expect(p.kind == 'return' and len(st) == 1 and st[0].value == V and st[0].name == FLAG.get(c.qualname, st[0].name), 'write-implicit', 'set', 'asking for the default namespace sets %s' % [show(e.value) for e in st], f)
        elif b == [False]:
            ctx.expect(p.kind == 'raise' and not st, 'write-implicit', 'set/other', 'a value other than true or false is taken', f)
        else:
            ctx.bad('write-implicit', 'set', 'takes any value', f)
    message(ctx)


FLAG = {}


def content_of(ctx, c):
    """the attribute that holds the binding of a document"""
    f = ctx.prog.find_method(c, 'create_from_raw_binding')
    ctx.need(f is not None, c.name + '.create_from_raw_binding')
    w = ctx.walker(types={SELF: c, ('p', 'cls'): c}, noexc=True, opaque=('validate',))
    names = set()
    B = ('p', f.params[1])
    for p in ran(ctx, w, f, c):
        if p.kind == 'return':
            new = [e for e in p.calls('__new__')]
            ctx.expect(len(new) == 1 and p.ret == new[0].value and any(e.kind == 'store' and e.recv == p.ret and e.value == B for e in p.events), 'write-own', c.name + '/read',
                       'what is read is not the content of the document given', f)
        names |= {e.name for e in p.events if e.kind == 'store' and e.value == B}
    ctx.need(len(names) <= 1, 'content of ' + c.name)
    return names.pop() if names else None


def implicit(ctx, c, f, p, bds):
    flags = [(a, v) for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'attr' and a[1][1] == SELF]
    if not ctx.expect(len(flags) == 1, 'write-implicit', f.name, 'the default namespace does not depend on what was asked for', f):
        return
    FLAG[c.qualname] = flags[0][0][1][2]
    on = flags[0][1]
    if bds == NONE:
        ctx.expect(not on, 'write-implicit', f.name + '/on', 'the default namespace is not used where it was asked for', f)
        return
    d = dict(bds[3]) if bds[0] == 'call' and len(bds) > 3 else {}
    ok = bds[0] == 'call' and str(bds[1]).find(SUPPORT) >= 0
    pm = d.get('namespace_prefix_map', NONE)
    ctx.expect(ok and 'namespace_prefix_map' in str(pm), 'write-implicit', f.name + '/prefixes', 'is written without the prefixes of the specifications', f)
    ns = d.get('default_namespace', NONE)
    if on:
        ctx.expect(ns[0] in ('attr', 'glob', 'ext') and str(ns).rstrip("')").endswith('Namespace') and not any(x in str(ns) for x in ('ttp', 'tts', 'ttm', '_ebutt')), 'write-implicit', f.name + '/on', 'the default namespace is %s' % show(ns), f)
    else:
        ctx.expect(ns == NONE, 'write-implicit', f.name + '/off', 'a default namespace is used though it was not asked for', f)


def message(ctx):
    c = ctx.prog.cls('documents.ebutt3:EBUTTAuthorsGroupControlRequest')
    init = ctx.prog.find_method(c, '__init__')
    w = ctx.walker(types={SELF: c}, noexc=True)
    held = {}
    for p in ran(ctx, w, init, c):
        for e in p.events:
            if e.kind == 'store' and e.recv == SELF and e.value[0] == 'p':
                held[e.value[1]] = e.name
        for prm in ('sequence_identifier', 'payload', 'sender', 'recipient', 'availability_time'):
            if p.kind == 'return' and given_fact(p, ('p', prm)) is not False:
                st = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value == ('p', prm)]
                read = getter(ctx, c, prm)[0]
                ctx.expect(any(('attr', SELF, e.name) in read for e in st) and len(read) == 1, 'write-message', 'kept/' + prm, 'the %s of a message is not what it was made with' % prm, init)
    for prm in ('sequence_identifier', 'availability_time'):
        pr = ctx.prog.find_prop(c, prm)
        if ctx.some(pr is not None and pr.setter is not None, 'write-message', 'set/' + prm, 'cannot be set', init):
            w = ctx.walker(types={SELF: c}, noexc=True)
            V = ('p', pr.setter.params[1])
            for p in ran(ctx, w, pr.setter, c):
                st = [e for e in p.events if e.kind == 'store' and e.recv == SELF]
                ctx.expect(p.kind == 'raise' and not st or len(st) == 1 and st[0].value == V and ('attr', SELF, st[0].name) in getter(ctx, c, prm)[0], 'write-message', 'set/' + prm, 'setting stores %s' % [show(e.value) for e in st], pr.setter)
    kind = ctx.prog.find_attr(c, 'message_type_id')
    kind = kind[1].value if kind and isinstance(kind[1], ast.Constant) else None
    for m, how in (('get_xml', 'toxml'), ('get_dom', 'toDOM')):
        f = ctx.prog.find_method(c, m)
        w = ctx.walker(types={SELF: c}, noexc=True)
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                ctx.bad('write-message', m, 'raises', f)
                continue
            es = p.calls(how)
            if not ctx.expect(len(es) == 1 and p.ret == es[0].value and es[0].recv[0] == 'call' and es[0].recv[1][0] in ('ext', 'glob', 'bm', 'attr') and 'message' in str(es[0].recv[1]), 'write-message', m, 'gives %s' % show(p.ret)[:160], f):
                continue
            d = dict(es[0].recv[3])
            head = d.get('header', NONE)
            ctx.expect(d.get('sequenceIdentifier') == ('attr', SELF, held.get('sequence_identifier')), 'write-message', m + '/sequence', 'the sequence identifier written is %s' % show(d.get('sequenceIdentifier', NONE)), f)
            ctx.expect(d.get('payload') == ('attr', SELF, held.get('payload')), 'write-message', m + '/payload', 'the content written is %s' % show(d.get('payload', NONE)), f)
            h = dict(head[3]) if head[0] == 'call' else {}
            st = dict((e.name, e.value) for e in p.events if e.kind == 'store' and e.recv == head)
            h.update(st)
            ctx.expect(h.get('type') == K(kind) and kind is not None, 'write-message', m + '/type', 'the kind written is %s' % show(h.get('type', NONE)), f)
            for who in ('sender', 'recipient'):
                t = ('attr', SELF, held.get(who))
                given = given_fact(p, t)
                ctx.expect(h.get(who) == t or given is False and h.get(who, NONE) == NONE, 'write-message', '%s/%s' % (m, who), 'the %s written is %s' % (who, show(h.get(who, NONE))), f)
    f = ctx.prog.find_method(c, 'create_from_raw_binding')
    w = ctx.walker(types={SELF: c, ('p', 'cls'): c}, noexc=True)
    B = ('p', f.params[1])
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            continue
        made = [e for e in p.events if e.kind == 'call' and e.value == p.ret]
        if not ctx.expect(len(made) == 1 and p.ret[0] == 'new', 'write-message', 'read', 'gives %s' % show(p.ret)[:120], f):
            continue
        d = named(made[0], *init.params[1:])
        head = ('attr', B, 'header')
        want = {'sequence_identifier': ('attr', B, 'sequenceIdentifier'), 'sender': ('attr', head, 'sender'), 'recipient': ('attr', head, 'recipient'), 'availability_time': ('p', 'availability_time')}
        for k, v in sorted(want.items()):
            ctx.expect(d.get(k) == v, 'write-message', 'read/' + k, 'the %s read is %s' % (k, show(d.get(k, NONE))), f)
        pl = d.get('payload', NONE)
        ctx.expect(mentions(pl, ('attr', B, 'payload')) and not any(t[0] == 'sub' and t[2] != K(0) for t in subterms(pl)), 'write-message', 'read/payload', 'the content read is %s' % show(pl), f)


@check('C34')
def valid(ctx):
    ctx.rule('write-media', 'an EBU-TT-D document with another time base than media is refused when it is checked')
    c = ctx.prog.cls('documents.ebuttd:EBUTTDDocument')
    f = ctx.prog.find_method(c, 'validate')
    if f is None:
        raise AnalysisError('EBUTTDDocument.validate not found')
    content = content_of(ctx, c)
    w = ctx.walker(types={SELF: c}, noexc=True, opaque=('validateBinding',))
    for p in ran(ctx, w, f, c):
        es = [e for e in p.calls('validateBinding') if e.recv == ('attr', SELF, content)]
        ctx.expect(p.kind == 'return' and len(es) == 1, 'write-media', 'validate', 'checking a document does not check its content', f)
    d = ctx.prog.cls('bindings:d_tt_type')
    f = ctx.prog.find_method(d, '_validateBinding_vx')
    if not ctx.some(f is not None, 'write-media', 'time-base', 'the time base of an EBU-TT-D document is not checked', 'bindings/__init__.py d_tt_type'):
        return
    w = ctx.walker(types={SELF: d}, noexc=True)
    tb = ('attr', SELF, 'timeBase')
    for p in ran(ctx, w, f, d):
        same = [v for a, v in p.facts.items() if a[0] == 'eq' and tb in a[1:] and K('media') in a[1:]]
        sup = [e for e in p.calls('_validateBinding_vx') if e.recv == SELF]
        ok = same == [True] and p.kind == 'return' and len(sup) == 1 or same == [False] and p.kind == 'raise'
        ctx.expect(ok, 'write-media', 'time-base', 'with %s time base the check %s' % ('the media' if same == [True] else 'another' if same else 'any', 'refuses' if p.kind == 'raise' else 'passes'), f)
