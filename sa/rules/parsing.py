# -*- coding: utf-8 -*-
"""C14: times are read by the rules of the document's own time base; no state is shared between documents or threads."""
import ast
from ..core import *
from ..schema import schema_of, raw_name
from .copying import ran
from .segments import timed

UTILS = 'bindings.pyxb_utils'
CTX = 'get_xml_parsing_context'
ATTRIBUTE, BASE = 'timing_attribute_name', 'timeBase'
TYPES = {'TimecountTimingType': {'clock', 'media'}, 'FullClockTimingType': {'media'}, 'LimitedClockTimingType': {'clock'}, 'SMPTETimingType': {'smpte'}}
READERS = ('CreateFromDocument', 'CreateFromDOM')
UNKNOWN = object()


def is_context(t):
    return t[0] == 'call' and t[1][0] == 'fn' and t[1][1].endswith('.' + CTX)


class Missing(Exception):
    pass


def value(t, model):
    """value of a term when the parsing context is `model`"""
    if t[0] == 'k':
        return t[1]
    if is_context(t):
        return model
    if t[0] in ('tup', 'lst'):
        got = [value(x, model) for x in t[-1]]
        return UNKNOWN if UNKNOWN in got else got
    if t[0] == 'sub':
        d, k = value(t[1], model), value(t[2], model)
        if isinstance(d, dict) and k is not UNKNOWN:
            if k not in d:
                raise Missing(k)
            return d[k]
    if t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'get' and t[2] and not t[3]:
        d, k = value(t[1][1], model), value(t[2][0], model)
        if isinstance(d, dict) and k is not UNKNOWN:
            return d.get(k, value(t[2][1], model) if len(t[2]) > 1 else None)
    return UNKNOWN


def agrees(p, model):
    for a, v in p.facts.items():
        got = None
        if a[0] in ('eq', 'in', 'isnone', 'truthy'):
            x = value(a[1], model)
            y = value(a[2], model) if len(a) > 2 else None
            if x is UNKNOWN or y is UNKNOWN:
                continue
            if a[0] == 'in' and not isinstance(y, (dict, list)):
                continue
            got = x == y if a[0] == 'eq' else x in y if a[0] == 'in' else x is None if a[0] == 'isnone' else bool(x)
        if got is not None and got != v:
            return False
    return True


@check('C14')
def choice(ctx):
    ctx.rule('parse-choice', 'while a document is read, a timing type refuses the timing attributes of the time bases it is not for, and only those')
    ctx.rule('parse-convert', 'durations given to a timing type are written in its own notation, everything else is passed on as it is')
    n = 0
    for name in sorted(TYPES):
        c = ctx.prog.cls('bindings._ebuttdt:' + name)
        f = ctx.prog.find_method(c, '_ConvertArguments_vx')
        if f is None:
            ctx.bad('parse-choice', name, 'the type accepts every value: it does not look at the time base of the document', 'bindings/_ebuttdt.py %s' % name)
            continue
        ITEM = ('p', 'item')
        w = ctx.walker(types={('p', 'cls'): c}, noexc=True, opaque=(CTX, 'from_timedelta'), items=True)
        ps = w.run(f, c, args={f.params[1]: ('tup', (ITEM,))})
        ctx.account(w, ps)
        models = [None, {}, {BASE: 'media'}, {BASE: 'clock'}, {BASE: 'smpte'}]
        models += [{ATTRIBUTE: a, BASE: b} for a in ('begin', 'dur', 'end') for b in ('clock', 'media', 'smpte')]
        for m in models:
            what = 'outside a document' if m is None else 'reading %s in time base %s' % (m.get(ATTRIBUTE, 'no timing attribute'), m.get(BASE))
            key = '%s/%s' % (name, 'none' if m is None else '%s-%s' % (m.get(ATTRIBUTE), m.get(BASE)))
            want = m is not None and ATTRIBUTE in m and m[BASE] not in TYPES[name]
            good, seen, why = True, False, None
            for p in ps:
                try:
                    if not agrees(p, m):
                        continue
                    for e in p.events:
                        if e.kind == 'item':
                            value(e.value, m)
                        if e.kind == 'setitem' and is_context(e.recv or NONE):
                            why = 'changes the context'
                except Missing as x:
                    if m is not None:
                        good, why = False, 'fails because the context has no %s' % x
                    continue
                seen = True
                refused = p.kind == 'raise' and 'SimpleTypeValueError' in str(p.exc[:2])
                if refused != want:
                    if p.kind == 'raise' and not refused and not want:
                        good, why = False, 'raises %s' % w.exc_name(p.exc)
                    else:
                        good, why = False, 'is refused' if refused else 'is accepted'
            n += 1
            ctx.expect(seen and good, 'parse-choice', key, '%s: a value of %s %s' % (what, name, why or 'has no outcome'), f)
        for p in ps:
            if p.kind != 'return':
                continue
            its = items_of(p, w)
            facts = dict(p.facts)
            for t in subterms(p.ret):
                if t[0] == 'comp' and t[3] == (('tup', (ITEM,)),) and len(t[4]) == 1:
                    cond = t[4][0]
                    facts.update([cond] if len(cond) == 2 and isinstance(cond[1], bool) else dict(cond) if all(len(x) == 2 for x in cond) else {})
                    its = [t[2]]
            delta = [v for a, v in facts.items() if a[0] == 'isinst' and a[1] == ITEM and 'timedelta' in str(a[2])]
            if delta == [True]:
                ok = its is not None and len(its) == 1 and its[0][0] == 'call' and its[0][1][0] == 'bm' and its[0][1][2] == 'from_timedelta' \
                    and (its[0][1][1] == ('p', 'cls') or its[0][1][1] == ('cls', c.qualname)) and its[0][2] == (ITEM,)
            else:
                ok = delta == [False] and its == [ITEM]
            if not ctx.expect(ok, 'parse-convert', name, 'for %s item the arguments become %s' % ('a timedelta' if delta == [True] else 'another', show(p.ret)), f):
                break
    ctx.need(n >= 40, 'timing types')


def items_of(p, w):
    t = p.ret
    if t is None:
        return None
    for _ in range(3):
        if t[0] == 'call' and t[1] in (('ext', 'tuple'), ('ext', 'list')) and len(t[2]) == 1:
            t = t[2][0]
    if t[0] == 'tup':
        return list(t[1])
    if t[0] == 'lst':
        its = w.list_items(t, p.state) if hasattr(w, 'list_items') else None
        if its is None:
            its = list(t[2]) if len(t) > 2 else None
            apps = [e.args[0] for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv is not None and e.recv[:2] == t[:2]]
            its = (its or []) + apps
        return its
    return None


@check('C14')
def context(ctx):
    ctx.rule('parse-thread', 'the context is a new one for every document, belongs to the reading thread and is there only while a document is read')
    f = ctx.prog.func(UTILS + ':' + CTX)
    w = ctx.walker(noexc=True)
    ps = w.run(f, None)
    ctx.account(w, ps)
    holders = set()
    some = False
    for p in ps:
        if p.kind != 'return':
            ctx.bad('parse-thread', CTX + '/raises', 'asking for the context raises', f)
            continue
        flags = [(a, v) for a, v in p.facts.items() if mentions_any(a, 'parsing')]
        reads = [t for t in walk_terms(p) if t[0] == 'attr' and t[1][0] == 'glob' and t[2] == 'parsing']
        ctx.expect(not reads, 'parse-thread', CTX + '/other-thread', 'reads the parsing flag as an attribute, which a thread that has not read a document has not', f)
        ok = len(flags) == 1
        if ok:
            on = flag_on(*flags[0])
            if on is None:
                ok = False
            elif on:
                ok = p.ret is not None and p.ret[0] == 'attr' and p.ret[1][0] == 'glob'
                if ok:
                    holders.add((p.ret[1], p.ret[2]))
                    some = True
            else:
                ok = p.ret == NONE
        ctx.expect(ok, 'parse-thread', CTX, 'gives %s where %s' % (show(p.ret), show_facts(p.facts) or 'nothing is known'), f)
    ctx.some(some and len(holders) == 1, 'parse-thread', CTX + '/given', 'never gives the context', f)
    for g, attr in holders:
        m = ctx.prog.mods.get(g[1])
        made = [x for x in m.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == g[2] for t in x.targets)] if m is not None else []
        ok = len(made) == 1 and isinstance(made[0].value, ast.Call) and not made[0].value.args and \
            (made[0].value.func.attr if isinstance(made[0].value.func, ast.Attribute) else getattr(made[0].value.func, 'id', '')) == 'local'
        ctx.expect(ok, 'parse-thread', 'local', 'the context is not kept in a thread local of the module', f)
        c = ctx.prog.cls(UTILS + ':xml_parsing_context')
        for name, on in (('__enter__', True), ('__exit__', False)):
            h = ctx.prog.find_method(c, name)
            if h is None:
                ctx.bad('parse-thread', name, 'the context manager has no %s' % name, 'bindings/pyxb_utils.py')
                continue
            w = ctx.walker(types={SELF: c}, noexc=True)
            ps = w.run(h, c)
            ctx.account(w, ps)
            for p in ps:
                st = {}
                for e in p.events:
                    if e.kind == 'store' and e.recv == g:
                        st[e.name] = e.value
                    elif e.kind == 'setattr' and e.recv == g and e.args:
                        st[e.args[0][1] if e.args[0][0] == 'k' else None] = e.value
                    elif e.kind == 'call' and e.recv in (('attr', g, attr),) and e.name == 'clear' and on:
                        st[attr] = ('cleared',)
                flag = st.get('parsing')
                if on:
                    fresh = st.get(attr)
                    ok = p.kind == 'return' and flag == TRUE and fresh is not None and (fresh[0] == 'dict' or fresh[:2] == ('call', ('ext', 'dict'))) and not items_in(w, fresh, p)
                    ctx.expect(ok, 'parse-thread', name, 'entering the context leaves parsing=%s and context=%s instead of a new empty one' % (show(flag) if flag else 'as it was', show(fresh) if fresh else 'as it was'), h)
                else:
                    ok = p.kind == 'return' and flag in (K(False), NONE)
                    ctx.expect(ok, 'parse-thread', name, 'leaving the context leaves parsing=%s' % (show(flag) if flag else 'as it was'), h)
                    ctx.expect(p.kind != 'return' or p.ret in (None, NONE, K(False)), 'parse-thread', name + '/errors', 'leaving the context gives %s, which hides the error of a document that cannot be read' % show(p.ret), h)


def items_in(w, d, p):
    try:
        its, rest = w.dict_items(d, p.state)
    except Exception:
        return False
    return bool(its) or bool(rest)


def flag_on(a, v):
    """does the fact say that the parsing flag is set?"""
    t = a[1]
    if not (t[0] == 'getattr' and t[1][0] == 'glob' and t[2] == K('parsing')) and not (len(a) > 2 and a[2][0] == 'getattr'):
        return None
    if len(a) > 2 and a[2][0] == 'getattr':
        a = (a[0], a[2], a[1])
        t = a[1]
    if len(t) < 4 or t[3] not in (K(False), NONE):
        return None
    if a[0] == 'truthy':
        return v
    if a[0] in ('eq', 'is') and len(a) > 2 and a[2][0] == 'k' and isinstance(a[2][1], bool):
        return v == a[2][1]
    return None


def mentions_any(a, name):
    return any(t == K(name) or t[0] == 'attr' and t[2] == name for t in subterms(a))


def walk_terms(p):
    for a in p.facts:
        for t in subterms(a):
            yield t


@check('C14')
def reading(ctx):
    ctx.rule('parse-reader', 'every document is read within a context of its own, from all arguments given, and the result of the reader is what is returned')
    n = 0
    for name in READERS:
        try:
            f = ctx.prog.func('ebu_tt_live.bindings:' + name)
        except AnalysisError:
            ctx.bad('parse-reader', name, 'the bindings read documents without a parsing context: there is no %s but the generated one' % name, 'bindings/__init__.py')
            continue
        w = ctx.walker()
        ps = w.run(f, None)
        ctx.account(w, ps)
        for p in ps:
            if p.kind != 'return':
                continue
            depth, inside, res = 0, [], None
            for e in p.events:
                if e.kind == 'enter':
                    depth += 1 if 'xml_parsing_context' in str(e.value or e.recv or e.args) else 0
                elif e.kind == 'exit':
                    depth -= 1 if 'xml_parsing_context' in str(e.value or e.recv or e.args) else 0
                elif e.kind == 'call' and is_raw(e, name):
                    inside.append(depth)
                    res = e
            n += 1
            ctx.expect(len(inside) == 1 and inside[0] == 1, 'parse-reader', name + '/context', 'the generated reader is called %s' % ('%d times' % len(inside) if len(inside) != 1 else 'outside a context of its own'), f)
            if res is not None:
                ctx.expect(p.ret == res.value, 'parse-reader', name + '/result', 'returns %s instead of what was read' % show(p.ret), f)
                ctx.expect([('star', ('p', '*args')) if x[0] == 'star' else x for x in res.args] == [('star', ('p', '*args'))] and [k for k, _ in res.kwargs] == ['**'],
                           'parse-reader', name + '/arguments', 'reads with (%s) instead of everything given' % ', '.join(map(show, res.args)), f)
    # nobody goes round them
    calls = 0
    home = {g.name for g in ctx.prog.funcs if g.mod.name == 'ebu_tt_live.bindings' and g.cls is None}
    used = {}
    for g in ctx.prog.funcs:
        for node in ast.walk(g.node):
            if isinstance(node, (ast.Name, ast.Attribute)):
                used.setdefault(node.id if isinstance(node, ast.Name) else node.attr, set()).add(
                    g.name if g.mod.name == 'ebu_tt_live.bindings' and g.cls is None else None)
    parts = set(READERS)                # and the helpers only they use, whose calls are followed above
    while True:
        more = {x for x in home - parts if used.get(x) and used[x] <= parts}
        if not more:
            break
        parts |= more
    for g in ctx.prog.funcs:
        for node in ast.walk(g.node):
            if isinstance(node, ast.Call):
                x = node.func
                last = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if last not in READERS:
                    continue
                calls += 1
                if g.mod.name == 'ebu_tt_live.bindings' and g.name in parts and g.cls is None:
                    continue
                around = isinstance(x, ast.Attribute) and (isinstance(x.value, ast.Name) and x.value.id == 'raw' or isinstance(x.value, ast.Attribute) and x.value.attr == 'raw')
                if isinstance(x, ast.Name):
                    for st in g.mod.tree.body:
                        if isinstance(st, ast.ImportFrom) and any((a.asname or a.name) == x.id for a in st.names):
                            around = around or (st.module or '').split('.')[-1] == 'raw' or 'bindings.raw' in (st.module or '')
                ctx.expect(not around, 'parse-reader', 'around/%s' % g.qualname, 'reads a document with the generated reader, without a parsing context', '%s:%d %s' % (g.mod.path if hasattr(g.mod, 'path') else g.mod.name, node.lineno, g.qualname))
    ctx.need(calls >= 5, 'readers of documents')


def is_raw(e, name):
    if e.name != name:
        return False
    return 'raw' in str(e.recv) or 'raw' in str(e.value[1] if e.value and len(e.value) > 1 else '')


def static_hooks(ctx, c, table):
    """[(namespace, local name, hook method or None)] of a table of attribute hooks"""
    got = ctx.prog.find_attr(c, table)
    if got is None:
        return [], None
    owner, expr = got
    out = []
    entries = pairs(expr)
    if entries is None:
        raise AnalysisError('the hook table %s of %s is not written out' % (table, c.name))
    for k, v in entries:
        ns = nm = None
        for x in ast.walk(k):
            if isinstance(x, ast.Call) and len(x.args) == 2 and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '')) == 'ExpandedName':
                ns, nm = x.args
            elif isinstance(x, ast.Tuple) and len(x.elts) == 2 and ns is None:
                ns, nm = x.elts
        if nm is None or not isinstance(nm, ast.Constant):
            raise AnalysisError('a key of the hook table %s of %s is not an attribute name' % (table, c.name))
        h = None
        if isinstance(v, ast.Name):
            n = v.id
            if n.startswith('__') and not n.endswith('__'):
                h = ctx.prog.find_method(owner, n) or ctx.prog.find_method(owner, '_%s%s' % (owner.name.lstrip('_'), n))
            else:
                h = ctx.prog.find_method(owner, n)
        elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
            b = ctx.prog.resolve(owner.mod, v.value.id)
            h = ctx.prog.find_method(b, v.attr) if hasattr(b, 'methods') else None
        out.append((ast.unparse(ns), nm.value, h))
    return out, owner


def pairs(expr, env=None):
    if isinstance(expr, ast.Dict) and all(k is not None for k in expr.keys):
        return list(zip(expr.keys, expr.values))
    if isinstance(expr, ast.Call) and getattr(expr.func, 'id', '') == 'dict' and len(expr.args) == 1 and not expr.keywords:
        return pairs(expr.args[0])
    if isinstance(expr, (ast.List, ast.Tuple)):
        return [tuple(x.elts) for x in expr.elts] if all(isinstance(x, ast.Tuple) and len(x.elts) == 2 for x in expr.elts) else None
    if isinstance(expr, (ast.DictComp, ast.GeneratorExp, ast.ListComp)):
        if len(expr.generators) != 1 or expr.generators[0].ifs:
            return None
        g = expr.generators[0]
        if isinstance(expr, ast.DictComp):
            k, v = expr.key, expr.value
        elif isinstance(expr.elt, ast.Tuple) and len(expr.elt.elts) == 2:
            k, v = expr.elt.elts
        else:
            return None
        if not isinstance(g.iter, (ast.Tuple, ast.List)) or not isinstance(g.target, ast.Name):
            return None
        out = []
        for x in g.iter.elts:
            class Put(ast.NodeTransformer):
                def visit_Name(self, node):
                    return x if node.id == g.target.id else node
            import copy
            out.append((Put().visit(copy.deepcopy(k)), Put().visit(copy.deepcopy(v))))
        return out
    return None


@check('C14')
def hooks(ctx):
    ctx.rule('parse-hooks', 'the time base is noted as soon as it is read, and before any timing attribute is read its name is noted')
    ctx.rule('parse-set', 'noting happens around the setting of every attribute, which is set as always')
    # the time base
    tt = ctx.prog.cls('bindings:tt_type')
    table, owner = static_hooks(ctx, tt, '_attr_en_post')
    hit = [h for ns, n, h in table if n == BASE and 'ttp' in ns]
    if ctx.some(hit and hit[0] is not None, 'parse-hooks', 'timeBase', 'the time base of a document is not noted when it is read', 'bindings/__init__.py tt_type'):
        noted(ctx, tt, hit[0], BASE, lambda v: v == ('attr', SELF, BASE) or v == ('p', hit[0].params[1] if len(hit[0].params) > 1 else '')
              or v[0] == 'call' and v[1][0] == 'bm' and v[1][2] == 'value' and v[2][:1] == (SELF,), 'timeBase')
    sch = schema_of(ctx)
    n = 0
    for c in timed(ctx):
        attrs = sch.attrs(raw_name(c))
        table, owner = static_hooks(ctx, c, '_attr_en_pre')
        for a in sorted(x for x, ty in attrs.items() if ty == 'timingType' or x in ('begin', 'end', 'dur')):
            hit = [h for ns, nm, h in table if nm == a and ns == 'None']
            key = '%s/%s' % (c.name, a)
            n += 1
            if ctx.some(hit and hit[0] is not None, 'parse-hooks', key, 'the attribute %s of %s is read without noting its name: the time is not read by the rules of the time base' % (a, c.name), 'bindings/__init__.py %s' % c.name):
                h = hit[0]
                en = ('p', h.params[1]) if len(h.params) > 1 else NONE
                noted(ctx, c, h, ATTRIBUTE, lambda v: v == K(a) or v[0] == 'call' and v[1] == ('bm', en, 'localName') and not v[2], key)
    ctx.need(n >= 8, 'timing attributes')
    # the setting
    for c in [tt] + timed(ctx):
        f = ctx.prog.find_method(c, '_setAttribute')
        if f is None or f.params[1:3] != ['attr_en', 'value_lex'] and len(f.params) < 3:
            ctx.bad('parse-set', c.name, 'the hooks of attributes are never called: _setAttribute is not overridden', 'bindings/validation/base.py')
            continue
        en, lex = ('p', f.params[1]), ('p', f.params[2])
        w = ctx.walker(types={SELF: c}, noexc=True)
        ps = w.run(f, c)
        ctx.account(w, ps)
        for p in ps:
            if p.kind != 'return':
                continue
            sup = [e for e in p.calls('_setAttribute') if e.recv == SELF]
            ok = len(sup) == 1 and sup[0].args == (en, lex) and p.ret == sup[0].value
            if not ctx.expect(ok, 'parse-set', c.name + '/set', 'the attribute is set %d times, or with other values than given (%s), or the attribute use is not returned' % (len(sup), [show(x) for e in sup for x in e.args]), f):
                continue
            at = p.events.index(sup[0])
            key = ('call', ('bm', en, 'uriTuple'), (), ())
            for tname, args, early in (('_attr_en_pre', (SELF, en, lex), True), ('_attr_en_post', (SELF, sup[0].value), False)):
                has = [v for a, v in p.facts.items() if a[0] == 'in' and a[1] == key and tname in str(a[2])]
                got = p.facts
                runs = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and tname in str(e.recv) and e.args[:1] == (SELF,)]
                absent = has == [False] or any(a[0] in ('isnone', 'truthy') and tname in str(a[1]) and v == (a[0] == 'isnone') for a, v in got.items())
                safe = True
                if absent:
                    ok = not runs
                else:
                    safe = has == [True] or any(a[0] in ('isnone', 'truthy') and tname in str(a[1]) and v == (a[0] == 'truthy') for a, v in got.items())
                    ok = safe and len(runs) == 1 and runs[0][1].args == args and (runs[0][0] < at) == early and mentions(runs[0][1].recv, key)
                ctx.expect(ok, 'parse-set', '%s/%s' % (c.name, tname), 'the hook of the attribute is %s' % (
                    'called %d times' % len(runs) if len(runs) != 1 else 'called for attributes that have none' if not safe else 'not called with the element and the attribute %s the attribute is set' % ('before' if early else 'after')), f)


def noted(ctx, c, h, key, good, what):
    w = ctx.walker(types={SELF: c}, noexc=True, opaque=(CTX,))
    ps = ran(ctx, w, h, c)
    some = False
    for p in ps:
        there = [v for a, v in p.facts.items() if a[0] in ('isnone', 'truthy') and is_context(a[1])]
        kinds = [(a[0], v) for a, v in p.facts.items() if a[0] in ('isnone', 'truthy') and is_context(a[1])]
        if any(a == 'truthy' for a, _ in kinds):
            ctx.bad('parse-hooks', what, 'nothing is noted in a context that is still empty', h)
            return
        stores = [e for e in p.events if e.kind == 'setitem' and e.recv is not None and is_context(e.recv)]
        if there and kinds[0] == ('isnone', True):
            ctx.expect(not stores, 'parse-hooks', what + '/outside', 'notes something though no document is being read', h)
            continue
        if not there:
            ctx.bad('parse-hooks', what + '/outside', 'notes something though there may be no document being read', h)
            return
        some = True
        vals = [e for e in stores if e.target == K(key) or (e.args and e.args[0] == K(key)) or e.name == K(key)]
        ctx.expect(p.kind != 'raise' and len(vals) == 1 and good(vals[-1].value), 'parse-hooks', what, 'notes %s' % (
            ', '.join(show(e.value) for e in stores) or 'nothing'), h)
    ctx.some(some, 'parse-hooks', what, 'never notes anything', h)


@check('C14')
def ebuttd(ctx):
    ctx.rule('parse-ebuttd', 'an EBU-TT-D document is read from its text in any encoding-independent form, whatever the prefix of its root element')
    c = ctx.prog.cls('documents.ebuttd:EBUTTDDocument')
    f = ctx.prog.find_method(c, 'create_from_xml')
    if f is None:
        raise AnalysisError('EBUTTDDocument.create_from_xml not found')
    XML = ('p', f.params[1])
    w = ctx.walker(types={('p', 'cls'): c, SELF: c}, noexc=True, opaque=READERS + ('create_from_raw_binding',))
    ps = ran(ctx, w, f, c)
    renamed = kept = False
    for p in ps:
        if p.kind != 'return':
            continue
        parse = [e for e in p.calls('parseString')]
        read = [e for e in p.calls('CreateFromDOM')]
        made = [e for e in p.calls('create_from_raw_binding')]
        if not ctx.expect(len(parse) == 1 and len(read) == 1 and len(made) == 1 and p.ret == made[0].value, 'parse-ebuttd', 'reads',
                          'a document is not made from what is read from the text', f):
            continue
        text = [v == any(x in str(a[2]) for x in ('text', 'unicode')) for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == XML]
        enc = parse[0].args[:1]
        as_bytes = enc and enc[0][0] == 'call' and enc[0][1] == ('bm', XML, 'encode') and [x for x in enc[0][2]] in ([K('utf-8')], [K('utf8')], [K('UTF-8')])
        ctx.expect(as_bytes if text == [True] else text == [False] and enc == (XML,), 'parse-ebuttd', 'text', 'parses %s where the document is %s' % (
            show(enc[0]) if enc else 'nothing', 'text' if text == [True] else 'a byte string' if text else 'text or a byte string'), f)
        dom = parse[0].value
        ctx.expect(dom in list(read[0].args) + [v for _, v in read[0].kwargs], 'parse-ebuttd', 'dom', 'the binding is made of %s, not of the parsed document' % [show(x) for x in read[0].args], f)
        ctx.expect(read[0].value in list(made[0].args) + [v for _, v in made[0].kwargs], 'parse-ebuttd', 'binding', 'the document is not made of the binding read', f)
        root = ('attr', dom, 'documentElement')
        names = [a for a in p.facts if a[0] == 'eq' and (K('tt') in a[1:] or K('tt:tt') in a[1:])]
        st = [e for e in p.events if e.kind == 'store' and e.recv == root and e.name == 'tagName']
        local = [a for a in names if is_local(a, root)]
        if not ctx.expect(bool(local), 'parse-ebuttd', 'root', 'the root element is not recognised by its local name: a document with a namespace prefix is not read', f):
            continue
        if p.facts[local[0]]:
            renamed = True
            was = ('attr', root, 'tagName')
            ok = len(st) == 1 and st[0].value in (('bin', '+', was, K('d')), ('str', (was, K('d'))), ('fmt', (was, K('d'))))
            ok = ok and p.events.index(st[0]) < p.events.index(read[0])
            ctx.expect(ok, 'parse-ebuttd', 'rename', 'the root element tt is renamed to %s, the schema has ttd' % [show(e.value) for e in st], f)
        else:
            kept = True
            ctx.expect(not st, 'parse-ebuttd', 'other-root', 'a root element other than tt is renamed', f)
    ctx.some(renamed, 'parse-ebuttd', 'rename', 'the root element tt is never renamed', f)


def is_local(a, root):
    x = a[1] if a[2] == K('tt') else a[2] if a[1] == K('tt') else None
    if x is None:
        return False
    if x == ('attr', root, 'localName'):
        return True
    tag = (('attr', root, 'tagName'), ('attr', root, 'nodeName'))
    if x[0] == 'sub' and x[1][0] == 'call' and x[1][1][0] == 'bm' and x[1][1][1] in tag and x[1][2][:1] == (K(':'),):
        how, k = x[1][1][2], x[2]
        return how in ('split', 'rsplit', 'rpartition') and k == K(-1) or how == 'rpartition' and k == K(2)
    return False


@check('C14')
def registered(ctx):
    ctx.rule('parse-registered', 'the classes with the rules of this toolkit are the ones the reader makes for their schema types')
    n = 0
    for m in ctx.prog.mods.values():
        if not m.name.startswith('ebu_tt_live.bindings') or '.raw' in m.name:
            continue
        done = set()
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr == '_SetSupersedingClass' and len(st.args) == 1:
                done.add((ast.unparse(st.func.value), ast.unparse(st.args[0])))
        firsts = {}
        for c in ctx.prog.classes:
            if c.mod is not m:
                continue
            for b in c.base_nodes:
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id.endswith('raw'):
                    firsts.setdefault(ast.unparse(b), []).append(c)
        for b, cs in sorted(firsts.items()):
            n += 1
            got = [d for d in done if d[0] == b]
            ctx.expect(len(got) == 1 and got[0][1] in [c.name for c in cs], 'parse-registered', '%s/%s' % (m.name.rsplit('.', 1)[-1], b),
                       'the schema type %s is read as %s, not as %s' % (b, [d[1] for d in got] or 'the generated class', cs[0].name), '%s %s' % (m.name, cs[0].name))
    ctx.need(n >= 20, 'classes of the bindings')
