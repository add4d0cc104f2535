# -*- coding: utf-8 -*-
"""C24: removing duplicate styles and regions."""
import ast

from ..core import *
from .copying import ran
from .nodes import EMIT

NODE = 'DeDuplicatorNode'
REPLACE = 'ReplaceStylesAndRegions'
ELEMENT = 'ComparableElement'
CHANGERS = ('append', 'add', 'insert', 'extend', 'update')
DOC = ('p', 'document')
HEAD = ('attr', ('attr', DOC, 'binding'), 'head')


LOSSY = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase', 'replace', 'split', 'rsplit', 'partition',
         'rpartition', 'translate'}


def closure(p, v):
    """terms that end up in v, through the containers filled on the path"""
    out, todo = [], [v]
    while todo:
        t = todo.pop()
        if t in out:
            continue
        out.append(t)
        todo.extend(x for x in subterms(t) if x != t)
        if t[0] in ('lst', 'dict', 'set', 'tup') or t[0] == 'call':
            for e in p.events:
                if e.recv == t and (e.kind == 'call' and e.name in CHANGERS):
                    todo.extend(e.args)
                elif e.recv == t and e.kind == 'setitem':
                    todo.extend(x for x in (e.name, e.value) if isinstance(x, tuple))
    return out


def is_id_name(t):
    return any(x == K('id') for x in subterms(t))


def key_rules(ctx):
    c = ctx.prog.cls(ELEMENT)
    init = ctx.prog.find_method(c, '__init__')
    ctx.need(init is not None and len(init.params) == 2, 'constructor of ' + ELEMENT)
    val = ('p', init.params[1])
    w = ctx.walker(types={SELF: c}, noexc=True)
    ps = ran(ctx, w, init, c)
    # which attribute equality compares
    names = None
    for fn in ('__eq__', '__hash__'):
        f = ctx.prog.find_method(c, fn)
        ctx.expect(f is not None, 'key', fn, 'equal elements are not recognised as equal', c)
        if f is None:
            continue
        for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
            terms = [t for x in ([p.ret] if p.ret else []) + list(p.facts) for t in subterms(x)]
            mine = {t[2] for t in terms if t[0] == 'attr' and t[1] == SELF}
            if fn == '__eq__' and mine:
                other = {t[2] for t in terms if t[0] == 'attr' and t[1] == ('p', f.params[1])}
                ctx.expect(mine == other, 'key', fn, 'different details of two elements are compared', f)
                names = mine if names is None else names | mine
            elif fn == '__hash__':
                ctx.expect(mine <= (names or set()) and mine, 'key', fn, 'equal elements get different hash values', f)
    if not names:
        ctx.bad('key', 'attributes', 'nothing is compared', c)
        return
    declared = wild = 0
    for p in ps:
        if p.kind != 'return':
            ctx.bad('key', 'attributes', 'comparing elements fails; path: ' + show_facts(p.facts), init)
            continue
        keys = [e.value for e in p.events if e.kind == 'store' and e.recv == SELF and e.name in names]
        cl = [t for k in keys for t in closure(p, k)]
        for e in p.events:
            # attributes taken out of the ones compared
            if e.kind in ('call', 'del', 'delitem') and e.recv is not None and mentions(e.recv, ('attr', val, '_AttributeMap')) and \
                    (e.kind != 'call' or e.name in ('pop', 'popitem', 'clear', '__delitem__')):
                a = e.args[0] if e.args else e.name if isinstance(e.name, tuple) else None
                ctx.expect(a is not None and is_id_name(a), 'key', 'attributes', 'an attribute other than xml:id is left out of the '
                           'comparison', e)
                ctx.expect(e.recv != ('attr', val, '_AttributeMap'), 'key', 'attributes', 'the description of the attributes, which all '
                           'elements share, is changed', e)
        taken = [e for e in p.events if e.kind in ('call', 'del', 'delitem') and e.recv is not None and mentions(e.recv, ('attr', val, '_AttributeMap'))
                 and e.name not in ('copy', 'items', 'iteritems', 'keys', 'values')]
        skips = any(a[0] == 'eq' and is_id_name(a) for q in ps for a in q.facts) or any(t[0] == 'comp' and t[4] for t in cl)
        ctx.expect(taken or skips, 'key', 'id', 'elements are compared by their xml:id', init)
        done = [(e.value, e.name) for e in p.events if e.kind == 'loopend']
        for e in p.events:
            if e.kind != 'loop':
                continue
            ctx.expect((e.value, 0) not in done or any(n > 0 for t, n in done if t == e.value), 'key', 'attributes', 'not every attribute is '
                       'compared', e)
            is_decl = mentions(e.value, ('attr', val, '_AttributeMap'))
            is_wild = any(t[0] == 'call' and t[1][:3] == ('bm', val, 'wildcardAttributeMap') for t in subterms(e.value))
            if is_decl:
                declared += 1
                got = [t for t in cl if t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'value' and t[2] == (val,) and
                       mentions(t[1][1], ('attr', val, '_AttributeMap'))]
                absent = [a for a, v in p.facts.items() if a[0] == 'isnone' and v and a[1][0] == 'call' and a[1][1][0] == 'bm' and
                          a[1][1][2] == 'value']
                skipped = [a for a, v in p.facts.items() if a[0] == 'eq' and v and is_id_name(a) and any(t[0] == 'it' for t in subterms(a))]
                ok = got or absent and not legal(cl) or skipped
                if absent and not skipped and not recorded(p, e) and not any(
                        names_key(x, y.value) for q in ps for y in q.events if y.kind == 'loop' and y.value == e.value
                        for x in recorded(q, y)):
                    ctx.bad('key', 'attributes', 'an attribute that is not set leaves nothing behind, so that another one with the '
                            'same value can not be told from it', e)
                ctx.expect(ok, 'key', 'attributes', 'an attribute is %s; path: %s' % (
                    'taken to be missing although it may have a value' if absent else 'not compared', show_facts(p.facts)), e)
            elif is_wild:
                wild += 1
                base = [t for t in subterms(e.value) if t[0] == 'call' and t[1][:3] == ('bm', val, 'wildcardAttributeMap')][0]
                key, v = ('it', base, 0), ('sub', base, ('it', base, 0))
                whole = key in [x for t in cl for x in (t[1] if t[0] == 'tup' else t[2] if t[0] in ('lst', 'call') else ())]
                for what, n in (('namespace', 'namespaceURI'), ('name', 'localName')):
                    t = [x for x in cl if x[0] == 'call' and x[1][:3] == ('bm', key, n)]
                    none = [x for x, pol in p.facts.items() if x[0] == 'isnone' and pol and x[1][0] == 'call' and x[1][1][:3] == ('bm', key, n)]
                    ctx.expect(t or whole or none and not legal(cl), 'key', 'foreign/' + what, 'foreign attributes are compared without their ' + what, e)
                none = p.facts.get(('isnone', v))
                ctx.expect(any(x == v for x in cl) or none and not legal(cl), 'key', 'foreign/value', 'foreign attributes are compared '
                           'without their value', e)
        for t in cl:
            if t[0] != 'comp' or len(t[3]) != 1:
                continue
            src = t[3][0]
            if mentions(src, ('attr', val, '_AttributeMap')):
                declared += 1
                # the marker of a missing value depends on the value
                conds = [x for x in t[4] if not (x[0][0] == 'isnone' and x[0][1][0] == 'call' and x[0][1][1][0] == 'bm' and x[0][1][1][2] == 'value')]
                missing = any(x not in conds and x[1] for x in t[4])
                if any(x not in conds and not x[1] for x in t[4]) and not names_key(t[2], src) and not any(
                        y[0] == 'comp' and y[3] == t[3] and any(x[0][0] == 'isnone' and x[1] for x in y[4]) for q in ps for k in [
                            e.value for e in q.events if e.kind == 'store' and e.recv == SELF and e.name in names]
                        for y in closure(q, k)):
                    ctx.bad('key', 'attributes', 'an attribute that is not set leaves nothing behind, so that another one with the '
                            'same value can not be told from it', init)
                ctx.expect(all(is_id_name(x) for x in conds), 'key', 'attributes', 'an attribute may be left out of the comparison: %s' % (t[4],), init)
                ctx.expect(missing and not legal(cl) or any(x[0] == 'call' and x[1][0] == 'bm' and x[1][2] == 'value' and x[2] == (val,)
                                                        for x in subterms(t[2])), 'key',
                           'attributes', 'an attribute is not compared', init)
            elif any(x[0] == 'call' and x[1][:3] == ('bm', val, 'wildcardAttributeMap') for x in subterms(src)):
                wild += 1
                ctx.expect(not t[4], 'key', 'foreign', 'foreign attributes may be left out of the comparison', init)
                base = [x for x in subterms(src) if x[0] == 'call' and x[1][:3] == ('bm', val, 'wildcardAttributeMap')][0]
                key, v = ('it', base, 0), ('sub', base, ('it', base, 0))
                inside = list(subterms(t[2]))
                whole = key in [x for y in inside for x in (y[1] if y[0] == 'tup' else y[2] if y[0] in ('lst', 'call') else ())] or t[2] in (
                    ('it', src, 0),)
                names2 = {x[1][2] for x in inside if x[0] == 'call' and x[1][0] == 'bm' and x[1][1] == key}
                ctx.expect(whole or {'namespaceURI', 'localName'} <= names2, 'key', 'foreign', 'foreign attributes are compared without '
                           'their name or namespace', init)
                ctx.expect(v in inside or t[2] == ('it', src, 0), 'key', 'foreign', 'foreign attributes are compared without their value', init)
        # values kept apart
        for t in cl:
            parts = ()
            if t[0] in ('str', 'fmt'):
                parts = [x for x in t[1:] if isinstance(x, tuple)]
                parts = [x for y in parts for x in (y if y and isinstance(y[0], tuple) else (y,)) if x[0] != 'k']
            elif t[0] == 'bin' and t[1] == '+':
                parts = [x for x in t[2:] if x[0] not in ('k', 'lst', 'tup', 'comp', 'bin') and not (
                    x[0] == 'call' and x[1][0] == 'ext' and x[1][1] in ('sorted', 'list', 'tuple'))]
                parts = parts * 2 if parts else ()
            elif t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'join':
                parts = (1, 2)
            elif t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'format':
                parts = t[2] + tuple(x for _, x in t[3])
            ctx.expect(len(parts) < 2, 'key', 'apart', 'values are joined, so that different elements may look the same: ' + show(t), init)
            if t[0] == 'call' and t[1][0] == 'bm' and t[1][2] in LOSSY and mentions(t[1][1], val):
                ctx.bad('key', 'apart', 'values that differ may look the same: ' + show(t), init)
            if t[0] == 'call' and t[1] in (('ext', 'sorted'), ('ext', 'set'), ('ext', 'frozenset')) and t[2]:
                over = [e.value for e in p.events if e.kind == 'loop'] + list(t[2][0][3] if t[2][0][0] == 'comp' else ())
                held = [x for e in p.events if e.recv == t[2][0] and e.kind == 'call' and e.name in CHANGERS for x in e.args] + \
                    ([t[2][0][2]] if t[2][0][0] == 'comp' else [])
                for x in held:
                    if any(y[0] == 'call' and y[1][0] == 'bm' and y[1][2] == 'value' and y[2] == (val,) for y in subterms(x)):
                        ctx.expect(any(names_key(x, o) for o in over), 'key', 'apart', 'values are compared regardless of the '
                                   'attribute they belong to: ' + show(t), init)
            ctx.expect(not (t[0] == 'call' and t[1] in (('ext', 'hash'), ('ext', 'len'), ('ext', 'id'))), 'key', 'apart',
                       'different elements may have the same %s' % show(t), init)
    ctx.some(declared, 'key', 'attributes', 'the attributes of elements are not compared', init)
    ctx.some(wild, 'key', 'foreign', 'foreign attributes of elements are not compared', init)


def recorded(p, loop):
    """what the iteration over a loop keeps"""
    out, on = [], False
    for e in p.events:
        if e is loop:
            on = True
        elif e.kind == 'loopend' and e.value == loop.value:
            on = False
        elif on and e.kind == 'call' and e.name in ('append', 'add', 'extend', 'insert', 'appendleft', 'update', 'setdefault'):
            out.extend(e.args)
        elif on and e.kind == 'setitem':
            out.extend([e.name if isinstance(e.name, tuple) else NONE, e.value])
    return out


def names_key(t, src):
    """does the term hold the name of the attribute?"""
    it = ('it', src, 0)
    if t == it or t[0] == 'it' and t[1] in subterms(src) or t[0] == 'sub' and t[1] == it and t[2] == K(0):
        return True
    if t[0] in ('tup',):
        return any(names_key(x, src) for x in t[1])
    if t[0] == 'lst':
        return any(names_key(x, src) for x in t[2])
    if t[0] == 'call' and t[1][0] == 'bm' and t[1][2] in ('uriTuple', 'localName', 'format'):
        return names_key(t[1][1], src) or any(names_key(x, src) for x in t[2])
    return False


def legal(cl):
    """does the marker for a missing value look like a value?"""
    ks = [t[1] for t in cl if t[0] == 'k']
    return any(isinstance(k, str) and all(x.isalnum() or x in ' .-#' for x in k) for k in ks if k != '{}') or any(
        isinstance(k, (int, float, bool)) for k in ks)


def looked_up(t, x, old, new):
    """t is the id of the element kept for the one named x"""
    def look(t, d):
        if t[0] == 'sub' and t[1] == d:
            return t[2]
        if t[0] == 'call' and t[1][0] == 'bm' and t[1][1] == d and t[1][2] == 'get' and t[2]:
            return t[2][0]
    k = look(t, new)
    return k is not None and look(k, old) == x


def collate(ctx):
    c = ctx.prog.cls(NODE)
    f = ctx.prog.find_method(c, 'CollateUniqueVals')
    ctx.need(f is not None and len(f.params) == 5, 'CollateUniqueVals')
    lst, old, new, unique = (('p', x) for x in f.params[1:])
    elem = ('it', lst, 0)
    kc = ctx.prog.cls(ELEMENT)
    n = inline = 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque_classes={ELEMENT}), f, c):
        if p.kind != 'return':
            ctx.bad('collected', 'all', 'collecting elements fails; path: ' + show_facts(p.facts), f)
            continue
        if not any(e.kind == 'loop' and base_iter(e.value) == lst for e in p.events):
            continue
        if p.facts.get(('isnone', elem)) or p.facts.get(('truthy', elem)) is False:
            continue
        ctx.expect(any(e.kind == 'loopend' and base_iter(e.value) == lst and e.name > 0 for e in p.events), 'collected', 'all',
                   'not every element is collected; path: ' + show_facts(p.facts), f)
        n += 1
        made = [e for e in p.events if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1] == kc.qualname]
        keys = {('attr', e.value, a) for e in made for a in KEYS(ctx)} | {e.value for e in made}
        ids = [e for e in p.events if e.kind == 'setitem' and e.recv == old]
        ok = len(ids) >= 1 and all(e.name == ('attr', elem, 'id') and e.value in keys for e in ids)
        ctx.expect(ok and all(e.value[2:4] and e.value is not None for e in ids), 'collected', 'id', 'the id of an element is not recorded with '
                   'what it is compared by; path: ' + show_facts(p.facts), ids[0] if ids else f)
        ctx.expect(all(e.value[3] == (elem,) if e.value[0] == 'new' else True for e in made), 'collected', 'id', 'another element is compared', f)
        el = [e for e in p.events if e.kind == 'setitem' and e.recv == unique or e.kind == 'call' and e.name == 'setdefault' and e.recv == unique]
        known = any(a[0] == 'in' and a[1] in keys and a[2] == unique and v for a, v in p.facts.items())
        ok = all((e.name in keys and e.value == elem) if e.kind == 'setitem' else e.args[0] in keys and e.args[1] == elem for e in el)
        ctx.expect((el or known) and ok, 'collected', 'element', 'an element is not recorded with what it is compared by; path: ' +
                   show_facts(p.facts), el[0] if el else f)
        # references among styles and from regions
        refs = ('attr', elem, 'style')
        for e in p.events:
            if e.kind == 'loop' and mentions(e.value, refs):
                ctx.expect(Present(refs).ev(e.facts) is True, 'references', 'absent', 'elements without references are not told apart', e)
        for e in p.events:
            if e.kind in ('setitem', 'store') and e.recv is not None and (e.recv == refs or e.recv == elem):
                if e.kind == 'store':
                    ctx.bad('references', 'collecting', 'stores %s in an element' % e.name, e)
                    continue
                inline += 1
                x = [t for t in subterms(e.value) if t[0] in ('it', 'sub') and t[1] == refs]
                good = any(looked_up(e.value, t, old, new) for t in x)
                ctx.expect(good and Present(e.value).ev(e.facts) is True, 'references', 'collecting', 'a style reference becomes %s, '
                           'which may not be a style kept' % show(e.value), e)
                ctx.expect(all(p.events.index(e) < p.events.index(m) for m in made), 'references', 'compared', 'elements are compared before '
                           'their references are replaced', e)
    ctx.some(n, 'collected', 'all', 'no element is ever collected', f)
    ctx.some(inline, 'references', 'collecting', 'references to styles are not replaced before elements are compared', f)


def KEYS(ctx):
    c = ctx.prog.cls(ELEMENT)
    f = ctx.prog.find_method(c, '__eq__')
    w = ctx.walker(types={SELF: c}, noexc=True)
    return {t[2] for p in w.run(f, c) for x in ([p.ret] if p.ret else []) + list(p.facts) for t in subterms(x) if t[0] == 'attr' and t[1] == SELF}


def append(ctx):
    c = ctx.prog.cls(NODE)
    f = ctx.prog.find_method(c, 'AppendNewElements')
    ctx.need(f is not None and len(f.params) == 6, 'AppendNewElements')
    lst, to, old, new, unique = (('p', x) for x in f.params[1:])
    key, el = ('it', unique, 0), ('sub', unique, ('it', unique, 0))
    kept = recorded = 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
        if p.kind != 'return':
            ctx.bad('kept', 'all', 'fails; path: ' + show_facts(p.facts), f)
            continue
        loops = [e for e in p.events if e.kind == 'loop' and mentions(e.value, unique)]
        if not loops:
            continue
        ctx.expect(any(e.kind == 'loopend' and mentions(e.value, unique) and e.name > 0 for e in p.events), 'kept', 'all', 'not every distinct '
                   'element is kept; path: ' + show_facts(p.facts), loops[0])
        added = [e for e in p.events if e.recv == to and (e.kind == 'call' and e.name in CHANGERS or e.kind == 'setitem')]
        same = [a for a, v in p.facts.items() if v and a[0] in ('eq', 'in', 'any', 'truthy') and mentions(a, el) and mentions(a, lst)]
        differ = [a for a, v in p.facts.items() if not v and a[0] in ('eq', 'in', 'any', 'truthy') and mentions(a, el) and mentions(a, lst)]
        looked = any(e.kind == 'loop' and base_iter(e.value) == lst for e in p.events) or same
        for e in added:
            kept += 1
            ctx.expect(e.kind == 'call' and e.name == 'append' and e.args == (el,), 'kept', 'element', 'what is kept of equal elements is %s' % (
                show(e.args[0]) if e.args else 'something else'), e)
            ctx.expect(same, 'kept', 'element', 'an element is added to a container it did not come from', e)
        if same and not differ:
            ctx.expect(len(added) == 1, 'kept', 'once', 'an element is kept %d times; path: %s' % (len(added), show_facts(p.facts)), f)
        rec = [e for e in p.events if e.kind == 'setitem' and e.recv == new]
        ctx.expect(len(rec) == 1 and rec[0].name == key and rec[0].value == ('attr', el, 'id') or not same and not rec and not looked,
                   'kept', 'recorded', 'the id of the element kept is not recorded; path: ' + show_facts(p.facts), rec[0] if rec else f)
        recorded += len(rec)
    ctx.some(kept, 'kept', 'element', 'no element is ever kept', f)
    ctx.some(recorded, 'kept', 'recorded', 'which elements are kept is not recorded', f)


def everything(t):
    """a filter that lets everything pass"""
    body = getattr(t[1].a, 'body', None) if t[0] == 'lam' else None
    if isinstance(body, list) and len(body) == 1 and isinstance(body[0], ast.Return):
        body = body[0].value
    return t == NONE or isinstance(body, ast.Constant) and body.value is True


def replace(ctx):
    c = ctx.prog.cls(REPLACE)
    init = ctx.prog.find_method(c, '__init__')
    tabs = [sorted(ctor_attrs(ctx, c, x)) for x in init.params[2:4]]
    ctx.need(len(init.params) == 4, 'constructor of ' + REPLACE)
    ctx.expect(all(tabs), 'references', 'tables', 'the tables of ids are not kept', init)
    if not all(tabs):
        return
    old, new = (('attr', SELF, x[0]) for x in tabs)
    base = ctx.prog.cls('RecursiveOperation')
    root = ctor_attrs(ctx, base, 'root_element')
    ctx.expect(root and root <= ctor_attrs(ctx, c, init.params[1]), 'references', 'traversal', 'the elements of the document are not visited', init)
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), init, c):
        st = [e for e in p.events if e.kind == 'store' and e.name == '_filter_criteria']
        ctx.expect(p.kind == 'return' and all(everything(e.value) for e in st), 'references', 'traversal', 'some elements are left out', init)
    f = ctx.prog.find_method(c, '_process_element')
    ctx.need(f is not None, REPLACE + '._process_element')
    val = ('p', f.params[1])
    seen = {'style': 0, 'region': 0}
    w = ctx.walker(types={SELF: c}, noexc=True, loop=2)
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            ctx.bad('references', 'replacing', 'replacing references fails; path: ' + show_facts(p.facts), f)
            continue
        for name, box in (('style', 'styling'), ('region', 'layout')):
            ref = ('attr', val, name)
            st = [e for e in p.events if e.kind == 'store' and e.recv == val and e.name == name]
            isbox = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == val and show_atom(a).rstrip(')').endswith(box)]
            none = p.facts.get(('isnone', ref)) or p.facts.get(('truthy', ref)) is False or any(
                v for a, v in p.facts.items() if a[0] == 'isnone' and a[1][0] == 'getattr' and a[1][1:3] == (val, K(name))) or any(
                not v for a, v in p.facts.items() if a[0] == 'hasattr' and a[1] == val and mentions(a, K(name)) or a == ('hasattr', val, name))
            if not st:
                edits = [e for e in p.events if e.recv == ref and e.kind in ('setitem', 'call')]
                ctx.expect(none or True in isbox or edits, 'references', name, 'a reference is not replaced; path: ' + show_facts(p.facts), f)
                continue
            seen[name] += 1
            e = st[-1]
            has = any(v for a, v in p.facts.items() if a[0] == 'hasattr' and a[1] == val and (a[2] in (name, K(name)))) or any(
                not v for a, v in p.facts.items() if a[0] == 'isnone' and a[1][0] == 'getattr' and a[1][1:3] == (val, K(name)))
            ctx.expect(has, 'references', name + '/absent', 'elements that can not have a %s are not told apart' % name, e)
            if name == 'style':
                ctx.expect(Present(ref).ev(p.facts) is True or has and any(a[1][0] == 'getattr' for a in p.facts if a[0] == 'isnone'), 'references',
                           name + '/absent', 'elements without references to styles are not told apart', e)
            ctx.expect(True not in isbox and False in isbox, 'references', name + '/container', 'the %s elements of the document are replaced '
                       'by references' % name, e)
            if name == 'region':
                ctx.expect(looked_up(e.value, ref, old, new), 'references', name, 'a reference to a region becomes %s' % show(e.value), e)
                continue
            v = e.value
            if v[0] == 'comp':
                elt = v[2]
                ok = len(v[3]) == 1 and base_iter(v[3][0]) == ref and looked_up(elt, ('it', v[3][0], 0), old, new) and not v[4]
                ctx.expect(ok, 'references', name, 'references to styles become %s' % show(v), e)
                continue
            n = max([x.name for x in p.events if x.kind == 'loopend' and base_iter(x.value) == ref] or [0])
            n = max([n] + [x.name + 1 for x in p.events if x.kind == 'loop' and base_iter(x.value) == ref])
            direct = [x for x in p.events if x.kind == 'call' and x.recv == v]
            got = [x.args[0] if x.name == 'append' and len(x.args) == 1 else None for x in direct]
            its = [('it', ref, i) for i in range(n)]
            want = [i for i in range(n)]
            pos = [next((i for i in want if g is not None and looked_up(g, its[i], old, new)), None) for g in got]
            dup = any(a[0] in ('in', 'eq') and v for a, v in p.facts.items())
            ok = v[0] == 'lst' and None not in pos and pos == sorted(set(pos)) and (not n or pos[:1] == [0]) and (len(pos) == n or dup)
            ctx.expect(ok, 'references', name, 'of %d references to styles %s are kept, in this order; path: %s' % (
                n, [show(g) if g else '?' for g in got], show_facts(p.facts)), e)
            ctx.expect(not any(x.kind == 'loopend' and base_iter(x.value) == ref and x.name < n for x in p.events) or n == 0, 'references', name,
                       'not every reference is replaced', e)
    for k, n in seen.items():
        ctx.some(n, 'references', k, 'references to a %s are never replaced' % k, f)
    for fn in ('_before_element', '_after_element', '_process_non_element'):
        g = ctx.prog.find_method(c, fn)
        ctx.need(g is not None, fn)
        for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), g, c):
            ctx.expect(p.kind == 'return' and not [e for e in p.events if e.kind in ('store', 'setitem', 'call')], 'references', 'traversal',
                       'visiting an element fails or changes it', g)


def whole(ctx):
    c = ctx.prog.cls(NODE)
    f = ctx.prog.find_method(c, 'remove_duplication')
    ctx.need(f is not None, 'remove_duplication')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'CollateUniqueVals', 'AppendNewElements', 'proceed'}, symbolic={'style', 'region'})
    doc = ('p', f.params[1])
    head = ('attr', ('attr', doc, 'binding'), 'head')
    rq = ctx.prog.cls(REPLACE).qualname
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            ctx.bad('whole', 'all', 'fails; path: ' + show_facts(p.facts), f)
            continue
        dicts, order = set(), []
        for box, name in (('styling', 'style'), ('layout', 'region')):
            b = ('attr', head, box)
            there = Present(b).ev(p.facts)
            lst = ('attr', b, name)
            col = [e for e in p.events if e.kind == 'call' and e.name == 'CollateUniqueVals' and base_iter(arg(e, 0)) == lst]
            app = [e for e in p.events if e.kind == 'call' and e.name == 'AppendNewElements' and base_iter(arg(e, 0)) == lst]
            clear = [e for e in p.events if e.kind == 'store' and e.recv == b and e.name == name]
            if there is not False:
                ctx.expect(there is True, 'whole', box + '/present', 'a document without %s is not dealt with; path: %s' % (box, show_facts(p.facts)), f)
                ok = len(col) == 1 and len(app) == 1 and p.events.index(col[0]) < p.events.index(app[0])
                ctx.expect(ok, 'whole', box, 'duplicates are not removed from it; path: ' + show_facts(p.facts), f)
                if not ok:
                    continue
                ctx.expect(len(clear) == 1 and clear[0].value == NONE and p.events.index(clear[0]) < p.events.index(app[0]), 'whole', box + '/replaced',
                           'the elements kept are added to the ones there were', clear[0] if clear else app[0])
                ctx.expect(arg(app[0], 1) == lst, 'whole', box + '/replaced', 'the elements kept are put into %s' % show(arg(app[0], 1)), app[0])
                dicts |= {tuple(arg(e, i) for i in rng) for e, rng in ((col[0], (1, 2, 3)), (app[0], (2, 3, 4)))}
                order += [p.events.index(col[0]), p.events.index(app[0])]
        ctx.expect(order == sorted(order), 'whole', 'order', 'regions are compared before the styles they refer to', f)
        ctx.expect(len(dicts) <= 1 and all(len(set(d)) == 3 for d in dicts), 'whole', 'tables', 'styles and regions, or the two steps, use '
                   'different tables', f)
        done = [e for e in p.events if e.kind == 'call' and e.name == 'proceed' and e.recv is not None and e.recv[0] == 'new' and e.recv[1] == rq]
        ctx.expect(len(done) == 1 and (not order or p.events.index(done[0]) > max(order)), 'whole', 'references', 'references are not replaced once '
                   'the elements to keep are known; path: ' + show_facts(p.facts), f)
        for e in done:
            a = list(e.recv[3]) + [None] * 3
            kws = dict((k, v) for k, v in e.recv[4] if k != '_strict_keywords')
            init = ctx.prog.find_method(ctx.prog.cls(REPLACE), '__init__')
            a = [kws.get(n, a[i]) for i, n in enumerate(init.params[1:])]
            ctx.expect(a[0] == ('attr', doc, 'binding'), 'whole', 'references/document', 'references are replaced in %s only' % show(a[0] or NONE), e)
            ctx.expect(not dicts or tuple(a[1:3]) == list(dicts)[0][:2], 'whole', 'references/tables', 'other tables are used to replace '
                       'references', e)
            ctx.expect(not e.args and not e.kwargs or True, 'whole', 'references', '', e)
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'CollateUniqueVals', 'AppendNewElements', 'proceed'})
    for p in ran(ctx, w, f, c):
        for e in p.events:
            if e.kind == 'call' and e.name in ('CollateUniqueVals', 'AppendNewElements'):
                ctx.expect(base_iter(arg(e, 0))[0] == 'attr', 'whole', 'elements', 'the elements are gone when they are looked at', e)
    f = ctx.prog.find_method(c, 'process_document')
    w = ctx.walker(types={SELF: c, DOC: ctx.prog.cls('documents.ebutt3:EBUTT3Document')}, noexc=True,
                   opaque={'remove_duplication', 'limit_sequence_to_one', 'check_if_document_seen', 'emit_data', 'is_document'})
    n = 0
    for p in ran(ctx, w, f, c):
        rd = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'remove_duplication' and DOC in e.args + tuple(v for _, v in e.kwargs)]
        for i, e in enumerate(p.events):
            if EMIT(e):
                n += 1
                ctx.expect(len(rd) == 1 and rd[0] < i, 'called', 'emitted', 'a document is emitted with its duplicates; path: ' + show_facts(e.facts), e)
                va = [j for j, x in enumerate(p.events) if x.kind in ('call', 'follow') and x.name == 'validate' and rd and rd[0] < j < i]
                ctx.expect(va, 'called', 'validated', 'what is emitted is not validated again', e)
    ctx.some(n, 'called', 'emitted', 'no document is ever emitted', f)


def arg(e, i):
    if i < len(e.args):
        return e.args[i]
    names = ('element_list',) + (('element_to_append_to',) if e.name == 'AppendNewElements' else ()) + ('old_id_dict', 'new_id_dict', 'hash_dict')
    return kw(e, names[i], NONE)


@check('C24')
def c24(ctx):
    ctx.rule('key', 'elements are equal only if all their attributes but xml:id are, foreign ones included')
    ctx.rule('collected', 'every style and region is recorded under its id and under what it is compared by')
    ctx.rule('kept', 'of equal elements one is kept, in the container it came from, and its id is recorded')
    ctx.rule('references', 'every reference becomes the id of the element kept for the one it named, in the same order')
    ctx.rule('whole', 'styles are dealt with before regions, then all references of the document are replaced')
    ctx.rule('called', 'a deduplicator node emits only documents it removed the duplicates from and validated')
    key_rules(ctx)
    collate(ctx)
    append(ctx)
    replace(ctx)
    whole(ctx)
