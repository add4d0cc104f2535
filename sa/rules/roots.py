# -*- coding: utf-8 -*-
"""C31: documents whose root element contradicts itself or the sizes used in the document are rejected, and only those."""
import ast
import itertools
import xml.etree.ElementTree as ET
import glob
import os

from ..core import *
from ..schema import XS, schema_of, bindings, datatypes, simple_types
from .copying import ran
from .segments import feasible

ROOT = 'bindings:tt_type'
WHAT = ('frameRate', 'frameRateMultiplier', 'markerMode', 'dropMode', 'clockMode')
RULES = {'smpte': (('frameRate', 'dropMode', 'markerMode'), ('clockMode',)),
         'clock': (('clockMode',), ('dropMode', 'markerMode')),
         'media': ((), ('dropMode', 'markerMode', 'clockMode'))}


class World(object):
    """a root element: its time base and which of its attributes are given"""
    def __init__(self, base, given):
        self.base, self.given = base, given

    def term(self, t):
        """-> 'absent', 'given', ('k', v) or None where it is not known"""
        if t == ('attr', SELF, 'timeBase') or t == ('getattr', SELF, K('timeBase')):
            return K(self.base)
        n = None
        if t[0] == 'attr' and t[1] == SELF:
            n = t[2]
        elif t[0] == 'getattr' and t[1] == SELF and t[2][0] == 'k':
            n = t[2][1]
        if n in WHAT:
            return 'given' if n in self.given else 'absent'
        return t if t[0] == 'k' else None

    def listed(self, t):
        """values of a container of constants, else None"""
        if t[0] == 'lst' or t[0] == 'tup':
            xs = t[2] if t[0] == 'lst' else t[1]
            return list(xs) if all(x[0] == 'k' for x in xs) else None
        if t[0] == 'k' and isinstance(t[1], (tuple, frozenset, list)):
            return [K(x) for x in t[1]]
        if t[0] == 'comp':
            return self.members(t)
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('list', 'tuple', 'set', 'sorted', 'frozenset') and len(t[2]) == 1:
            return self.listed(t[2][0])
        return None

    def bindings_of(self, srcs):
        """assignments of the loop elements of the sources"""
        out = [[]]
        for s in srcs:
            xs = self.listed(s)
            if xs is None:
                return None
            out = [o + [(s, x)] for o in out for x in xs]
        return out

    def members(self, t):
        """values of a comprehension"""
        out = []
        bs = self.bindings_of(t[3])
        if bs is None:
            return None
        for b in bs:
            elt, conds = t[2], t[4]
            for s, x in b:
                elt = replace_elements(elt, s, x)
                conds = replace_elements(conds, s, x)
            keep = True
            for c in conds:
                v = self.cond(c)
                if v is None:
                    return None
                keep = keep and v
            if keep:
                out.append(elt)
        return out

    def cond(self, c):
        """truth of (atom, polarity), a 'bool' or an 'or' / 'and' of them"""
        if len(c) == 2 and isinstance(c[1], bool):
            v = self.atom(c[0])
            return None if v is None else v is c[1]
        if c[0] == 'bool':
            v = self.atom(c[1])
            return None if v is None else v is c[2]
        if c[0] in ('or', 'and'):
            vs = [self.cond(x) for x in c[1]]
            return None if None in vs else any(vs) if c[0] == 'or' else all(vs)
        if c[0] == 'k':
            return bool(c[1])
        return None

    def atom(self, a):
        if a[0] == 'isnone':
            v = self.term(a[1])
            return None if v is None else v == 'absent' or v == NONE
        if a[0] == 'eq':
            x, y = self.term(a[1]), self.term(a[2])
            if x is None or y is None or 'given' in (x, y):
                return None
            return x == y
        if a[0] == 'in':
            x, xs = self.term(a[1]), self.listed(a[2])
            return None if x is None or xs is None or x == 'given' else x in xs
        if a[0] == 'truthy':
            t = a[1]
            if t[0] in ('lst', 'tup', 'comp', 'call') and self.listed(t) is not None or t[0] == 'lst':
                xs = self.listed(t)
                if xs is None and t[0] == 'lst':
                    return bool(t[2])
                return None if xs is None else bool(xs)
            if t[0] == 'str' or t[0] == 'fmt':
                return True
            if t[0] in ('any', 'all'):
                return self.quantified(t)
            if t[0] == 'call' and t[1] == ('ext', 'len') and len(t[2]) == 1:
                return self.atom(('truthy', t[2][0]))
            v = self.term(t)
            return None if v is None else v == 'given' or v != 'absent' and bool(v[1])
        if a[0] in ('any', 'all'):
            return self.quantified(a)
        return None

    def quantified(self, t):
        """any / all (elt, sources, conditions)"""
        if len(t) != 4:
            xs = self.listed(t[1])
            return None if xs is None else (any if t[0] == 'any' else all)(bool(x[1]) for x in xs)
        bs = self.bindings_of(t[2])
        if bs is None:
            return None
        vs = []
        for b in bs:
            elt, conds = t[1], t[3]
            for s, x in b:
                elt, conds = replace_elements(elt, s, x), replace_elements(conds, s, x)
            keep = [self.cond(c) for c in conds]
            if None in keep:
                return None
            if all(keep):
                vs.append(self.cond(elt) if elt[0] in ('bool', 'or', 'and', 'k') else self.atom(('truthy', elt)))
        if None in vs:
            return None
        return any(vs) if t[0] == 'any' else all(vs)


def replace_elements(t, src, x):
    """the elements of the source, of whichever loop, become x"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'it' and t[1] == src:
            return x
        return tuple(replace_elements(y, src, x) for y in t)
    return t


def holds(world, facts):
    """False: impossible in that world; None: not known"""
    unknown = False
    for a, v in facts.items():
        r = world.atom(a)
        if r is None:
            unknown = unknown or (mentions(a, ('attr', SELF, 'timeBase')) or any(mentions(a, ('attr', SELF, n)) for n in WHAT))
        elif r is not v:
            return False
    return None if unknown else True


@check('C31')
def settings(ctx):
    """time base and the attributes that go with it"""
    c = ctx.prog.cls(ROOT)
    f = ctx.prog.find_method(c, '_semantic_before_traversal')
    w = ctx.walker(noexc=True, loop=4, lists=True)
    paths = ran(ctx, w, f, c)
    bases = [b for b in time_bases(ctx)]
    ctx.some(set(bases) == set(RULES), 'root-rules', 'time bases', 'the schema knows the time bases %s' % sorted(bases), c)
    for b in sorted(RULES):
        need, forbidden = RULES[b]
        for k in range(len(WHAT) + 1):
            for given in itertools.combinations(WHAT, k):
                world = World(b, given)
                name = '%s with %s' % (b, ', '.join(given) or 'nothing')
                valid = all(n in given for n in need) and not any(n in given for n in forbidden)
                ps = [(p, holds(world, p.facts)) for p in paths]
                sure = [p for p, h in ps if h]
                maybe = [p for p, h in ps if h is not False]
                if not ctx.expect(maybe, 'root-rules', b, 'nothing is decided for a root of %s' % name, f):
                    continue
                if valid:
                    ctx.expect(all(p.kind == 'return' for p in maybe), 'root-rules', b + '/accepted', 'a root of %s is rejected' % name, f)
                else:
                    ctx.expect(all(p.kind != 'return' for p in maybe), 'root-rules', b + '/rejected', 'a root of %s is accepted' % name, f)
                    ctx.expect(all(w.exc_name(p.exc) == 'SemanticValidationError' for p in sure if p.kind != 'return'), 'root-rules',
                               b + '/rejected', 'a root of %s fails with another error than of validation' % name, f)
    ds = ('p', f.params[1])
    for p in paths:
        if p.kind == 'return':
            ctx.expect(any(e.kind == 'setitem' and (e.recv, e.name, e.value) == (ds, K('tt_element'), SELF) for e in p.events), 'root-rules', 'tt_element',
                       'the elements of the document do not find the root they are checked against', f)


def time_bases(ctx):
    """values the schema allows for the time base"""
    for f in sorted(glob.glob(os.path.join(ctx.prog.root, 'ebu_tt_live', 'xsd', '*.xsd'))):
        for a in ET.parse(f).getroot().findall(XS + 'attribute'):
            if a.get('name') == 'timeBase':
                own = [x.get('value') for x in a.iter(XS + 'enumeration')]
                return own or simple_types(ctx).get((a.get('type') or '').split(':')[-1], ([], []))[1]
    return []


def unions(ctx):
    """{attribute: simple types that are the members of its type}"""
    members, attrs = {}, {}
    for f in sorted(glob.glob(os.path.join(ctx.prog.root, 'ebu_tt_live', 'xsd', '*.xsd'))):
        r = ET.parse(f).getroot()
        for t in r.iter(XS + 'simpleType'):
            u = t.find(XS + 'union')
            if t.get('name') and u is not None:
                members[t.get('name')] = [x.split(':')[-1] for x in (u.get('memberTypes') or '').split()]
        if r.get('targetNamespace') == 'http://www.w3.org/ns/ttml#styling':
            for a in r.findall(XS + 'attribute'):
                if a.get('type'):
                    attrs[a.get('name')] = a.get('type').split(':')[-1]

    def leaves(n):
        return [y for x in members[n] for y in leaves(x)] if n in members else [n]
    return {a: leaves(t) for a, t in attrs.items()}


@check('C31')
def sizes(ctx):
    """sizes in pixels need the extent of the root"""
    sch, members = schema_of(ctx), unions(ctx)
    classes = {n: c for c, n in datatypes(ctx)}
    pixel = sorted({m for ms in members.values() for m in ms if m.startswith('pixel')})
    ctx.some(len(pixel) >= 4, 'sizes', 'types', 'the schema has only the pixel sizes %s' % pixel, ctx.prog.cls(ROOT))
    validated = ctx.prog.cls('bindings.validation.base:SemanticValidationMixin')
    n = 0
    for c, t in bindings(ctx):
        if t.startswith('d_') or t == 'tt_type' or t not in sch.types and t not in sch.elements:
            continue
        own = element_attrs(sch, t)
        sized = sorted(a for a in own if any(m in pixel for m in members.get(a, ())))
        if not sized:
            continue
        if not ctx.some(validated in ctx.prog.mro(c), 'sizes', c.name, 'is not validated', c):
            continue
        f = ctx.prog.find_method(c, '_semantic_before_traversal')
        ds = ('p', f.params[1])
        extent = ('isnone', ('attr', ('sub', ds, K('tt_element')), 'extent'))
        for a in sized:
            v = ('attr', SELF, a)
            for m in members[a]:
                if not ctx.some(m in classes or m not in pixel, 'sizes', m, 'has no class that checks it', c):
                    continue
                if m not in classes:
                    continue
                n += 1
                # with no other size given; a size in pixels needs the extent whatever the others are
                for alone in (True, False) if m in pixel else (True,):
                    facts = {('isnone', v): False}
                    if alone:
                        facts.update({('isnone', ('attr', SELF, b)): True for b in sized if b != a})
                    w = ctx.walker(types={v: classes[m]}, facts=facts, noexc=True, depth=8,
                                   opaque={'_semantic_register_id', '_semantic_collect_applicable_styles', '_semantic_timing_before_traversal'})
                    w.o.types[SELF] = c
                    for p in ran(ctx, w, f, c):
                        if not feasible(p) or not instance(ctx, p.facts, v, classes[m]):
                            continue
                        x = p.facts.get(extent)
                        key = '%s/%s/%s' % (c.name, a, m)
                        if p.kind == 'return':
                            ctx.expect(m not in pixel or x is False, 'sizes', key, 'accepts a size in pixels without an extent of the root; path: ' +
                                       show_facts(p.facts), f)
                        elif alone:
                            ctx.expect(m in pixel and x is True, 'sizes', key, 'rejects a size that is valid (%s); path: %s' % (
                                w.exc_name(p.exc), show_facts(p.facts)), f)
    ctx.some(n >= 10, 'sizes', 'checked', 'only %d sizes found' % n, ctx.prog.cls(ROOT))


def instance(ctx, facts, v, c):
    """the type tests on v are those of an object of class c, whose generated base class is only known by its name"""
    bases = {b.attr for k in ctx.prog.mro(c) if hasattr(k, 'base_nodes') for b in k.base_nodes if isinstance(b, ast.Attribute)}
    bases |= {k.name for k in ctx.prog.mro(c) if hasattr(k, 'name')}
    for a, x in facts.items():
        if a[0] == 'isinst' and a[1] == v:
            for n in a[2][1] if a[2][0] == 'tup' else (a[2],):
                if n[0] in ('cls', 'ext') and (str(n[1]).replace(':', '.').rsplit('.', 1)[-1] in bases) is not x:
                    return False
    return True


def element_attrs(sch, t):
    """attributes of a complex type or of the anonymous type of an element"""
    if t in sch.types:
        return sch.attrs(t)
    out = {}
    for x in sch.elements[t].findall(XS + 'complexType'):
        sch._attrs(x, out)
    ty = (sch.elements[t].get('type') or '').split(':')[-1]
    if ty in sch.types:
        out.update(sch.attrs(ty))
    return out


@check('C31')
def extent(ctx):
    """the extent of the root is in pixels, and all that is done before the rest is validated"""
    c = ctx.prog.cls(ROOT)
    f = ctx.prog.find_method(c, 'validateBinding')
    classes = {n: k for k, n in datatypes(ctx)}
    v = ('attr', SELF, 'extent')
    for m in [None] + unions(ctx).get('extent', []):
        if not ctx.some(m is None or m in classes, 'root-extent', m, 'has no class', c):
            continue
        types = {SELF: c}
        if m:
            types[v] = classes[m]
        w = ctx.walker(types=types, facts={('isnone', v): m is None}, noexc=True,
                       opaque={'_validateBinding_vx', 'proceed', '_performValidation'})
        done = 0
        for p in ran(ctx, w, f, c):
            if not feasible(p) or m and not instance(ctx, p.facts, v, classes[m]):
                continue
            calls = [e for e in p.events if e.kind == 'call']
            on = [x for a, x in p.facts.items() if a[0] == 'truthy' and a[1] in [e.value for e in calls if e.name == '_performValidation']]
            if on == [False]:
                continue
            done += 1
            if m in (None, 'pixelExtentType'):
                ok = ctx.expect(p.kind == 'return', 'root-extent', m or 'none', 'a root with %s is rejected' % (m or 'no extent'), f)
                if ok:
                    names = [e.name for e in calls if e.name in ('_validateBinding_vx', 'proceed')]
                    ctx.expect(names == ['_validateBinding_vx', 'proceed'], 'root-extent', 'validation', 'validates with %s' % names, f)
            else:
                ctx.expect(p.kind != 'return', 'root-extent', m, 'a root with %s is accepted; path: %s' % (m, show_facts(p.facts)), f)
        ctx.some(done, 'root-extent', m or 'none', 'nothing is validated', f)
