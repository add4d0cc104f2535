# -*- coding: utf-8 -*-
"""The XML schema of the repository: attributes and children of its complex types."""
import glob
import os
import xml.etree.ElementTree as ET

from .load import AnalysisError

XS = '{http://www.w3.org/2001/XMLSchema}'


class Schema(object):
    def __init__(self, root):
        self.types, self.elements, self.groups = {}, {}, {}
        files = sorted(glob.glob(os.path.join(root, 'ebu_tt_live', 'xsd', '*.xsd')))
        if not files:
            raise AnalysisError('no XML schema found')
        for f in files:
            r = ET.parse(f).getroot()
            for t in r.iter(XS + 'complexType'):
                if t.get('name'):
                    self.types[t.get('name')] = t
            for t in r.findall(XS + 'attributeGroup'):
                self.groups[t.get('name')] = t
            for t in r.findall(XS + 'element'):
                self.elements[t.get('name')] = t

    def node(self, name):
        if name not in self.types:
            raise AnalysisError('the schema has no complex type %s' % name)
        return self.types[name]

    def attrs(self, name):
        """{local name: type name or None} of the attributes of a complex type"""
        out = {}
        self._attrs(self.node(name), out)
        return out

    def required(self, name):
        out = {}
        self._attrs(self.node(name), out, 'required')
        return set(out)

    def _attrs(self, t, out, use=None):
        for x in t:
            if x.tag == XS + 'attribute' and x.get('use') != 'prohibited' and use in (None, x.get('use')):
                n = (x.get('name') or x.get('ref')).split(':')[-1]
                out[n] = (x.get('type') or '').split(':')[-1] or None
            elif x.tag == XS + 'attributeGroup':
                self._attrs(self.groups[x.get('ref').split(':')[-1]], out, use)
            elif x.tag in (XS + 'complexContent', XS + 'simpleContent'):
                self._attrs(x, out, use)
            elif x.tag in (XS + 'extension', XS + 'restriction'):
                b = x.get('base', '').split(':')[-1]
                if b in self.types and self.types[b] is not t:
                    self._attrs(self.types[b], out, use)
                self._attrs(x, out, use)

    def children(self, name):
        """{local name: (type name, may be repeated)} of the child elements of a complex type"""
        out = {}

        def walk(t, many):
            for x in t:
                if x.tag == XS + 'element':
                    n = (x.get('name') or x.get('ref')).split(':')[-1]
                    ty = x.get('type')
                    if ty is None and x.get('ref') and n in self.elements:
                        ty = self.elements[n].get('type')
                    m = many or x.get('maxOccurs', '1') != '1'
                    out[n] = ((ty or '').split(':')[-1] or None, m or n in out)
                elif x.tag in (XS + 'sequence', XS + 'choice', XS + 'all'):
                    walk(x, many or x.get('maxOccurs', '1') != '1')
                elif x.tag in (XS + 'complexContent', XS + 'extension'):
                    b = x.get('base', '').split(':')[-1]
                    if b in self.types:
                        walk(self.types[b], many)
                    walk(x, many)
        walk(self.node(name), False)
        return out


def schema_of(ctx):
    s = ctx.__dict__.get('_schema')
    if s is None:
        s = ctx._schema = Schema(ctx.prog.root)
    return s


def raw_name(c):
    """name of the schema type a binding class supersedes"""
    import ast
    for b in c.base_nodes:
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'raw':
            return b.attr
    return None


def bindings(ctx):
    """[(class, schema type)] of the classes of the bindings module"""
    out = [(c, raw_name(c)) for c in ctx.prog.classes if c.mod.name == 'ebu_tt_live.bindings' and raw_name(c)]
    ctx.need(len(out) >= 10, 'binding classes')
    return out


def simple_types(ctx):
    """{name: (patterns, enumeration values)} of the named simple types"""
    out = ctx.__dict__.get('_simple')
    if out is None:
        out = ctx._simple = {}
        for f in sorted(glob.glob(os.path.join(ctx.prog.root, 'ebu_tt_live', 'xsd', '*.xsd'))):
            for t in ET.parse(f).getroot().iter(XS + 'simpleType'):
                if t.get('name'):
                    out[t.get('name')] = ([x.get('value') for x in t.iter(XS + 'pattern')], [x.get('value') for x in t.iter(XS + 'enumeration')])
    return out


def datatypes(ctx):
    """[(class, simple type)] of the data types the code gives its own classes"""
    import ast
    out = []
    for c in ctx.prog.classes:
        if c.mod.name == 'ebu_tt_live.bindings._ebuttdt':
            for b in c.base_nodes:
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'ebuttdt_raw':
                    out.append((c, b.attr))
    ctx.need(len(out) >= 10, 'data types')
    return out
