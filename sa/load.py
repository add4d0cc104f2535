# -*- coding: utf-8 -*-
"""Source loader: parses every non-test module of the repository under analysis and
resolves modules, imports, classes (C3 linearisation), functions and properties.

Nothing of the analysed repository is imported or executed.
"""
import ast
import copy
import os
import re


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable source)."""


REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'ebu_tt_live'
SKIP_DIRS = {'test', 'tests', 'raw', 'ui', '__pycache__', 'examples', 'example_data'}


# --------------------------------------------------------------------------- Py2 -> Py3 syntax
def _fix_py2(src):
    out = []
    for line in src.split('\n'):
        line = re.sub(r'(?<![\w\'"])[uU]([rR])(?=[\'"])', r'\1', line)
        line = re.sub(r'(?<![\w\'"])async(?!\w)', 'async_', line)
        line = re.sub(r'(?<![\w\'"])await(?!\w)', 'await_', line)
        m = re.match(r'^(\s*)print\s*>>\s*([^,]+),?\s*(.*?)\s*(#.*)?$', line)
        if m:
            line = '%sprint(%s)' % (m.group(1), m.group(3))
        else:
            m = re.match(r'^((?:\s*|.*[:;]\s*))print\s+(?![\(=])(.*?)\s*(#[^\'"]*)?$', line)
            if m and not m.group(1).strip().startswith(('#', '"', "'")):
                line = '%sprint(%s)' % (m.group(1), m.group(2).rstrip(','))
            elif re.match(r'^\s*print\s*$', line):
                line = line.replace('print', 'print()')
        line = re.sub(r'\bexcept\s+(.+?)\s*,\s*(\w+)\s*:', r'except \1 as \2:', line)
        m = re.match(r'^(\s*)raise\s+([\w\.]+)\s*,\s*(.+)$', line)
        if m:
            line = '%sraise %s(%s)' % (m.group(1), m.group(2), m.group(3).split(', sys.exc')[0])
        line = line.replace('<>', '!=')
        line = re.sub(r'(?<![\w\.])0([0-7]+)\b(?![\.\w:])', r'0o\1', line)
        line = re.sub(r'(?<![\w\.])(\d+)[lL]\b', r'\1', line)
        line = re.sub(r'`([^`\'"]+)`', r'repr(\1)', line) if '``' not in line else line
        out.append(line)
    return '\n'.join(out)


class Plain(ast.NodeTransformer):
    """one spelling for what means the same: dict(a=b) is {'a': b}; x.extend([a, b]) and x += [a, b] are x.append(a); x.append(b)"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'dict' and not node.args and node.keywords and \
                all(k.arg for k in node.keywords):
            new = ast.Dict([ast.copy_location(ast.Constant(k.arg), k.value) for k in node.keywords], [k.value for k in node.keywords])
            return ast.copy_location(new, node)
        return node

    def appends(self, node, target, items):
        out = []
        for x in items:
            call = ast.Call(ast.Attribute(copy.deepcopy(target), 'append', ast.Load()), [x], [])
            out.append(ast.fix_missing_locations(ast.copy_location(ast.Expr(call), node)))
        return out

    @staticmethod
    def items(e):
        if isinstance(e, (ast.List, ast.Tuple)) and e.elts and not any(isinstance(x, ast.Starred) for x in e.elts):
            return e.elts
        return None

    def visit_Expr(self, node):
        self.generic_visit(node)
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'extend' and len(c.args) == 1 and not c.keywords:
            e, items = c.func.value, self.items(c.args[0])
            simple = isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and not any(isinstance(x, ast.Call) for x in ast.walk(e))
            if items and (simple or len(items) == 1):
                return self.appends(node, e, items)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name) and isinstance(node.value, ast.List):
            items = self.items(node.value)
            if items:
                return self.appends(node, ast.Name(node.target.id, ast.Load()), items)
        return node


class Inline(ast.NodeTransformer):
    """texts and numbers a module names once, at its top, and reads in functions: as what they are"""

    def __init__(self, known):
        self.known = known

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in self.known:
            return ast.copy_location(ast.Constant(self.known[node.id]), node)
        return node


def named_values(tree):
    bound = {}
    for n in ast.walk(tree):
        for x in ((n.id,) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) else
                  (n.arg,) if isinstance(n, ast.arg) else (n.name,) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else
                  tuple(n.names) * 2 if isinstance(n, ast.Global) else
                  tuple((a.asname or a.name).split('.')[0] for a in n.names) if isinstance(n, (ast.Import, ast.ImportFrom)) else
                  (n.name,) if isinstance(n, ast.ExceptHandler) and n.name else ()):
            bound[x] = bound.get(x, 0) + 1
    return {s.targets[0].id: s.value.value for s in tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and
            isinstance(s.targets[0], ast.Name) and bound[s.targets[0].id] == 1 and isinstance(s.value, ast.Constant) and
            isinstance(s.value.value, (str, int, float)) and not isinstance(s.value.value, bool)}


def parse_source(src, path):
    tree = Plain().visit(parsed(src, path))
    if not path.endswith('errors.py') and '/raw/' not in path:
        known = named_values(tree)
        if known:
            Inline(known).visit(tree)
    return tree


def parsed(src, path):
    try:
        return ast.parse(src)
    except SyntaxError:
        pass
    try:
        return ast.parse(_fix_py2(src))
    except SyntaxError as exc:
        raise AnalysisError('cannot parse %s: %s' % (path, exc))


# --------------------------------------------------------------------------- program model
class Func(object):
    def __init__(self, mod, name, node, cls=None, kind='function', outer=None):
        self.mod, self.name, self.node, self.cls, self.kind, self.outer = mod, name, node, cls, kind, outer

    @property
    def qualname(self):
        return '%s.%s' % (self.cls.qualname, self.name) if self.cls else '%s.%s' % (self.mod.name, self.name)

    @property
    def short(self):
        return '%s.%s' % (self.cls.name, self.name) if self.cls else self.name

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s>' % self.qualname


class Prop(object):
    def __init__(self, name):
        self.name, self.getter, self.setter, self.deleter = name, None, None, None


class Cls(object):
    def __init__(self, mod, name, node, outer=None):
        self.mod, self.name, self.node, self.outer = mod, name, node, outer
        self.methods, self.props, self.attrs, self.inner = {}, {}, {}, {}
        self.base_nodes = node.bases
        self._mro = None

    @property
    def qualname(self):
        if self.outer is not None:
            return '%s.%s' % (self.outer.qualname, self.name)
        return '%s.%s' % (self.mod.name, self.name)

    def __repr__(self):
        return '<Cls %s>' % self.qualname


class Mod(object):
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg
        self.classes, self.funcs, self.imports, self.globals = {}, {}, {}, {}
        self.multi = set()
        self.star = []

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Program(object):
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.mods = {}
        self.classes = []
        self.funcs = []
        overrides = overrides or {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError('package %s not found in %s' % (PKG, self.root))
        for cur, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(cur, f)
                    rel = os.path.relpath(path, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    is_pkg = name.endswith('.__init__')
                    if is_pkg:
                        name = name[:-len('.__init__')]
                    with open(path, encoding='utf-8') as fh:
                        src = fh.read()
                    src = overrides.get(rel, src)
                    self.mods[name] = Mod(name, path, parse_source(src, path), src, is_pkg)
        for m in self.mods.values():
            self._index_module(m)
        for m in self.mods.values():
            for c in list(m.classes.values()):
                self._collect(c)
        self._subs = None

    def _collect(self, c):
        self.classes.append(c)
        for ic in c.inner.values():
            self._collect(ic)

    # ---- indexing
    def _index_module(self, m):
        for node in m.tree.body:
            self._index_stmt(m, node)

    def _index_stmt(self, m, node):
        if isinstance(node, ast.ClassDef):
            m.classes[node.name] = self._index_class(m, node)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(m, node.name, node)
            m.funcs[node.name] = f
            self.funcs.append(f)
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    m.imports[a.asname] = ('mod', self._abs_import(m, a.name))
                else:
                    m.imports[a.name.split('.')[0]] = ('mod', self._abs_import(m, a.name.split('.')[0]))
        elif isinstance(node, ast.ImportFrom):
            target = self._from_target(m, node)
            for a in node.names:
                if a.name == '*':
                    m.star.append(target)
                else:
                    m.imports[a.asname or a.name] = ('from', target, a.name)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    if t.id in m.globals:
                        m.multi.add(t.id)
                    m.globals[t.id] = node.value
        elif isinstance(node, (ast.AugAssign,)):
            if isinstance(node.target, ast.Name):
                m.multi.add(node.target.id)
        elif isinstance(node, ast.If):
            for s in node.body + node.orelse:
                self._index_stmt(m, s)
        elif isinstance(node, ast.Try):
            for s in node.body + [x for h in node.handlers for x in h.body] + node.orelse + node.finalbody:
                self._index_stmt(m, s)

    def _abs_import(self, m, name):
        # implicit relative imports of Python 2
        pkg = m.name if m.is_pkg else m.name.rpartition('.')[0]
        cand = pkg + '.' + name
        if cand in self.mods and cand != m.name:
            return cand
        return name

    def _from_target(self, m, node):
        if node.level:
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            if node.level > 1:
                parts = parts[:-(node.level - 1)]
            return '.'.join(parts + ([node.module] if node.module else []))
        return self._abs_import(m, node.module)

    def _index_class(self, m, node, outer=None):
        c = Cls(m, node.name, node, outer)
        self._index_class_body(m, c, node.body)
        return c

    def _index_class_body(self, m, c, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind, prop = 'method', None
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
                        kind = d.id
                    elif isinstance(d, ast.Name) and d.id == 'property' or \
                            isinstance(d, ast.Attribute) and d.attr == 'abstractproperty':
                        prop = ('getter', s.name)
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') \
                            and isinstance(d.value, ast.Name):
                        prop = (d.attr, d.value.id)
                f = Func(m, s.name, s, c, 'property' if prop else kind)
                self.funcs.append(f)
                if prop:
                    p = c.props.get(s.name)
                    if p is None:
                        p = Prop(s.name)
                        old = c.props.get(prop[1])
                        if old is not None:
                            p.getter, p.setter, p.deleter = old.getter, old.setter, old.deleter
                        c.props[s.name] = p
                    setattr(p, prop[0], f)
                    f.kind = 'property'
                    f.role = prop[0]
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.ClassDef):
                c.inner[s.name] = self._index_class(m, s, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        v = s.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            p = Prop(t.id)
                            names = list(v.args) + [None] * 3
                            kw = {k.arg: k.value for k in v.keywords}
                            for i, role in enumerate(('getter', 'setter')):
                                n = kw.get('f' + role[:3], names[i])
                                if isinstance(n, ast.Name) and n.id in c.methods:
                                    setattr(p, role, c.methods[n.id])
                            c.props[t.id] = p
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                                v.func.id in ('staticmethod', 'classmethod') and v.args and \
                                isinstance(v.args[0], ast.Name) and v.args[0].id in c.methods:
                            c.methods[v.args[0].id].kind = v.func.id
                            c.methods[t.id] = c.methods[v.args[0].id]
                        elif isinstance(v, ast.Name) and v.id in c.methods:
                            c.methods[t.id] = c.methods[v.id]
                        else:
                            c.attrs[t.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._index_class_body(m, c, s.body + s.orelse)

    # ---- resolution
    def resolve(self, m, name, _seen=None):
        """-> Cls | Func | Mod | ('const', Mod, ast expr) | ('ext', dotted) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.globals:
            v = m.globals[name]
            if isinstance(v, ast.Name):
                r = self.resolve(m, v.id, _seen)
                if r is not None:
                    return r
            return ('const', m, name, v)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return self.mods.get(imp[1]) or ('ext', imp[1])
            target, orig = imp[1], imp[2]
            tm = self.mods.get(target)
            if tm is not None:
                r = self.resolve(tm, orig, _seen)
                if r is not None:
                    return r
                if target + '.' + orig in self.mods:
                    return self.mods[target + '.' + orig]
                return None
            if target + '.' + orig in self.mods:
                return self.mods[target + '.' + orig]
            return ('ext', target + '.' + orig)
        for s in m.star:
            tm = self.mods.get(s)
            if tm is not None:
                r = self.resolve(tm, name, _seen)
                if r is not None:
                    return r
        if m.is_pkg and m.name + '.' + name in self.mods:
            return self.mods[m.name + '.' + name]
        return None

    def resolve_expr(self, m, node, cls=None):
        if isinstance(node, ast.Name):
            if cls is not None and node.id in cls.inner:
                return cls.inner[node.id]
            return self.resolve(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value, cls)
            if isinstance(b, Mod):
                r = self.resolve(b, node.attr)
                return r
            if isinstance(b, Cls):
                for c in self.mro(b):
                    if isinstance(c, Cls):
                        if node.attr in c.inner:
                            return c.inner[node.attr]
                        if node.attr in c.methods:
                            return c.methods[node.attr]
                return None
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
        return None

    def bases(self, c):
        out = []
        for b in c.base_nodes:
            r = self.resolve_expr(c.mod, b, c.outer)
            if isinstance(r, Cls):
                out.append(r)
            else:
                out.append('ext:' + (r[1] if isinstance(r, tuple) and r[0] == 'ext' else ast.unparse(b)))
        return out

    def mro(self, c):
        if isinstance(c, str):
            return [c]
        if c._mro is None:
            c._mro = [c]  # cycle guard
            bs = self.bases(c)
            seqs = [list(self.mro(b)) for b in bs] + [list(bs)]
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                for s in seqs:
                    if s and s[0] is cand or s and s[0] == cand:
                        del s[0]
                    elif cand in s:
                        s.remove(cand)
            c._mro = res
        return c._mro

    def is_sub(self, c, d):
        return isinstance(c, Cls) and d in self.mro(c)

    def subclasses(self, d, strict=True):
        return [c for c in self.classes if d in self.mro(c) and (c is not d or not strict)]

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if isinstance(k, Cls):
                if name in k.methods:
                    return k.methods[name]
                if name in k.props or name in k.attrs:
                    return None
            # an external base could provide the method; continue with the rest of the MRO
        return None

    def find_prop(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if isinstance(k, Cls):
                if name in k.props:
                    return k.props[name]
                if name in k.methods or name in k.attrs:
                    return None
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls):
                if name in k.attrs:
                    return k, k.attrs[name]
                if name in k.props or name in k.methods:
                    return None
        return None

    def find_inner(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.inner:
                return k.inner[name]
        return None

    # ---- anchors
    def cls(self, qual):
        """Find a class by 'module_suffix:Name' or plain unique Name."""
        mod, _, name = qual.rpartition(':')
        cands = [c for c in self.classes if c.name == name and (not mod or c.mod.name == PKG + '.' + mod)]
        if len(cands) == 0 and mod:
            cands = [c for c in self.classes if c.name == name]     # moved to another module
        if len(cands) != 1:
            raise AnalysisError('anchor class %s: %d candidates' % (qual, len(cands)))
        return cands[0]

    def func(self, qual):
        mod, _, name = qual.rpartition(':')
        if '.' in name:
            cn, mn = name.rsplit('.', 1)
            c = self.cls((mod + ':' if mod else '') + cn)
            f = self.find_method(c, mn)
            if f is None:
                raise AnalysisError('anchor method %s not found' % qual)
            return f
        cands = [m.funcs[name] for m in self.mods.values() if name in m.funcs and
                 (not mod or m.name == PKG + '.' + mod)]
        if not cands and mod:
            cands = [m.funcs[name] for m in self.mods.values() if name in m.funcs]
        if len(cands) != 1:
            raise AnalysisError('anchor function %s: %d candidates' % (qual, len(cands)))
        return cands[0]

    def method(self, cqual, name):
        c = self.cls(cqual) if isinstance(cqual, str) else cqual
        f = self.find_method(c, name)
        if f is None:
            raise AnalysisError('anchor method %s.%s not found' % (c.name, name))
        return f
