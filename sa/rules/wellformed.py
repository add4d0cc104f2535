# -*- coding: utf-8 -*-
"""C22: no code path uses a name, an attribute, a module member or an argument that does not exist."""
import abc
import ast
import builtins
import collections
import re
import string
import threading

from ..core import *
from ..load import Cls, Func, Mod

PY2 = {'unicode', 'xrange', 'long', 'basestring', 'raw_input', 'reduce', 'unichr', 'cmp', 'file', 'execfile', 'reload', 'apply', 'buffer', 'intern', 'coerce'}
NAMES = set(dir(builtins)) | PY2 | {'__file__', '__name__', '__path__', '__package__', '__doc__', '__builtins__', '__class__'}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(node):
    """the nodes of a scope without those of the scopes in it; those scopes themselves are given"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))
        else:
            # decorators, defaults and first iterables belong to the outer scope
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.extend(n.decorator_list)
            if isinstance(n, ast.ClassDef):
                todo.extend(n.bases + [k.value for k in n.keywords])
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])


def bound(scope):
    """names a scope binds"""
    out, glob = set(), set()
    if isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = scope.args
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        nodes = own(scope.body) if isinstance(scope.body, list) else own([scope.body])
    elif isinstance(scope, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        nodes = own(scope)
    else:
        nodes = own(scope.body)
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, (ast.ListComp,)):
            # Python 2: the variables of a list comprehension are those of the function
            out |= {m.id for g in n.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
    return out - glob, glob


def open_star(prog, m, seen=None):
    """the module takes all names of a module that is not known"""
    seen = seen or set()
    if m.name in seen:
        return False
    seen.add(m.name)
    return any(s not in prog.mods or open_star(prog, prog.mods[s], seen) for s in m.star)


def tests(m):
    return any(p in ('test', 'tests') for p in m.name.split('.'))


def walk_scopes(mod):
    """(scope, [enclosing scopes from the outside], enclosing class) of every scope of the module"""
    todo = [(mod.tree, [], None)]
    while todo:
        s, outer, cls = todo.pop()
        yield s, outer, cls
        body = s.body if isinstance(getattr(s, 'body', None), list) else s
        for n in own(body):
            if isinstance(n, SCOPES):
                todo.append((n, outer + [s], n if isinstance(n, ast.ClassDef) else cls))


def visible(scope, outer):
    """names bound by the scope and the functions around it; a class body is only seen by itself"""
    out = set(bound(scope)[0])
    for o in outer[1:]:
        if not isinstance(o, ast.ClassDef):
            out |= bound(o)[0]
    return out


@check('C22')
def names(ctx):
    """every name that is read is bound somewhere"""
    n = 0
    for m in ctx.prog.mods.values():
        if tests(m):
            continue
        blind = open_star(ctx.prog, m)
        top = bound(m.tree)[0] | {g for s, o, c in walk_scopes(m) for g in bound(s)[1]}
        for s in m.star:
            if s in ctx.prog.mods:
                top |= star_names(ctx.prog, ctx.prog.mods[s])
        for scope, outer, cls in walk_scopes(m):
            vis = visible(scope, outer)
            if outer and isinstance(outer[-1], ast.ClassDef) and isinstance(scope, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                vis |= bound(outer[-1])[0]
            body = scope.body if isinstance(getattr(scope, 'body', None), list) else [scope.body] if isinstance(scope, ast.Lambda) else scope
            for x in own(body):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    n += 1
                    ctx.expect(blind or x.id in vis or x.id in top or x.id in NAMES, 'names', '%s/%s' % (place(m, outer, scope), x.id),
                               'the name %s is not defined (line %d)' % (x.id, x.lineno), m)
    ctx.some(n > 5000, 'names', 'read', 'only %d names found' % n, None)


def star_names(prog, m, seen=None):
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = {x for x in bound(m.tree)[0]}
    for s in m.star:
        if s in prog.mods:
            out |= star_names(prog, prog.mods[s], seen)
    return out


def place(m, outer, scope):
    ns = [o.name for o in outer[1:] + [scope] if hasattr(o, 'name')]
    return m.name.partition('.')[2] + (':' + '.'.join(ns) if ns else '')


@check('C22')
def members(ctx):
    """what is imported from a module of the toolkit, or read from one, exists in it"""
    n = 0
    for m in ctx.prog.mods.values():
        if tests(m):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                src = ctx.prog._from_target(m, x)
                if not src or not src.startswith('ebu_tt_live'):
                    continue
                t = ctx.prog.mods.get(src)
                if t is None:
                    continue
                for a in x.names:
                    if a.name == '*':
                        continue
                    n += 1
                    ctx.expect(has(ctx.prog, t, a.name), 'members', '%s/%s' % (m.name.partition('.')[2], a.name),
                               '%s has no %s (line %d)' % (src, a.name, x.lineno), m)
        for scope, outer, cls in walk_scopes(m):
            vis = visible(scope, outer) if outer else set()
            body = scope.body if isinstance(getattr(scope, 'body', None), list) else [scope.body] if isinstance(scope, ast.Lambda) else scope
            for x in own(body):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    root = x.value
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    if not isinstance(root, ast.Name) or root.id in vis:
                        continue
                    t = ctx.prog.resolve_expr(m, x.value)
                    if isinstance(t, Mod):
                        n += 1
                        ctx.expect(has(ctx.prog, t, x.attr), 'members', '%s/%s' % (place(m, outer, scope), x.attr), '%s has no %s (line %d)' % (
                            t.name, x.attr, x.lineno), m)
    ctx.some(n > 300, 'members', 'read', 'only %d members found' % n, None)


def has(prog, m, name):
    return name in star_names(prog, m) or open_star(prog, m) or name in NAMES or m.is_pkg and (m.name + '.' + name in prog.mods or untracked(prog, m, name))


def untracked(prog, m, name):
    """packages that hold no analysed module: the generated bindings and the examples"""
    import os
    d = os.path.dirname(m.path)
    return name == 'raw' or os.path.exists(os.path.join(d, name)) or os.path.exists(os.path.join(d, name + '.py'))


class Sig(object):
    """what a function can be called with"""
    def __init__(self, fn, skip=0):
        a = fn.node.args if isinstance(fn, Func) else fn.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        req = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
        self.pos, self.required = ps[skip:], [x for x in req if x in ps[skip:]]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.required += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.star, self.kw = a.vararg is not None, a.kwarg is not None

    def refuses(self, call):
        """why the call does not fit, or None"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        kws = [k.arg for k in call.keywords]
        dstar = None in kws
        kws = [k for k in kws if k]
        npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if npos > len(self.pos) and not self.star:
            return 'takes %d positional arguments, is given %d' % (len(self.pos), npos)
        for k in kws:
            if k not in self.pos and k not in self.kwonly and not self.kw:
                return 'has no parameter %s' % k
            if k in self.pos[:npos]:
                return 'is given %s twice' % k
        if not star and not dstar:
            given = set(self.pos[:npos]) | set(kws)
            miss = [x for x in self.required if x not in given]
            if miss:
                return 'is not given %s' % ', '.join(miss)
        return None


def plain(fn):
    """no decorator changes what the function takes"""
    return all(deco(d) in ('staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod', 'property') for d in fn.node.decorator_list)


def deco(d):
    try:
        return ast.unparse(d)
    except Exception:
        return ''


def skips(fn, bound_call=True):
    return 0 if fn.kind == 'static' or 'staticmethod' in map(deco, fn.node.decorator_list) or not bound_call else 1


def constructor(prog, c):
    """(function, is known) that takes the arguments of the class"""
    for k in prog.mro(c):
        if isinstance(k, Cls):
            for n in ('__new__', '__init__'):
                if n in k.methods:
                    return k.methods[n]
        elif k != 'ext:object':
            return None
    return None


def closed(prog, c):
    """all classes the class is made of are known"""
    return all(isinstance(k, Cls) or k in ('ext:object',) for k in prog.mro(c))


def enclosing(prog, m, cls):
    return next((c for c in prog.classes if c.mod is m and c.node is cls), None)


def targets(ctx, m, scope, outer, cls, call):
    """functions the call may reach: [(function, parameters that are given implicitly)]"""
    f, prog = call.func, ctx.prog
    vis = visible(scope, outer) if outer else set()
    if isinstance(f, ast.Name):
        if f.id in vis:
            return []
        t = prog.resolve(m, f.id)
        if isinstance(t, Func):
            return [(t, 0)]
        if isinstance(t, Cls):
            k = constructor(prog, t)
            return [(k, 1)] if k else []
        return []
    if not isinstance(f, ast.Attribute):
        return []
    c = enclosing(prog, m, cls) if cls is not None else None
    v = f.value
    if isinstance(v, ast.Name) and c is not None and method_of(scope, outer) is not None and v.id == first(method_of(scope, outer)) and v.id not in rebound(
            method_of(scope, outer)):
        out = []
        for d in [c] + prog.subclasses(c):
            t = prog.find_method(d, f.attr)
            if t is not None and known_before(prog, d, t.cls):
                out.append((t, skips(t)))
        return list(dict.fromkeys(out))
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and c is not None:
        out = []
        if v.args:
            c = prog.resolve_expr(m, v.args[0]) or c
        if not isinstance(c, Cls):
            return []
        for d in [c] + prog.subclasses(c):
            t = prog.find_method(d, f.attr, after=c)
            if t is not None and known_before(prog, d, t.cls, c):
                out.append((t, 0 if f.attr == '__new__' else skips(t)))
        return list(dict.fromkeys(out))
    root = v
    while isinstance(root, ast.Attribute):
        root = root.value
    if isinstance(root, ast.Name) and root.id not in vis:
        t = prog.resolve_expr(m, v)
        if isinstance(t, Mod):
            t = prog.resolve(t, f.attr)
            if isinstance(t, Func):
                return [(t, 0)]
            if isinstance(t, Cls):
                k = constructor(prog, t)
                return [(k, 1)] if k else []
        elif isinstance(t, Cls):
            k = prog.find_method(t, f.attr)
            if k is not None and known_before(prog, t, k.cls):
                return [(k, skips(k) if 'classmethod' in map(deco, k.node.decorator_list) or k.kind == 'class' else 0)]
    return []


def known_before(prog, d, cls, after=None):
    """no unknown class comes before cls among those d is made of"""
    mro = prog.mro(d)
    if after in mro:
        mro = mro[mro.index(after) + 1:]
    for k in mro:
        if k is cls:
            return True
        if not isinstance(k, Cls) and k != 'ext:object':
            return True     # external bases of the toolkit do not define its methods
    return False


def method_of(scope, outer):
    for s in [scope] + outer[::-1]:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            i = outer.index(s) if s in outer else len(outer)
            up = outer[i - 1] if i else None
            if isinstance(up, ast.ClassDef) and 'staticmethod' not in map(deco, s.decorator_list):
                return s
    return None


def first(fn):
    a = fn.args.posonlyargs + fn.args.args
    return a[0].arg if a else None


def rebound(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


# errors of PyXB the toolkit raises, with the number of arguments they take
LIBRARY_CALLS = {'SimpleTypeValueError': (2, 3), 'ComplexTypeValidationError': (0, 99)}


def library_call(ctx, m, vis, call):
    f = call.func
    root = f
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name) or root.id in vis:
        return None
    t = ctx.prog.resolve_expr(m, f)
    n = t[1].rpartition('.')[2] if isinstance(t, tuple) and t[0] == 'ext' and t[1].startswith('pyxb') else None
    return n if n in LIBRARY_CALLS else None


@check('C22')
def calls(ctx):
    """what is called takes the arguments it is given"""
    n = 0
    for m in ctx.prog.mods.values():
        if tests(m):
            continue
        for scope, outer, cls in walk_scopes(m):
            body = scope.body if isinstance(getattr(scope, 'body', None), list) else [scope.body] if isinstance(scope, ast.Lambda) else scope
            for x in own(body):
                if not isinstance(x, ast.Call):
                    continue
                lib = library_call(ctx, m, visible(scope, outer) if outer else set(), x)
                if lib:
                    n += 1
                    lo, hi = LIBRARY_CALLS[lib]
                    k = len(x.args) + len(x.keywords)
                    loose = any(isinstance(y, ast.Starred) for y in x.args) or any(y.arg is None for y in x.keywords)
                    ctx.expect(loose or lo <= k <= hi, 'calls', '%s/%s' % (place(m, outer, scope), ast.unparse(x.func)),
                               '%s takes %d to %d arguments, is given %d (line %d)' % (lib, lo, hi, k, x.lineno), m)
                for fn, skip in targets(ctx, m, scope, outer, cls, x):
                    if not plain(fn):
                        continue
                    n += 1
                    why = Sig(fn, skip).refuses(x)
                    ctx.expect(why is None, 'calls', '%s/%s' % (place(m, outer, scope), ast.unparse(x.func)), '%s %s (line %d)' % (
                        fn.qualname.partition('.')[2], why, x.lineno), m)
    ctx.some(n > 500, 'calls', 'checked', 'only %d calls found' % n, None)


@check('C22')
def shared(ctx):
    """a call on an object of unknown class fits at least one method of that name"""
    by = {}
    for c in ctx.prog.classes:
        if not tests(c.mod):
            for k, f in c.methods.items():
                by.setdefault(k, []).append(f)
            for k in list(c.attrs) + list(c.props):
                by.setdefault(k, []).append(None)
    n = 0
    for m in ctx.prog.mods.values():
        if tests(m):
            continue
        for scope, outer, cls in walk_scopes(m):
            body = scope.body if isinstance(getattr(scope, 'body', None), list) else [scope.body] if isinstance(scope, ast.Lambda) else scope
            for x in own(body):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and '_' in x.func.attr.strip('_') and by.get(x.func.attr) and \
                        None not in by[x.func.attr] and all(plain(f) for f in by[x.func.attr]) and not targets(ctx, m, scope, outer, cls, x):
                    n += 1
                    why = [Sig(f, s).refuses(x) for f in by[x.func.attr] for s in {skips(f), skips(f)}]
                    ctx.expect(None in why, 'shared', '%s/%s' % (place(m, outer, scope), ast.unparse(x.func)), 'no method %s fits: it %s (line %d)' % (
                        x.func.attr, why[0], x.lineno), m)
    ctx.some(n > 100, 'shared', 'checked', 'only %d calls found' % n, None)


def assigned(prog, c):
    """attributes the methods of a class give to their object, or None if that is not known"""
    out = set()
    for f in list(c.methods.values()) + [x for p in c.props.values() for x in (p.getter, p.setter, p.deleter) if x is not None]:
        me = first(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(
                    n.args[0], ast.Name) and n.args[0].id == me:
                if not isinstance(n.args[1], ast.Constant):
                    return None
                out.add(n.args[1].value)
            if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return None
    if '__getattr__' in c.methods or '__getattribute__' in c.methods:
        return None
    return out


LIBRARY = {'ext:Exception': dir(Exception) + ['message'], 'ext:TypeError': dir(TypeError) + ['message'], 'ext:collections.deque': dir(collections.deque),
           'ext:threading.Thread': dir(threading.Thread), 'ext:abc.ABCMeta': dir(abc.ABCMeta), 'ext:type': dir(type), 'ext:tuple': dir(tuple), 'ext:dict': dir(dict),
           'ext:list': dir(list), 'ext:str': dir(str), 'ext:ValueError': dir(ValueError) + ['message']}
# what the toolkit defines is in snake case; of the libraries it builds classes on only this has such names
SNAKE = re.compile(r'_{0,2}[a-z0-9]+(_[a-z0-9]+)+$')
FOREIGN = {'required_config', 'get_required_config'}
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__mro__', '__bases__', '__subclasses__'}


def mangle(c, name):
    return '_%s%s' % (c.name.lstrip('_'), name) if name.startswith('__') and not name.endswith('__') else name


def defined(ctx, c):
    """(attributes objects of the class or of one of its subclasses may have, whether these are all)"""
    prog = ctx.prog
    rel, whole = [], True
    out = set(OBJECT)
    for d in [c] + prog.subclasses(c):
        for k in prog.mro(d):
            if isinstance(k, Cls):
                if k not in rel:
                    rel.append(k)
            elif k in LIBRARY:
                out |= set(LIBRARY[k])
            elif k != 'ext:object':
                if not k.startswith(('ext:raw', 'ext:configman', 'ext:ebuttdt_raw', 'ext:pyxb')):
                    return None, False
                whole = False
    for k in rel:
        own_attrs = assigned(prog, k)
        if own_attrs is None:
            # attributes are set by name: any name of the toolkit may be meant
            out |= everywhere(ctx)
            whole, own_attrs = False, ()
        out |= {mangle(k, x) for x in own_attrs}
        out |= {mangle(k, x) for x in list(k.methods) + list(k.props) + list(k.attrs) + list(k.inner)}
        out |= {mangle(k, x) for x in bound(k.node)[0]}
    return out, whole


def everywhere(ctx):
    """all names the toolkit defines or has as a text"""
    out = ctx.__dict__.get('_everywhere')
    if out is None:
        out = ctx._everywhere = set()
        for m in ctx.prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)
                elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    out.add(n.attr)
        for c in ctx.prog.classes:
            out |= bound(c.node)[0]
    return out


@check('C22')
def attributes(ctx):
    """an object reads of itself only attributes that are defined"""
    n = 0
    for c in ctx.prog.classes:
        if tests(c.mod):
            continue
        have, whole = defined(ctx, c)
        if have is None:
            continue
        for f in list(c.methods.values()) + [x for p in c.props.values() for x in (p.getter, p.setter, p.deleter) if x is not None]:
            me = first(f.node)
            if me is None or f.kind == 'static' or 'staticmethod' in map(deco, f.node.decorator_list) or me in rebound(f.node):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    if not whole and (not SNAKE.match(x.attr) or x.attr in FOREIGN):
                        continue
                    n += 1
                    ctx.expect(mangle(c, x.attr) in have, 'attributes', '%s.%s/%s' % (c.name, f.name, x.attr), 'objects of %s have no %s (line %d)' % (
                        c.name, x.attr, x.lineno), f)
    ctx.some(n > 300, 'attributes', 'read', 'only %d attributes found' % n, None)


@check('C22')
def formats(ctx):
    """templates are given every field they have"""
    n = 0
    for m in ctx.prog.mods.values():
        if tests(m):
            continue
        for scope, outer, cls in walk_scopes(m):
            vis = visible(scope, outer) if outer else set()
            body = scope.body if isinstance(getattr(scope, 'body', None), list) else [scope.body] if isinstance(scope, ast.Lambda) else scope
            for x in own(body):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format':
                    t = template(ctx, m, vis, cls, x.func.value)
                    if t is None:
                        continue
                    n += 1
                    why = unfit(t, x)
                    ctx.expect(why is None, 'formats', '%s/%s' % (place(m, outer, scope), t[:40]), 'the text "%s" %s (line %d)' % (t[:60], why, x.lineno), m)
                elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
                    t = template(ctx, m, vis, cls, x.left)
                    if t is None:
                        continue
                    fields = re.findall(r'%(?:\((\w+)\))?[-#0 +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?([a-zA-Z%])', t)
                    fields = [f for f in fields if f[1] != '%']
                    named = [f[0] for f in fields if f[0]]
                    n += 1
                    why = None
                    if isinstance(x.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.right.elts) and not named:
                        if len(x.right.elts) != len(fields):
                            why = 'has %d fields, is given %d' % (len(fields), len(x.right.elts))
                    elif isinstance(x.right, ast.Dict) and all(isinstance(k, ast.Constant) for k in x.right.keys):
                        miss = set(named) - {k.value for k in x.right.keys}
                        why = 'is not given %s' % ', '.join(sorted(miss)) if miss else None
                    ctx.expect(why is None, 'formats', '%s/%s' % (place(m, outer, scope), t[:40]), 'the text "%s" %s (line %d)' % (t[:60], why, x.lineno), m)
    ctx.some(n > 60, 'formats', 'checked', 'only %d texts found' % n, None)


def template(ctx, m, vis, cls, node):
    """the constant text a term stands for"""
    if isinstance(node, ast.Constant):
        return node.value if isinstance(node.value, str) else None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = template(ctx, m, vis, cls, node.left), template(ctx, m, vis, cls, node.right)
        return None if a is None or b is None else a + b
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('_', 'gettext', 'ugettext') and len(node.args) == 1:
        return template(ctx, m, vis, cls, node.args[0])
    if isinstance(node, ast.Name) and node.id not in vis:
        r = ctx.prog.resolve(m, node.id)
    elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id not in vis:
        r = ctx.prog.resolve_expr(m, node.value)
        r = ctx.prog.resolve(r, node.attr) if isinstance(r, Mod) else None
    else:
        return None
    if isinstance(r, tuple) and r[0] == 'const' and r[2] not in r[1].multi:
        return template(ctx, r[1], set(), None, r[3])
    return None


def unfit(t, call):
    """why the fields of the template are not all given, or None"""
    try:
        fields = [f for _, f, spec, _ in string.Formatter().parse(t) if f is not None]
    except ValueError:
        return 'is no template'
    if any(isinstance(a, ast.Starred) for a in call.args):
        return None
    open_kw = any(k.arg is None for k in call.keywords)
    kws = {k.arg for k in call.keywords}
    auto = 0
    for f in fields:
        base = re.split(r'[.\[]', f)[0]
        if base == '':
            base, auto = str(auto), auto + 1
        if base.isdigit():
            if int(base) >= len(call.args):
                return 'is given %d values' % len(call.args)
        elif base not in kws and not open_kw:
            return 'is not given %s' % base
    return None


class Bound(object):
    """which local names are bound where, over all ways through a function"""
    def __init__(self, fn, names):
        self.names, self.bad = names, {}
        self.breaks, self.conts = [], []
        a = fn.args
        start = frozenset(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        self.block(fn.body, start)

    def read(self, node, st):
        """reads and bindings of an expression, in the order they happen as far as it matters"""
        if st is None or node is None:
            return st
        if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st       # runs later
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = st
            for g in node.generators:
                inner = self.read(g.iter, inner)
                inner = inner | {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    inner = self.read(c, inner)
            if isinstance(node, ast.DictComp):
                self.read(node.key, inner)
                self.read(node.value, inner)
            else:
                self.read(node.elt, inner)
            return st
        if isinstance(node, ast.BoolOp):
            first_ = self.read(node.values[0], st)
            s = first_
            for v in node.values[1:]:
                s = self.read(v, s)
            return first_
        if isinstance(node, ast.IfExp):
            s = self.read(node.test, st)
            return self.read(node.body, s) & self.read(node.orelse, s)
        if isinstance(node, ast.Name):
            if isinstance(node.ctx, ast.Load) and node.id in self.names and node.id not in st:
                self.bad.setdefault(node.id, node.lineno)
            return st | {node.id} if isinstance(node.ctx, ast.Store) else st
        for c in ast.iter_child_nodes(node):
            st = self.read(c, st)
        return st

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a & b

    def bind(self, target, st):
        return st | {n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.read(s.value, st)
            for t in s.targets:
                st = self.read(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.names and s.target.id not in st:
                self.bad.setdefault(s.target.id, s.lineno)
            st = self.read(s.value, st)
            return self.read(s.target, st)
        if isinstance(s, ast.If):
            st = self.read(s.test, st)
            c = s.test.value if isinstance(s.test, ast.Constant) else None
            a = self.block(s.body, st) if c is not False else None
            b = self.block(s.orelse, st) if c is not True else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.read(s.iter, st)
            self.breaks.append([])
            self.conts.append([])
            end = self.block(s.body, self.read(s.target, st))
            self.conts.pop()
            out = self.block(s.orelse, st) if s.orelse else st
            for b in self.breaks.pop():
                out = self.join(out, b)
            return out
        if isinstance(s, ast.While):
            st = self.read(s.test, st)
            self.breaks.append([])
            self.conts.append([])
            self.block(s.body, st)
            self.conts.pop()
            always = isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = None if always else self.block(s.orelse, st)
            for b in self.breaks.pop():
                out = self.join(out, b)
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.breaks:
                (self.breaks if isinstance(s, ast.Break) else self.conts)[-1].append(st)
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                st = self.read(c, st)
            return None
        if isinstance(s, ast.Try):
            end = self.block(s.body, st)
            out = self.block(s.orelse, end) if end is not None else None
            for h in s.handlers:
                hs = st | ({h.name} if h.name else set())
                hs = self.read(h.type, hs)
                out = self.join(out, self.block(h.body, hs))
            if s.finalbody:
                fin = self.block(s.finalbody, st)
                if out is not None and fin is not None:
                    out = self.block(s.finalbody, out)
                elif fin is None:
                    out = None
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.read(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.read(d, st)
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(x.asname or x.name).split('.')[0] for x in s.names}
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = st - {t.id}
                else:
                    st = self.read(t, st)
            return st
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        return self.read(s, st)


def excluded(ctx, m, node, name):
    """the conditions on the way leave no way on which the name is not bound"""
    fn = next((f for f in ctx.prog.funcs if f.mod is m and f.node is node), None)
    if fn is None:
        return False
    w = ctx.walker(noexc=True, depth=0)
    w.watched = {name}
    ctx.account(w, list(w.run(fn, fn.cls)))
    return not w.unbound


@check('C22')
def locals_(ctx):
    """a local name is bound on every way to where it is read"""
    n = 0
    for m in ctx.prog.mods.values():
        if tests(m):
            continue
        for scope, outer, cls in walk_scopes(m):
            if isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n += 1
                b = Bound(scope, bound(scope)[0])
                for x, line in b.bad.items():
                    if excluded(ctx, m, scope, x):
                        continue
                    ctx.bad('locals', '%s/%s' % (place(m, outer, scope), x), '%s is read where it may not be set (line %d)' % (x, line), m)
                ctx.ok('locals', place(m, outer, scope))
    ctx.some(n > 300, 'locals', 'functions', 'only %d functions found' % n, None)
