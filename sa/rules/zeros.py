# -*- coding: utf-8 -*-
"""C27: a time of zero is never taken for a missing time.

What holds a time is inferred over the whole package (what is built by timedelta or read from a time value, and what that is stored in,
passed to or returned from); likewise what may be None.  A truth test of what is both can not tell the two apart."""
import ast
import copy

from ..core import *
from .wellformed import tests

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
PASSING = {'min', 'max', 'abs', 'sum'}
GROWING = {'append', 'add', 'insert', 'setdefault'}


def called(e):
    f = e.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


def params(fn):
    return {a.arg for a in fn.args.args + fn.args.kwonlyargs}


def group(e):
    """dictionaries with names of the same last word (dataset, _semantic_dataset) are taken for the same one"""
    n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ''
    return n.strip('_').split('_')[-1]


def zero(e):
    """an expression that is the time zero"""
    return isinstance(e, ast.Call) and called(e) == 'timedelta' and all(
        isinstance(a, ast.Constant) and a.value == 0 for a in list(e.args) + [k.value for k in e.keywords])


class Facts(object):
    """where a property of values flows: attributes, what functions return, local names, keys of dictionaries, and elements of containers"""

    def __init__(self, world, seed, times=False):
        self.w, self.seed, self.times = world, seed, times
        self.vals, self.rets, self.items = set(), set(), set()

    @staticmethod
    def place(e, fn):
        if isinstance(e, ast.Name):
            return ('local', fn, e.id)
        if isinstance(e, ast.Attribute):
            return ('attribute', e.attr)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return ('key', group(e.value), e.slice.value)
        return None

    def has(self, e, fn):
        s = self.seed(e)
        if s is not None:
            return s
        p = self.place(e, fn)
        if p in self.vals or self.times and p and p[0] == 'key' and ('attribute', p[2]) in self.vals:
            return True     # what is kept under the name of a time is one
        if isinstance(e, ast.Call):
            n = called(e)
            if n in PASSING and isinstance(e.func, ast.Name):
                return any(self.has(a, fn) or self.elements(a, fn) for a in e.args)
            if n in ('get', 'pop') and isinstance(e.func, ast.Attribute):
                if e.args and isinstance(e.args[0], ast.Constant) and ('key', group(e.func.value), e.args[0].value) in self.vals:
                    return True
                return self.elements(e.func.value, fn)
            return n in self.rets and n in self.w.byname
        if isinstance(e, ast.Attribute):
            return e.attr in self.rets and e.attr in self.w.props
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            return self.has(e.left, fn) or self.has(e.right, fn)
        if isinstance(e, ast.IfExp):
            return self.has(e.body, fn) or self.has(e.orelse, fn)
        if isinstance(e, ast.BoolOp):
            # `x or y` is false only if y is
            return any(self.has(v, fn) for v in (e.values if self.times or isinstance(e.op, ast.And) else e.values[-1:]))
        if isinstance(e, ast.Subscript):
            return self.elements(e.value, fn)
        return False

    def elements(self, e, fn):
        if self.place(e, fn) in self.items:
            return True
        if isinstance(e, (ast.List, ast.Set, ast.Tuple)):
            return any(self.has(x, fn) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.has(e.elt, fn)
        if isinstance(e, ast.DictComp):
            return self.has(e.value, fn)
        if isinstance(e, ast.Call) and called(e) in ('sorted', 'list', 'set', 'tuple', 'reversed', 'filter', 'values'):
            return any(self.elements(a, fn) for a in e.args) or (
                called(e) == 'values' and isinstance(e.func, ast.Attribute) and self.elements(e.func.value, fn))
        return False

    def size(self):
        return (len(self.vals), len(self.rets), len(self.items))

    def local(self, fn, name):
        self.vals.add(('local', fn, name))

    def store(self, t, v, fn):
        p = self.place(t, fn)
        if p is not None:
            if self.has(v, fn):
                self.vals.add(p)
            elif self.times and p in self.vals and isinstance(t, ast.Attribute) and isinstance(v, ast.Name) and v.id in params(fn):
                self.local(fn, v.id)    # what is kept as a time is one
            if self.elements(v, fn):
                self.items.add(p)
            if isinstance(v, ast.Dict):
                self.entries(group(t), v, fn)
        elif isinstance(t, ast.Subscript):
            if self.has(v, fn):
                self.grow(t.value, fn)
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            for a, b in zip(t.elts, v.elts):
                self.store(a, b, fn)

    def entries(self, g, d, fn):
        for k, v in zip(d.keys, d.values):
            if isinstance(k, ast.Constant) and self.has(v, fn):
                self.vals.add(('key', g, k.value))

    def grow(self, t, fn):
        p = self.place(t, fn)
        if p is not None:
            self.items.add(p)

    def run(self):
        w = self.w
        while True:
            before = self.size()
            for m, fn in w.funcs:
                for n in w.nodes[fn]:
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            self.store(t, n.value, fn)
                    elif isinstance(n, ast.Return):
                        if self.has(n.value if n.value is not None else ast.Constant(None), fn):
                            self.rets.add(fn.name)
                        elif self.times and fn.name in w.props and ('attribute', fn.name) in self.vals and isinstance(n.value, ast.Attribute):
                            self.vals.add(self.place(n.value, fn))
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        if isinstance(n.target, ast.Name) and self.elements(n.iter, fn):
                            self.local(fn, n.target.id)
                    elif isinstance(n, ast.Compare) and self.times and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops):
                        # what is before or after a time is a time
                        es = [n.left] + n.comparators
                        if any(self.has(x, fn) for x in es):
                            self.vals |= {self.place(x, fn) for x in es} - {None}
                    elif isinstance(n, ast.Call):
                        self.call(n, fn)
            if self.size() == before:
                return self

    def call(self, n, fn):
        nm = called(n)
        if nm in GROWING and isinstance(n.func, ast.Attribute) and any(self.has(a, fn) for a in n.args):
            self.grow(n.func.value, fn)
        if nm == 'update' and isinstance(n.func, ast.Attribute):
            self.vals |= {('key', group(n.func.value), k.arg) for k in n.keywords if k.arg and self.has(k.value, fn)}
            for a in n.args:
                if isinstance(a, ast.Dict):
                    self.entries(group(n.func.value), a, fn)
        for g in self.w.byname.get(nm, []) + self.w.inits.get(nm, []):
            ps = [a.arg for a in g.args.args]
            for k in n.keywords:
                if k.arg in ps and self.has(k.value, fn):
                    self.local(g, k.arg)
            ps = ps[1:] if ps and ps[0] in ('self', 'cls') else ps
            for i, a in enumerate(n.args):
                if i < len(ps) and self.has(a, fn):
                    self.local(g, ps[i])


class World(object):
    def __init__(self, ctx):
        P = ctx.prog
        self.mods = [m for m in P.mods.values() if not tests(m)]
        self.funcs = [(m, n) for m in self.mods for n in ast.walk(m.tree) if isinstance(n, FUNCS)]
        self.byname, self.inits, self.props, self.nodes = {}, {}, set(), {}
        for m, f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
            if any(isinstance(d, ast.Name) and d.id == 'property' or isinstance(d, ast.Attribute) and d.attr in ('getter', 'abstractproperty')
                   for d in f.decorator_list):
                self.props.add(f.name)
            # what a lambda or a comprehension in the function does counts for the function
            self.nodes[f] = [n for s in f.body for n in within(s)]
        for c in P.classes:
            for n in ast.walk(c.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and called(n.value) == 'property' and isinstance(n.targets[0], ast.Name):
                    self.props.add(n.targets[0].id)
            k = P.find_method(c, '__init__')
            if k is not None:
                self.inits.setdefault(c.name, []).append(k.node)


def within(s):
    todo = [s]
    while todo:
        n = todo.pop()
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def time_seed(e):
    if isinstance(e, ast.Call) and called(e) == 'timedelta':
        return True
    if isinstance(e, ast.Attribute) and e.attr == 'timedelta':
        return not (isinstance(e.value, ast.Name) and e.value.id == 'datetime')
    return None


def none_seed(e):
    if isinstance(e, ast.Constant):
        return e.value is None
    if isinstance(e, ast.BinOp):
        return False
    return None


def falls_off(body):
    """the end of the statements may be reached"""
    if not body:
        return True
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return False
    if isinstance(s, ast.If):
        return falls_off(s.body) or falls_off(s.orelse)
    if isinstance(s, ast.Try):
        return (falls_off(s.orelse or s.body) or any(falls_off(h.body) for h in s.handlers)) and (not s.finalbody or falls_off(s.finalbody))
    if isinstance(s, ast.With):
        return falls_off(s.body)
    if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
        return any(isinstance(n, ast.Break) for n in ast.walk(s))
    return True


def tested(e):
    """the operands whose truth decides that of e"""
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from tested(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yield from tested(e.operand)
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
        yield from tested(e.args[0])
    else:
        yield e


def truth_tests(nodes):
    for n in nodes:
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            yield from tested(n.test)
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                yield from tested(c)
        elif isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values[:-1]):
                if isinstance(n.op, ast.Or) and zero(n.values[i + 1]):
                    continue        # x or zero: zero stays zero
                yield from tested(v)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield from tested(n.operand)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'bool' and len(n.args) == 1:
            yield from tested(n.args[0])


def owner(ctx, m, f):
    """class of a method, or the name of a function"""
    g = [x for x in ctx.prog.funcs if x.node is f]
    home = m.name.replace('ebu_tt_live.', '', 1)
    if home.startswith('scripts.'):
        return home                     # small enough
    return '%s:%s' % (home, g[0].cls.name if g and g[0].cls is not None else f.name)


def nameless(e):
    """an expression without the names of local variables"""
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id != 'self' and not isinstance(e, ast.Name):
            x.id = '_'
    return ast.unparse(e)


@check('C27')
def c27(ctx):
    ctx.rule('zero', 'no truth test is made of a value that is either a time or None: a time of zero is as false as None')
    ctx.rule('known', 'the values meant by begin, end, duration, availability and clock readings are recognised as times')
    w = World(ctx)
    times = Facts(w, time_seed, times=True).run()
    none = Facts(w, none_seed)
    for m, f in w.funcs:
        a = f.args
        for x, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and d.value is None:
                none.local(f, x.arg)
        abstract = all(isinstance(s, (ast.Raise, ast.Pass)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in f.body)
        if falls_off(f.body) and any(isinstance(n, ast.Return) and n.value is not None for n in w.nodes[f]) and not abstract:
            none.rets.add(f.name)
    for c in ctx.prog.classes:
        if tests(c.mod):
            continue
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
                none.vals |= {('attribute', t.id) for t in n.targets if isinstance(t, ast.Name)}
    none.run()
    shared = times.rets & none.rets & w.props
    both = (times.vals & none.vals) | (times.items & none.items)
    for name in ('availability_time', 'resolved_begin_time', 'resolved_end_time', 'computed_begin_time', 'computed_end_time'):
        ctx.expect(('attribute', name) in times.vals or name in times.rets, 'known', name, 'it is not known to hold a time', None)
    ctx.need(both and shared, 'values that are a time or None')
    for m, f in w.funcs:
        uses = [n for n in w.nodes[f] if times.place(n, f) in both or isinstance(n, ast.Attribute) and n.attr in shared]
        if not uses:
            continue
        ctx.functions |= {g.qualname for g in ctx.prog.funcs if g.node is f}
        where = '%s:%s' % (m.name.replace('ebu_tt_live.', '', 1), f.name)
        seen = set()
        for e in truth_tests(w.nodes[f]):
            if times.has(e, f) and none.has(e, f) and not isinstance(e, ast.BoolOp) and id(e) not in seen:
                seen.add(id(e))
                ctx.bad('zero', '%s/%s' % (owner(ctx, m, f), nameless(e)), 'a time of zero is taken for a missing one by the truth test of %s' % ast.unparse(e),
                        '%s:%s (%s)' % (m.rel, e.lineno, f.name))
        if not seen:
            ctx.ok('zero', where)
