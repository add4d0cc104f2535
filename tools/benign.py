#!/usr/bin/env python3
"""benign.py [TRANSFORMATION+..,..] [PID,..] [FILE-REGEX]: apply edits that keep the behaviour to every function of the repository (in
memory, nothing is executed) and list the checks that raise an alarm or give no answer on them."""
import ast, copy, os, re, sys, warnings
warnings.simplefilter('ignore'); sys.setrecursionlimit(10000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core
from sa.rules import load_all
load_all()


def ends(body):
    return isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Blocks(ast.NodeTransformer):
    """rewrites every statement list inside functions with block()"""
    def __init__(self):
        self.n = 0
        self.fn = None

    def fresh(self, base):
        self.n += 1
        return '_%s_%d' % (base, self.n)

    def visit_FunctionDef(self, node):
        old, self.fn = self.fn, node
        self.generic_visit(node)
        node = self.function(node)
        self.fn = old
        return node

    def function(self, node):
        return node

    def block(self, body):
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.fn is not None and not isinstance(node, ast.ClassDef):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        return node


def name(n):
    return ast.Name(n, ast.Load())


def assign(n, v):
    return ast.Assign([ast.Name(n, ast.Store())], v)


class IfVar(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If):
                n = self.fresh('cond')
                out.append(assign(n, s.test))
                s.test = name(n)
            out.append(s)
        return out


class Invert(Blocks):
    def block(self, body):
        for s in body:
            if isinstance(s, ast.If) and s.orelse:
                s.test = ast.UnaryOp(ast.Not(), s.test)
                s.body, s.orelse = s.orelse, s.body
        return body


class RetVar(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None:
                n = self.fresh('result')
                out.append(assign(n, s.value))
                s.value = name(n)
            out.append(s)
        return out


class DropElse(Blocks):
    def block(self, body):
        out = []
        for s in body:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                out.extend(s.orelse)
                s.orelse = []
        return out


class AddElse(Blocks):
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body


class Rename(Blocks):
    def function(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global)) for b in node.body for x in ast.walk(b)):
            return node
        mine = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        a = node.args
        mine -= {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in mine:
                    x.id = x.id + '_x'
                elif isinstance(x, ast.ExceptHandler) and x.name in mine:
                    x.name = x.name + '_x'
        return node


class ArgVars(Blocks):
    def block(self, body):
        out = []
        for s in body:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
            if isinstance(c, ast.Call) and not any(isinstance(x, (ast.Yield, ast.Lambda)) for x in ast.walk(c)) and not isinstance(
                    c.func, ast.Name) or isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id != 'super':
                for k, a in enumerate(c.args):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute)):
                        n = self.fresh('arg')
                        out.append(assign(n, a))
                        c.args[k] = name(n)
                for k in c.keywords:
                    if k.arg and isinstance(k.value, (ast.Call, ast.BinOp, ast.Attribute)):
                        n = self.fresh('arg')
                        out.append(assign(n, k.value))
                        k.value = name(n)
            out.append(s)
        return out


class Impl(ast.NodeTransformer):
    """methods hand their work to a helper method"""
    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and s.args.args[0].arg == 'self' and \
                    not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and not s.name.startswith('__') and \
                    not s.args.vararg and not (len(s.body) == 1 and isinstance(s.body[0], ast.Pass)):
                h = copy.deepcopy(s)
                h.name = '_do_%s_%s' % (c.name.strip('_').lower(), s.name.strip('_'))
                doc = isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant)
                call = ast.Call(ast.Attribute(name('self'), h.name, ast.Load()), [name(a.arg) for a in s.args.args[1:]],
                                [ast.keyword(None, name(s.args.kwarg.arg))] if s.args.kwarg else [])
                s.body = (s.body[:1] if doc else []) + [ast.Return(call)]
                h.args.defaults = []
                out.append(h)
        c.body = out
        for s in c.body:
            if isinstance(s, ast.ClassDef):
                self.visit(s)
        return c


class Flip(ast.NodeTransformer):
    SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.SWAP and not any(isinstance(x, ast.Call) for x in ast.walk(c)):
            return ast.Compare(c.comparators[0], [self.SWAP[type(c.ops[0])]()], [c.left])
        return c


class NotIs(ast.NodeTransformer):
    POS = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.POS and not isinstance(c.ops[0], ast.NotEq):
            return ast.UnaryOp(ast.Not(), ast.Compare(c.left, [self.POS[type(c.ops[0])]()], c.comparators))
        return c


class NestIf(Blocks):
    def block(self, body):
        for s in body:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                vs = s.test.values
                inner = s.body
                for v in reversed(vs[1:]):
                    inner = [ast.If(v, inner, [])]
                s.test, s.body = vs[0], inner
        return body


class DeMorgan(Blocks):
    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp):
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s


class IfExp(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                e = s.value
                s = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
            out.append(s)
        return out


class CompLoop(Blocks):
    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.ListComp) and len(v.generators) == 1:
                g = v.generators[0]
                n = self.fresh('items')
                out.append(assign(n, ast.List([], ast.Load())))
                add = [ast.Expr(ast.Call(ast.Attribute(name(n), 'append', ast.Load()), [v.elt], []))]
                for t in reversed(g.ifs):
                    add = [ast.If(t, add, [])]
                out.append(ast.For(g.target, g.iter, add, []))
                s.value = name(n)
            out.append(s)
        return out


class OverList(Blocks):
    """what a loop goes through is named first"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                n = self.fresh('all')
                out.append(assign(n, s.iter))
                s.iter = name(n)
            out.append(s)
        return out


class NoOp(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if not out or not isinstance(s, ast.Expr) or not isinstance(s.value, ast.Constant):
                pass
            out.append(s)
        doc = isinstance(out[0], ast.Expr) and isinstance(out[0].value, ast.Constant)
        out.insert(1 if doc else 0, assign(self.fresh('unused'), ast.Constant(None)))
        return out


class ExtractIf(Blocks):
    """the condition of an if becomes a helper method"""
    def visit_ClassDef(self, c):
        extra = []
        for s in list(c.body):
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or not s.args.args or s.args.args[0].arg != 'self' or \
                    s.name.startswith('__'):
                continue
            known = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            a = s.args
            known |= {x.arg for x in a.args[1:] + [y for y in (a.vararg, a.kwarg) if y]}
            for x in ast.walk(s):
                if isinstance(x, ast.If) and not isinstance(x.test, (ast.Name, ast.Constant)) and not any(
                        isinstance(y, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for y in ast.walk(x.test)):
                    used = sorted({y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)} & known)
                    n = self.fresh('holds_%s' % s.name.strip('_'))
                    extra.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(z) for z in ['self'] + used], None, [], [], None, []),
                                                 [ast.Return(x.test)], []))
                    x.test = ast.Call(ast.Attribute(name('self'), n, ast.Load()), [name(z) for z in used], [])
        c.body.extend(extra)
        return c


class ExtractLoop(Blocks):
    """the body of a loop that binds nothing becomes a helper method"""
    def visit_ClassDef(self, c):
        extra = []
        for s in list(c.body):
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or not s.args.args or s.args.args[0].arg != 'self' or \
                    s.name.startswith('__'):
                continue
            known = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            a = s.args
            known |= {x.arg for x in a.args[1:] + [y for y in (a.vararg, a.kwarg) if y]}
            for x in ast.walk(s):
                if isinstance(x, (ast.For, ast.If)) and len(x.body) > 0 and not any(
                        isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Lambda, ast.ListComp, ast.GeneratorExp)) or
                        isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load) or isinstance(y, ast.ExceptHandler)
                        for b in x.body for y in ast.walk(b)) and not all(isinstance(b, (ast.Pass, ast.Raise)) for b in x.body):
                    used = sorted({y.id for b in x.body for y in ast.walk(b) if isinstance(y, ast.Name)} & known)
                    n = self.fresh('each_%s' % s.name.strip('_'))
                    extra.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(z) for z in ['self'] + used], None, [], [], None, []),
                                                 x.body, []))
                    x.body = [ast.Expr(ast.Call(ast.Attribute(name('self'), n, ast.Load()), [name(z) for z in used], []))]
        c.body.extend(extra)
        return c


class Recv(Blocks):
    """the object a method is called on is named first"""
    def block(self, body):
        out = []
        for s in body:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute):
                n = self.fresh('target')
                out.append(assign(n, c.func.value))
                c.func.value = name(n)
            out.append(s)
        return out


class IsInst(ast.NodeTransformer):
    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Name) and c.func.id == 'isinstance' and len(c.args) == 2 and isinstance(c.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(name('isinstance'), [copy.deepcopy(c.args[0]), t], []) for t in c.args[1].elts])
        return c


class KwOrder(ast.NodeTransformer):
    def visit_Call(self, c):
        self.generic_visit(c)
        if len(c.keywords) > 1 and all(k.arg for k in c.keywords):
            c.keywords.reverse()
        return c


class Guard(Blocks):
    """an if that ends a function or a loop body becomes a guard"""
    def tail(self, body, leave):
        s = body[-1]
        if isinstance(s, ast.If) and not s.orelse and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(s)) and len(s.body) > 0:
            return body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [leave], [])] + s.body
        return body

    def function(self, node):
        node.body = self.tail(node.body, ast.Return(None))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body = self.tail(node.body, ast.Continue())
        return node

    visit_While = visit_For


class BoolRet(Blocks):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare) and len(s.value.ops) == 1:
                out.append(ast.If(s.value, [ast.Return(ast.Constant(True))], []))
                s = ast.Return(ast.Constant(False))
            out.append(s)
        return out


class GenExp(ast.NodeTransformer):
    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Name) and c.func.id in ('any', 'all', 'sum', 'min', 'max', 'sorted', 'set') and len(c.args) == 1:
            if isinstance(c.args[0], ast.ListComp):
                c.args[0] = ast.GeneratorExp(c.args[0].elt, c.args[0].generators)
            elif isinstance(c.args[0], ast.GeneratorExp):
                c.args[0] = ast.ListComp(c.args[0].elt, c.args[0].generators)
        return c


class LoopComp(Blocks):
    """any(...) of a comprehension as a loop"""
    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('any', 'all') and len(v.args) == 1 and \
                    isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and len(v.args[0].generators) == 1:
                g, pos = v.args[0].generators[0], v.func.id == 'any'
                n = self.fresh('found')
                out.append(assign(n, ast.Constant(not pos)))
                test = v.args[0].elt if pos else ast.UnaryOp(ast.Not(), v.args[0].elt)
                b = [ast.If(test, [assign(n, ast.Constant(pos)), ast.Break()], [])]
                for t in reversed(g.ifs):
                    b = [ast.If(t, b, [])]
                if any(isinstance(x, ast.If) for x in b[0].body):
                    out.pop()
                    out.append(s)
                    continue
                out.append(ast.For(g.target, g.iter, b, []))
                s.value = name(n)
            out.append(s)
        return out


class Swap(Blocks):
    """neighbouring assignments of plain values trade places"""
    @staticmethod
    def plain(s):
        if not isinstance(s, ast.Assign) or len(s.targets) != 1:
            return None
        t, v = s.targets[0], s.value
        if any(isinstance(x, (ast.Call, ast.Subscript, ast.Lambda, ast.ListComp, ast.Await)) for x in ast.walk(s)):
            return None
        if isinstance(t, ast.Name):
            key = t.id
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr.startswith('_'):
            key = 'self.' + t.attr
        else:
            return None
        reads = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} | {ast.unparse(x) for x in ast.walk(v) if isinstance(x, ast.Attribute)}
        return key, reads, any(isinstance(x, ast.Attribute) for x in ast.walk(v))

    def block(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = self.plain(body[i]), self.plain(body[i + 1])
            if a and b and a[0] != b[0] and a[0] not in b[1] and b[0] not in a[1] and not (
                    a[0].startswith('self.') and b[2] or b[0].startswith('self.') and a[2]):
                body[i], body[i + 1] = body[i + 1], body[i]
                i += 1
            i += 1
        return body


class Extend(Blocks):
    def visit_Expr(self, s):
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and len(c.args) == 1 and \
                isinstance(c.func.value, ast.Name):
            c.func.attr = 'extend'
            c.args = [ast.List(c.args, ast.Load())]
        return s


class DictCall(ast.NodeTransformer):
    def visit_Dict(self, d):
        self.generic_visit(d)
        if d.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in d.keys):
            return ast.Call(name('dict'), [], [ast.keyword(k.value, v) for k, v in zip(d.keys, d.values)])
        return d


class Percent(ast.NodeTransformer):
    """format() of plain fields as the % operator"""
    def visit_Call(self, c):
        self.generic_visit(c)
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'format' and isinstance(c.func.value, ast.Constant) and \
                isinstance(c.func.value.value, str) and not c.keywords and c.args and not any(isinstance(a, ast.Starred) for a in c.args):
            t = c.func.value.value
            if t.count('{}') == len(c.args) and t.replace('{}', '').count('{') == 0 and '%' not in t:
                return ast.BinOp(ast.Constant(t.replace('{}', '%s')), ast.Mod(), ast.Tuple(c.args, ast.Load()))
        return c


def sure(body):
    """names certainly bound after the statements"""
    out = set()
    for s in body:
        if isinstance(s, ast.If):
            arms = [sure(b) for b in (s.body, s.orelse) if not (b and ends(b))]
            out |= set.intersection(*arms) if arms else set()
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.With)):
            out |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.Try):
            out |= sure(s.finalbody)
            if all(ends(h.body) for h in s.handlers):
                out |= sure(s.body) | sure(s.orelse)
    return out


def names(body, ctx):
    return {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


class Pieces(ast.NodeTransformer):
    """base: moves statements of methods and functions to helpers"""
    def __init__(self):
        self.n = 0

    def home(self, owner, cls):
        extra = []
        for s in list(owner.body):
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.name.startswith('__') or \
                    any(isinstance(x, (ast.Yield, ast.Delete, ast.Global)) for x in ast.walk(s)):
                continue
            a = s.args
            if cls and not (a.args and a.args[0].arg == 'self'):
                continue
            params = {x.arg for x in a.args[1 if cls else 0:] + [y for y in (a.vararg, a.kwarg) if y]}
            self.where, self.cls, self.extra = s, cls, extra
            self.piece(s, params)
        owner.body.extend(extra)
        return owner

    def helper(self, body, used):
        self.n += 1
        n = '_%s_part_%d' % (self.where.name.strip('_'), self.n)
        used = sorted(used)
        self.extra.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(z) for z in (['self'] if self.cls else []) + used], None, [], [], None, []), body, []))
        return ast.Call(ast.Attribute(name('self'), n, ast.Load()) if self.cls else name(n), [name(z) for z in used], [])

    def visit_ClassDef(self, c):
        return self.home(c, True)

    def visit_Module(self, m):
        self.generic_visit(m)
        return self.home(m, False)


class Tail(Pieces):
    """the second part of a body becomes a helper"""
    share = 2

    def piece(self, s, params):
        doc = 1 if ast.get_docstring(s) is not None else 0
        body = s.body
        for k in sorted(range(doc + 1, len(body) - 1), key=lambda k: abs(k - (doc + (len(body) - doc) // self.share))):
            bound = params | sure(body[:k])
            maybe = names(body[:k], ast.Store) | params
            used = names(body[k:], ast.Load) & maybe
            if used <= bound and not (maybe - bound) & names(body[k:], ast.Store):
                s.body = body[:k] + [ast.Return(self.helper(body[k:], used))]
                return


class Late(Tail):
    """the last two statements of a body become a helper"""
    share = 1


class Head(Pieces):
    """the first part of a body becomes a helper that returns what the rest needs"""
    def piece(self, s, params):
        doc = 1 if ast.get_docstring(s) is not None else 0
        body = s.body
        for k in sorted(range(doc + 1, len(body)), key=lambda k: abs(k - (doc + (len(body) - doc) // 2))):
            part = body[doc:k]
            if any(isinstance(x, ast.Return) for b in part for x in ast.walk(b)):
                continue
            out = names(part, ast.Store) & names(body[k:], ast.Load)
            if len(out) > 2 or not out <= sure(part) | params or all(isinstance(b, ast.Assign) for b in part) and len(part) == 1:
                continue
            used = names(part, ast.Load) & params | out & params
            call = self.helper(part + ([ast.Return(name(list(out)[0]) if len(out) == 1 else ast.Tuple([name(z) for z in sorted(out)], ast.Load()))]
                                       if out else []), used)
            if not out:
                first = ast.Expr(call)
            elif len(out) == 1:
                first = assign(list(out)[0], call)
            else:
                first = ast.Assign([ast.Tuple([ast.Name(z, ast.Store()) for z in sorted(out)], ast.Store())], call)
            s.body = body[:doc] + [first] + body[k:]
            return


class LoopOut(Pieces):
    """a loop, with the statement before it when it sets what the loop changes, becomes a helper that returns the result"""
    def piece(self, s, params):
        def walk(body, known):
            for i, x in enumerate(body):
                if isinstance(x, ast.For) and not any(isinstance(y, ast.Return) for y in ast.walk(x)):
                    start = i
                    if i and isinstance(body[i - 1], ast.Assign) and len(body[i - 1].targets) == 1 and isinstance(body[i - 1].targets[0], ast.Name):
                        start = i - 1
                    part = body[start:i + 1]
                    changed = names(part, ast.Store)
                    after = [z for z in ast.walk(s) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load)]
                    inner = {id(z) for b in part for z in ast.walk(b)}
                    out = {z.id for z in after if id(z) not in inner} & changed
                    before = names(body[:start], ast.Store) | known
                    if len(out) > 1 or not out <= sure(part) | known or any(isinstance(y, (ast.Break, ast.Continue)) and False for y in ast.walk(x)):
                        continue
                    used = names(part, ast.Load) & (before | params) | out & (before | params)
                    if not used <= known | sure(body[:start]) | params:
                        continue
                    if start < i:
                        used -= {body[start].targets[0].id} - names([body[start].value], ast.Load)
                    call = self.helper(part + ([ast.Return(name(list(out)[0]))] if out else []), used)
                    body[start:i + 1] = [assign(list(out)[0], call) if out else ast.Expr(call)]
                    return True
                for f in ('body', 'orelse'):
                    b = getattr(x, f, None)
                    if isinstance(b, list) and b and isinstance(x, (ast.If, ast.With, ast.Try)) and walk(b, known | sure(body[:i])):
                        return True
            return False
        walk(s.body, set(params))


class Const(ast.NodeTransformer):
    """strings used in functions become constants of the module"""
    def visit_Module(self, m):
        found = {}
        doc = {id(n.body[0].value) for n in ast.walk(m) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and
               isinstance(n.body[0], ast.Expr)}

        class C(ast.NodeTransformer):
            def visit_Constant(self, c):
                if isinstance(c.value, str) and len(c.value) > 1 and id(c) not in doc:
                    return name(found.setdefault(c.value, 'TEXT_%d' % (len(found) + 1)))
                return c

            def visit_JoinedStr(self, c):
                return c
        for n in ast.walk(m):
            if isinstance(n, ast.FunctionDef):
                n.body = [C().visit(b) for b in n.body]
        k = 0
        while k < len(m.body) and (isinstance(m.body[k], (ast.Import, ast.ImportFrom)) or isinstance(m.body[k], ast.Expr)):
            k += 1
        m.body[k:k] = [assign(n, ast.Constant(v)) for v, n in found.items()]
        return m


class Enumerate(Blocks):
    """for x in xs -> for i, x in enumerate(xs)"""
    def block(self, body):
        for s in body:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                s.target = ast.Tuple([ast.Name(self.fresh('pos'), ast.Store()), s.target], ast.Store())
                s.iter = ast.Call(name('enumerate'), [s.iter], [])
        return body


class Items(ast.NodeTransformer):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('items', 'iteritems') and \
                isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and not c.args:
            k, v = n.target.elts
            n.target, n.iter = k, c.func.value
            n.body.insert(0, ast.Assign([v], ast.Subscript(c.func.value, name(k.id), ast.Load())))
        return n


class Hoist(Blocks):
    """an attribute of self that a method only reads, is read once at its start when its first statement reads it"""
    def function(self, node):
        if node.decorator_list or not node.args.args or node.args.args[0].arg != 'self' or node.name.startswith('__') or any(
                isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Yield, ast.Delete, ast.For, ast.While)) or
                isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) or isinstance(x, ast.Call)
                for b in node.body for x in ast.walk(b)):
            return node
        d = 1 if ast.get_docstring(node) is not None else 0
        if len(node.body) <= d or not isinstance(node.body[d], (ast.If, ast.Return)):
            return node
        first = node.body[d].test if isinstance(node.body[d], ast.If) else node.body[d].value
        while isinstance(first, (ast.BoolOp, ast.Compare, ast.UnaryOp)):
            first = first.values[0] if isinstance(first, ast.BoolOp) else first.left if isinstance(first, ast.Compare) else first.operand
        if not (isinstance(first, ast.Attribute) and isinstance(first.value, ast.Name) and first.value.id == 'self'):
            return node
        n, a = self.fresh('value'), first.attr

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                return name(n) if x.attr == a and isinstance(x.value, ast.Name) and x.value.id == 'self' else x
        rest = [R().visit(b) for b in node.body[d:]]
        node.body = node.body[:d] + [assign(n, ast.Attribute(name('self'), a, ast.Load()))] + rest
        return node


class EmptyTest(ast.NodeTransformer):
    """len(x) == 0 -> not len(x); x > y -> not (x <= y) stays out because of None"""
    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.left, ast.Call) and isinstance(c.left.func, ast.Name) and c.left.func.id == 'len' and \
                isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value == 0:
            if isinstance(c.ops[0], ast.Eq):
                return ast.UnaryOp(ast.Not(), c.left)
            if isinstance(c.ops[0], ast.Gt):
                return ast.Compare(c.left, [ast.GtE()], [ast.Constant(1)])
        return c


class Private(ast.NodeTransformer):
    """private methods and attributes get other names when only one module uses them"""
    NAMES = None

    @classmethod
    def prepare(cls, prog):
        import builtins
        defs, text, where = set(), set(), {}
        for m in prog.mods.values():
            raw = '/raw/' in m.rel
            for n in ast.walk(m.tree):
                x = getattr(n, 'attr', None) or getattr(n, 'name', None) or getattr(n, 'id', None)
                where.setdefault(x, set()).add(m.rel)
                if isinstance(n, ast.FunctionDef) and re.match(r'_[a-z]', n.name):
                    (text if raw else defs).add(n.name)
                elif isinstance(n, ast.Attribute) and re.match(r'_[a-z]', n.attr):
                    if raw:
                        text.add(n.attr)
                    elif isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        defs.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    text.add(n.value)
        cls.NAMES = {d for d in defs - text if len(where[d]) == 1 and not d.startswith(('_pyxb', '_validate', '_set', '_reset', '_CT'))}

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.NAMES:
            n.attr += '_it'
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.NAMES:
            n.name += '_it'
        return n

    def visit_Name(self, n):
        if n.id in self.NAMES:
            n.id += '_it'
        return n


T = {k: v for k, v in globals().items() if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and k not in ('Blocks', 'Pieces')}


def variant(t, rx='.'):
    out = {}
    prog = core.Program()
    Private.prepare(prog)
    for m in prog.mods.values():
        if '/raw/' in m.rel or '/test' in m.rel or not re.search(rx, m.rel):
            continue
        tree = copy.deepcopy(m.tree)
        for part in t.split('+'):
            tree = ast.parse(ast.unparse(ast.fix_missing_locations(T[part]().visit(tree))))
        src = ast.unparse(tree)
        if src != ast.unparse(m.tree):
            out[m.rel] = src
    return out


def known():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    return {l.split('key=')[1].split(' |')[0] for l in open(p) if l.startswith('finding:')}


def one(a):
    t, pid, ov, k = a
    try:
        c = core.analyse(pid, overrides=ov)
    except Exception as e:
        return t, pid, ['ERROR %r' % e]
    return t, pid, ['%s: %s' % (v.key, v.message[:200]) for v in c.violations.values() if v.key not in k]


if __name__ == '__main__':
    import multiprocessing
    ts = sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] != 'all' else sorted(T)
    pids = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != 'all' else sorted(core.REGISTRY)
    rx = sys.argv[3] if len(sys.argv) > 3 else '.'
    k = known()
    jobs = []
    for t in ts:
        ov = variant(t, rx)
        print('#', t, len(ov), 'files', flush=True)
        jobs += [(t, pid, ov, k) for pid in pids]
    with multiprocessing.Pool(int(os.environ.get('JOBS', '3'))) as pool:
        for t, pid, vs in pool.imap(one, jobs):
            if vs:
                print(t, pid, len(vs), vs[:int(os.environ.get('SHOW', '2'))], flush=True)
