# -*- coding: utf-8 -*-
"""Sensitivity of a check: the functions it analysed are mutated in memory (statement removed, condition negated or forced,
comparison, constant or argument changed) and the check is run again on each mutated source.  The result goes to the evidence
of the thorough tier; it never decides the verdict.  Nothing of the repository is executed."""
import ast
import copy
import multiprocessing
import os
import random
import time

from .load import Program, AnalysisError, _fix_py2


def mutants(prog, quals):
    """yield (rel, description, new source) for every function in quals"""
    for m in prog.mods.values():
        src_tree = None
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.FunctionDef):
                continue
            quals_here = [q for q in quals if q.endswith('.' + node.name) and q.startswith(m.name + '.')]
            if not quals_here:
                continue
            owner = _owner(m.tree, node)
            q = '.'.join([m.name] + owner + [node.name])
            if q not in quals:
                continue
            for desc, apply_, undo in _mutations(node):
                apply_()
                try:
                    src = ast.unparse(m.tree)
                finally:
                    undo()
                yield m.rel, '%s:%s %s' % ('.'.join(owner + [node.name]), desc[0], desc[1]), src


def _owner(tree, node):
    path = []

    def rec(n, acc):
        for c in ast.iter_child_nodes(n):
            if c is node:
                path.extend(acc)
                return True
            if rec(c, acc + [c.name] if isinstance(c, ast.ClassDef) else acc):
                return True
        return False
    rec(tree, [])
    return path


NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def _mutations(fn):
    def field(obj, name, new):
        old = getattr(obj, name)
        return (lambda: setattr(obj, name, new)), (lambda: setattr(obj, name, old))

    for n in ast.walk(fn):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for i, st in enumerate(b):
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Delete, ast.Continue,
                                   ast.Break)):
                    if isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or
                                                     ast.unparse(st).startswith(('log.', 'print('))):
                        continue
                    new = list(b)
                    new[i] = ast.copy_location(ast.Pass(), st)
                    a, u = field(n, fld, new)
                    yield (st.lineno, 'delete `%s`' % ast.unparse(st)[:60]), a, u
                    if i + 1 < len(b) and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(
                            b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                        new = list(b)
                        new[i], new[i + 1] = new[i + 1], new[i]
                        a, u = field(n, fld, new)
                        yield (st.lineno, 'swap `%s` with next' % ast.unparse(st)[:40]), a, u
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for d, t in (('negate', ast.UnaryOp(ast.Not(), n.test)), ('force true', ast.Constant(True)),
                         ('force false', ast.Constant(False))):
                if isinstance(n, ast.While) and d == 'force true':
                    continue
                a, u = field(n, 'test', ast.copy_location(t, n.test))
                ast.fix_missing_locations(t)
                yield (n.lineno, '%s `%s`' % (d, ast.unparse(n.test)[:50])), a, u
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Is, ast.IsNot) and isinstance(
                n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            # what is zero or empty becomes absent
            old = (n.left, n.ops, n.comparators)
            flag = isinstance(n.ops[0], ast.IsNot)
            left = ast.copy_location(ast.Call(ast.Name('bool', ast.Load()), [n.left], []), n.left)
            ast.fix_missing_locations(left)

            def a(n=n, left=left, flag=flag):
                n.left, n.ops, n.comparators = left, [ast.Eq()], [ast.Constant(flag)]

            def u(n=n, old=old):
                n.left, n.ops, n.comparators = old
            yield (n.lineno, 'zero counts as absent in `%s`' % ast.unparse(n)[:50]), a, u
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in NEG:
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                a, u = field(n, 'ops', [NEG[type(n.ops[0])]()])
                yield (n.lineno, 'change operator of `%s`' % ast.unparse(n)[:50]), a, u
        elif isinstance(n, ast.BoolOp):
            a, u = field(n, 'op', ast.And() if isinstance(n.op, ast.Or) else ast.Or())
            yield (n.lineno, 'and/or in `%s`' % ast.unparse(n)[:50]), a, u
            if len(n.values) > 1:
                for i in range(len(n.values)):
                    rest = n.values[:i] + n.values[i + 1:]
                    if len(rest) > 1:
                        a, u = field(n, 'values', rest)
                        yield (n.lineno, 'drop operand %d of `%s`' % (i, ast.unparse(n)[:50])), a, u
                    else:
                        a, u = field(n, 'values', [rest[0], rest[0]])
                        yield (n.lineno, 'drop operand %d of `%s`' % (i, ast.unparse(n)[:50])), a, u
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, u = field(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())
            yield (n.lineno, '+/- in `%s`' % ast.unparse(n)[:50]), a, u
        elif isinstance(n, ast.Call):
            nm = ast.unparse(n.func)
            if nm.startswith('log.') or nm.endswith('format'):
                continue
            for i in range(len(n.keywords)):
                a, u = field(n, 'keywords', n.keywords[:i] + n.keywords[i + 1:])
                yield (n.lineno, 'drop keyword %s of `%s`' % (n.keywords[i].arg, nm[:40])), a, u
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            a, u = field(n, 'value', n.value + 1)
            yield (n.lineno, 'constant %r+1' % n.value), a, u
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, u = field(n, 'value', not n.value)
            yield (n.lineno, 'constant not %r' % n.value), a, u


def _one(job):
    pid, rel, desc, src = job
    from . import core
    import sys
    sys.setrecursionlimit(10000)
    t = time.time()
    try:
        ctx = core.analyse(pid, 'quick', overrides={rel: src})
        known = core.load_known().get(pid, {})
        vs = [v for v in ctx.violations.values() if v.key not in known]
        return desc, 'caught' if vs else 'quiet', vs[0].message[:160] if vs else '', rel
    except AnalysisError as exc:
        return desc, 'error', str(exc)[:160], rel
    except Exception as exc:
        return desc, 'crash', '%s: %s' % (type(exc).__name__, str(exc)[:160]), rel


def sweep(pid, functions, limit_s=400, seed=1, procs=None, cap=1500):
    prog = Program()
    jobs = [(pid, r, d, s) for r, d, s in mutants(prog, set(functions))]
    total = len(jobs)
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:cap]
    res = []
    t0 = time.time()
    with multiprocessing.Pool(procs or min(8, os.cpu_count() or 1)) as pool:
        it = pool.imap_unordered(_one, jobs)
        for _ in range(len(jobs)):
            left = limit_s - (time.time() - t0)
            if left <= 0:
                pool.terminate()
                break
            try:
                res.append(it.next(timeout=left))
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
    return total, res


def run(pid, functions=()):
    total, res = sweep(pid, functions, seed=int(os.environ.get('VERIF_SEED', '1') or 1))
    n = {k: sum(1 for r in res if r[1] == k) for k in ('caught', 'quiet', 'error', 'crash')}
    return {'sensitivity': {'what': 'in-memory mutants of the analysed functions on which this check was run again; mutants it '
                                    'stays quiet on either keep this property or escape it', 'generated': total,
                            'analysed': len(res), 'reported': n['caught'], 'quiet': n['quiet'], 'no_answer': n['error'] + n['crash']}}


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(10000)
