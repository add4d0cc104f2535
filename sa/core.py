# -*- coding: utf-8 -*-
"""Check framework: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from .load import Program, AnalysisError, REPO, Cls, Func
from . import flow
from .flow import (Walker, Opts, atom_const, State, show, show_atom, show_facts, A, And, Or, Not, Const, F, eq, isnone, truthy, lt, isin,
                   K, NONE, TRUE, FALSE, canon_eq, implied, subterms, mentions, subst, is_k)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')

REGISTRY = {}


def check(pid, technique_hint=''):
    def deco(fn):
        REGISTRY.setdefault(pid, []).append(fn)
        return fn
    return deco


class Violation(object):
    def __init__(self, rule, construct, message, loc):
        self.rule, self.construct, self.message, self.loc = rule, construct, message, loc

    @property
    def key(self):
        return '%s %s' % (self.rule, self.construct)


class Ctx(object):
    def __init__(self, pid, prog, tier):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.violations = {}
        self.obligations = []     # (rule, instance) discharged or violated
        self.paths = 0
        self.functions = set()
        self.walkers = []
        self.callsites = 0
        self.rules = {}

    # ---- bookkeeping
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, instance):
        self.obligations.append((rule, instance))

    def bad(self, rule, construct, message, loc=None):
        self.obligations.append((rule, construct))
        if hasattr(loc, 'loc'):
            loc = loc.loc
        elif isinstance(loc, Func):
            loc = '%s:%s (%s)' % (loc.mod.rel, loc.node.lineno, loc.short)
        elif isinstance(loc, Cls):
            loc = '%s:%s (%s)' % (loc.mod.rel, loc.node.lineno, loc.name)
        v = Violation(rule, construct, message, loc or '?')
        self.violations.setdefault(v.key, v)

    def expect(self, cond, rule, construct, message, loc=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, message, loc)
        return bool(cond)

    def need(self, cond, what):
        if not cond:
            raise AnalysisError('anchor lost: ' + what)

    def some(self, cond, rule, construct, message, loc=None):
        """the construct has to exist on some path"""
        if not cond:
            self.bad(rule, construct, message, loc)
        return bool(cond)

    # ---- walking
    def walker(self, **o):
        o.setdefault('loop', 1)
        w = Walker(self.prog, Opts(**o))
        self.walkers.append(w)
        return w

    def walk(self, cls, method, args=None, walker=None, **o):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        if isinstance(method, str):
            f = self.prog.find_method(c, method) if c is not None else self.prog.func(method)
        else:
            f = method
        if f is None:
            raise AnalysisError('anchor method %s.%s not found' % (c.name, method))
        w = walker or self.walker(**o)
        ps = w.run(f, c, args)
        self.account(w, ps)
        self.need(ps, 'no path through %s' % f.qualname)
        return ps

    def account(self, w, ps):
        self.paths += len(ps)
        self.functions |= w.analysed
        self.callsites += len({id(e.node) for p in ps for e in p.events if e.kind in ('call', 'follow')})

    def whole(self):
        """what is gone through in the analysed functions is gone through completely"""
        seen, taken = set(), {}
        for w in self.walkers:
            seen |= w.iterated
            for b, k in w.taken:
                taken.setdefault(b, set()).add(k)
        if not seen:
            return
        self.rule('whole', 'loops and comprehensions go through all of what they are given, not through a part of fixed size')
        for t in sorted(seen, key=repr):
            cut = fixed_part(t)
            if cut is None:
                continue
            others = taken.get(cut, set()) - {t[2] if t[0] == 'slice' else None}
            if not others and not (cut[0] == 'call' and isinstance(cut[1], tuple) and cut[1][-1] in CUT):
                self.bad('whole', show(t)[:200], 'only a part of %s is gone through' % show(cut)[:200])
        self.ok('whole', '%d iterations' % len(seen))

    # ---- generic path rules
    def guarded(self, rule, construct, paths, pred, formula, why):
        """every matching event happens only where formula is known to hold"""
        n = 0
        for p in paths:
            for e in p.events:
                if pred(e):
                    n += 1
                    if formula.ev(e.facts) is not True:
                        self.bad(rule, construct, '%s: reached where "%r" is not established; known there: %s' %
                                 (why, formula, show_facts(e.facts) or 'nothing'), e)
                        return n
        self.ok(rule, construct)
        return n

    def complete(self, rule, construct, paths, pred, formula, why, skip=None):
        """every normally ending path on which formula may hold has a matching event"""
        n = 0
        for p in paths:
            if p.kind != 'return' or skip is not None and skip(p):
                continue
            n += 1
            if any(pred(e) for e in p.events):
                continue
            if formula.ev(p.facts) is not False:
                self.bad(rule, construct, '%s: a path ends without it although "%r" is not excluded; path: %s' %
                         (why, formula, show_facts(p.facts) or 'unconditional'), p.fn)
                return n
        self.ok(rule, construct)
        return n

    def once(self, rule, construct, paths, pred, why, skip=None):
        for p in paths:
            if skip is not None and skip(p):
                continue
            es = [e for e in p.events if pred(e)]
            if len(es) > 1:
                self.bad(rule, construct, '%s: happens %d times on one path' % (why, len(es)), es[1])
                return
        self.ok(rule, construct)

    def before(self, rule, construct, paths, first, second, why):
        """every `second` event is preceded by a `first` event on its path"""
        n = 0
        for p in paths:
            seen = False
            for e in p.events:
                if second(e):
                    n += 1
                    if not seen:
                        self.bad(rule, construct, '%s; path: %s' % (why, show_facts(e.facts)), e)
                        return n
                if first(e):
                    seen = True
        self.ok(rule, construct)
        return n


class Present(F):
    """term is there: 'is not None' or truthy, whichever the code tests"""
    def __init__(self, t):
        self.t = t

    def ev(self, facts):
        if self.t[0] == 'bool':
            return truthy(self.t).ev(facts)
        v = implied(('isnone', self.t), facts)
        if v is not None:
            return not v
        return implied(('truthy', self.t), facts)

    def __repr__(self):
        return '%s is set' % show(self.t)


class Absent(Present):
    def ev(self, facts):
        v = Present.ev(self, facts)
        return None if v is None else not v

    def __repr__(self):
        return '%s is not set' % show(self.t)


def is_call(*names, **kw):
    recv = kw.get('recv')

    def pred(e):
        return e.kind == 'call' and e.name in names and (recv is None or e.recv == recv)
    return pred


def is_store(name=None, recv=None):
    def pred(e):
        return e.kind == 'store' and (name is None or e.name == name) and (recv is None or e.recv == recv)
    return pred


# --------------------------------------------------------------------------- running
def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: '):
                # finding: property=C01 key=<rule> <construct> | text
                body, _, text = line[len('finding: '):].partition(' | ')
                pid = body.split(' ', 1)[0].split('=', 1)[1]
                key = body.split(' ', 1)[1].split('=', 1)[1]
                known.setdefault(pid, {})[key.strip()] = text.strip()
    return known


def unknown(ctx):
    known = load_known().get(ctx.pid, {})
    return [v for v in ctx.violations.values() if v.key not in known]


def analyse(pid, tier='quick', overrides=None, root=None):
    prog = Program(root=root, overrides=overrides)
    ctx = Ctx(pid, prog, tier)
    failed = None
    for fn in REGISTRY[pid]:
        try:
            fn(ctx)
        except Exception as exc:
            failed = failed or exc
    if failed is None:
        ctx.whole()
    # a violation that was found counts although something else could not be decided
    if failed is not None and not unknown(ctx):
        raise failed
    return ctx


def run(pid, tier):
    t0 = time.time()
    try:
        ctx = analyse(pid, tier)
        from .minima import MINIMA
        need = MINIMA.get(pid, 1)
        if len(ctx.obligations) < need and not unknown(ctx):
            raise AnalysisError('only %d obligations found, at least %d expected' % (len(ctx.obligations), need))
    except AnalysisError as exc:
        print('ANALYSIS-ERROR property=%s %s' % (pid, exc))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 4
    extra = {}
    if tier == 'thorough':
        from . import selftest
        extra = selftest.run(pid, ctx.functions)
    known = load_known().get(pid, {})
    new = []
    for v in ctx.violations.values():
        if v.key in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, v.key, known[v.key]))
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    per_rule = {}
    for r, i in ctx.obligations:
        per_rule.setdefault(r, []).append(i)
    cov = {
        'explanation': 'Static analysis of the source in /repo. Rules applied: ' +
                       '; '.join('%s = %s' % (k, v) for k, v in sorted(ctx.rules.items())),
        'obligations': len(ctx.obligations),
        'discharged': len(ctx.obligations) - len(ctx.violations),
        'known_findings': len(ctx.violations) - len(new),
        'paths': ctx.paths,
        'functions_analysed': len(ctx.functions),
        'call_sites': ctx.callsites,
        'modules_loaded': len(ctx.prog.mods),
        'classes_loaded': len(ctx.prog.classes),
        'instances_per_rule': {r: len(x) for r, x in sorted(per_rule.items())},
        'functions': sorted(ctx.functions)[:120],
        'instances': sorted({'%s: %s' % (r, i) for r, i in ctx.obligations})[:250],
    }
    cov.update(extra)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': cov, 'wall_s': round(time.time() - t0, 3),
        'assumptions': ASSUMPTIONS,
        'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    if new:
        path = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(path, 'w') as fh:
            for v in new:
                fh.write('%s\n  rule: %s\n  construct: %s\n  what: %s\n  rule text: %s\n\n' % (
                    v.loc, v.rule, v.construct, v.message, ctx.rules.get(v.rule, '')))
        for v in new[:20]:
            print('%s: [%s] %s: %s' % (v.loc, v.rule, v.construct, v.message))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s obligations=%d paths=%d functions=%d wall=%.2fs' % (
        pid, len(ctx.obligations), ctx.paths, len(ctx.functions), time.time() - t0))
    return 0


ASSUMPTIONS = [
    'Calls whose callee is outside the repository (PyXB, Twisted, autobahn, the standard library) behave as documented and '
    'do not store into objects of the analysed classes behind the caller.',
    'Helpers are followed up to the stated depth and not recursively; loops are summarised by zero and one iteration '
    '(two where a rule says so).',
    'An attribute of an object keeps its value between two reads unless a statement on the analysed path stores to it.',
]


# --------------------------------------------------------------------------- role discovery
SELF = ('p', 'self')


def ctor_attrs(ctx, cls, param, depth=6):
    """Attribute names of self that hold constructor parameter `param` after construction."""
    c = ctx.prog.cls(cls) if isinstance(cls, str) else cls
    init = ctx.prog.find_method(c, '__init__')
    ctx.need(init is not None, '%s.__init__' % c.name)
    w = ctx.walker(depth=depth, noexc=True)
    ps = [p for p in w.run(init, c) if p.kind == 'return']
    ctx.need(ps, '%s.__init__ never returns' % c.name)
    out = None
    for p in ps:
        names = {k[1] for k, v in p.heap.items() if isinstance(k, tuple) and k[0] == SELF and v == ('p', param)}
        out = names if out is None else out & names
    return out or set()


def ctor_attr(ctx, cls, param):
    xs = ctor_attrs(ctx, cls, param)
    c = ctx.prog.cls(cls) if isinstance(cls, str) else cls
    ctx.need(len(xs) >= 1, 'attribute of %s keeping constructor argument %s' % (c.name, param))
    return ('attr', SELF, sorted(xs)[0])


def kw(e, name, default=None):
    for k, v in e.kwargs or ():
        if k == name:
            return v
    return default


def arg_of(ctx, e, fn, name):
    """Value passed for parameter `name` of repository function fn at call event e (None when defaulted)."""
    params = [p for p in fn.params]
    if fn.kind in ('method', 'classmethod') and params:
        params = params[1:]
    v = kw(e, name)
    if v is not None:
        return v
    if name in params:
        i = params.index(name)
        if i < len(e.args):
            return e.args[i]
    return None


def last_store(path, recv, name, upto=None):
    out = None
    for e in path.events:
        if upto is not None and e is upto:
            break
        if e.kind == 'store' and e.recv == recv and e.name == name:
            out = e
    return out


CUT = {'split', 'rsplit', 'splitlines', 'groups', 'partition', 'rpartition', 'sys.argv'}


def fixed_part(t):
    """the container of which a part of fixed size is taken"""
    t = base_iter(t)
    if t[0] == 'call' and t[1] == ('ext', 'enumerate') and t[2]:
        return fixed_part(t[2][0])
    if t[0] == 'slice':
        lo, hi, step = (t[2] + (NONE, NONE, NONE))[1:4]
        if any(x[0] == 'k' and isinstance(x[1], int) and (x[1] or x is hi) for x in (lo, hi)) or \
                step[0] == 'k' and step[1] not in (None, 1, -1):
            return t[1]
        return fixed_part(t[1])
    if t[0] == 'call' and t[1] == ('ext', 'itertools.islice') and len(t[2]) > 1 and any(x[0] == 'k' and x[1] for x in t[2][1:]):
        return t[2][0]
    return None


def base_iter(t):
    """underlying container of an iteration over a copy"""
    while True:
        if t[0] == 'call' and t[1] in (('ext', 'list'), ('ext', 'tuple'), ('ext', 'set'), ('ext', 'iter'),
                                       ('ext', 'sorted'), ('ext', 'reversed'), ('ext', 'frozenset')) and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'slice' and t[2][1:] in ((NONE, NONE, NONE),):
            t = t[1]
        elif t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][2] in ('copy', '__iter__') and not t[2]:
            t = t[1][1]
        elif t[0] == 'call' and isinstance(t[1], tuple) and t[1] in (('ext', 'copy.copy'),) and t[2]:
            t = t[2][0]
        else:
            return t


def for_each(ctx, rule, construct, paths, container, pred, what, loc, allow=None):
    """pred(event, element) happens for every element of container on every path"""
    hit = False
    for p in paths:
        loops = [e for e in p.events if e.kind == 'loop' and base_iter(e.value) == container]
        ends = [e for e in p.events if e.kind == 'loopend' and base_iter(e.value) == container]
        calls = [e for e in p.events if e.kind in ('call', 'store', 'setitem') and pred(e, ('it', container, 0))]
        if calls:
            hit = True
            for e in calls:
                dep = [a for a in e.facts if mentions(a, ('it', container, 0))]
                if dep and not (allow and all(allow(a, e.facts[a]) for a in dep)):
                    ctx.bad(rule, construct, '%s only when %s' % (what, ' and '.join(show_atom(a) for a in dep)), e)
        if loops and p.kind == 'return':
            if not calls:
                dep = {a: v for a, v in p.facts.items() if mentions(a, ('it', container, 0))}
                if not (allow and dep and any(allow(a, not v) for a, v in dep.items())):
                    ctx.bad(rule, construct, '%s: an element is skipped; path: %s' % (what, show_facts(p.facts)), loops[0])
            elif len(ends) < 1 or max(e.name for e in ends) < 1:
                ctx.bad(rule, construct, '%s: the iteration is left early' % what, loops[0])
    if not hit:
        ctx.bad(rule, construct, '%s: does not happen' % what, loc)
    else:
        ctx.ok(rule, construct)


def passes_rest(e, rest=('p', '**kwargs')):
    """the call hands on the received keyword arguments"""
    for k, v in e.kwargs or ():
        if k == '**' and v == rest:
            return True
    return False
