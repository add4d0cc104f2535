# -*- coding: utf-8 -*-
"""Computed times, time expressions, retiming."""
import itertools
from ..core import *
from .validation import visits, hooked, key_of, simplify, is_time, final_items, DATA, AFTER, BEFORE
from .documents import accessor

TIMED = 'bindings.validation.timing:TimingValidationMixin'
SYNC, AVAIL, STACK = (('sub', DATA, K(k)) for k in ('timing_syncbase', 'availability_time', 'timing_end_stack'))
TOP = ('sub', STACK, K(-1))
BEGIN, END, DUR = (('attr', SELF, k) for k in ('begin', 'end', 'dur'))
CHILDREN = ('call', ('bm', SELF, 'orderedContent'), (), ())


def td(t):
    return ('attr', t, 'timedelta')


ZERO = ('zero',)


def formula_value(conds, truth):
    """truth value of a conjunction of comprehension conditions under an assignment of its atoms"""
    for a, v in conds:
        if a[0] == 'dnf':
            x = any(formula_value(alt, truth) for alt in a[1])
        elif a in truth:
            x = truth[a]
        else:
            c = atom_const(a)
            if c is None:
                return None
            x = c
        if x is None:
            return None
        if x != v:
            return False
    return True


def counted_children(ctx, t):
    """field of the counted children a comprehension collects; None when it is not exactly those children"""
    if t[0] != 'comp' or len(t[3]) != 1 or base_iter(t[3][0]) != CHILDREN:
        return None
    x = ('attr', ('it', CHILDREN, 0), 'value')
    fields = {x: 'self', ('attr', x, 'computed_begin_time'): 'begin', ('attr', x, 'computed_end_time'): 'end'}
    f = fields.get(t[2])
    if f is None:
        return None
    timed = ('isinst', x, ('cls', ctx.prog.cls(TIMED).qualname))
    nb, ne = ('isnone', ('attr', x, 'begin')), ('isnone', ('attr', x, 'end'))
    ordered = ('lt', td(('attr', x, 'begin')), td(('attr', x, 'end')))
    other = ('lt', ordered[2], ordered[1])
    same = canon_eq(ordered[1], ordered[2])
    for i, b, e, o in itertools.product((True, False), (True, False), (True, False), ('lt', 'eq', 'gt')):
        truth = {timed: i, nb: b, ne: e, ordered: o == 'lt', other: o == 'gt', same: o == 'eq',
                 ('truthy', ('attr', x, 'begin')): not b, ('truthy', ('attr', x, 'end')): not e}
        want = i and (b or e or o == 'lt')
        if formula_value(t[4], truth) is not want:
            return None
    return f


class Times(object):
    """normal form of time expressions under the facts of a path"""
    def __init__(self, ctx, facts, body):
        self.ctx, self.body = ctx, body
        self.facts = facts
        self.order = {}
        for a, v in facts.items():
            if a[0] == 'lt':
                l, r = self.norm(a[1], False), self.norm(a[2], False)
                self.order[(l, r)] = v

    def dominated(self, name, flat, x):
        """x can be left out of the maximum (minimum) of flat"""
        rest = flat - {x}
        for (l, r), v in self.order.items():
            small, big = (l, r) if v else (r, l)          # small <= big
            if name == 'min':
                small, big = big, small                   # now: big beats small
            other = 'max' if name == 'max' else 'min'
            lost = small[1] if small[0] == other and isinstance(small[1], frozenset) else {small}
            won = big[1] if big[0] == other and isinstance(big[1], frozenset) else {big}
            if x in lost and won <= rest:
                return True
        return False

    def norm(self, t, reduce=True):
        if t is None or t == NONE:
            return NONE
        if t in (K(0),) or t[0] == 'call' and t[1] == ('ext', 'datetime.timedelta') and \
                all(x in (K(0), K(0.0)) for x in t[2] + tuple(y for _, y in t[3])):
            return ZERO
        if self.body and t == SYNC:
            return ZERO
        if t[0] == 'bin' and t[1] == '+':
            parts = []
            for x in (t[2], t[3]):
                n = self.norm(x, reduce)
                parts.extend(n[1] if n[0] == 'sum' else () if n == ZERO else (n,))
            if not parts:
                return ZERO
            return parts[0] if len(parts) == 1 else ('sum', tuple(sorted(parts, key=repr)))
        if t[0] == 'call' and t[1] in (('ext', 'min'), ('ext', 'max')) and not t[3]:
            name = t[1][1]
            if len(t[2]) == 1 and t[2][0][0] == 'comp':
                f = counted_children(self.ctx, t[2][0])
                if f in ('begin', 'end'):
                    return ('children', name, f)
                return t
            items = t[2][0][1] if len(t[2]) == 1 and t[2][0][0] == 'tup' else \
                t[2][0][2] if len(t[2]) == 1 and t[2][0][0] == 'lst' else t[2]
            return self.pick(name, [self.norm(x, reduce) for x in items], reduce)
        return t

    def pick(self, name, items, reduce=True):
        flat = set()
        for x in items:
            flat |= set(x[1]) if x[0] == name else {x}
        if reduce:
            for x in sorted(flat, key=repr):
                if len(flat) > 1 and self.dominated(name, flat, x):
                    flat.discard(x)
        return flat.pop() if len(flat) == 1 else (name, frozenset(flat))


def text(t):
    if t == ZERO:
        return 'zero'
    if t[0] == 'sum':
        return '(%s)' % ' + '.join(text(x) for x in t[1])
    if t[0] in ('min', 'max') and isinstance(t[1], frozenset):
        return '%s(%s)' % (t[0], ', '.join(sorted(text(x) for x in t[1])))
    if t[0] == 'children':
        return '%s of the children\'s %s' % (t[1], t[2])
    return show(t)


def children_known(ctx, facts):
    """(there are counted children, one of them has no end) as far as the path established it"""
    some = unended = None
    for a, v in facts.items():
        if a[0] == 'truthy' and counted_children(ctx, a[1]):
            some = v
        elif a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('ext', 'len') and counted_children(ctx, a[1][2][0]):
            some = v
        elif a[0] == 'lt' and a[1] == K(0) and a[2][0] == 'call' and a[2][1] == ('ext', 'len') and \
                counted_children(ctx, a[2][2][0]):
            some = v
        elif a[0] == 'eq' and K(0) in a[1:] and any(x[0] == 'call' and x[1] == ('ext', 'len') and
                                                   counted_children(ctx, x[2][0]) for x in a[1:]):
            some = not v
        elif a[0] == 'in' and a[1] == NONE and counted_children(ctx, a[2]) == 'end':
            unended = v
        elif a[0] == 'truthy' and a[1][0] in ('any', 'all') and a[1][1][0] == 'bool' and a[1][1][1][0] == 'isnone':
            q, pol = a[1][0], a[1][1][2]
            f = counted_children(ctx, ('comp', 'list', a[1][1][1][1], a[1][2], a[1][3]))
            if f == 'end' and pol is (q == 'any'):
                unended = v if pol else not v
    return some, unended


@check('C10')
def c10(ctx):
    ctx.rule('time-begin', 'computed begin: the later of parent begin plus own begin and the availability time, or the '
             'earliest counted child when the element has no begin of its own')
    ctx.rule('time-end', 'computed end: own end relative to the parent, limited by the ends of the ancestors, else the latest counted child')
    ctx.rule('time-dur', 'the duration of the body limits its end, counted from its begin or the availability time')
    ctx.rule('time-ill', 'a body whose end is not after its begin is active from zero without an end')
    ctx.rule('time-offset', 'the children of an element are placed relative to its own begin, bounded by its own end')
    ctx.rule('time-event', 'a leaf element is entered on the timeline after its times have been computed')
    timed = ctx.prog.cls(TIMED)
    classes = [c for c in hooked(ctx) if ctx.prog.is_sub(c, timed)]
    ctx.need(len(classes) >= 4, 'timed elements')
    for c in classes:
        body = ctx.prog.is_sub(c, ctx.prog.cls('bindings.validation.timing:BodyTimingValidationMixin'))
        fn = ctx.prog.find_method(c, AFTER)
        cb, ce = accessor(ctx, c, 'computed_begin_time'), accessor(ctx, c, 'computed_end_time')
        vs, w = visits(ctx, c)
        for v, pushed, left, maps in vs:
            facts = dict(v.facts)
            hasb, hase = Present(BEGIN).ev(facts), Present(END).ev(facts)
            hasd = Present(DUR).ev(facts) if body else False
            if any(Present(x).ev(facts) is True and facts.get(('isnone', td(x))) is True for x in (BEGIN, END, DUR)):
                continue
            if any(facts.get(('isnone', x)) is True for x in (SYNC, AVAIL, TOP)):
                continue
            stack = truthy(STACK).ev(facts)
            if body and stack is True:
                continue
            where = 'path: %s' % show_facts(v.facts)
            T = Times(ctx, facts, body)
            some, unended = children_known(ctx, facts)
            gb, ge = v.heap.get((SELF, cb[2])), v.heap.get((SELF, ce[2]))
            for o, n in maps:
                gb, ge = subst(gb, o, n) if gb else gb, subst(ge, o, n) if ge else ge
            gb, ge = T.norm(simplify(gb) if gb else None), T.norm(simplify(ge) if ge else None)
            ill = And(Present(BEGIN), Present(END), Not(lt(td(BEGIN), td(END)))).ev(facts) if body else False
            if body and ill is None:
                ctx.bad('time-ill', c.name, 'the order of begin and end is not examined; ' + where, fn)
                continue
            if ill:
                ctx.expect(gb == ZERO and ge == NONE, 'time-ill', c.name, 'the times are %s and %s; %s' % (text(gb), text(ge), where), fn)
                continue
            # begin
            if hasb is None or hase is None or hasd is None:
                ctx.bad('time-begin' if hasb is None else 'time-end', c.name, 'a timing attribute is not looked at; ' + where, fn)
                continue
            base = T.norm(('bin', '+', SYNC, td(BEGIN)) if hasb else SYNC)
            avail = truthy(AVAIL).ev(facts)
            bases = [T.pick('max', [base, AVAIL])]
            if avail is False:
                bases.append(base)
            if avail is False and body:
                bases.append(T.pick('max', [base, ZERO]))
            if not hasb and some is not False:
                if some is None:
                    ctx.bad('time-begin', c.name, 'the children are not looked at; ' + where, fn)
                    continue
                bases = [T.pick('max', [b, ('children', 'min', 'begin')]) for b in bases]
            ctx.expect(gb in bases, 'time-begin', c.name, 'is %s instead of %s; %s' % (text(gb), text(bases[-1]), where), fn)
            # end
            if hase or hasd:
                own = T.norm(('bin', '+', SYNC, td(END))) if hase else None
                if hasd:
                    d = T.norm(('bin', '+', td(BEGIN) if hasb else AVAIL, td(DUR)))
                    wants = [T.pick('min', [own, d]) if hase else d]
                    if avail is False and not hasb:
                        d = td(DUR)
                        wants.append(T.pick('min', [own, d]) if hase else d)
                elif stack is True:
                    wants = [T.pick('min', [own, TOP])]
                elif stack is False:
                    wants = [own]
                else:
                    ctx.bad('time-end', c.name, 'the end is not limited by the ends of the ancestors; ' + where, fn)
                    continue
            elif some is None:
                ctx.bad('time-end', c.name, 'the children are not looked at; ' + where, fn)
                continue
            elif some:
                wants = [NONE] if unended else [('children', 'max', 'end')] if unended is False else []
            else:
                wants = [TOP] if stack else [NONE] if stack is False else []
            ctx.expect(ge in wants, 'time-dur' if hasd else 'time-end', c.name, 'is %s instead of %s; %s' % (
                text(ge), text(wants[0]) if wants else 'undetermined', where), fn)
            # what the children see
            down = v.down
            offset = down.heap.get((DATA, ('key', K('timing_syncbase'))), SYNC)
            ctx.expect(T.norm(simplify(offset)) == base, 'time-offset', c.name + '/begin', 'the children count from %s instead of %s; %s' % (
                text(T.norm(offset)), text(base), where), fn)
            ends = pushed.get('timing_end_stack', [])
            if hase or hasd:
                ctx.expect(len(ends) == 1 and T.norm(simplify(ends[0])) in wants, 'time-offset', c.name + '/end',
                           'the children are not bounded by the end of the element; ' + where, fn)
            else:
                ctx.expect(not ends, 'time-offset', c.name + '/end', 'the children are bounded by an end that the element '
                           'does not have; ' + where, fn)
            # timeline
            adds = [e for e in v.up.events if e.kind == 'call' and e.name == 'add_to_timeline']
            if c.name in ('p_type', 'span_type'):
                sets = [e.idx for e in v.up.events if e.kind == 'store' and e.recv == SELF and e.name in (cb[2], ce[2])]
                ctx.expect(len(adds) == 1 and SELF in adds[0].args + tuple(x for _, x in adds[0].kwargs) and
                           adds[0].recv == ('sub', DATA, K('document')) and
                           adds[0].idx > max(sets or [0]), 'time-event', c.name, 'the element is not entered on the timeline of its document exactly '
                           'once with its final times; ' + where, fn)


@check('C10')
def restored(ctx):
    ctx.rule('time-restore', 'when an element is left, its siblings count from the same time and have the same bounds as before')
    timed = ctx.prog.cls(TIMED)
    n = 0
    for c in hooked(ctx):
        if not ctx.prog.is_sub(c, timed):
            continue
        fn = ctx.prog.find_method(c, AFTER)
        vs, w = visits(ctx, c)
        for v, pushed, left, maps in vs:
            n += 1
            for k, rest in left.items():
                if k.startswith('timing_'):
                    ctx.expect(not rest, 'time-restore', '%s/%s' % (c.name, k), 'a bound of the element stays for the elements after it; path: %s' %
                               show_facts(v.facts), fn)
            for k, (t, e) in final_items(v, maps).items():
                if k.startswith('timing_'):
                    ctx.expect(t == ('sub', DATA, K(k)), 'time-restore', '%s/%s' % (c.name, k), 'is %s when the element is left; path: %s' % (
                        show(t) if t else 'removed', show_facts(v.facts)), e)
    ctx.need(n, 'visits of timed elements')


@check('C10')
@check('C28')
def events(ctx):
    """the active times computed for an element reach the timeline of its document"""
    ctx.rule('time-events', 'an element is put on the timeline of its document with the begin and with the end computed for it, each once if it has one')
    c = ctx.prog.cls('documents.ebutt3:EBUTT3Document')
    f = ctx.prog.find_method(c, 'add_to_timeline')
    ctx.need(f is not None and len(f.params) > 1, 'add_to_timeline')
    elem = ('p', f.params[1])
    times = {'TimingEventBegin': ('attr', elem, 'computed_begin_time'), 'TimingEventEnd': ('attr', elem, 'computed_end_time')}
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'timeline'})
    n = 0
    for p in w.run(f, c):
        added = {}
        for e in p.events:
            if e.kind == 'call' and e.recv == ('attr', SELF, 'timeline'):
                t = e.args[0] if e.name == 'add' and len(e.args) == 1 else None
                name = t[1].split(':')[-1].split('.')[-1] if t and t[0] == 'new' else None
                ctx.expect(name in times and elem in (t[3] + tuple(v for _, v in t[4])), 'time-events', 'added',
                           'the timeline gets %s %s' % (e.name, show(e.args)), e)
                added[name] = added.get(name, 0) + 1
        for name, t in sorted(times.items()):
            none = p.facts.get(('isnone', t))
            n += added.get(name, 0)
            ctx.expect(p.kind == 'return' and none is not None and added.get(name, 0) == (0 if none else 1), 'time-events', name,
                       '%d events are put on the timeline; path: %s' % (added.get(name, 0), show_facts(p.facts)), f)
    ctx.account(w, [])
    ctx.some(n, 'time-events', 'added', 'nothing is put on the timeline', f)
    for name, attr in (('TimingEventBegin', 'computed_begin_time'), ('TimingEventEnd', 'computed_end_time')):
        k = ctx.prog.cls('documents.ebutt3:' + name)
        g = ctx.prog.find_method(k, '__init__')
        when, el = ctx.prog.find_prop(k, 'when'), ctx.prog.find_prop(k, 'element')
        ctx.need(g is not None and len(g.params) > 1 and when is not None and el is not None, name)
        held = {}
        for prop, pr in (('when', when), ('element', el)):
            rets = {p.ret for p in ctx.walk(k, pr.getter) if p.kind == 'return'}
            if ctx.expect(len(rets) == 1 and list(rets)[0][:2] == ('attr', SELF), 'time-events', name + '/' + prop, 'is not what was set', pr.getter):
                held[prop] = list(rets)[0][2]
        for p in ctx.walk(k, g):
            for prop, want in (('when', ('attr', ('p', g.params[1]), attr)), ('element', ('p', g.params[1]))):
                got = p.heap.get((SELF, held.get(prop)))
                ctx.expect(p.kind == 'return' and got == want, 'time-events', name + '/' + prop, 'is %s' % (show(got) if got else 'unset'), g)


# --------------------------------------------------------------------------- time expressions
EBUTTDT = 'bindings._ebuttdt:'
NOTATION = {'TimecountTimingType': {'clock', 'media'}, 'FullClockTimingType': {'media'},
            'LimitedClockTimingType': {'clock'}, 'SMPTETimingType': {'smpte'}}
BASES = {'clock': 'LimitedClockTimingType', 'media': 'FullClockTimingType', 'smpte': 'SMPTETimingType'}
UNITS = {'days': 86400000, 'hours': 3600000, 'minutes': 60000, 'seconds': 1000, 'milliseconds': 1}
ORDERED_UNITS = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours')


def linear(t, k=1.0):
    """a time expression as {term: milliseconds}; int() and float() conversions are transparent"""
    if t[0] == 'k' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {ONE: k * t[1]} if t[1] else {}
    if t[0] == 'call' and t[1] in (('ext', 'int'), ('ext', 'float')) and len(t[2]) == 1:
        return linear(t[2][0], k)
    if t[0] == 'bin' and t[1] in ('+', '-'):
        out = dict(linear(t[2], k))
        for x, c in linear(t[3], k if t[1] == '+' else -k).items():
            out[x] = out.get(x, 0) + c
        return {x: c for x, c in out.items() if c}
    if t[0] == 'bin' and t[1] == '*':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0] == 'k' and isinstance(b[1], (int, float)):
                return linear(a, k * b[1])
    if t[0] == 'bin' and t[1] == '/' and t[3][0] == 'k' and isinstance(t[3][1], float) and t[3][1]:
        return linear(t[2], k / t[3][1])
    if t[0] == 'call' and t[1] == ('ext', 'datetime.timedelta'):
        out = {}
        for n, v in list(zip(ORDERED_UNITS, t[2])) + list(t[3]):
            if n == 'microseconds':
                f = 0.001
            elif n in UNITS:
                f = UNITS[n]
            else:
                return {t: k}
            for x, c in linear(v, f * k).items():
                out[x] = out.get(x, 0) + c
        return {x: c for x, c in out.items() if c}
    if t[0] == 'attr' and t[2] == 'timedelta' and t[1][0] == 'new' and t[1][1].rpartition('.')[2] in NOTATION and len(t[1][3]) == 1:
        return linear(t[1][3][0], k)
    return {modular(t): k}


ONE = ('one',)


def modular(t):
    """divmod() as // and %, nested remainders simplified"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(modular(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'sub' and isinstance(t[1], tuple) and len(t[1]) == 4 and t[1][0] == 'call' and t[1][1] == ('ext', 'divmod') and \
            t[2] in (K(0), K(1)):
        t = ('bin', '//' if t[2] == K(0) else '%', t[1][2][0], t[1][2][1])
        t = modular(t)
    if len(t) == 4 and t[0] == 'bin' and t[1] == '/' and t[3][0] == 'k' and isinstance(t[3][1], int):
        t = ('bin', '//') + t[2:]                      # integers in Python 2
    if len(t) == 4 and t[0] == 'bin' and t[1] == '%' and t[3][0] == 'k' and isinstance(t[2], tuple) and len(t[2]) == 4 and \
            t[2][0] == 'bin' and t[2][3][0] == 'k':
        if t[2][1] == '%' and t[2][3][1] % t[3][1] == 0:
            return ('bin', '%', t[2][2], t[3])
        if t[2][1] == '//':
            return ('bin', '//', modular(('bin', '%', t[2][2], K(t[2][3][1] * t[3][1]))), t[2][3])
    return t




def groups_of(ctx, t):
    """index of the regular expression group a term denotes"""
    if t[0] == 'sub' and t[2][0] == 'k' and isinstance(t[2][1], int):
        c = t[1]
        if c[0] == 'comp' and len(c[3]) == 1 and not c[4] and c[2] == ('it', c[3][0], 0):
            c = c[3][0]
        c = base_iter(c)
        if c[0] == 'call' and isinstance(c[1], tuple) and c[1][0] == 'bm' and c[1][2] == 'groups':
            return t[2][1]
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][2] == 'group' and len(t[2]) == 1 and \
            t[2][0][0] == 'k':
        n = t[2][0][1]
        return n - 1 if isinstance(n, int) else {'numerator': 0, 'unit': 1}.get(n)
    return None


def timing_regex(ctx, c):
    for k in ctx.prog.mro(c):
        for n, v in k.attrs.items():
            if 're.compile' in unparse(v):
                return n, v
    return None, None


def unparse(n):
    import ast
    return ast.unparse(n)


@check('C11')
def c11(ctx):
    ctx.rule('notation-table', 'every notation names the time bases it may be used with, the same for begin, end and dur')
    ctx.rule('notation-parse', 'a time attribute is parsed only in a notation of the time base of the document')
    ctx.rule('notation-valid', 'validation rejects begin, end and dur in a notation foreign to the time base')
    ctx.rule('notation-new', 'times the toolkit writes are in the notation of the time base')
    ctx.rule('notation-value', 'reading a time expression weighs each of its parts with its unit')
    ctx.rule('notation-text', 'writing a time expression puts hours, minutes, seconds and milliseconds in their places')
    ctx.rule('retime-element', 'retiming moves the begin and end of an element by the delay once, and no times relative to a moved begin')
    ctx.rule('retime-body', 'content without any begin is moved by giving the body a begin')
    ctx.rule('retime-choice', 'the body gets the delay exactly when some content has no begin above it')
    ctx.rule('retime-search', 'content counts as untimed when neither it nor an enclosing element has a begin')
    mix = ctx.prog.cls(EBUTTDT + '_TimedeltaBindingMixin')
    for name, bases in sorted(NOTATION.items()):
        c = ctx.prog.cls(EBUTTDT + name)
        w = ctx.walker(types={})
        fn = ctx.prog.find_method(c, 'compatible_timebases')
        ctx.need(fn is not None, 'compatible_timebases of ' + name)
        for p in ctx.walk(c, fn, args={'cls': ('cls', c.qualname)}):
            for a in ('begin', 'end', 'dur'):
                it = w.table_items(p.ret, p.state)
                vals = dict(it or ()).get(K(a))
                got = {x[1] for x in (vals[2] if vals and vals[0] == 'lst' else vals[1] if vals and vals[0] == 'tup' else ())}
                ctx.expect(got == bases, 'notation-table', '%s/%s' % (name, a), 'allowed with %s instead of %s' % (
                    sorted(got), sorted(bases)), c)
        # the guard used by the parser
        conv = ctx.prog.find_method(c, '_ConvertArguments_vx')
        good = True
        ps = ctx.walk(c, conv, args={'cls': ('cls', c.qualname)}, opaque={'from_timedelta'})
        some = False
        for p in ps:
            if p.kind != 'return':
                continue
            par = None
            for a, v in p.facts.items():
                if a[0] == 'in' and a[1] == K('timing_attribute_name') and v:
                    par = a[2]
            if par is None:
                # allowed only outside of parsing or for element content
                known = any(a[0] == 'in' and a[1] == K('timing_attribute_name') and not v or
                            a[0] == 'isnone' and v and mentions_context(a[1]) or
                            a[0] == 'truthy' and not v and mentions_context(a[1]) for a, v in p.facts.items())
                good = good and known
                continue
            some = True
            tb = ('sub', par, K('timeBase'))
            tbs = [tb, ('call', ('bm', par, 'get'), (K('timeBase'),), ())]
            held = any(a[0] == 'in' and a[1] in tbs and v and a[2][0] in ('lst', 'tup') or
                       a[0] == 'eq' and v and (a[1] in tbs and a[2] in [K(b) for b in bases] or
                                               a[2] in tbs and a[1] in [K(b) for b in bases]) for a, v in p.facts.items())
            good = good and held
        ctx.expect(good and some, 'notation-parse', name, 'a value is accepted without comparing its notation to the time base', conv)
        # conversions
        if name == 'SMPTETimingType':
            continue
        read = ctx.prog.find_method(c, 'as_timedelta')
        for p in ctx.walk(c, read, args={'cls': ('cls', c.qualname)}, noexc=True):
            if p.kind != 'return':
                continue
            got = {}
            for x, k in linear(p.ret).items():
                i = groups_of(ctx, x)
                if i is None and x[0] == 'str' and len(x[1]) == 2 and x[1][0] in (K('0.'), K('.')):
                    i = groups_of(ctx, x[1][1])
                    i = ('fraction', i) if i is not None else None
                got[i] = got.get(i, 0) + k
            if name == 'TimecountTimingType':
                unit = [a[1][1] if a[1][0] == 'k' else a[2][1] for a, v in p.facts.items() if v and a[0] == 'eq' and
                        any(groups_of(ctx, y) == 1 for y in a[1:]) and (a[1][0] == 'k' or a[2][0] == 'k')]
                want = {0: {'h': 3600000, 'm': 60000, 's': 1000, 'ms': 1}.get(unit[0] if unit else None)}
                ctx.expect(got == want, 'notation-value', '%s/%s' % (name, unit), 'the number weighs %s ms' % (got,), read)
            else:
                frac = None
                for a, v in p.facts.items():
                    if a[0] == 'truthy' and groups_of(ctx, a[1]) == 3 or a[0] == 'isnone' and groups_of(ctx, a[1]) == 3:
                        frac = v if a[0] == 'truthy' else not v
                wants = [{0: 3600000, 1: 60000, 2: 1000, ('fraction', 3): 1000}] if frac is not False else []
                if frac is not True or any(a[0] == 'truthy' and not v for a, v in p.facts.items()):
                    wants.append({0: 3600000, 1: 60000, 2: 1000})
                ctx.expect(any(near(got, w2) for w2 in wants), 'notation-value', name, 'the parts weigh %s ms' % (got,), read)
        rn, rv = timing_regex(ctx, c)
        if rv is not None and name == 'TimecountTimingType':
            import re
            alts = re.search(r'\((?:\?P<unit>)?((?:h|m|s|ms)(?:\|(?:h|m|s|ms))*)\)(\$|\\Z)?', ast_str(rv))
            ctx.need(alts is not None, 'unit alternatives of the time count expression')
            names = alts.group(1).split('|')
            ctx.expect(set(names) == {'h', 'm', 's', 'ms'} and (alts.group(2) or names.index('ms') < names.index('m')),
                       'notation-value', name + '/units', 'the unit ms is read as m', c)
        text_rule(ctx, c, name)
    # new times
    tt = ctx.prog.cls('bindings:tt_type')
    f = ctx.prog.find_method(tt, 'get_timing_type')
    par = ('p', f.params[1])
    for p in ctx.walk(tt, f, noexc=True):
        tbs = [b for b in BASES if eq(('attr', SELF, 'timeBase'), K(b)).ev(p.facts) is True]
        if p.kind == 'return' and tbs:
            ctx.expect(p.ret[0] == 'new' and p.ret[1].rpartition('.')[2] == BASES[tbs[0]] and p.ret[3] == (par,), 'notation-new',
                       'get_timing_type/' + tbs[0], 'gives %s' % show(p.ret), f)
    for b in BASES:
        ctx.expect(any(eq(('attr', SELF, 'timeBase'), K(b)).ev(p.facts) is True for p in ctx.walk(tt, f, noexc=True)),
                   'notation-new', 'get_timing_type/' + b, 'the time base is not served', f)
    # validation
    timed = ctx.prog.cls(TIMED)
    for c in hooked(ctx):
        if not ctx.prog.is_sub(c, timed):
            continue
        body = ctx.prog.is_sub(c, ctx.prog.cls('bindings.validation.timing:BodyTimingValidationMixin'))
        tb = ('attr', ('sub', DATA, K('tt_element')), 'timeBase')
        fn = ctx.prog.find_method(c, BEFORE)
        for p in ctx.walk(c, fn, noexc=True, opaque={'_semantic_register_id', '_semantic_preprocess_timing', '_semantic_set_region',
                                                      '_semantic_collect_applicable_styles', '_semantic_push_styles'}):
            for a in ('begin', 'end') + (('dur',) if body else ()):
                x = ('attr', SELF, a)
                if p.kind != 'return':
                    continue
                pres = Present(x).ev(p.facts)
                tab = ('sub', ('call', ('bm', x, 'compatible_timebases'), (), ()), K(a))
                no = ('hasattr', x, K('compatible_timebases'))
                held = implied(('in', tb, tab), p.facts) is True or any(
                    q[0] == 'hasattr' and q[1] == x and not v for q, v in p.facts.items())
                ctx.expect(pres is False or held, 'notation-valid', '%s/%s' % (c.name, a),
                           'a time of a foreign notation is not rejected; path: %s' % show_facts(p.facts), fn)
    retiming(ctx)


def mentions_context(t):
    return 'parsing' in show(t) or 'context' in show(t)


def near(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-6 for k in a)


def ast_str(n):
    import ast
    return ''.join(x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str))


def text_rule(ctx, c, name):
    f = ctx.prog.find_method(c, 'from_timedelta')
    d = ('p', 'instance')
    h = modular(('bin', '+', ('bin', '//', ('attr', d, 'seconds'), K(3600)), ('bin', '*', ('attr', d, 'days'), K(24))))
    secs = ('attr', d, 'seconds')
    mi = ('bin', '//', ('bin', '%', secs, K(3600)), K(60))
    se = ('bin', '%', secs, K(60))
    ms = ('bin', '//', ('attr', d, 'microseconds'), K(1000))
    parts = {}
    for p in ctx.walk(c, f, args={'cls': ('cls', c.qualname)}, noexc=True):
        if p.kind != 'return':
            continue
        t = p.ret
        zeros = {modular(a[1]) for a, v in p.facts.items() if a[0] == 'truthy' and not v} | \
                {modular(x) for a, v in p.facts.items() if a[0] == 'eq' and v for x in a[1:] if K(0) in a[1:]}
        nonzero = {modular(a[1]) for a, v in p.facts.items() if a[0] == 'truthy' and v}
        if name == 'TimecountTimingType':
            if t == K('0s') or t == K('0ms'):
                below = {hours_norm(x, h) for x in zeros}
                ctx.expect(d in zeros or {h, mi, se, ms} <= below, 'notation-text', name + '/zero', 'zero is written for other durations', f)
                continue
            zeros = {hours_norm(x, h) for x in zeros}
            if {h, mi, se, ms} <= zeros:
                continue                                      # below one millisecond
            ok = t[0] == 'str' and len(t[1]) == 2 and t[1][1][0] == 'k' and t[1][1][1] in UNIT_MS
            got = None
            if ok:
                unit = UNIT_MS[t[1][1][1]]
                got = {}
                for x, k in linear_parts(t[1][0], h, mi, se, ms).items():
                    got[x] = k * unit
                full = {'h': 3600000, 'm': 60000, 's': 1000, 'ms': 1}
                left = {'h': h, 'm': mi, 's': se, 'ms': ms}
                ok = all(abs(full[x] - got.get(x, 0)) < 1e-6 or x not in got and left[x] in zeros for x in full) and set(got) <= set(full)
            ctx.expect(ok, 'notation-text', name, 'written as %s; path: %s' % (show(t), show_facts(p.facts)), f)
            continue
        xs = list(t[1]) if t[0] == 'str' else []
        want = [('spec', h, '02d'), K(':'), ('spec', mi, '02d'), K(':'), ('spec', se, '02d')]
        with_ms = want + [K('.'), ('spec', ms, '03d')]
        got = [modular(x) for x in xs]
        got = [('spec', hours_norm(x[1], h), x[2]) if x[0] == 'spec' else x for x in got]
        ok = got == with_ms or got == want and ms in zeros
        ctx.expect(ok, 'notation-text', name, 'written as %s; path: %s' % (show(t), show_facts(p.facts)), f)


UNIT_MS = {'h': 3600000, 'm': 60000, 's': 1000, 'ms': 1}


def hours_norm(x, h):
    flat = linear(x)
    return h if flat == linear(h) else x


def linear_parts(t, h, mi, se, ms):
    """coefficients of hours, minutes, seconds, milliseconds"""
    l = dict(linear(t))
    out = {}
    hs = linear(h)
    for n, x in (('m', mi), ('s', se), ('ms', ms)):
        if x in l:
            out[n] = l.pop(x)
    ks = {l.get(x, 0) / k for x, k in hs.items()}
    if len(ks) == 1 and ks != {0}:
        out['h'] = ks.pop()
        for x in hs:
            l.pop(x)
    for x, k in l.items():
        out[x] = k
    return out


def retiming(ctx):
    f = ctx.prog.func('node.delay:update_children_timing')
    ctx.need(len(f.params) == 3, 'arguments of update_children_timing')
    el, tb, delay = (('p', x) for x in f.params)
    it = ('it', ('call', ('bm', el, 'orderedContent'), (), ()), 0)
    child = ('attr', it, 'value')
    shift = {delay: 1000}

    def plain(facts):
        """getattr(x, 'a', None) as x.a; None when an attribute that is missing has been read"""
        out = {}
        for q, v in facts.items():
            for s in subterms(q):
                if s[0] == 'getattr' and len(s) == 4 and s[2][0] == 'k' and s[3] == NONE:
                    q = subst(q, s, ('attr', s[1], s[2][1]))
            out[q] = v
        for q, v in out.items():
            if q[0] == 'hasattr' and not v:
                a = ('attr', q[1], q[2][1] if isinstance(q[2], tuple) else q[2])
                if any(r[0] != 'hasattr' and mentions(r, a) and not (r == ('isnone', a) and y and ('isnone', a) not in facts)
                       for r, y in out.items()):
                    return None
        return out

    def has(x, a, facts):
        if any(q[0] == 'hasattr' and q[1] == x and a in (q[2], q[2][1] if isinstance(q[2], tuple) else None) and not v
               for q, v in facts.items()):
            return False
        return Present(('attr', x, a)).ev(facts)

    def stores(p, x, a):
        return [e for e in p.events if e.kind == 'store' and e.recv == x and e.name == a]

    def moved(rule, p, x, a, base, fn, b):
        es = stores(p, x, a)
        ok = len(es) == 1 and es[0].value[0] == 'new' and es[0].value[1].rpartition('.')[2] == BASES[b] and len(es[0].value[3]) == 1
        # the delay counts to the millisecond
        ok = ok and not any(x[0] == 'call' and x[1] in (('ext', 'int'), ('ext', 'round'), ('ext', 'math.floor'), ('ext', 'math.ceil')) and
                            mentions(x, delay) for x in subterms(es[0].value[3][0]))
        got = linear(es[0].value[3][0]) if ok else None
        want = dict(shift)
        if base:
            want[td(('attr', x, a))] = 1.0
        ctx.expect(ok and near(got, want), rule, '%s/%s/%s' % (fn.short if hasattr(fn, 'short') else fn.name, a, b),
                   'is set to %s; path: %s' % (show(es[0].value[3][0]) if ok else [show(e.value) for e in es], show_facts(p.facts)), fn)
    ps = ctx.walker(opaque={'timedelta', 'as_timedelta', 'from_timedelta'}, noexc=True).run(f, None)
    ctx.account(ctx.walker(), ps)
    n = 0
    typed = lambda x, facts: [q for q, v in facts.items() if q[0] in ('hasattr', 'isinst') and q[1] == x and v]
    for p in ps:
        facts = plain(p.facts)
        if facts is None:
            continue
        # text and other content has neither times nor content of its own
        if any(e.kind == 'call' and e.name == 'orderedContent' and e.recv == el for e in p.events):
            ctx.expect(typed(el, p.facts), 'retime-element', 'content', 'fails for content that is not an element', f)
        for a in ('begin', 'end', 'dur'):
            if any(mentions(q, ('attr', child, a)) for q in p.facts if q[0] != 'hasattr'):
                ctx.expect(typed(child, p.facts), 'retime-element', 'typed/' + a, 'fails for children without %s; path: %s' % (
                    a, show_facts(p.facts)), f)
        if not any(e.kind == 'loop' and base_iter(e.value) == it[1] for e in p.events):
            if p.kind == 'return' and any(e.kind == 'loopend' for e in p.events):
                continue
            ok = any(q[0] == 'hasattr' and q[1] == el and not v for q, v in p.facts.items())
            ctx.expect(ok, 'retime-element', 'children', 'the children of an element are not treated; path: %s' % show_facts(p.facts), f)
            continue
        n += 1
        hb, he, hd = (has(child, a, facts) for a in ('begin', 'end', 'dur'))
        bases = [b for b in BASES if eq(tb, K(b)).ev(p.facts) is True]
        rec = [e for e in p.events if e.kind == 'call' and e.name == f.name]
        if hb is None or he is None:
            ctx.bad('retime-element', 'examined', 'begin or end of an element is not examined; path: %s' % show_facts(p.facts), f)
            continue
        if p.kind != 'return' or not any(e.kind == 'loopend' and e.name == 1 for e in p.events):
            ctx.bad('retime-element', 'rest', 'the remaining elements are not treated; path: %s' % show_facts(p.facts), f)
        for a, there in (('begin', hb), ('end', he), ('dur', hd is True and not hb)):
            if there and bases and bases[0] != 'smpte':
                moved('retime-element', p, child, a, True, f, bases[0])
            elif there and not bases:
                known = [b for b in ('clock', 'media') if eq(tb, K(b)).ev(p.facts) is False]
                ctx.expect(len(known) == 2, 'retime-element', a, 'is not moved; path: %s' % show_facts(p.facts), f)
            elif not there:
                ctx.expect(not stores(p, child, a), 'retime-element', a + '/absent', 'is set although %s; path: %s' % (
                    'the element has none' if a != 'dur' else 'it counts from a begin that is moved', show_facts(p.facts)), f)
        if hd is None and not hb and bases:
            ctx.bad('retime-element', 'dur', 'a duration that counts from the availability time is not extended; path: %s' %
                    show_facts(p.facts), f)
        if hb:
            ctx.expect(not rec, 'retime-element', 'relative', 'times relative to a begin that is moved are moved again; path: %s' %
                       show_facts(p.facts), f)
        else:
            ok = len(rec) == 1 and [arg_of(ctx, rec[0], f, x) for x in f.params] == [child, tb, delay]
            ctx.expect(ok, 'retime-element', 'descend', 'the content of an element without begin is not treated with the same delay; '
                       'path: %s' % show_facts(p.facts), f)
    ctx.some(n, 'retime-element', 'iteration', 'the children of an element are not treated', f)
    # body
    g = ctx.prog.func('node.delay:update_body_timing')
    bd, tb, delay = (('p', x) for x in g.params)
    shift = {delay: 1000}
    w = ctx.walker(opaque={'timedelta', 'as_timedelta', 'from_timedelta'}, noexc=True)
    ps = w.run(g, None)
    ctx.account(w, ps)
    for p in ps:
        if p.kind != 'return':
            continue
        bases = [b for b in ('clock', 'media') if eq(tb, K(b)).ev(p.facts) is True]
        facts = plain(p.facts)
        if facts is None:
            continue
        he = has(bd, 'end', facts)
        if not bases:
            continue
        moved('retime-body', p, bd, 'begin', False, g, bases[0])
        if he:
            moved('retime-body', p, bd, 'end', True, g, bases[0])
        else:
            ctx.expect(he is False and not stores(p, bd, 'end'), 'retime-body', 'end/absent', 'an end is not examined or made up', g)
        ctx.expect(not stores(p, bd, 'dur'), 'retime-body', 'dur', 'the duration counts from the begin already', g)
    # choice
    c = ctx.prog.cls('node.delay:RetimingDelayNode')
    m = ctx.prog.find_method(c, 'process_document')
    fixed = ctor_attr(ctx, c, 'fixed_delay')
    doc = ('p', m.params[1])
    emitted = 0
    for p in ctx.walk(c, m, noexc=True, opaque={f.name, g.name, 'has_a_leaf_with_no_timing_path', 'is_document', 'check_if_document_seen',
                                               'limit_sequence_to_one', 'validate'}):
        ems = [e for e in p.events if e.kind == 'call' and e.name == 'emit_data']
        isdoc = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and 'is_document' in show(a[1])]
        if not ems or not isdoc or not isdoc[0]:
            continue
        emitted += 1
        ups = [(e, e.name == g.name) for e in p.events if e.kind == 'call' and e.name in (f.name, g.name)]
        fact = [(a, v) for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and
                'has_a_leaf_with_no_timing_path' in show(a[1])]
        if len(ups) != 1 or len(fact) != 1:
            ctx.bad('retime-choice', 'once', 'the times of an emitted document are moved %d times' % len(ups), m)
            continue
        e, isbody = ups[0]
        body = ('attr', ('attr', doc, 'binding'), 'body')
        fn = g if isbody else f
        args = [arg_of(ctx, e, fn, x) for x in fn.params]
        roots = [body] if isbody else [('attr', doc, 'binding')]
        tbs = [('attr', doc, 'time_base'), ('attr', ('attr', doc, 'binding'), 'timeBase')]
        tree = [('attr', doc, '_ebutt3_content')]
        ctx.expect(isbody is fact[0][1], 'retime-choice', fn.name, 'is applied %s content without begin' % ('without' if isbody else 'to'), e)
        root_ok = args[0] in roots or args[0][0] == 'attr' and (args[0][1] if isbody else args[0]) in tree
        ctx.expect(root_ok and (args[1] in tbs or args[1][0] == 'attr' and args[1][2] == 'timeBase') and args[2] == fixed,
                   'retime-choice', fn.name + '/arguments', 'is applied to %s' % [show(a) for a in args], e)
        ctx.expect(e.idx < ems[0].idx, 'retime-choice', fn.name + '/order', 'the document is emitted before it is moved', e)
        val = [x for x in p.events if x.kind == 'call' and x.name == 'validate' and x.recv == doc]
        ctx.expect(any(e.idx < x.idx < ems[0].idx for x in val), 'retime-choice', fn.name + '/computed',
                   'a moved document is emitted with the computed times it had before', e)
    ctx.need(emitted, 'emission of a retimed document')
    # search
    h = ctx.prog.func('node.delay:has_a_leaf_with_no_timing_path')
    finder = ctx.prog.cls('node.delay:UntimedPathFinder')
    pe = ctx.prog.find_method(finder, '_process_element')
    flags = {e.name for p in ctx.walk(finder, pe, noexc=True) for e in p.events if e.kind == 'store' and e.recv == SELF and e.value == TRUE}
    if not ctx.some(len(flags) == 1, 'retime-search', 'flag', 'finding untimed content is kept in %s' % (sorted(flags) or 'nothing'), pe):
        return
    flag = ('attr', SELF, flags.pop())
    got = accessor(ctx, finder, 'path_found') if ctx.prog.find_prop(finder, 'path_found') else flag
    ctx.expect(got == flag, 'retime-search', 'flag', 'the result of the search is %s' % show(got), pe)
    init = ctx.prog.find_method(finder, '__init__')
    for p in ctx.walk(finder, init, noexc=True):
        held = p.heap.get((SELF, flag[2]))
        if held is None:
            at = ctx.prog.find_attr(finder, flag[2])
            held = FALSE if at is not None and getattr(at[1], 'value', True) in (False, None) else NONE if at is None else TRUE
        ctx.expect(p.kind == 'return' and held in (FALSE, NONE), 'retime-search', 'flag/first', 'a search starts as if it had found something', init)
        ctx.expect(any(v == ('p', init.params[1]) for (o, n), v in p.heap.items() if o == SELF), 'retime-search', 'start/root',
                   'the search does not cover the element', init)
    import ast as _ast
    ctx.expect('TimingValidationMixin' in _ast.dump(init.node) or 'TimingValidationMixin' in _ast.dump(pe.node), 'retime-search', 'start/filter',
               'the search looks for times of elements that have none', init)
    w = ctx.walker(opaque={'proceed'}, noexc=True)
    ps = w.run(h, None)
    ctx.account(w, ps)
    for p in ps:
        pr = [e for e in p.events if e.kind == 'call' and e.name == 'proceed']
        ok = len(pr) == 1 and isinstance(pr[0].recv, tuple) and pr[0].recv[0] == 'new' and (
            ('p', h.params[0]) in pr[0].recv[3] + tuple(x for _, x in pr[0].recv[4]))
        ctx.expect(ok, 'retime-search', 'start', 'the search does not cover the element', h)
        if ok:
            got = p.ret
            if got in (TRUE, FALSE):        # decided by a test of it
                got = next((a[1] for a, v in p.facts.items() if a[0] == 'truthy' and v is (p.ret == TRUE)), got)
            while got and got[0] == 'call' and got[1] == ('ext', 'bool') and got[2]:
                got = got[2][0]
            ctx.expect(got == ('attr', pr[0].recv, flag[2]), 'retime-search', 'result', 'the result of the search is not given', h)
    value = ('p', 'value')
    ups = {}
    for m2 in ('_before_element', '_after_element', '_process_element'):
        fn = ctx.prog.find_method(finder, m2)
        for p in ctx.walk(finder, fn, noexc=True):
            hb = Present(('attr', value, 'begin')).ev(p.facts)
            app = [e for e in p.events if e.kind == 'call' and e.name in ('append', 'pop')]
            if m2 == '_process_element':
                leaf = [v for a, v in p.facts.items() if a[0] == 'truthy' and 'is_timed_leaf' in show(a[1])]
                found = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.name == flag[2]]
                stack = ups.get('_before_element')
                ctx.need(stack is not None, 'stack of timed elements')
                empty = Not(truthy(stack)).ev(p.facts)
                if found:
                    ctx.expect(found[0].value == TRUE and leaf == [True] and empty is True, 'retime-search', 'found',
                               'an element is taken for untimed content; path: %s' % show_facts(p.facts), fn)
                else:
                    ctx.expect(leaf == [False] or empty is False, 'retime-search', 'missed', 'untimed content is overlooked; path: %s' %
                               show_facts(p.facts), fn)
            elif p.kind != 'return':
                ctx.expect(p.facts.get(('truthy', flag)) is True or p.facts.get(('eq', flag, TRUE)) is True, 'retime-search', m2.strip('_') + '/ended',
                           'the search ends before anything is found; path: %s' % show_facts(p.facts), fn)
            else:
                want = 'append' if m2 == '_before_element' else 'pop'
                if hb is True:
                    ok = len(app) == 1 and app[0].name == want
                    if ok:
                        ups[m2] = app[0].recv
                else:
                    ok = hb is False and not app
                ctx.expect(ok, 'retime-search', m2.strip('_'), 'the enclosing begins are not counted; path: %s' % show_facts(p.facts), fn)
    ctx.expect(ups.get('_before_element') == ups.get('_after_element'), 'retime-search', 'stack', 'the counted begins are not removed', finder)
    stack = ups.get('_before_element')
    if stack is not None and stack[0] == 'attr':
        ctx.expect(all(p.heap.get((stack[1], stack[2]), NONE)[0] in ('lst', 'new', 'call') for p in ctx.walk(finder, init, noexc=True)),
                   'retime-search', 'stack/own', 'a search counts with the elements of another one', init)
