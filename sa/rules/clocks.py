# -*- coding: utf-8 -*-
"""Clocks: what they read, fixed time, media time, and which one is chosen."""
from ..core import *
from ..schema import simple_types
from .contract import getter

BASE = 'clocks.base:Clock'
NOW = {'now', 'utcnow', 'today', 'time', 'localtime', 'gmtime', 'fromtimestamp', 'utcfromtimestamp', 'monotonic', 'clock'}
LOCAL = {'datetime.datetime.now', 'datetime.datetime.today'}
UTC = {'datetime.datetime.utcnow'}
DAY = {'hour': 3600 * 10 ** 6, 'minute': 60 * 10 ** 6, 'second': 10 ** 6, 'microsecond': 1}
UNITS = dict(days=86400 * 10 ** 6, seconds=10 ** 6, microseconds=1, milliseconds=1000, minutes=60 * 10 ** 6, hours=3600 * 10 ** 6,
             weeks=7 * 86400 * 10 ** 6)
POS = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')


def lin(t, k=1):
    """a duration or number as {term: factor}, in microseconds for durations; the factor of () is a constant"""
    out = {}

    def add(d, k=1):
        for x, c in d.items():
            out[x] = out.get(x, 0) + c * k
    if t[0] == 'k' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {(): t[1] * k} if t[1] else {}
    if t[0] == 'call' and t[1] == ('ext', 'datetime.timedelta') and not any(x[0] == 'star' for x in t[2]):
        for u, x in list(zip(POS, t[2])) + list(t[3]):
            if u not in UNITS:
                return {t: k}
            add(lin(x), UNITS[u] * k)
        return {x: c for x, c in out.items() if c}
    if t[0] == 'bin' and t[1] in '+-':
        add(lin(t[2]), k)
        add(lin(t[3]), k if t[1] == '+' else -k)
        return {x: c for x, c in out.items() if c}
    if t[0] == 'bin' and t[1] == '*':
        a, b = lin(t[2]), lin(t[3])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {()}:
                add(y, k * x.get((), 0))
                return {x: c for x, c in out.items() if c}
    return {t: k}


def reading(t):
    """('local'|'utc', base) of the call that reads the clock"""
    while t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][2] in ('time', 'timetz') and not t[2]:
        t = t[1][1]
    if t[0] == 'call' and isinstance(t[1], tuple) and not t[2] and not t[3]:
        n = t[1][1] if t[1][0] == 'ext' else t[1][1][1] + '.' + t[1][2] if t[1][0] == 'bm' and t[1][1][0] == 'ext' else None
        return ('local' if n in LOCAL else 'utc' if n in UTC else None), t
    return None, t


def time_of_day(d):
    """(clock, problem) of a linear form that should be one reading of the time of day"""
    base, kinds, got = set(), set(), {}
    for x, c in d.items():
        if x != () and x[0] == 'attr' and x[2] in DAY:
            k, b = reading(x[1])
            base.add(b)
            kinds.add(k)
            got[x[2]] = got.get(x[2], 0) + c
        elif x != () and reading(x)[0] and c == 1:
            # now - now.replace(hour=0, ...)
            k, b = reading(x)
            zero = [y for y in d if y != () and y[0] == 'call' and isinstance(y[1], tuple) and y[1][0] == 'bm' and y[1][2] == 'replace' and
                    reading(y[1][1]) == (k, b) and d[y] == -1 and dict(y[3]) == {n: K(0) for n in DAY} and not y[2]]
            if len(zero) == 1 and len(d) == 2:
                return k, None
            return None, 'the time is %s' % show(x)
        elif x == () or x[0] != 'call' or x[1][0] != 'bm' or x[1][2] != 'replace':
            return None, 'the time is made of %s' % ('a constant' if x == () else show(x))
    if len(base) > 1:
        return None, 'the time is put together from %d readings of the clock' % len(base)
    if got != DAY:
        odd = [n for n in DAY if got.get(n) != DAY[n]]
        return None, 'the %s of the time %s' % (odd[0], 'is missing' if odd[0] not in got else 'counts wrong')
    return kinds.pop(), None


def clocks(ctx):
    b = ctx.prog.cls(BASE)
    out = [c for c in ctx.prog.classes if c is not b and b in ctx.prog.mro(c)]
    ctx.need(len(out) >= 3, 'clocks')
    return b, out


def kind_of(ctx, c):
    out = []
    for n in ('time_base', 'clock_mode'):
        ts = getter(ctx, c, n)[0]
        t = ts.pop() if len(ts) == 1 else None
        if t is not None and t[0] == 'attr' and t[1] == SELF:
            a = ctx.prog.find_attr(c, t[2])
            if a is not None:
                v = ctx.walker(types={SELF: c}).static_value(a[0].mod, a[1], a[0])
                t = v if v is not None else t
        out.append(t[1] if t is not None and t[0] == 'k' else None if t == NONE else t)
    return tuple(out)


def returned(ctx, c, name, **o):
    f = ctx.prog.find_method(c, name)
    if f is None:
        ctx.bad('time', '%s.%s' % (c.name, name), 'the clock can not be read', c)
        return None, []
    w = ctx.walker(types={SELF: c}, noexc=True, impure=NOW, **o)
    ps = w.run(f, c)
    ctx.account(w, ps)
    return f, ps


@check('C30')
def c30(ctx):
    ctx.rule('chosen', 'the clock for a time base and clock mode, or for a document, is one of that time base and mode')
    ctx.rule('time', 'the local and the UTC clock read the time of day once, completely and each in its own time zone')
    ctx.rule('fixed', 'in fixed-time mode a clock gives exactly the time set, otherwise the real time')
    ctx.rule('refused', 'nothing but a duration is taken as a time, nothing but a truth value as the mode; valid ones are not refused')
    ctx.rule('media', 'media time is the time set plus the local time that passed since')
    base, subs = clocks(ctx)
    kinds = {c.qualname: kind_of(ctx, c) for c in subs}
    chosen(ctx, subs, kinds)
    real = [c for c in subs if kinds[c.qualname][0] == 'clock']
    ctx.need(len(real) >= 2, 'real time clocks')
    for c in real:
        f, ps = returned(ctx, c, 'get_real_clock_time')
        for p in ps:
            if p.kind != 'return':
                ctx.bad('time', c.name, 'reading the clock fails', f)
                continue
            k, why = time_of_day(lin(p.ret)) if p.ret is not None else (None, 'there is no time')
            ctx.expect(why is None, 'time', c.name, why or '', f)
            ctx.expect(why is not None or k == kinds[c.qualname][1], 'time', c.name + '/zone', 'the %s clock reads the %s time' % (
                kinds[c.qualname][1], k), f)
    for c in subs:
        fixed(ctx, c)
    media(ctx, [c for c in subs if kinds[c.qualname][0] != 'clock'])


def agrees(facts, vals):
    """can the path be taken with these values of terms?"""
    for a, v in facts.items():
        if a[0] in ('eq', 'in', 'truthy', 'isnone'):
            got = ev(a, vals)
            if got is not None and got != v:
                return False
    return True


def ev(a, vals):
    def val(t):
        if t in vals:
            return True, vals[t]
        if t[0] == 'k':
            return True, t[1]
        return False, None
    if a[0] == 'eq':
        x, y = val(a[1]), val(a[2])
        return x[1] == y[1] if x[0] and y[0] else None
    if a[0] == 'in' and len(a) > 2:
        x = val(a[1])
        if x[0] and a[2][0] in ('tup', 'lst'):
            ys = [val(y) for y in (a[2][1] if a[2][0] == 'tup' else a[2][2])]
            return any(y[1] == x[1] for y in ys) if all(y[0] for y in ys) else None
        return None
    x = val(a[1])
    return None if not x[0] else bool(x[1]) if a[0] == 'truthy' else x[1] is None


def chosen(ctx, subs, kinds):
    f = ctx.prog.func('clocks:get_clock')
    d = ctx.prog.func('clocks:get_clock_from_document')
    bases = [x for n, (_, e) in simple_types(ctx).items() if n == 'timeBaseType' for x in e]
    ctx.need(set(bases) >= {'clock', 'media'}, 'time bases of the schema')
    cases = [('clock', m) for m in ('local', 'utc', 'gps')] + [(b, None) for b in bases if b != 'clock']
    tb = ('p', f.params[0])
    for what, fn in (('parameters', f), ('document', d)):
        doc = ('p', fn.params[0])
        w = ctx.walker(noexc=True)
        rest = ('p', '**kwargs')
        args = None
        ps = w.run(fn, None, args)
        ctx.account(w, ps)
        terms = {t for p in ps for a in p.facts for t in subterms(a)}
        if what == 'parameters':
            bt = {t for t in terms if t == tb}
            mt = {t for t in terms if t == ('p', 'clock_mode') or t[0] == 'sub' and t[2] == K('clock_mode') or t[0] == 'call' and
                  isinstance(t[1], tuple) and t[1][0] == 'bm' and t[1][2] == 'get' and t[2][:1] == (K('clock_mode'),)}
        else:
            bt = {t for t in terms if t == ('attr', doc, 'time_base')}
            mt = {t for t in terms if t == ('attr', doc, 'clock_mode')}
        for b, m in cases:
            vals = {t: b for t in bt}
            vals.update({t: m for t in mt})
            hit = [p for p in ps if agrees(p.facts, vals)]
            name = '%s/%s%s' % (what, b, '/' + m if m else '')
            ctx.some(hit, 'chosen', name, 'no clock is chosen', fn)
            for p in hit:
                t = p.ret
                k = kinds.get(t[1]) if p.kind == 'return' and t is not None and t[0] == 'new' else None
                none = p.kind == 'return' and t in (None, NONE)
                ctx.expect(k is not None and k[0] == b and (m is None or k[1] == m), 'chosen', name + ('/none' if none else ''), 'the clock for time base %s%s is %s' % (
                    b, ' and clock mode ' + m if m else '', show(t) if p.kind == 'return' and t else 'an error'), fn)
        for p in ps:
            # nothing else decides
            for a in p.facts:
                odd = [t for t in subterms(a) if t[0] == 'p' and t not in bt and not any(mentions(x, t) for x in mt | bt)]
                ctx.expect(not odd, 'chosen', what, 'the clock depends on %s' % (show(odd[0]) if odd else ''), fn)


def fixed(ctx, c):
    n = c.name
    st = ctx.prog.find_method(c, 'set_fixed_time')
    sm = ctx.prog.find_method(c, 'set_fixed_time_mode')
    if st is None or sm is None:
        ctx.bad('fixed', n, 'the time can not be fixed', c)
        return
    kept = {}
    for f, typ, ok in ((st, ('ext', 'datetime.timedelta'), 'time'), (sm, ('ext', 'bool'), 'mode')):
        v = ('p', f.params[1])
        w = ctx.walker(types={SELF: c}, noexc=True)
        ps = w.run(f, c)
        ctx.account(w, ps)
        for p in ps:
            isit = [val for a, val in p.facts.items() if a[0] == 'isinst' and a[1] == v and typ in (a[2], ) or a[0] == 'isinst' and
                    a[1] == v and a[2][0] == 'tup' and a[2][1] == (typ,)]
            if p.kind != 'return':
                ctx.expect(False in isit, 'refused', n + '/' + ok, 'a valid %s is refused' % ok, f)
                continue
            ctx.expect(True in isit, 'refused', n + '/' + ok, 'anything is taken as the %s' % ok, f)
            names = [a[1] for a, x in p.heap.items() if isinstance(a, tuple) and a[0] == SELF and x == v]
            ctx.expect(len(names) == 1, 'fixed', n + '/' + ok, 'the %s given is not kept' % ok, f)
            ctx.expect(sum(e.kind == 'store' for e in p.events) <= 1, 'fixed', n + '/' + ok, 'setting the %s changes more than that' % ok, f)
            if names:
                kept[ok] = names[0]
        ctx.some(any(p.kind == 'return' for p in ps), 'fixed', n + '/' + ok, 'the %s can not be set' % ok, f)
    if len(kept) < 2:
        return
    t, m = ('attr', SELF, kept['time']), ('attr', SELF, kept['mode'])
    q = ctx.prog.find_method(c, 'is_fixed_time_mode')
    if q is not None:
        for p in ctx.walker(types={SELF: c}, noexc=True).run(q, c):
            ctx.expect(p.kind == 'return' and (p.ret == m or p.ret == ('bool', ('truthy', m), True) or p.ret == K(implied(('truthy', m), p.facts))),
                       'fixed', n + '/reported', 'the mode reported is %s' % (show(p.ret) if p.ret else None), q)
    _, real = returned(ctx, c, 'get_real_clock_time')
    reals = [p.ret for p in real if p.kind == 'return']
    f, ps = returned(ctx, c, 'get_time')
    seen = set()
    for p in ps:
        on = implied(('truthy', m), p.facts)
        if on is None:
            on = {True: True, False: False}.get(next((v for a, v in p.facts.items() if a[0] == 'eq' and set(a[1:]) == {m, TRUE} or
                                                      a == ('is', m, TRUE)), None))
        if on is None:
            ctx.bad('fixed', n, 'the time is %s whatever the mode' % (show(p.ret) if p.ret else None), f)
            continue
        seen.add(on)
        ctx.expect(p.kind == 'return' and (p.ret == t if on else p.ret in reals), 'fixed', n + ('/on' if on else '/off'),
                   'the time is %s' % (show(p.ret) if p.ret else None), f)
    ctx.expect(seen == {True, False}, 'fixed', n, 'the mode has no effect', f)


def media(ctx, cs):
    TD = ('ext', 'datetime.timedelta')
    ctx.need(cs, 'media clock')
    for c in cs:
        n = c.name
        adj = ctx.prog.find_method(c, 'adjust_time')
        get = ctx.prog.find_method(c, 'get_media_time')
        if adj is None or get is None or len(adj.params) < 3:
            ctx.bad('media', n, 'media time can not be adjusted or calculated', c)
            continue
        cur, loc = ('p', adj.params[1]), ('p', adj.params[2])
        w = ctx.walker(types={SELF: c}, noexc=True, impure=NOW)
        ps = w.run(adj, c)
        ctx.account(w, ps)
        given = missing = 0
        for p in ps:
            bad = [x for x in (cur, loc) if any(a[0] == 'isinst' and a[1] == x and v is False for a, v in p.facts.items())]
            none = p.facts.get(('isnone', loc))
            if p.kind != 'return':
                ctx.expect(bad and not (bad == [loc] and none), 'refused', n + '/adjust', 'a valid time is refused; path: ' +
                           show_facts(p.facts), adj)
                continue
            ctx.expect(not bad, 'refused', n + '/adjust', 'something that is no time is taken; path: ' + show_facts(p.facts), adj)
            for x in (cur, loc):
                ctx.expect(any(a[0] == 'isinst' and a[1] == x and v for a, v in p.facts.items()) or x == loc and none, 'refused', n +
                           '/adjust', 'anything is taken as a time; path: ' + show_facts(p.facts), adj)
            if none is None:
                ctx.bad('media', n + '/adjust', 'whether a local time is given makes no difference', adj)
                continue
            heap = {k: v for k, v in p.heap.items() if isinstance(k, tuple) and k[0] == SELF}
            x = ('p', get.params[1])
            after = affine(ctx, c, 'media', n + '/calculated', get, heap)
            for d in after:
                d = dict(d)
                rest = {k: v for k, v in d.items() if k not in (x, cur)}
                ctx.expect(d.get(x) == 1 and d.get(cur) == 1, 'media', n + '/calculated', 'media time is not the time set plus the time '
                           'that passed: ' + forms(d), get)
                if none:
                    missing += 1
                    k, why = time_of_day({a: -v for a, v in rest.items()})
                    ctx.expect(why is None and k == 'local', 'media', n + '/adjust', 'without a local time media time counts from %s' % (
                        why or 'the %s time' % k), adj)
                else:
                    given += 1
                    ctx.expect(rest == {loc: -1}, 'media', n + '/adjust', 'media time counts from %s instead of the local time given' %
                               forms(rest), adj)
            if none:
                continue
            rd = ctx.prog.find_method(c, 'get_real_clock_time')
            for d in affine(ctx, c, 'media', n + '/now', rd, heap):
                rest = {k: v for k, v in d.items() if k not in (loc, cur)}
                ctx.expect(d.get(cur) == 1 and d.get(loc) == -1, 'media', n + '/now', 'media time is not the time set plus the time that '
                           'passed: ' + forms(d), rd)
                k, why = time_of_day(rest)
                ctx.expect(why is None and k == 'local', 'media', n + '/now', why or 'media time passes with the %s time' % k, rd)
                if why is None:
                    ctx.bad('media', n + '/midnight', 'the time that passed is the difference of two times of day, which falls back at '
                            'midnight', rd)
        ctx.some(given, 'media', n + '/given', 'media time can not be tied to a local time', adj)
        ctx.some(missing, 'media', n + '/missing', 'media time can not be tied to the current time', adj)
        # a new clock starts
        init = ctx.prog.find_method(c, '__init__')
        ctx.need(init is not None, n + '.__init__')
        k = 0
        for p in ctx.walker(types={SELF: c}, noexc=True, impure=NOW).run(init, c):
            if p.kind != 'return':
                odd = [a for a, v in p.facts.items() if a[0] == 'isinst' and v is False and a[1][0] == 'call' and a[1][1] == TD]
                ctx.expect(odd, 'media', n + '/new', 'a clock can not be made; path: ' + show_facts(p.facts), init)
                continue
            heap = {a: v for a, v in p.heap.items() if isinstance(a, tuple) and a[0] == SELF}
            for d in affine(ctx, c, 'media', n + '/new', get, heap):
                k += 1
                rest = {a: -v for a, v in d.items() if a != x}
                kind, why = time_of_day(rest)
                ctx.expect(d.get(x) == 1 and why is None and kind == 'local', 'media', n + '/new', 'media time does not start at zero '
                           'when a clock is made: ' + forms(d), init)
        ctx.some(k, 'media', n + '/new', 'a new clock has no time', init)


def affine(ctx, c, rule, construct, f, heap):
    out = []
    w = ctx.walker(types={SELF: c}, noexc=True, impure=NOW, heap=heap)
    for p in w.run(f, c):
        if p.kind != 'return' or p.ret is None:
            ctx.bad(rule, construct, 'calculating media time fails', f)
            continue
        out.append(lin(p.ret))
    return out


def forms(d):
    return ' '.join('%+g*%s' % (v, show(k) if k else '1') for k, v in sorted(d.items(), key=repr))
