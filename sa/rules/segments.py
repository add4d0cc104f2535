# -*- coding: utf-8 -*-
"""C28: segments of documents and sequences hold what is active in the requested range, and consecutive segments leave no gaps."""
from ..core import *
from ..schema import bindings
from .copying import ran
from .documents import accessor
from .sequence import decide
from .timing import BASES

BINDINGS = 'ebu_tt_live.bindings'
TRI = {True: 1, False: 0}


def feasible(p):
    """no container the path found empty had anything in it"""
    for a, v in p.facts.items():
        if a[0] != 'truthy' or v:
            continue
        t = a[1]
        if t[0] == 'call' and t[1] == ('ext', 'len') and t[2]:
            t = t[2][0]
        changed = [e for e in p.events if e.kind == 'call' and e.recv == t]
        if t[0] == 'lst' and changed and all(e.name in ('append', 'insert') for e in changed):
            return False
        if any(e.kind == 'loop' and e.value == t for e in p.events) and t[0] != 'lst':
            return False
    return True


class Facts(object):
    def __init__(self, facts):
        self.facts = facts


def isnone(p, t):
    if t == NONE:
        return True
    v = p.facts.get(('isnone', t))
    if v is not None:
        return v
    if p.facts.get(('truthy', t)) is True:
        return False
    return None


def before(p, a, b):
    """whether a < b on the path: True, False or None (open)"""
    if a == b:
        return False
    v = p.facts.get(('lt', a, b))
    if v is not None:
        return v
    if p.facts.get(('lt', b, a)) is True or p.facts.get(('eq', a, b)) is True or p.facts.get(('eq', b, a)) is True:
        return False
    if p.facts.get(('lt', b, a)) is False and (p.facts.get(('eq', a, b)) is False or p.facts.get(('eq', b, a)) is False):
        return True
    return None


def no(v):
    return None if v is None else not v


def any3(*vs):
    return True if True in vs else None if None in vs else False


def all3(*vs):
    return False if False in vs else None if None in vs else True


def not_after(p, a, b):
    """a <= b"""
    return no(before(p, b, a))


def latest(p, v, a, b):
    """v is the later of a and b"""
    for x, y in ((a, b), (b, a)):
        if v == ('call', ('ext', 'max'), (x, y), ()):
            return True
        if v == x and not_after(p, y, x) is True:
            return True
    return False


def chosen(v, name):
    """the values a minimum or maximum is taken of"""
    if v[0] == 'call' and v[1] == ('ext', name) and not v[3]:
        if len(v[2]) > 1:
            return set(v[2])
        x = v[2][0]
        if x[0] in ('tup', 'lst'):
            return set(x[-1])
        if x[0] == 'comp' and len(x[3]) == 1 and x[3][0][0] in ('tup', 'lst') and x[2][0] == 'it' and x[2][1] == x[3][0] and \
                x[4] == ((('isnone', x[2]), False),):
            return set(x[3][0][-1])
    return None


def nothing_in(p, parts):
    """the path found that all of the values are missing"""
    for a, v in p.facts.items():
        if a[0] == 'truthy' and not v and a[1][0] == 'comp' and chosen(('call', ('ext', 'min'), (a[1],), ()), 'min') == parts:
            return True
    return False


def earliest(p, v, a, b):
    if chosen(v, 'min') == {a, b}:
        return True
    for x, y in ((a, b), (b, a)):
        if v == ('call', ('ext', 'min'), (x, y), ()):
            return True
        if v == x and not_after(p, x, y) is True:
            return True
    return False


def timed(ctx):
    base = ctx.prog.cls('bindings.validation.timing:TimingValidationMixin')
    out = [c for c in ctx.prog.subclasses(base) if c.mod.name == BINDINGS]
    ctx.need(len(out) >= 4, 'timed elements')
    return sorted(out, key=lambda c: c.name)


@check('C28')
def member(ctx):
    ctx.rule('seg-member', 'an element is in a segment unless it ends before or at its begin or begins at or after its end')
    ctx.rule('seg-outside', 'a timed element outside the requested range is left out with everything in it, and no other element is')
    for c in timed(ctx):
        f = ctx.prog.find_method(c, 'is_in_segment')
        ctx.need(f, 'is_in_segment of %s' % c.name)
        cb, ce = accessor(ctx, c, 'computed_begin_time'), accessor(ctx, c, 'computed_end_time')
        b, e = ('p', 'begin'), ('p', 'end')
        w = ctx.walker(types={SELF: c}, noexc=True)

        def spec(p, b, e):
            return all3(any3(isnone(p, b), isnone(p, ce), before(p, b, ce)), any3(isnone(p, e), before(p, cb, e)))
        kinds = set()
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                ctx.bad('seg-member', c.name + '/error', 'the question fails; path: %s' % show_facts(p.facts), f)
                continue
            for facts, got in decide(w, p.ret, p):
                kinds.add(got)
                want = spec(Facts(facts), b, e)
                ctx.expect(want is not None and got == want, 'seg-member', c.name, '%s although %s' % (
                    'inside' if got else 'outside', show_facts(facts)), f)
        ctx.expect({True, False} <= kinds, 'seg-member', c.name + '/cases', 'an element is always %s' % kinds, f)
        # the hook before copying
        g = ctx.prog.find_method(c, '_semantic_before_copy')
        ctx.expect(g is not None, 'seg-outside', c.name, 'nothing is checked before copying', f)
        if g is None:
            continue
        sb, se = ('sub', ('p', 'dataset'), K('segment_begin')), ('sub', ('p', 'dataset'), K('segment_end'))
        seen = set()
        for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), g, c):
            want = spec(p, sb, se)
            name = None if p.exc is None else w.exc_name(p.exc)
            seen.add(p.kind)
            ctx.expect(want is not None and (p.kind == 'return') == want and (p.kind == 'return' or name.endswith('OutsideSegmentError')),
                       'seg-outside', c.name, '%s although %s' % ('copied' if p.kind == 'return' else 'left out with %s' % name, show_facts(p.facts)), g)
        ctx.expect(len(seen) == 2, 'seg-outside', c.name + '/cases', 'the element is always %s' % ('copied' if 'return' in seen else 'left out'), g)


@check('C28')
def clipped(ctx):
    ctx.rule('seg-clip', 'content in a segment has its computed times clipped to the range, in the notation of the document; containers have none')
    ctx.rule('seg-leaf', 'the elements that carry the times are those without timed children; empty containers are left out')
    for c in timed(ctx):
        f = ctx.prog.find_method(c, '_semantic_after_subtree_copy')
        ctx.expect(f is not None, 'seg-clip', c.name, 'the times are not clipped', c.node)
        if f is None:
            continue
        cb, ce = accessor(ctx, c, 'computed_begin_time'), accessor(ctx, c, 'computed_end_time')
        cp, ds = ('p', 'copied_instance'), ('p', 'dataset')
        sb, se, tt = (('sub', ds, K(k)) for k in ('segment_begin', 'segment_end', 'tt_element'))
        w = ctx.walker(types={SELF: c, cp: c}, noexc=True, opaque={
            'is_timed_leaf', 'get_timing_type', 'is_empty', '_semantic_copy_verify_referenced_styles', '_semantic_copy_verify_referenced_region'})
        kinds = set()
        container = ctx.prog.find_method(c, 'is_empty') is not None
        for p in ran(ctx, w, f, c):
            empty = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('bm', cp, 'is_empty')]
            leaf = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('bm', cp, 'is_timed_leaf')]
            if p.kind != 'return':
                name = w.exc_name(p.exc)
                ctx.expect(name.endswith('DiscardElement') and container and empty == [True], 'seg-leaf', c.name + '/dropped',
                           'the copy is dropped with %s; path: %s' % (name, show_facts(p.facts)), f)
                continue
            ctx.expect(not container or empty == [False], 'seg-leaf', c.name + '/kept', 'the copy is kept without looking whether it is empty', f)
            if len(leaf) != 1:
                ctx.bad('seg-clip', c.name + '/leaf', 'the copy is timed whether or not it has timed children', f)
                continue
            kinds.add(leaf[0])
            last = {}
            for e in p.events:
                if e.kind == 'store' and e.recv == cp:
                    last[e.name] = e.value
            if not leaf[0]:
                for n in ('begin', 'end'):
                    ctx.expect(last.get(n) == NONE, 'seg-clip', '%s/container/%s' % (c.name, n), 'a container keeps its %s' % n, f)
                dur = p.facts.get(('hasattr', cp, K('dur')))
                ctx.expect(dur is False or last.get('dur') == NONE, 'seg-clip', c.name + '/container/dur', 'a container keeps its dur', f)
                continue

            def arg(v):
                if v is not None and v[0] == 'call' and v[1] == ('bm', tt, 'get_timing_type'):
                    a = v[2] + tuple(x for _, x in v[3])
                    return a[0] if len(a) == 1 else None
            v = arg(last.get('begin'))
            good = v is not None and (v == cb if isnone(p, sb) is True else isnone(p, sb) is False and latest(p, v, cb, sb))
            ctx.expect(good, 'seg-clip', c.name + '/begin', 'the begin becomes %s; path: %s' % (
                show(last['begin']) if 'begin' in last else 'the one before', show_facts(p.facts)), f)
            v, n1, n2 = arg(last.get('end')), isnone(p, ce), isnone(p, se)
            if v is not None and n1 is None and n2 is None and chosen(v, 'min') == {ce, se}:
                continue
            if n1 is None and n2 is None and last.get('end') == NONE and nothing_in(p, {ce, se}):
                continue
            if n1 is True and n2 is True:
                good = last.get('end') == NONE
            elif n1 is True:
                good = n2 is False and v == se
            elif n2 is True:
                good = n1 is False and v == ce
            else:
                good = n1 is False and n2 is False and v is not None and earliest(p, v, ce, se)
            ctx.expect(good, 'seg-clip', c.name + '/end', 'the end becomes %s; path: %s' % (
                show(last['end']) if 'end' in last else 'the one before', show_facts(p.facts)), f)
        ctx.expect(kinds == {True, False}, 'seg-clip', c.name + '/cases', 'the case of %s is missing' % (
            'an element without timed children' if True not in kinds else 'a container'), f)
        # leaves
        g = ctx.prog.find_method(c, 'is_timed_leaf')
        ctx.expect(g is not None, 'seg-leaf', c.name, 'it is not known whether the element is a leaf', f)
        kids = [a for a in ('body', 'div', 'p', 'span') if a in children_of(ctx, c)]
        if g is not None:
            verdicts = set()
            wl = ctx.walker(types={SELF: c}, noexc=True)
            for p, got in [(Facts(x), v) for q in ran(ctx, wl, g, c) for x, v in (decide(wl, q.ret, q) if q.kind == 'return' else [({}, None)])]:
                verdicts.add(got)
                if got is None:
                    ctx.bad('seg-leaf', c.name + '/leaf', 'asking whether the element is a leaf fails', g)
                elif 'span' in kids:
                    some = [nonempty(p, ('attr', SELF, k)) for k in kids]
                    want = no(any3(*some))
                    ctx.expect(want is not None and want == got, 'seg-leaf', c.name + '/leaf', '%s although %s' % (
                        'a leaf' if got else 'no leaf', show_facts(p.facts)), g)
                else:
                    # body and div always have timed content under them
                    ctx.expect(got is False, 'seg-leaf', c.name + '/leaf', 'a container counts as a leaf', g)
        h = ctx.prog.find_method(c, 'is_empty')
        if h is not None:
            kinds = set()
            wl = ctx.walker(types={SELF: c}, noexc=True)
            for q, facts, got in [(q, x, v) for q in ran(ctx, wl, h, c) for x, v in (
                    decide(wl, q.ret, q) if q.kind == 'return' else [({}, None)])]:
                kinds.add(got)
                if got is None:
                    ctx.bad('seg-leaf', c.name + '/empty', 'asking whether the element is empty fails', h)
                    continue
                p = Facts(facts)
                p.events = q.events
                parts = [k for k in ('div', 'p', 'span', 'br') if k in children_of(ctx, c)]
                some = [nonempty(p, ('attr', SELF, k)) for k in parts]
                if 'span' in parts:
                    some.append(has_text(p))
                want = any3(*some)
                ctx.expect(want is not None and got == (not want), 'seg-leaf', c.name + '/empty', '%s although %s' % (
                    'empty' if got else 'not empty', show_facts(p.facts)), h)
            ctx.expect({True, False} <= kinds, 'seg-leaf', c.name + '/empty/cases', 'an element is always %s' % kinds, h)


def children_of(ctx, c):
    from ..schema import schema_of
    s = schema_of(ctx)
    raw = [n for b in ctx.prog.mro(c) for n in [b.name if isinstance(b, Cls) else str(b).split('.')[-1]]]
    for n in raw:
        try:
            kids = s.children(n)
        except KeyError:
            continue
        if kids:
            return {k.split(':')[-1] if isinstance(k, str) else k[0] for k in kids}
    raise AnalysisError('children of %s' % c.name)


def nonempty(p, t):
    v = p.facts.get(('truthy', t))
    if v is not None:
        return v
    n = ('call', ('ext', 'len'), (t,), ())
    v = p.facts.get(('truthy', n))
    if v is not None:
        return v
    for x in (('eq', n, K(0)), ('eq', K(0), n)):
        if x in p.facts:
            return not p.facts[x]
    for x, r in ((('lt', K(0), n), True), (('lt', n, K(1)), False)):
        if x in p.facts:
            return p.facts[x] is r
    return None


def has_text(p):
    """whether some text item of the element is more than white space"""
    ended = [e for e in p.events if e.kind == 'loopend']
    loops = [e for e in p.events if e.kind == 'loop' and 'orderedContent' in repr(e.value)]
    out = []
    for e in loops:
        it = [a[1] for a in p.facts if a[0] == 'isinst' and 'ElementContent' in repr(a[2]) and mentions(a[1], e.value)]
        if not it:
            out.append(None)
        for x in set(it):
            non = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == x and 'NonElementContent' in repr(a[2])]
            space = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] in (
                ('bm', ('attr', x, 'value'), 'isspace'),)]
            out.append(False if non == [False] else not space[0] if non == [True] and space else None)
    if True in out:
        return True
    if None in out or not (loops or ended):
        return None
    return False if ended or True else None


def plain(t):
    """read events through their attributes"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'attr' and t[2] in ('when', 'element'):
        return ('attr', plain(t[1]), '_' + t[2])
    return tuple(plain(x) for x in t)


@check('C28')
def lookup(ctx):
    ctx.rule('seg-lookup', 'looking up a range finds the elements that begin before its end and do not end by its begin, in order of time')
    c = ctx.prog.cls('documents.ebutt3:TimelineUtilMixin')
    f = ctx.prog.find_method(c, 'lookup_range_on_timeline')
    ctx.need(f, 'lookup on the timeline')
    b, e_ = ('p', 'begin'), ('p', 'end')
    tl = [x for x in ('timeline',) if ctx.prog.find_prop(c, x)]
    ctx.need(tl, 'timeline')
    w = ctx.walker(types={SELF: c}, opaque={'timeline'}, noexc=True, loop=2)
    begin_cls, end_cls = (ctx.prog.cls('documents.ebutt3:' + n).qualname for n in ('TimingEventBegin', 'TimingEventEnd'))
    cases = set()
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            ctx.bad('seg-lookup', 'error', 'the lookup fails; path: %s' % show_facts(p.facts), f)
            continue
        p.facts = {plain(a): v for a, v in p.facts.items()}
        out = p.ret
        src = [e for e in p.events if e.kind == 'call' and e.name == 'irange']
        whole = ('attr', SELF, 'timeline')
        loops = [e for e in p.events if e.kind == 'loop' and mentions(e.value, whole)]
        ends = [e for e in p.events if e.kind == 'loopend' and mentions(e.value, whole)]
        ctx.expect(len(ends) <= 1 and (loops or ends), 'seg-lookup', 'all', 'the timeline is not gone through', f)
        bounded = False
        for e in src:
            mx = kw(e, 'maximum') if kw(e, 'maximum') is not None else e.args[1] if len(e.args) > 1 else NONE
            mn = kw(e, 'minimum') if kw(e, 'minimum') is not None else e.args[0] if e.args else NONE
            ctx.expect(mn == NONE and not kw(e, 'reverse') and not kw(e, 'inclusive'), 'seg-lookup', 'from', 'elements that began earlier are '
                       'passed over', e)
            if mx != NONE:
                when = [x.value for x in p.events if x.kind == 'store' and x.recv == mx] + list(mx[3] if mx[0] == 'new' else ())
                bounded = True
                ctx.expect(e_ in when and isnone(p, e_) is False, 'seg-lookup', 'to', 'the lookup stops at %s' % show(mx), e)
        for i, e in enumerate(loops):
            upto = loops[i + 1].idx if i + 1 < len(loops) else 10 ** 9
            its = [a[1] for a in p.facts if a[0] == 'isinst' and a[1][0] == 'it' and a[1][1] == e.value and a[1][2] == e.name]
            its = set(its)
            here = ('attr', ('it', e.value, e.name), 'when')
            if not its and (before(p, e_, here) is True or before(p, e_, here[:2] + ('_when',)) is True) and isnone(p, e_) is False and i + 1 == len(loops):
                continue        # the rest of the timeline is beyond the range
            if len(its) != 1:
                ctx.bad('seg-lookup', 'kind', 'an event is used whatever its kind', f)
                continue
            it = its.pop()
            isb, ise = p.facts.get(('isinst', it, ('cls', begin_cls))), p.facts.get(('isinst', it, ('cls', end_cls)))
            when, el = ('attr', it, '_when'), ('attr', it, '_element')
            adds = [x for x in p.events if e.idx < x.idx < upto and x.kind == 'call' and x.recv == out and x.name not in ('remove',)]
            rems = [x for x in p.events if e.idx < x.idx < upto and x.kind == 'call' and x.recv == out and x.name == 'remove']
            if isb:
                zero = p.facts.get(('eq', when, e_), p.facts.get(('eq', e_, when)))
                late = no(before(p, when, e_)) if not bounded else any3(zero, no(before(p, when, e_)))
                if isnone(p, e_) is True:
                    if zero is True:
                        continue
                    late = False
                elif zero is False and bounded:
                    late = False
                cases.add('begin')
                ctx.expect(late is not None and len(adds) == (0 if late else 1) and not rems and all(x.name == 'append' and plain(x.args) == (el,) for x in adds),
                           'seg-lookup', 'begin', 'an element beginning in the range is added %d times; path: %s' % (len(adds), show_facts(p.facts)), f)
            elif ise:
                over = all3(no(isnone(p, b)), not_after(p, when, b) if isnone(p, b) is False else None)
                held = p.facts.get(('in', el, out))
                prev = [plain(x.args[0]) for x in p.events if x.idx < e.idx and x.kind == 'call' and x.recv == out and x.name == 'append']
                same = [v for a, v in p.facts.items() if a[0] == 'eq' and el in a[1:]]
                cases.add('end')
                ctx.expect(not adds and over is not None and (not rems or over is True), 'seg-lookup', 'end', 'an element is %s at its end; path: %s' % (
                    'removed' if rems else 'kept', show_facts(p.facts)), f)
                if over is True:
                    known = held is False or not prev or held is None and same and not any(same)
                    ctx.expect(len(rems) == 1 and plain(rems[0].args) == (el,) or not rems and known, 'seg-lookup', 'ended',
                               'an element that ended before the range is kept; path: %s' % show_facts(p.facts), f)
                    if rems:
                        cases.add('removed')
                        ctx.expect(held is True or el in prev or any(same), 'seg-lookup', 'missing', 'an element is removed that may not have been '
                                   'added; path: %s' % show_facts(p.facts), f)
            else:
                ctx.expect(not adds and not rems, 'seg-lookup', 'other', 'an event of another kind changes the result', f)
    ctx.expect({'begin', 'end', 'removed'} <= cases, 'seg-lookup', 'cases', 'the lookup does not handle %s' % sorted(
        {'begin', 'end', 'removed'} - cases), f)


def in_notation(ctx, e, t):
    """the value stored is the time t in the notation of the time base of the document"""
    v = e.value
    if v[0] == 'call' and v[1][0] == 'bm' and v[1][2] == 'get_timing_type':
        return v[2] + tuple(x for _, x in v[3] or ()) == (t,)
    if v[0] != 'new' or v[3] != (t,):
        return False
    name = v[1].rpartition('.')[2]
    yes = {a[2][1] for a, pol in e.facts.items() if a[0] == 'eq' and pol and a[2][0] == 'k' and show(a[1]).endswith(('timeBase', 'time_base'))}
    out = {a[2][1] for a, pol in e.facts.items() if a[0] == 'eq' and not pol and a[2][0] == 'k' and show(a[1]).endswith(('timeBase', 'time_base'))}
    yes |= {a[1][1] for a, pol in e.facts.items() if a[0] == 'eq' and pol and a[1][0] == 'k' and show(a[2]).endswith(('timeBase', 'time_base'))}
    out |= {a[1][1] for a, pol in e.facts.items() if a[0] == 'eq' and not pol and a[1][0] == 'k' and show(a[2]).endswith(('timeBase', 'time_base'))}
    left = set(BASES) - out
    base = yes or (left if len(left) == 1 else set())
    return len(base) == 1 and BASES.get(next(iter(base))) == name


@check('C28')
def request(ctx):
    ctx.rule('seg-range', 'a segment is computed for exactly the range asked for; without content it is the empty body over that range')
    d = ctx.prog.cls('documents.ebutt3:EBUTT3Document')
    s = ctx.prog.cls('documents.ebutt3_segmentation:EBUTT3Segmenter')
    f = ctx.prog.find_method(d, 'extract_segment')
    ctx.need(f, 'extract_segment')
    w = ctx.walker(types={SELF: d}, noexc=True, opaque={'create_from_raw_binding', 'format', 'sequence_identifier', 'sequence_number', 'segment'},
                   opaque_classes={s.name})
    for p in ran(ctx, w, f, d):
        made = [e for e in p.events if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1] == s.qualname]
        init = ctx.prog.find_method(s, '__init__')
        good = p.kind == 'return' and len(made) == 1
        ctx.expect(good, 'seg-range', 'document', 'a segment is made of %d extractions' % len(made), f)
        for e in made:
            for n, v in (('document', SELF), ('begin', ('p', 'begin')), ('end', ('p', 'end')), ('deconflict_ids', ('p', 'deconflict_ids'))):
                got = arg_of(ctx, e, init, n)
                ctx.expect(got == v, 'seg-range', 'document/' + n, 'the %s of the segment is %s' % (n, show(got or NONE)), e)
            raw = p.ret if p.kind == 'return' else NONE
            ctx.expect(raw[0] == 'call' and raw[1][0] == 'bm' and raw[1][2] == 'create_from_raw_binding' and raw[1][1] == ('cls', d.qualname) and
                       ('attr', e.value, 'segment') in raw[2] + tuple(v for _, v in raw[3]),
                       'seg-range', 'document/result', 'the segment returned is %s' % show(raw), f)
    init = ctx.prog.find_method(s, '__init__')
    w = ctx.walker(types={SELF: s}, noexc=True, opaque={'compute_document_segment', 'debug'})
    b, e_ = accessor(ctx, s, 'begin'), accessor(ctx, s, 'end')
    own, dec = accessor(ctx, s, 'document'), accessor(ctx, s, 'deconflict_ids')
    for n, t in (('begin', b), ('end', e_), ('document', own), ('deconflict_ids', dec)):
        ctx.expect(t[0] == 'attr' and t[1] == SELF, 'seg-range', 'segmenter/' + n, 'the %s of the segmenter is %s' % (n, show(t)), init)
        if t[0] != 'attr':
            return
    top = accessor(ctx, s, 'root_element') if ctx.prog.find_prop(s, 'root_element') else ('attr', SELF, '_root_element')
    run = 0
    for p in ran(ctx, w, init, s):
        if p.kind != 'return':
            ty = [a for a, v in p.facts.items() if a[0] == 'isinst' and v is False and isnone(p, a[1]) is False]
            ctx.expect(ty, 'seg-range', 'segmenter/refused', 'a range is refused; path: %s' % show_facts(p.facts), init)
            continue
        go = [e for e in p.events if e.kind == 'call' and e.name == 'compute_document_segment']
        ctx.expect(len(go) == 1, 'seg-range', 'segmenter/run', 'the segment is computed %d times' % len(go), init)
        for e in go:
            run += 1
            for n, t, v in (('document', own, ('p', 'document')), ('deconflict', dec, ('p', 'deconflict_ids'))):
                ctx.expect(e.heap.get((t[1], t[2])) == v, 'seg-range', 'segmenter/' + n, 'the %s is not kept before the segment is computed' % n, e)
            roots = [v for (o, n), v in e.heap.items() if o == SELF and v[0] == 'attr' and v[1] == ('p', 'document') and 'binding' in v[2] or
                     o == SELF and mentions(v, ('p', 'document')) and v != ('p', 'document')]
            ctx.expect(roots, 'seg-range', 'segmenter/root', 'the content of the document is not what is copied', e)
            for t, a in ((b, ('p', 'begin')), (e_, ('p', 'end'))):
                got = e.heap.get((t[1], t[2]))
                none = isnone(p, a)
                default = got is None and t[0] == 'attr' and none is True
                ctx.expect(got == a or default, 'seg-range', 'segmenter/' + a[1], 'the %s of the range is %s; path: %s' % (
                    a[1], show(got) if got else 'dropped', show_facts(p.facts)), e)
    ctx.expect(run, 'seg-range', 'segmenter/run', 'the segment is never computed', init)
    f = ctx.prog.find_method(s, 'compute_document_segment')
    w = ctx.walker(types={SELF: s, own: d}, noexc=True, opaque={
        'proceed', '_prune_orphan_elements', 'validate', 'lookup_range_on_timeline', 'validated_styles', 'inherited_region', 'get_timing_type',
        'orderedContent', '_styled_elements'})
    body = ('attr', accessor(ctx, s, 'segment'), 'body')
    n = 0
    for p in ran(ctx, w, f, s):
        if p.kind != 'return':
            continue
        go = [e for e in p.events if e.kind == 'call' and e.name == 'proceed']
        look = [e for e in p.events if e.kind == 'call' and e.name == 'lookup_range_on_timeline']
        val = [e for e in p.events if e.kind == 'call' and e.name == 'validate']
        for e in look:
            ctx.expect(arg_of(ctx, e, ctx.prog.find_method(d, 'lookup_range_on_timeline'), 'begin') == b and
                       arg_of(ctx, e, ctx.prog.find_method(d, 'lookup_range_on_timeline'), 'end') == e_, 'seg-range', 'lookup',
                       'another range is looked up', e)
            ctx.expect(any(x.idx < e.idx and x.recv == e.recv for x in val), 'seg-range', 'validated', 'the times used may be outdated', e)
        set_ = {x.name: x for x in p.events if x.kind == 'store' and x.recv == body and go and x.idx > go[0].idx}
        cont = ('call', ('bm', body, 'orderedContent'), (), ())
        full = nonempty(p, cont)
        none = isnone(p, body)
        if none is True or full is True:
            ctx.expect(not set_, 'seg-range', 'full', 'the body of a segment with content gets times', f)
            continue
        ctx.expect(none is False and full is False, 'seg-range', 'empty', 'it is not considered whether the segment is empty; path: %s' %
                   show_facts(p.facts), f)
        for name, t in (('begin', b), ('end', e_)):
            x = set_.get(name)
            if isnone(p, t) is True:
                ctx.expect(x is None or x.value == NONE, 'seg-range', 'empty/' + name, 'an empty segment gets a %s' % name, f)
            else:
                n += 1
                good = isnone(p, t) is False and x is not None and in_notation(ctx, x, t)
                ctx.expect(good, 'seg-range', 'empty/' + name, 'the empty body of the segment gets %s %s; path: %s' % (
                    name, show(x.value) if x else 'unset', show_facts(p.facts)), f)
    ctx.expect(n, 'seg-range', 'empty', 'an empty segment does not carry its range', f)


@check('C28')
def sequence(ctx):
    ctx.rule('seg-sequence', 'a segment of a sequence joins, in order, the part of every document active in the range from the end of the one '
                             'before to its own resolved end')
    ctx.rule('seg-discard', 'documents are dropped after extraction only when asked, and only those before the last one used')
    q = ctx.prog.cls('documents.ebutt3:EBUTT3DocumentSequence')
    f = ctx.prog.find_method(q, 'extract_segment')
    ctx.need(f, 'extract_segment of a sequence')
    spl = ctx.prog.cls('documents.ebutt3_splicer:EBUTT3Splicer')
    doc = ctx.prog.cls('documents.ebutt3:EBUTT3Document')
    ext = ctx.prog.find_method(doc, 'extract_segment')
    lk = ctx.prog.find_method(q, 'lookup_range_on_timeline')
    b0, e0, disc = ('p', 'begin'), ('p', 'end'), ('p', 'discard')
    w = ctx.walker(types={SELF: q}, noexc=True, loop=2, opaque={
        'lookup_range_on_timeline', 'resolved_end_time', 'create_compatible_document', 'discard_before', 'sequence_identifier', 'sequence_number',
        'create_from_raw_binding', 'format', 'extract_segment', 'spliced_document', 'warning', 'error', 'info'}, opaque_classes={spl.name})
    most = 0
    for p in ran(ctx, w, f, q):
        if not feasible(p):
            continue
        if p.kind != 'return':
            ctx.bad('seg-sequence', 'error', 'the extraction fails; path: %s' % show_facts(p.facts), f)
            continue
        look = [e for e in p.events if e.kind == 'call' and e.name == 'lookup_range_on_timeline']
        ctx.expect(len(look) == 1 and arg_of(ctx, look[0], lk, 'begin') == b0 and arg_of(ctx, look[0], lk, 'end') == e0, 'seg-sequence', 'range',
                   'the documents of another range are taken', f)
        if len(look) != 1:
            continue
        docs = look[0].value
        loops = [e for e in p.events if e.kind == 'loop' and e.value == docs]
        segs = [e for e in p.events if e.kind == 'call' and e.name == 'extract_segment']
        ctx.expect([e.recv for e in segs] == [('it', docs, e.name) for e in loops], 'seg-sequence', 'each',
                   '%d of %d documents are cut, or in another order' % (len(segs), len(loops)), f)
        prev = b0
        for e in segs:
            end = resolved(e.recv)
            got_b, got_e = arg_of(ctx, e, ext, 'begin'), arg_of(ctx, e, ext, 'end')
            dec = arg_of(ctx, e, ext, 'deconflict_ids')
            ctx.expect(dec == K(True), 'seg-sequence', 'ids', 'the ids of the documents may clash', e)
            got_b = got_b or NONE
            good_b = got_b == prev or got_b == b0 or got_b[0] == 'call' and got_b[1] == ('ext', 'max')
            ctx.expect(good_b, 'seg-sequence', 'begin', 'a document is cut from %s' % show(got_b), e)
            n1, n2 = isnone(p, end), isnone(p, e0)
            if got_e == end:
                # the resolved end counts unless the range ends earlier
                good = n2 is True or n1 is False and n2 is False and not_after(p, end, e0) is True
            elif got_e == e0:
                good = n1 is True and (n2 is False or n2 is True) or n2 is False and n1 is False and not_after(p, e0, end) is True
            else:
                good = n1 is False and n2 is False and earliest(p, got_e or NONE, end, e0)
            ctx.expect(good, 'seg-sequence', 'end', 'a document is cut at %s; path: %s' % (show(got_e or NONE), show_facts(p.facts)), e)
            prev = got_e
        most = max(most, len(segs))
        made = [e for e in p.events if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1] == spl.qualname]
        if segs:
            ctx.expect(len(made) == 1, 'seg-sequence', 'joined', 'the parts are joined %d times; path: %s' % (len(made), show_facts(p.facts)), f)
            for e in made:
                lst = arg_of(ctx, e, ctx.prog.find_method(spl, '__init__'), 'document_segments')
                items = list(lst[2]) if lst and lst[0] == 'lst' else []
                for x in p.events:
                    if x.kind == 'call' and x.recv == lst and x.idx < e.idx:
                        items.append(x.args[0] if x.name == 'append' else None)
                ctx.expect(items == [x.value for x in segs], 'seg-sequence', 'joined/all', 'not all parts are joined in order', e)
                ctx.expect(mentions(p.ret, ('attr', e.value, 'spliced_document')), 'seg-sequence', 'result', 'the segment is %s' % show(p.ret), e)
        else:
            made = [e for e in p.events if e.kind == 'call' and e.name == 'create_compatible_document']
            ctx.expect(len(made) == 1 and p.ret == made[0].value, 'seg-sequence', 'none', 'without documents the segment is %s' % show(p.ret), f)
        num = ('p', 'sequence_number')
        for e in made:
            fn = ctx.prog.find_method(spl, '__init__') if segs else ctx.prog.find_method(q, 'create_compatible_document')
            got = kw(e, 'sequence_number')
            got = got if got is not None else arg_of(ctx, e, fn, 'sequence_number')
            want = isnone(p, num) is True and got is not None and got[0] == 'k' or got == num
            zero = p.facts.get(('truthy', num)) is False
            ctx.expect(want or zero, 'seg-sequence', 'number', 'the segment gets the number %s; path: %s' % (show(got or NONE), show_facts(p.facts)), e)
        drop = [e for e in p.events if e.kind == 'call' and e.name == 'discard_before']
        asked = p.facts.get(('truthy', disc))
        if asked is None:
            asked = p.facts.get(('eq', disc, K(True)))
        some = nonempty(p, docs) if not loops else True
        ctx.expect(not drop or some is True, 'seg-discard', 'empty', 'documents are dropped although none were found; path: %s' %
                   show_facts(p.facts), f)
        ctx.expect(not drop or asked is True, 'seg-discard', 'asked', 'documents are dropped although %s' % show_facts(p.facts), f)
        ctx.expect(drop or asked is False or some is False, 'seg-discard', 'done', 'documents are kept although %s' % show_facts(p.facts), f)
        for e in drop:
            ctx.expect(e.args + tuple(v for _, v in e.kwargs or ()) == (('sub', docs, K(-1)),) and all(x.idx < e.idx for x in segs), 'seg-discard',
                       'which', 'everything before %s is dropped' % show(e.args[0] if e.args else NONE), e)
    ctx.expect(most >= 2, 'seg-sequence', 'many', 'several documents are never joined', f)


def resolved(d):
    return ('attr', d, 'resolved_end_time')


@check('C28')
def resequencer(ctx):
    ctx.rule('seg-next', 'the resequencer starts at the time it is created and every emitted segment covers the configured length from the end '
                         'of the one before')
    c = ctx.prog.cls('node.consumer:ReSequencer')
    last = accessor(ctx, c, 'last_segment_end')
    length = accessor(ctx, c, 'segment_length')
    init = ctx.prog.find_method(c, '__init__')
    for n, t in (('last_segment_end', last), ('segment_length', length)):
        ctx.expect(t[0] == 'attr', 'seg-next', n, 'the %s reported is %s' % (n, show(t)), init)
        if t[0] != 'attr':
            return
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'get_time', 'create_from_xml', 'create_sequence_from_document', 'read', 'register_producer_carriage',
                                                       'register_consumer_carriage'})
    discard = set()
    for p in ran(ctx, w, init, c):
        if p.kind != 'return':
            continue
        v = p.heap.get((SELF, last[2]))
        ctx.expect(v is not None and v[0] == 'call' and v[1] == ('bm', ('p', 'reference_clock'), 'get_time'), 'seg-next', 'start',
                   'the first segment begins at %s' % (show(v) if v else 'no time'), init)
        v = p.heap.get((SELF, length[2]))
        ctx.expect(v is not None and mentions(v, ('p', 'segment_length')) and 'timedelta' in repr(v) and dict(v[3] if v[0] == 'call' else v[4]).get(
            'seconds') == ('p', 'segment_length'), 'seg-next', 'length', 'the length of segments is %s' % (show(v) if v else 'unset'), init)
        for (o, n), x in p.heap.items():
            if o == SELF and x == ('p', 'discard'):
                discard.add(('attr', SELF, n))
        given = isnone(p, ('p', 'init_document'))
        made = [e for e in p.events if e.kind == 'call' and e.name == 'create_sequence_from_document']
        ctx.expect(given is not None and len(made) == (0 if given else 1), 'seg-next', 'init', 'the initial document is used %d times; path: %s' % (
            len(made), show_facts(p.facts)), init)
    f = ctx.prog.find_method(c, 'convert_next_segment')
    ext = ctx.prog.find_method(ctx.prog.cls('documents.ebutt3:EBUTT3DocumentSequence'), 'extract_segment')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'extract_segment', 'emit_data', 'get_time'}, depth=8)
    n = quiet = 0
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            ctx.bad('seg-next', 'error', 'the next segment is not extracted; path: %s' % show_facts(p.facts), f)
            continue
        segs = [e for e in p.events if e.kind == 'call' and e.name == 'extract_segment']
        out = [e for e in p.events if e.kind == 'call' and e.name == 'emit_data']
        moved = p.heap.get((SELF, last[2]), last)
        if not segs:
            none = [t for a, v in p.facts.items() if a[0] == 'isnone' and v for t in [a[1]]]
            quiet += 1
            ctx.expect(none, 'seg-next', 'waiting', 'no segment is extracted; path: %s' % show_facts(p.facts), f)
        for e in segs:
            got_b, got_e = arg_of(ctx, e, ext, 'begin'), arg_of(ctx, e, ext, 'end')
            ctx.expect(got_b == last and plus(got_e, last, length), 'seg-next', 'range', 'the next segment covers %s to %s' % (
                show(got_b or NONE), show(got_e or NONE)), e)
            ctx.expect(arg_of(ctx, e, ext, 'discard') in discard, 'seg-next', 'discard', 'the discard setting is not used', e)
        if out:
            n += 1
            ctx.expect(len(segs) == 1 and len(out) == 1, 'seg-next', 'once', '%d segments are extracted and %d emitted' % (len(segs), len(out)), f)
            ctx.expect(plus(moved, last, length), 'seg-next', 'advance', 'after a segment the next one begins at %s' % show(moved), f)
        else:
            ctx.expect(moved == last, 'seg-next', 'skip', 'the time moves to %s without a segment' % show(moved), f)
            ctx.expect(not segs or isnone(p, segs[0].value) is True, 'seg-next', 'emitted', 'an extracted segment is not emitted', f)
    ctx.expect(n, 'seg-next', 'emitted', 'no segment is ever emitted', f)
    ctx.expect(quiet, 'seg-next', 'waiting', 'without any input the extraction fails', f)


def plus(v, a, b):
    return v is not None and v[0] == 'bin' and v[1] in ('+', 'Add') and (v[2:] == (a, b) or v[2:] == (b, a))
