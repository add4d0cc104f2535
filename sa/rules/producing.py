# -*- coding: utf-8 -*-
"""C36: the example producer shows every line of its text, on time."""
from ..core import *
from .copying import ran
from .nodes import EMIT

NODE = 'node.producer:SimpleProducer'
DOC = 'EBUTT3Document'


def content(p, t, until=None):
    """what a list built on the path holds after the event `until` (all of them: None); None if unknown"""
    if t[0] in ('tup',):
        return list(t[1])
    if t[0] == 'slice':
        base = content(p, t[1], until)
        key = [x[1] if x[0] == 'k' else False for x in t[2][1:]]
        return base[slice(*key)] if base is not None and False not in [x for x in key if isinstance(x, bool)] else None
    if t[0] == 'call' and t[1] in (('ext', 'list'), ('ext', 'tuple')) and len(t[2]) == 1 and not t[3]:
        out = content(p, t[2][0], until)
    elif t[0] == 'bin' and t[1] == '+':
        a, b = content(p, t[2], until), content(p, t[3], until)
        out = a + b if a is not None and b is not None else None
    elif t[0] == 'comp' and len(t[3]) == 1 and not t[4]:
        base = content(p, t[3][0], until)
        out = None if base is None else [t[2]] * len(base)
    elif t[0] == 'lst':
        out = list(t[2]) if len(t) > 2 and isinstance(t[2], tuple) else []
    else:
        return None
    if out is None:
        return None
    for e in p.events:
        if until is not None and e.idx >= until:
            break
        if e.recv != t:
            continue
        k = e.args[0][1] if e.args and e.args[0][0] == 'k' else None
        if e.kind == 'call' and e.name == 'append':
            out.append(e.args[0])
        elif e.kind == 'call' and e.name == 'extend':
            more = content(p, e.args[0], until)
            if more is None:
                return None
            out.extend(more)
        elif e.kind == 'call' and e.name == 'insert' and isinstance(k, int):
            out.insert(k, e.args[1])
        elif e.kind == 'call' and e.name == 'pop' and (not e.args or isinstance(k, int)):
            if not out:
                return None
            out.pop(k if e.args else -1)
        elif e.kind == 'delitem':
            i = e.name[1] if isinstance(e.name, tuple) and e.name[0] == 'k' else None
            if not isinstance(i, int) or not -len(out) <= i < len(out):
                return None
            del out[i]
        elif e.kind == 'call' and e.name in ('remove', 'sort', 'reverse', 'clear') or e.kind == 'setitem':
            return None
    return out


def number(p, t, until):
    if t[0] == 'k' and isinstance(t[1], int):
        return t[1]
    if t[0] == 'itidx' and isinstance(t[2], int):
        return t[2]
    if t[0] == 'call' and t[1] == ('ext', 'len') and len(t[2]) == 1:
        c = content(p, t[2][0], until)
        return None if c is None else len(c)
    if t[0] == 'bin' and t[1] in ('+', '-', '%'):
        a, b = number(p, t[2], until), number(p, t[3], until)
        return None if a is None or b is None or t[1] == '%' and not b else a + b if t[1] == '+' else a - b if t[1] == '-' else a % b
    return None


def holds(p, a, until):
    """truth of a condition on lists built on the path and positions in a loop; None if unknown"""
    if a[0] == 'truthy':
        c = content(p, a[1], until) if a[1][0] in ('lst', 'bin', 'slice') else None
        if c is not None:
            return bool(c)
        n = number(p, a[1], until)
        return None if n is None else n != 0
    if a[0] in ('lt', 'eq') and len(a) == 3:
        x, y = number(p, a[1], until), number(p, a[2], until)
        if x is not None and y is not None:
            return x < y if a[0] == 'lt' else x == y
    return None


def possible(p):
    """no condition on the path contradicts what the lists held when it was decided"""
    last = {}
    for e in p.events:
        for a, v in e.facts.items():
            if last.get(a) is not v and holds(p, a, e.idx) is (not v):
                return False
        last = e.facts
    # a loop over a list of known content takes each of its elements
    runs = {}
    for e in p.events:
        if e.kind in ('loop', 'loopend'):
            r = runs.setdefault(e.value, [0, e.idx])
            r[0] += e.kind == 'loop'
    for t, (n, i) in runs.items():
        c = content(p, plain(t), i)
        if c is not None and len(c) != n:
            return False
    return True


def plain(t):
    while t[0] == 'call' and t[1] == ('ext', 'enumerate') and t[2]:
        t = t[2][0]
    return t


def length(p, base):
    """number of elements of `base` on the path, from the loops over it or a rest of it; None if nothing goes through it"""
    found = set()
    runs = {}
    for e in p.events:
        if e.kind in ('loop', 'loopend'):
            runs[e.value] = runs.get(e.value, 0) + (e.kind == 'loop')
    for t, n in runs.items():
        t = plain(t)
        if t[0] == 'comp' and len(t[3]) == 1 and not t[4]:
            t = t[3][0]
        t = base_iter(t)
        lo = 0
        if t[0] == 'slice' and t[2][1][0] == 'k' and t[2][2:] == (NONE, NONE):
            t, lo = base_iter(t[1]), t[2][1][1] or 0
        if t == base and lo >= 0:
            found.add(n + lo)
    return max(found) if found else None


def given_args(p, e):
    """arguments of a call with starred lists written out"""
    out = []
    for a in e.args or ():
        if a[0] == 'star':
            more = content(p, a[1], e.idx)
            if more is None:
                return None
            out.extend(more)
        else:
            out.append(a)
    for x in p.events:
        if e.value and x.recv == e.value and x.kind == 'call' and x.name in ('append', 'extend'):
            more = [x.args[0]] if x.name == 'append' else content(p, x.args[0], x.idx)
            if more is None:
                return None
            out.extend(more)
    return [resolved(p, t) for t in out]


def second(t):
    """one second"""
    return t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] == 'timedelta' and \
        (t[3] == (('seconds', K(1)),) and not t[2] or t[2] == (K(0), K(1)) and not t[3] or
         t[3] == (('milliseconds', K(1000)),) and not t[2])


def is_sum(t, base):
    return t[0] == 'bin' and t[1] in ('Add', '+') and (t[2] == base and second(t[3]) or t[3] == base and second(t[2]))


@check('C36')
def example_producer(ctx):
    ctx.rule('lines', 'a document holds every line of its block, in order, with one line break between two lines and nothing else')
    ctx.rule('shown', 'every document is shown for one second from one second after the time of the clock')
    ctx.rule('source', 'every document takes the next block; at the end of the text producing ends and no number is used up')
    ctx.rule('issued', 'every document is a new one of the sequence and is handed over once, after it is complete')
    c = ctx.prog.cls(NODE)
    k = ctx.prog.cls(DOC)
    f = ctx.prog.find_method(c, 'process_document')
    ctx.need(f, 'process_document of the example producer')
    blocks = ctor_attr(ctx, c, 'input_blocks')
    seq = ctor_attr(ctx, c, 'document_sequence')
    init = ctx.prog.find_method(c, '__init__')
    # the clock is that of the sequence
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), init, c):
        if p.kind != 'return':
            continue
        st = {e.value: e.name for e in p.events if e.kind == 'store' and e.recv == SELF}
        clock = [('attr', SELF, n) for v, n in st.items() if v == ('attr', ('p', 'document_sequence'), 'reference_clock')]
    clocks = clock + [('attr', seq, 'reference_clock')]
    w = ctx.walker(types={SELF: c}, loop=3, returns={'new_document': k}, opaque={'new_document', 'validate'}, noexc=True, sizes=True,
                   raises={'next': ('StopIteration',)})
    ps = ran(ctx, w, f, c)
    seen = set()
    for p in ps:
        if not possible(p):
            continue
        news = [e for e in p.events if e.kind == 'call' and e.name == 'new_document']
        nexts = [e for e in p.events if e.kind == 'call' and e.name == 'next' and
                 (e.recv == blocks or e.args and e.args[0] == blocks)]
        text = p.facts.get(('truthy', blocks))
        if text is None and p.facts.get(('isnone', blocks)) is not None:
            text = not p.facts[('isnone', blocks)]
        emits = [e for e in p.events if EMIT(e)]
        if p.kind == 'raise':
            ctx.expect(not news and not emits, 'source', 'end', 'producing ends after a number was used up or a document '
                       'was handed over', f)
            ctx.expect(w.exc_name(p.exc) == 'EndOfData', 'source', 'end/error', 'the end of the text is reported as %s' %
                       w.exc_name(p.exc), f)
            seen.add('end')
            continue
        if text is None:
            ctx.bad('source', 'text', 'whether there is text is not looked at', f)
            continue
        ctx.expect(len(nexts) == (1 if text else 0), 'source', 'next', '%d blocks are taken for a document' % len(nexts), f)
        ctx.expect(len(news) == 1 and news[0].recv == seq, 'issued', 'new', '%d documents of the sequence are made' % len(news), f)
        if len(news) != 1 or text and len(nexts) != 1:
            continue
        d = news[0].value
        ctx.expect(len(emits) == 1 and emits[0].arg(0, 'data') == d, 'issued', 'handed over', 'the document is handed over %d times' %
                   len(emits), f)
        if len(emits) != 1:
            continue
        last = emits[0].idx
        late = [e for e in p.events if e.idx > last and e.kind in ('store', 'call') and e.recv is not None and mentions(e.recv, d)
                and (e.kind == 'store' or e.name in ('append', 'extend', 'insert', 'add_div', 'set_begin', 'set_dur', 'set_end'))]
        ctx.expect(not late, 'issued', 'complete', 'the document changes after it was handed over', f)
        # time
        times = {}
        for e in p.events:
            if e.kind == 'store' and e.name in ('begin', 'end', 'dur') and e.recv[0] == 'attr' and e.recv[2] == 'body' and \
                    mentions(e.recv, d):
                times[e.name] = ctor_value(p, e.value)
        now = [e.value for e in p.events if e.kind == 'call' and e.name == 'get_time' and e.recv in clocks]
        ctx.expect(len(now) == 1 and times.get('begin') is not None and is_sum(times['begin'], now[0]), 'shown', 'begin',
                   'the document begins at %s' % (show(times['begin']) if times.get('begin') else 'no time'), f)
        ctx.expect(times.get('dur') is not None and second(times['dur']) or
                   times.get('dur') is None and times.get('end') is not None and times['end'][0] == 'bin', 'shown', 'duration',
                   'the document is shown for %s' % (show(times['dur']) if times.get('dur') else 'ever'), f)
        # lines
        adds = [e for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv[0] == 'attr' and e.recv[2] == 'body' and
                mentions(e.recv, d)]
        ctx.expect(len(adds) == 1, 'lines', 'attached', '%d divisions are added to the document' % len(adds), f)
        if len(adds) != 1:
            continue
        by = {e.value: e for e in p.events if e.kind == 'call' and e.value and e.value[0] == 'new'}
        div = by.get(adds[0].args[0])
        para = [by[a] for a in (given_args(p, div) if div else None) or () if a in by and a[1].endswith('p_type')]
        ctx.expect(div is not None and len(para) == 1, 'lines', 'paragraph', 'the division holds %d paragraphs' % len(para), f)
        if div is None or len(para) != 1:
            continue
        got = given_args(p, para[0])
        if text:
            n = length(p, nexts[0].value)
            if not n:
                seen.add('empty')
                continue        # blocks hold at least one line
        else:
            n = 1
        ctx.expect(got is not None, 'lines', 'known', 'what the paragraph holds is changed in an unknown way', f)
        if got is None:
            continue
        good = len(got) == 2 * n - 1
        comp = any(e.kind == 'loop' and plain(e.value)[0] == 'comp' for e in p.events)
        for i, t in enumerate(got):
            e = by.get(t)
            if e is None:
                good = False
            elif i % 2:
                good = good and t[1].endswith('br_type')
            else:
                a = given_args(p, e) if e.args else []
                good = good and t[1].endswith('span_type') and len(a or ()) == 1 and line(p, a[0], nexts, i // 2, text, times, comp)
        ctx.expect(good, 'lines', '%s/%d' % ('text' if text else 'time', n), 'for %d lines the paragraph holds %s' % (
            n, [show(t) for t in got]), f)
        seen.add('text' if text else 'time')
        if text and n > 1:
            seen.add('many')
    for x, t in (('end', 'the end of the text is not reported'), ('text', 'text is never shown'), ('time', 'without text the time is never shown'),
                 ('many', 'several lines are never shown')):
        ctx.expect(x in seen, 'source' if x == 'end' else 'lines', 'cases/' + x, t, f)


def ctor_value(p, t):
    """the time a time type is made of"""
    if t[0] == 'new' and 'TimingType' in t[1]:
        for e in p.events:
            if e.kind == 'call' and e.value == t and e.args:
                return e.args[0]
    return t


def resolved(p, t):
    """an element of a list of known content"""
    if t[0] == 'it' and isinstance(t[2], int):
        c = content(p, t[1])
        if c and t[2] < len(c):
            return resolved(p, c[t[2]])
    return t


def place(t, base):
    """position of an element in base; -1 for one of all, as in a comprehension; None for anything else"""
    if t[0] == 'sub' and base_iter(t[1]) == base and t[2][0] == 'k':
        return t[2][1]
    if t[0] != 'it' or any(x[0] == 'call' and x[1] in ORDER for x in subterms(t[1])):
        return None
    c, lo = base_iter(t[1]), 0
    if c[0] == 'slice' and c[2][1][0] == 'k' and c[2][2:] == (NONE, NONE):
        c, lo = base_iter(c[1]), c[2][1][1] or 0
    if c != base:
        return None
    return t[2] + lo if isinstance(t[2], int) else -1


ORDER = tuple(('ext', x) for x in ('reversed', 'sorted', 'set', 'frozenset'))


def line(p, t, nexts, i, text, times, comp):
    if not text:
        return times.get('begin') is not None and ctor_value(p, resolved(p, t)) == times['begin']
    k = place(t, nexts[0].value)
    return k == i or k is not None and (k == -1 or comp)
