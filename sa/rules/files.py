# -*- coding: utf-8 -*-
"""C19: documents written to and read from a folder.  C20: the buffer that removes the oldest files."""
from fractions import Fraction
from ..core import *
from .copying import ran
from .lexical import Times, Poly, sym, pieces, width_of, spanned

PRODUCER, READER, CONSUMER = 'FilesystemProducerImpl', 'FilesystemReader', 'FilesystemConsumerImpl'
OPENERS = ('open', 'file')
DATA, SEQ, NUM, BASE, TIME, DELAY, MODE = (('p', x) for x in (
    'data', 'sequence_identifier', 'sequence_number', 'time_base', 'availability_time', 'delay', 'clock_mode'))


def fn(e):
    return e.value[1] if e.kind == 'call' and isinstance(e.value, tuple) and e.value[0] == 'call' else None


def opened(e):
    """(path, mode) of an open() call"""
    if e.kind != 'call' or e.name not in OPENERS or fn(e) is None or fn(e)[0] != 'ext':
        return None
    mode = e.args[1] if len(e.args) > 1 else kw(e, 'mode', K('r'))
    path = e.args[0] if e.args else kw(e, 'name', kw(e, 'file'))
    return path, mode[1] if mode[0] == 'k' else None


def joined(t):
    """folder and name of a path"""
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] == 'os.path.join' and len(t[2]) == 2:
        return t[2]
    return None, None


def constant(ctx, t):
    """text of a module constant, translated or not"""
    import ast
    if t[0] == 'k':
        return t[1]
    if t[0] == 'call' and t[1][0] in ('ext', 'glob') and len(t[2]) == 1:
        return constant(ctx, t[2][0])
    if t[0] == 'glob':
        m = ctx.prog.mods.get(t[1])
        v = [n.value for n in m.tree.body if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t[2] for x in n.targets)] if m else []
        if len(v) == 1:
            v = v[0]
            while isinstance(v, ast.Call) and len(v.args) == 1:
                v = v.args[0]
            if isinstance(v, ast.Constant):
                return v.value
    return None


def text_of(ctx, t):
    """the pieces of a text made of a constant pattern"""
    import string
    if t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'format':
        pat = constant(ctx, t[1][1])
        if not isinstance(pat, str):
            return None
        out, named, n = [], dict(t[3]), 0
        for lit, field, spec, conv in string.Formatter().parse(pat):
            if lit:
                out.append(K(lit))
            if field is None:
                continue
            if conv or spec:
                return None
            if field in named:
                v = named[field]
            elif field == '' or field.isdigit():
                i = int(field) if field else n
                n += 1
                v = t[2][i] if i < len(t[2]) else None
            else:
                v = None
            if v is None:
                return None
            out.append(v)
        return out
    if t[0] == 'bin' and t[1] == '+':
        a, b = text_of(ctx, t[2]), text_of(ctx, t[3])
        return a + b if a is not None and b is not None else None
    if t[0] == 'bin' and t[1] == '%':
        return None
    if t[0] == 'str':
        return list(t[1])
    v = constant(ctx, t)
    if isinstance(v, str):
        return [K(v)]
    return [t]


def held(p, v):
    """what a list or tuple holds"""
    if v is None or v[0] not in ('lst', 'tup'):
        return None
    out = list(v[2] if v[0] == 'lst' else v[1])
    for e in p.events:
        if e.kind == 'call' and e.recv == v:
            out.append(e.args[-1] if e.name in ('append', 'insert') and e.args else None)
    return out


def named(t, par, n, seq):
    """name made of a configured pattern, a counter and the sequence identifier"""
    return t is not None and t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'format' and t[1][1] == par and not t[2] and \
        dict(t[3]).get('counter') == n and dict(t[3]).get('sequence_identifier') == seq


def clock_text(ctx, rule, key, t, value, loc):
    """t is value as HH:MM:SS.mmm"""
    tm = Times(value)
    A = lambda n: sym(('attr', value, n))
    want = A('days').scale(86400000) + A('seconds').scale(1000) + tm.quotient(('attr', value, 'microseconds'), K(1000))
    xs = pieces(t)
    seps = [x[1] if x[0] == 'k' else None for x in xs[1::2]]
    if not ctx.expect(len(xs) == 7 and seps == [':', ':', '.'] and not any(x[0] == 'k' for x in xs[::2]), rule, key,
                      'the time is written as ' + show(t)[:300], loc):
        return
    total = Poly()
    for i, x in enumerate(xs[::2]):
        u, width = width_of(x)
        total = total + tm.poly(u).scale(Fraction((3600000, 60000, 1000, 1)[i]))
        what = ('hours', 'minutes', 'seconds', 'milliseconds')[i]
        ctx.expect(width is not None and (width == 3 or i < 3), rule, key, 'the %s are written with %s digits' % (what, width), loc)
        lim = tm.below(u, {})
        if i:
            ctx.expect(lim is not None and lim <= (60, 60, 60, 1000)[i], rule, key, 'the %s are not below %d' % (what, (60, 60, 60, 1000)[i]), loc)
    ctx.expect(spanned(total - want, []), rule, key, 'another time is written: ' + show(t)[:300], loc)


def writing(ctx):
    c = ctx.prog.cls(PRODUCER)
    f = ctx.prog.find_method(c, 'emit_data')
    ctx.need(f is not None, PRODUCER + '.emit_data')
    for n in ('data', 'sequence_identifier', 'sequence_number', 'availability_time', 'delay', 'time_base', 'clock_mode'):
        ctx.need(n in f.params, 'parameter %s of %s.emit_data' % (n, PRODUCER))
    at = {n: ctor_attrs(ctx, c, n) for n in ('dirpath', 'file_name_pattern', 'message_file_name_pattern', 'suppress_manifest', 'circular_buf_size')}
    for n, xs in at.items():
        if not ctx.expect(xs, 'file', n, 'the setting %s is not kept' % n, c):
            return
    A = lambda n: {('attr', SELF, x) for x in at[n]}
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'get_clock', 'get_real_clock_time', 'append'})
    ps = ran(ctx, w, f, c)
    lines = files = 0
    for p in ps:
        path = 'path: ' + show_facts(p.facts)
        if p.kind != 'return':
            ctx.bad('file', 'written', 'writing ends with %s; %s' % (w.exc_name(p.exc) if p.exc else p.kind, path), f)
            continue
        ops = [(i, e) + opened(e) for i, e in enumerate(p.events) if opened(e)]
        docs = [o for o in ops if o[3] in ('w', 'wb')]
        mans = [o for o in ops if o[3] in ('a', 'ab', 'at')]
        odd = [o for o in ops if o not in docs and o not in mans]
        for o in odd:
            ctx.expect(o[3] in ('r', 'rb'), 'file', 'written', 'a file is opened in mode %s' % o[3], o[1])
        if not ctx.expect(len(docs) == 1, 'file', 'written', '%d files are written for a document; %s' % (len(docs), path), f):
            continue
        files += 1
        i, e, fpath, _ = docs[0]
        folder, name = joined(fpath)
        ctx.expect(folder in A('dirpath'), 'file', 'folder', 'the file is written to ' + show(fpath)[:200], e)
        # the name
        isn = p.facts.get(('isnone', NUM))
        if isn is None and p.facts.get(('truthy', NUM)) is True:
            isn = False
        if isn is None:
            ctx.bad('name', 'number', 'the name does not depend on whether there is a sequence number; ' + path, e)
        elif isn:
            st = [x for x in p.events[:i] if x.kind == 'store' and x.recv == SELF and x.value[0] == 'bin' and x.value[1] == '+' and
                  set(x.value[2:]) == {('attr', SELF, x.name), K(1)}]
            counts = {v for x in st for v in (x.value, ('attr', SELF, x.name)) if name is not None and mentions(name, v)}
            ctx.expect(len(st) == 1, 'name', 'message', 'the messages are not counted', e)
            ctx.expect(any(named(name, par, n, SEQ) for par in A('message_file_name_pattern') for n in counts), 'name', 'message',
                       'a document without number is written to ' + show(fpath)[:300], e)
        else:
            ctx.expect(any(named(name, par, NUM, SEQ) for par in A('file_name_pattern')), 'name', 'document', 'a document is written to ' +
                       show(fpath)[:300], e)
        # the contents
        wr = [(j, x) for j, x in enumerate(p.events) if x.kind == 'call' and x.name in ('write', 'writelines') and x.recv == e.value]
        enc = kw(e, 'encoding')
        text = [v for a, v in p.facts.items() if a[0] == 'isinst' and a[1] == DATA]
        utf = lambda v: v[0] == 'call' and v[1][:3] == ('bm', DATA, 'encode') and (v[2] or (dict(v[3]).get('encoding', K('')),))[0][1].lower().replace('-', '') == 'utf8'
        ok = len(wr) == 1 and wr[0][1].name == 'write' and (
            utf(wr[0][1].args[0]) and text == [True] or wr[0][1].args[0] == DATA and (text == [False] or enc is not None))
        ctx.expect(ok, 'contents', 'written', 'the file gets %s; %s' % ([show(x.args[0]) if x.args else '' for _, x in wr], path), e)
        # the list of files
        sup = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1] in A('suppress_manifest')]
        clocks = [x for x in p.events if x.kind == 'call' and x.name == 'get_clock']
        reals = [x for x in p.events if x.kind == 'call' and x.name == 'get_real_clock_time']
        given = p.facts.get(('isinst', TIME, ('ext', 'datetime.timedelta')))
        if given is None and p.facts.get(('isnone', TIME)) is False:
            given = True
        if sup == [True]:
            ctx.expect(not mans, 'manifest', 'suppressed', 'the manifest is written although it is suppressed; ' + path, f)
            continue
        if not mans:
            unknown = any(p.facts.get(('isnone', x.value)) or p.facts.get(('truthy', x.value)) is False for x in clocks + reals) or \
                [a for a, v in p.facts.items() if a[0] == 'isnone' and v and reals and a[1] == reals[-1].value]
            # a clock kept from before that is none at all
            unknown = unknown or not clocks and not reals and any(
                a[0] == 'isnone' and v and a[1][0] == 'sub' and a[1][2] == SEQ and p.facts.get(('in', SEQ, a[1][1])) for a, v in p.facts.items())
            known = [a for a, v in p.facts.items() if v is False and a[0] == 'isnone' and reals and a[1] == reals[-1].value]
            ctx.expect(sup == [False] and given is not True and unknown and not known, 'manifest', 'line', 'no line is added to the '
                       'manifest; ' + path, f)
            continue
        ctx.expect(sup == [False], 'manifest', 'suppressed', 'the setting that suppresses the manifest is ignored; ' + path, f)
        if not ctx.expect(len(mans) == 1, 'manifest', 'line', 'several lines are added to the manifest; ' + path, f):
            continue
        lines += 1
        j, m, mpath, _ = mans[0]
        folder, mname = joined(mpath)
        ctx.expect(folder in A('dirpath'), 'manifest', 'folder', 'the manifest is written to ' + show(mpath)[:200], m)
        ctx.expect(SEQ in (text_of(ctx, mname) or ()) if mname is not None else False, 'manifest', 'name', 'all sequences share the manifest ' + show(mpath)[:200], m)
        ctx.expect(not any(mentions(mname or mpath, x) for x in (NUM, DATA, TIME)), 'manifest', 'name', 'the manifest of a sequence changes: ' +
                   show(mpath)[:200], m)
        # the file is complete before the line is
        closed = [k for k, x in enumerate(p.events) if (x.kind == 'exit' and x.value == e.value or x.kind == 'call' and x.name in ('close', 'flush')
                                                        and x.recv == e.value) and wr and k > wr[0][0]]
        mw = [(k, x) for k, x in enumerate(p.events) if x.kind == 'call' and x.name in ('write', 'writelines') and x.recv == m.value]
        ctx.expect(mw and closed and closed[0] < mw[0][0], 'manifest', 'after', 'the manifest names the file before it is complete; ' + path, m)
        if not ctx.expect(len(mw) == 1 and mw[0][1].name == 'write' and mw[0][1].args, 'manifest', 'line', '%d texts are added to the manifest' % len(mw), m):
            continue
        xs = text_of(ctx, mw[0][1].args[0])
        if xs is not None:
            out = []
            for x in xs:
                if x[0] == 'k' and out and out[-1][0] == 'k' and isinstance(x[1], str) and isinstance(out[-1][1], str):
                    out[-1] = K(out[-1][1] + x[1])
                else:
                    out.append(x)
            xs = out
        ok = xs is not None and xs[-3:] == [K(','), name, K('\n')] and len(xs) > 3
        if not ctx.expect(ok, 'manifest', 'format', 'the line added to the manifest is not "time,name": ' + show(mw[0][1].args[0])[:300], m):
            continue
        stamp = xs[0] if len(xs) == 4 else ('str', tuple(xs[:-3]))
        # the time
        base = TIME if given else None
        if not given:
            ctx.expect(given is False, 'manifest', 'time', 'a given availability time is not used; ' + path, m)
            ctx.expect(len(reals) == 1, 'manifest', 'time', 'the time of the clock is not used; ' + path, m)
            base = reals[-1].value if reals else None
        else:
            ctx.expect(not reals, 'manifest', 'time', 'the clock is read although the availability time is given; ' + path, m)
        if base is None:
            continue
        late = p.facts.get(('isnone', DELAY))
        late = not late if late is not None else p.facts.get(('truthy', DELAY))
        if late is None:
            ctx.bad('manifest', 'delay', 'the delay is not added; ' + path, m)
            continue
        vals = [base]
        if late:
            td = lambda a, k: ('call', ('ext', 'datetime.timedelta'), a, k)
            ds = [td((), (('seconds', DELAY),)), td((K(0), DELAY), ())]
            vals = [('bin', '+', *x) for d in ds for x in ((base, d), (d, base))]
        used = [t for t in subterms(stamp) if t[0] == 'attr' and t[2] in ('seconds', 'days', 'microseconds')] + \
               [t for t in subterms(stamp) if t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'total_seconds']
        vs = {t[1] if t[0] == 'attr' else t[1][1] for t in used}
        ctx.expect(vs and vs <= set(vals), 'manifest', 'time', 'the manifest gets another time: %s; %s' % ([show(v)[:150] for v in vs], path), m)
        if len(vs) == 1:
            clock_text(ctx, 'manifest', 'notation', stamp, vs.pop(), m)
    ctx.some(files, 'file', 'written', 'documents are not written', f)
    ctx.some(lines, 'manifest', 'line', 'the manifest is not written', f)
    clock(ctx, c, f)


def clock(ctx, c, f):
    """the clock that stands in for a missing time is that of the sequence, and stays the same"""
    g = ctx.prog.find_method(c, 'emit_data')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'get_clock', 'get_real_clock_time', 'append'})
    made = kept = 0
    for p in w.run(g, c):
        if p.kind != 'return':
            continue
        for e in p.events:
            if e.kind == 'call' and e.name == 'get_clock':
                made += 1
                a = [e.args[0] if e.args else kw(e, 'time_base'), e.args[1] if len(e.args) > 1 else kw(e, 'clock_mode')]
                ctx.expect(a == [BASE, MODE], 'clock', 'made', 'the clock is made for %s' % [show(x) if x else None for x in a], e)
                if p.facts.get(('isnone', e.value)) or p.facts.get(('truthy', e.value)) is False:
                    continue
                ctx.expect(any(x.kind == 'setitem' and x.name == SEQ and x.value == e.value and x.recv[0] == 'attr' and x.recv[1] == SELF or
                               x.kind == 'call' and x.name == 'setdefault' and x.args == (SEQ, e.value) for x in p.events), 'clock', 'kept',
                           'the clock of a sequence is not kept', e)
            if e.kind == 'call' and e.name == 'get_real_clock_time':
                r = e.recv if e.recv is not None else NONE
                ctx.expect(implied(('isnone', r), p.facts) is False or implied(('truthy', r), p.facts) is True, 'clock', 'used', 'the time is taken '
                           'from a clock there may not be', e)
                new = [x for x in p.events if x.kind == 'call' and x.name == 'get_clock' and x.value == r]
                old = r is not None and (r[0] == 'call' and r[1][0] == 'bm' and r[1][2] in ('get', 'setdefault') and r[2] and r[2][0] == SEQ or
                                         r[0] == 'sub' and r[2] == SEQ)
                kept += bool(old)
                ctx.expect(new or old, 'clock', 'used', 'the time is taken from ' + show(r)[:200], e)
                if new:
                    absent = any((a[0] == 'isnone' and v or a[0] == 'truthy' and not v or a[0] == 'in' and not v) and mentions(a, SEQ)
                                 for a, v in p.facts.items())
                    ctx.expect(absent, 'clock', 'kept', 'every document gets a new clock', e)
    ctx.some(made, 'clock', 'made', 'documents without availability time get no time', f)
    ctx.some(kept, 'clock', 'kept', 'the clock of a sequence is not used again', f)


def reading(ctx):
    c = ctx.prog.cls(READER)
    f = ctx.prog.find_method(c, 'resume_reading')
    init = ctx.prog.find_method(c, '__init__')
    ctx.need(f is not None and init is not None and 'manifest_path' in init.params, READER)
    paths = {('attr', SELF, x) for x in ctor_attrs(ctx, c, 'manifest_path')}
    users = {('attr', SELF, x) for x in ctor_attrs(ctx, c, 'custom_consumer')}
    tails = {('attr', SELF, x) for x in ctor_attrs(ctx, c, 'do_tail')}
    dirs = set()
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), init, c):
        now = {('attr', SELF, e.name) for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[0] == 'call' and
               e.value[1] == ('ext', 'os.path.dirname') and e.value[2] == (('p', 'manifest_path'),)}
        dirs = now if not dirs else dirs & now
    dirs |= {('call', ('ext', 'os.path.dirname'), (x,), ()) for x in paths}
    for what, xs in (('manifest_path', paths), ('custom_consumer', users), ('do_tail', tails)):
        if not ctx.expect(xs, 'read', what, 'the setting %s is not kept' % what, c):
            return
    w = ctx.walker(types={SELF: c}, noexc=True, loop=2)
    ps = ran(ctx, w, f, c)
    got = two = 0
    for p in ps:
        path = 'path: ' + show_facts(p.facts)
        if p.kind == 'raise':
            ctx.bad('read', 'ends', 'reading ends with an error; ' + path, f)
            continue
        man = [e for e in p.events if opened(e) and opened(e)[0] in paths]
        if not ctx.expect(len(man) == 1 and opened(man[0])[1] in ('r', 'rb', 'rU'), 'read', 'manifest', 'the manifest is opened %d times; %s' % (len(man), path), f):
            continue
        m = man[0].value
        reads = [e for e in p.events if e.kind == 'call' and e.recv == m and e.name in ('readline', 'next')]
        loops = [e for e in p.events if e.kind == 'loop' and (e.value == m or mentions(e.value, m))]
        seen = []
        if reads:
            for e in reads:
                v = p.facts.get(('truthy', e.value))
                if v is None:
                    q = p.facts.get(('eq', K(''), e.value), p.facts.get(('eq', e.value, K(''))))
                    v = None if q is None else not q
                seen.append((e.value, v))
        elif loops:
            for e in loops:
                n = max([x.name for x in p.events if x.kind == 'loopend' and x.value == e.value] or [0])
                seen += [(('it', e.value, i), True) for i in range(n)]
        handed = [e for e in p.events if e.kind == 'call' and e.name == 'on_new_data']
        lines = [t for t, v in seen if v]
        for t, v in seen:
            ctx.expect(v is not None, 'read', 'end', 'the end of the manifest is not recognised; ' + path, f)
        for e in handed:
            ctx.expect(e.recv in users, 'read', 'consumer', 'the data is handed to ' + show(e.recv), e)
        blank = lambda t: any(not v and a[0] == 'truthy' and mentions(a[1], t) and a[1] != t for a, v in p.facts.items())
        lines = [t for t in lines if not blank(t)]
        if not ctx.expect(len(handed) == len(lines), 'read', 'every', '%d of %d lines are handed on; %s' % (len(handed), len(lines), path), f):
            continue
        two = max(two, len(lines))
        for t, e in zip(lines, handed):
            got += 1
            d = held(p, e.args[0]) if e.args else None
            if not ctx.expect(d is not None and len(d) == 2, 'read', 'handed', 'the consumer gets ' + (show(e.args[0])[:200] if e.args else 'nothing'), e):
                continue
            stamp, text = d
            part = lambda u, i: split(u, t) == i
            ctx.expect(part(stamp, 0), 'read', 'time', 'the availability time is ' + show(stamp)[:200], e)
            src = [x for x in p.events if x.kind == 'call' and x.name in ('read',) and x.value == text]
            ops = [x for x in p.events if src and opened(x) and x.value == src[0].recv]
            if not ctx.expect(src and ops and not src[0].args, 'read', 'contents', 'the contents are ' + show(text)[:200], e):
                continue
            folder, name = joined(opened(ops[0])[0])
            ctx.expect(folder in dirs, 'read', 'folder', 'the file is read from ' + show(opened(ops[0])[0])[:200], e)
            ctx.expect(name is not None and part(name, 1), 'read', 'name', 'the file is read from ' + show(opened(ops[0])[0])[:200], e)
        # ends at the end, unless it waits for more
        if p.kind == 'return' and reads:
            ctx.expect(seen and seen[-1][1] is False, 'read', 'ends', 'reading stops before the end of the manifest; ' + path, f)
            ctx.expect(any(a[0] == 'truthy' and a[1] in tails and not v for a, v in p.facts.items()), 'read', 'tail',
                       'reading does not wait for more lines although it should; ' + path, f)
    ctx.some(got, 'read', 'every', 'nothing is read', f)
    ctx.some(two >= 1, 'read', 'every', 'not every line is read', f)


def split(u, line):
    """which part of the line u is"""
    while u[0] == 'call' and u[1][0] == 'bm' and u[1][2] in ('strip', 'rstrip') and (not u[2] or u[2] in ((K('\n'),), (K('\r\n'),))):
        u = u[1][1]
    if u[0] != 'sub' or u[2][0] != 'k':
        return None
    s, i = u[1], u[2][1]
    if not (s[0] == 'call' and s[1][0] == 'bm' and s[1][2] in ('split', 'partition') and s[2][:1] == (K(','),)):
        return None
    if s[1][2] == 'split' and len(s[2]) > 1 and s[2][1] != K(1):
        return None
    x = s[1][1]
    while x[0] == 'call' and x[1][0] == 'bm' and x[1][2] in ('strip', 'rstrip') and (not x[2] or x[2] in ((K('\n'),), (K('\r\n'),))):
        x = x[1][1]
    if x != line:
        return None
    return i // 2 if s[1][2] == 'partition' and i != 1 else i if s[1][2] == 'split' else None


def handing(ctx):
    c = ctx.prog.cls(CONSUMER)
    f = ctx.prog.find_method(c, 'on_new_data')
    ctx.need(f is not None and len(f.params) >= 2, CONSUMER + '.on_new_data')
    d = ('p', f.params[1])
    stamp, text = ('sub', d, K(0)), ('sub', d, K(1))
    n = 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
        path = 'path: ' + show_facts(p.facts)
        if not ctx.expect(p.kind == 'return', 'consume', 'accepted', 'the data is refused; ' + path, f):
            continue
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'process_document']
        empty = p.facts.get(('truthy', text)) is False or p.facts.get(('isnone', text)) is True or \
            any(a[0] == 'eq' and v and text in a[1:] and K('') in a[1:] for a, v in p.facts.items())
        if not ctx.expect(len(calls) == 1 or not calls and empty, 'consume', 'once', 'a document is processed %d times; %s' % (len(calls), path), f):
            continue
        for e in calls:
            n += 1
            ctx.expect(e.recv != NONE, 'consume', 'node', 'documents are not handed to the node', e)
            doc = e.args[0] if e.args else kw(e, 'document')
            ctx.expect(doc == text, 'consume', 'contents', 'the node gets ' + (show(doc)[:200] if doc else 'nothing'), e)
            t = kw(e, 'availability_time')
            if ctx.expect(t is not None, 'consume', 'time', 'the node gets no availability time', e):
                read_time(ctx, t, stamp, e)
    ctx.some(n, 'consume', 'once', 'documents are not handed to the node', f)


def read_time(ctx, t, stamp, loc):
    from .timing import linear
    got = linear(t)
    def place(u):
        """hours, minutes, seconds, milliseconds"""
        if u[0] == 'sub' and u[2][0] == 'k' and u[1][0] == 'call' and u[1][1][0] == 'bm' and u[1][1][2] == 'split':
            s, i = u[1], u[2][1]
            if s[2] == (K(':'),) and s[1][1] == stamp and i in (0, 1):
                return (3600000, 60000)[i]
            if s[2] == (K('.'),) and i in (0, 1):
                v = s[1][1]
                if v[0] == 'sub' and v[2] in (K(2), K(-1)) and v[1][0] == 'call' and v[1][1] == ('bm', stamp, 'split') and v[1][2] == (K(':'),):
                    return (1000, 1)[i]
        if u[0] == 'call' and u[1] == ('ext', 'float') and len(u[2]) == 1:
            return place(u[2][0])
        if u[0] == 'sub' and u[2] in (K(2), K(-1)) and u[1][0] == 'call' and u[1][1] == ('bm', stamp, 'split') and u[1][2] == (K(':'),):
            return 'rest'
        return None
    want = {}
    for u, k in got.items():
        want[place(u)] = k
    full = {3600000: 3600000.0, 60000: 60000.0, 1000: 1000.0, 1: 1.0}
    alt = {3600000: 3600000.0, 60000: 60000.0, 'rest': 1000.0}
    ctx.expect(want == full or want == alt, 'consume', 'time', 'the availability time is read as ' + show(t)[:300], loc)


@check('C19')
def c19(ctx):
    ctx.rule('file', 'every document is written to exactly one file of the configured folder')
    ctx.rule('name', 'the name is the configured pattern with the sequence number, or the count of messages, and the sequence identifier')
    ctx.rule('contents', 'the file holds the document, as UTF-8')
    ctx.rule('manifest', 'after the file is complete, a line with its availability time (plus delay) and name is added to the manifest of the sequence')
    ctx.rule('clock', 'a missing availability time is taken from one clock per sequence, made for the time base of the document')
    ctx.rule('read', 'the reader hands on every line of the manifest, in order, with the contents of the file it names')
    ctx.rule('consume', 'the consumer hands every document on with the availability time of its line')
    writing(ctx)
    reading(ctx)
    handing(ctx)


RING, ROTATING, THREAD = 'RingBufferWithCallback', 'RotatingFileBuffer', 'StoppableThread'
REMOVERS = ('os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.renames', 'shutil.rmtree', 'shutil.move', 'os.truncate')
EMPTY = ('ext', 'Queue.Empty')


def ring(ctx):
    c = ctx.prog.cls(RING)
    f = ctx.prog.find_method(c, 'append')
    init = ctx.prog.find_method(c, '__init__')
    ctx.need(f is not None and init is not None and 'callback' in init.params and 'maxlen' in init.params, RING)
    item = ('p', f.params[1])
    cbs = {('attr', SELF, x) for x in ctor_attrs(ctx, c, 'callback')}
    ctx.expect(cbs, 'ring', 'callback', 'the callback is not kept', init)
    n = 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), init, c):
        if p.kind == 'return':
            up = [e for e in p.events if e.kind == 'call' and e.name == '__init__' and e.recv == SELF]
            ctx.expect(len(up) == 1 and ('p', 'maxlen') in (up[0].args + tuple(v for _, v in up[0].kwargs))[1:] + tuple(
                v for k, v in up[0].kwargs if k == 'maxlen'), 'ring', 'size', 'the buffer does not get its size', init)
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
        path = 'path: ' + show_facts(p.facts)
        if not ctx.expect(p.kind == 'return', 'ring', 'added', 'an item is refused; ' + path, f):
            continue
        n += 1
        added = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.recv == SELF and e.name == 'append']
        ctx.expect(len(added) == 1 and p.events[added[0]].args == (item,), 'ring', 'added', 'an item is added %d times; %s' % (len(added), path), f)
        full = has = None
        for a, v in p.facts.items():
            if any(x[0] == 'call' and x[1] == ('ext', 'len') and x[2] == (SELF,) for x in subterms(a)) and any(
                    x == ('attr', SELF, 'maxlen') for x in subterms(a)):
                if a[0] == 'lt' and a[2] == ('attr', SELF, 'maxlen'):
                    full = not v
                elif a[0] == 'eq':
                    full = v
            if a[0] in ('isnone', 'truthy') and a[1] in cbs:
                has = (not v) if a[0] == 'isnone' else v
        gone = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and e.recv == SELF and e.name in ('popleft', 'pop', 'clear', 'remove', 'rotate')]
        told = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and (e.recv is not None and ('attr', e.recv, e.name) in cbs or
                                                                                fn(e) is not None and fn(e) in cbs)]
        if full is True and has is True:
            ok = len(gone) == len(told) == 1 and (
                gone[0][1].name == 'popleft' and told[0][1].args == (gone[0][1].value,)) and gone[0][0] < told[0][0]
            ok = ok or len(told) == 1 and told[0][1].args == (('sub', SELF, K(0)),) and (
                not gone or gone[0][1].name == 'popleft' and told[0][0] < gone[0][0])
            ctx.expect(ok, 'ring', 'oldest', 'the oldest item of a full buffer is not handed to the callback exactly once; ' + path, f)
            ctx.expect(not added or not gone or gone[0][0] < added[0], 'ring', 'oldest', 'the item just added may be taken for the oldest; ' + path, f)
        elif full is False:
            ctx.expect(not gone and not told, 'ring', 'kept', 'an item is dropped before the buffer is full; ' + path, f)
        elif has is not False:
            ctx.bad('ring', 'oldest', 'whether the buffer is full is not considered; ' + path, f)
    ctx.some(n, 'ring', 'added', 'items are not added', f)


def rotating(ctx):
    c = ctx.prog.cls(ROTATING)
    init = ctx.prog.find_method(c, '__init__')
    handed = ctx.prog.find_method(c, 'delete_file')
    ctx.need(init is not None and handed is not None and 'maxlen' in init.params, ROTATING)
    w = ctx.walker(types={SELF: c}, noexc=True)
    target = None
    threads, queues = set(), set()
    ok_cb = n = 0
    for p in ran(ctx, w, init, c):
        if p.kind != 'return':
            continue
        n += 1
        cb = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[:3] in (('attr', SELF, handed.name), ('bm', SELF, handed.name))]
        ok_cb += bool(cb)
        up = [e for e in p.events if e.kind == 'call' and e.name == '__init__' and e.recv == SELF]
        ctx.expect(any(('p', 'maxlen') in e.args + tuple(v for _, v in e.kwargs) for e in up), 'rotate', 'size', 'the buffer does not get its size', init)
        qs = {e.name for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[0] == 'call' and e.value[1] == ('ext', 'Queue.Queue')}
        queues = qs if not queues else queues & qs
        ctx.expect(not any(e.kind == 'call' and e.name == 'Queue' and (e.args or e.kwargs) and (e.args + tuple(v for _, v in e.kwargs))[0] != K(0) for e in
                           p.events), 'rotate', 'queue', 'the queue of files to delete is limited', init)
        made = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[0] == 'new' and e.value[1].endswith('.' + THREAD)]
        isasync = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'p' or a[0] == 'is' or
                   a[0] == 'eq' and any(x[0] == 'p' for x in a[1:])]
        if made:
            threads.add(made[0].name)
            ev = [e for e in p.events if e.kind == 'call' and e.value == made[0].value]
            t = kw(ev[0], 'target') if ev else None
            ks = kw(ev[0], 'kwargs') if ev else None
            if ctx.expect(t is not None and t[0] in ('attr', 'bm') and t[1] in (SELF, ('cls', c.qualname)), 'rotate', 'thread', 'the thread does not run the deletion', init):
                target = (ctx.prog.find_method(c, t[2]), ks, w.dict_items(ks, p.state)[0] if ks is not None else (), kw(ev[0], 'args'))
            i = p.events.index(made[0])
            ctx.expect(any(e.kind == 'call' and e.name == 'start' and e.recv == made[0].value for e in p.events[i:] if True) or any(
                e.kind == 'call' and e.name == 'start' for e in p.events), 'rotate', 'thread', 'the thread is not started', init)
    ctx.expect(ok_cb == n and n, 'rotate', 'callback', 'files that fall out of the buffer are not deleted', init)
    ctx.expect(len(queues) == 1, 'rotate', 'queue', 'the files to delete are not queued', init)
    ctx.expect(len(threads) == 1 and target is not None and target[0] is not None, 'rotate', 'thread', 'no thread deletes files', init)
    if not queues or not threads or target is None or target[0] is None:
        return
    queue = ('attr', SELF, sorted(queues)[0])
    thread = ('attr', SELF, sorted(threads)[0])
    pairs = {k[1]: v for k, v in target[2] if k[0] == 'k'}
    ctx.expect(queue in pairs.values() or any(v[0] == 'call' and v[1] == ('ext', 'Queue.Queue') for v in pairs.values()) or
               len(target[0].params) <= 1, 'rotate', 'thread', 'the thread works on another queue: %s' % sorted(
                   (k, show(v)) for k, v in pairs.items()), init)
    d = deleter(ctx, c)
    qpar = [k for k, v in pairs.items() if v[0] == 'call' and v[1] == ('ext', 'Queue.Queue') or v == queue]
    qs = {('p', x) for x in qpar} | {queue}
    consume(ctx, c, target[0], d, qs, {target[0].params[0]: ('cls', c.qualname)} if target[0].kind == 'classmethod' else {}, 'thread', {})
    consume(ctx, c, handed, d, {queue}, {}, 'direct', {('isnone', thread): True})
    # handing over
    item = ('p', handed.params[1])
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque={d.name} if d else set()), handed, c):
        puts = [e for e in p.events if e.kind == 'call' and e.name in ('put', 'put_nowait') and e.recv == queue]
        ctx.expect(p.kind == 'return' and len(puts) == 1 and puts[0].args[:1] == (item,), 'rotate', 'handed', 'a file is queued %d times; path: %s' %
                   (len(puts), show_facts(p.facts)), handed)
    # adding
    f = ctx.prog.find_method(c, 'append')
    item = ('p', f.params[1])
    n = 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), f, c):
        path = 'path: ' + show_facts(p.facts)
        stopped = [v for a, v in p.facts.items() if a[0] == 'truthy' and mentions(a[1], thread) and a[1] != thread]
        added = [e for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv == SELF and e.args == (item,)]
        if stopped and stopped[-1]:
            ctx.expect(p.kind == 'raise' and w.exc_name(p.exc) and w.exc_name(p.exc).endswith('RotatingFileBufferStopped') and not added, 'rotate', 'stopped',
                       'files are accepted although they will not be deleted; ' + path, f)
        else:
            n += 1
            none = implied(('isnone', thread), p.facts)
            ctx.expect(stopped or none is True, 'rotate', 'stopped', 'files are accepted although they may not be deleted; ' + path, f)
            ctx.expect(p.kind == 'return' and len(added) == 1, 'rotate', 'added', 'a file is not remembered; ' + path, f)
    ctx.some(n, 'rotate', 'added', 'files are not remembered', f)
    # stopping
    t = ctx.prog.cls(THREAD)
    fs, ft = ctx.prog.find_method(t, 'stop'), ctx.prog.find_method(t, 'stopped')
    if ctx.expect(fs is not None and ft is not None, 'rotate', 'stop', 'the thread cannot be stopped', t):
        flags = set()
        for p in ran(ctx, ctx.walker(types={SELF: t}, noexc=True), ft, t):
            if p.ret is not None and p.ret[0] == 'call' and p.ret[1][0] == 'bm' and p.ret[1][2] in ('isSet', 'is_set'):
                flags.add(p.ret[1][1])
            else:
                ctx.bad('rotate', 'stop', 'the thread is stopped when ' + (show(p.ret) if p.ret else ''), ft)
        for p in ran(ctx, ctx.walker(types={SELF: t}, noexc=True), fs, t):
            ctx.expect({e.recv for e in p.events if e.kind == 'call' and e.name == 'set'} & flags, 'rotate', 'stop', 'the thread is not stopped', fs)


def deleter(ctx, c):
    """the function that deletes the files of a list and returns those it could not delete"""
    found = []
    for k in ctx.prog.mro(c):
        if not isinstance(k, Cls):
            continue
        for m in k.methods.values():
            if len(m.params) - (m.kind in ('method', 'classmethod')) != 1:
                continue
            par = ('p', m.params[-1])
            ps = ctx.walker(types={SELF: c}, noexc=True).run(m, c, args={m.params[0]: ('cls', c.qualname)} if m.kind == 'classmethod' else {})
            if any(e.kind == 'call' and e.recv == par and e.name in ('pop', 'popleft') or e.kind == 'loop' and base_iter(e.value) == par
                   for p in ps for e in p.events) and any(remover(e) for p in ps for e in p.events):
                found.append(m)
    if not ctx.expect(len(found) == 1, 'delete', 'files', 'no function deletes the files of a list', c):
        return None
    m = found[0]
    par = ('p', m.params[-1])
    w = ctx.walker(types={SELF: c}, noexc=False, loop=2, raises={x: (('ext', 'IOError'), ('ext', 'OSError')) for x in ('remove', 'unlink')})
    ps = w.run(m, c, args={m.params[0]: ('cls', c.qualname)} if m.kind == 'classmethod' else {})
    ctx.account(w, ps)
    n = failed = 0
    for p in ps:
        path = 'path: ' + show_facts(p.facts)
        if p.kind != 'return':
            ctx.bad('delete', 'failed', 'a file that cannot be deleted ends the deletion with %s; %s' % (w.exc_name(p.exc) if p.exc else p.kind, path), m)
            continue
        back = held(p, p.ret)
        pops = [e for e in p.events if e.kind == 'call' and e.recv == par and e.name in ('pop', 'popleft')]
        items = [e.value for e in pops]
        inloop = [e for e in p.events if e.kind == 'loop' and base_iter(e.value) == par]
        for e in inloop:
            items += [('it', e.value, i) for i in range(max([x.name for x in p.events if x.kind == 'loopend' and x.value == e.value] or [0]))]
        if pops and not inloop:
            ctx.expect(p.facts.get(('truthy', par)) is False or any(a[0] == 'eq' and v and K(0) in a[1:] for a, v in p.facts.items()), 'delete', 'all',
                       'files are left in the list; ' + path, m)
        removed = [(i, e) for i, e in enumerate(p.events) if remover(e)]
        for i, e in removed:
            x = file_of(e.args[0]) if e.args else None
            ctx.expect(x in items, 'delete', 'files', 'deletes ' + (show(e.args[0])[:200] if e.args else ''), e)
        for x in items:
            n += 1
            mine = [(i, e) for i, e in removed if e.args and file_of(e.args[0]) == x]
            there = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] in (
                ('ext', 'os.path.exists'), ('ext', 'os.path.isfile'), ('ext', 'os.path.lexists')) and file_of(a[1][2][0]) == x]
            if not mine:
                ctx.expect(there and not there[-1] or back is not None and x in back, 'delete', 'all', 'a file is not deleted; ' + path, m)
                continue
            wrong = any(p.events[i + 1].kind == 'mayraise' for i, e in mine if i + 1 < len(p.events))
            if wrong:
                failed += 1
                gone = False
                ctx.expect(back is not None and x in back, 'delete', 'failed', 'a file that could not be deleted is forgotten; ' + path, m)
            elif back is not None:
                ctx.expect(x not in back, 'delete', 'failed', 'a deleted file is deleted again; ' + path, m)
    ctx.some(n, 'delete', 'files', 'files are not deleted', m)
    ctx.some(failed, 'delete', 'failed', 'failing to delete a file is not considered', m)
    return m


def file_of(t):
    while t[0] == 'call' and t[1] in (('ext', 'os.path.abspath'), ('ext', 'os.path.normpath'), ('ext', 'os.path.realpath'), ('ext', 'str')) and len(t[2]) == 1:
        t = t[2][0]
    return t


def remover(e):
    return fn(e) is not None and fn(e)[0] == 'ext' and fn(e)[1] in REMOVERS


def consume(ctx, c, f, d, queues, args, where, facts):
    if d is None:
        return
    w = ctx.walker(types={SELF: c}, noexc=False, loop=2, opaque={d.name}, raises={'get': (EMPTY,), 'get_nowait': (EMPTY,)}, facts=facts,
                   impure=('empty', 'qsize', 'stopped', 'isSet', 'is_set', 'get', 'get_nowait'))
    ps = w.run(f, c, args=args)
    ctx.account(w, ps)
    got = 0
    for p in ps:
        path = 'path: ' + show_facts(p.facts)
        if p.kind != 'return':
            ctx.bad('consume', where, 'deleting files ends with %s; %s' % (w.exc_name(p.exc) if p.exc else p.kind, path), f)
            continue
        cur, pending, waiting = None, [], False
        for i, e in enumerate(p.events):
            if e.kind != 'call':
                continue
            if e.name in ('get', 'get_nowait') and e.recv is not None and (e.recv in queues):
                if i + 1 < len(p.events) and p.events[i + 1].kind == 'mayraise':
                    continue
                pending.append(e.value)
                got += 1
            elif e.name in ('append', 'insert', 'add') and e.args and e.args[-1] in pending:
                ctx.expect(cur is None or e.recv == cur, 'consume', where, 'files that could not be deleted are forgotten; ' + path, e)
                if cur is None:
                    cur = e.recv
                pending.remove(e.args[-1])
                waiting = True
            elif e.name == d.name:
                a = e.args[0] if e.args else e.kwargs[0][1] if e.kwargs else None
                mine = a is not None and pending and a[0] in ('lst', 'bin', 'tup') and all(mentions(a, x) or x in (held(p, a) or ()) for x in pending)
                if mine:
                    pending = []
                    ctx.expect(cur is None or mentions(a, cur), 'consume', where, 'files that could not be deleted are forgotten; ' + path, e)
                else:
                    ctx.expect(cur is None or a == cur, 'consume', where, 'files that could not be deleted are forgotten; ' + path, e)
                cur = e.value
                waiting = False
                ctx.expect(not pending, 'consume', where, 'a file taken from the queue is not deleted; ' + path, e)
        ctx.expect(not pending and not waiting, 'consume', where, 'a file taken from the queue is not deleted; ' + path, f)
        if cur is not None:
            ctx.expect(p.facts.get(('truthy', cur)) is False or any(a[0] == 'eq' and v and K(0) in a[1:] and mentions(a, cur) for a, v in p.facts.items()),
                       'consume', where, 'ends although files remain to be deleted; ' + path, f)
        empty = [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1][0] == 'bm' and a[1][1][1] in queues and
                 a[1][1][2] == 'empty'] + [not v for a, v in p.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1][0] == 'bm' and
                                           a[1][1][1] in queues and a[1][1][2] == 'qsize']
        ctx.expect(empty and empty[-1], 'consume', where, 'ends although files may be queued; ' + path, f)
        if where == 'thread':
            ctx.expect(any(a[0] == 'truthy' and v and a[1][0] == 'call' and (
                a[1][1][0] == 'bm' and a[1][1][2] in ('stopped', 'isSet', 'is_set')) for a, v in p.facts.items()), 'consume', where,
                       'the thread ends before it is stopped; ' + path, f)
    ctx.some(got, 'consume', where, 'files are never taken from the queue', f)


def used(ctx):
    """the producer remembers every file it wrote, once"""
    c = ctx.prog.cls(PRODUCER)
    f, init = ctx.prog.find_method(c, 'emit_data'), ctx.prog.find_method(c, '__init__')
    ctx.need(f is not None and init is not None and 'circular_buf_size' in init.params, PRODUCER)
    size = ('p', 'circular_buf_size')
    bufs, on, off = set(), 0, 0
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), init, c):
        if p.kind != 'return':
            continue
        want = None
        for a, v in p.facts.items():
            if a == ('lt', K(0), size) or a == ('truthy', size):
                want = v
        made = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.value[0] == 'new' and e.value[1].endswith('.' + ROTATING)]
        if made:
            on += 1
            ev = [e for e in p.events if e.kind == 'call' and e.value == made[0].value]
            n = kw(ev[0], 'maxlen', ev[0].args[0] if ev and ev[0].args else None)
            ctx.expect(n == size, 'use', 'size', 'the buffer holds %s files' % (show(n) if n else 'any number of'), init)
            bufs.add(('attr', SELF, made[0].name))
            ctx.expect(want is not False, 'use', 'made', 'files are deleted although no limit is set; path: ' + show_facts(p.facts), init)
        else:
            off += 1
            ctx.expect(want is False, 'use', 'made', 'there is no buffer although a limit is set; path: ' + show_facts(p.facts), init)
    if not ctx.expect(on and len(bufs) == 1, 'use', 'made', 'there is no buffer', init):
        return
    buf = bufs.pop()
    sizes = {('attr', SELF, x) for x in ctor_attrs(ctx, c, 'circular_buf_size')}
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'append', 'check_availability_time'})
    n = 0
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            continue
        path = 'path: ' + show_facts(p.facts)
        on = None
        for a, v in p.facts.items():
            if a[0] == 'lt' and a[1] == K(0) and a[2] in sizes or a[0] == 'truthy' and a[1] in sizes:
                on = v
            if a == ('isnone', buf):
                on = not v
        puts = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and e.recv == buf and e.name == 'append']
        docs = [(i, e, opened(e)[0]) for i, e in enumerate(p.events) if opened(e) and opened(e)[1] in ('w', 'wb')]
        if on is False:
            ctx.expect(not puts, 'use', 'remembered', 'a file is put into a buffer there is not; ' + path, f)
            continue
        if not ctx.expect(on, 'use', 'remembered', 'whether there is a limit is not considered; ' + path, f):
            continue
        n += 1
        ctx.expect(len(puts) == 1 and docs and puts[0][1].args == (docs[0][2],), 'use', 'remembered', 'a written file is remembered %d times (%s); %s' % (
            len(puts), show(puts[0][1].args[0])[:100] if puts and puts[0][1].args else '', path), f)
        if puts and docs:
            wr = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'write' and e.recv == docs[0][1].value]
            ctx.expect(puts[0][0] > docs[0][0], 'use', 'remembered', 'a file is remembered before it is written; ' + path, f)
    ctx.some(n, 'use', 'remembered', 'written files are not remembered', f)
    # manifests are never deleted, nor anything else
    allowed = {d.node for d in [x for x in ctx.prog.funcs if x.cls is not None and x.cls.name == ROTATING]}
    import ast
    for g in ctx.prog.funcs:
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    '%s.%s' % (x.func.value.id, x.func.attr) in REMOVERS:
                inside = g.node in allowed or g.mod is ctx.prog.cls(ROTATING).mod
                ctx.expect(inside, 'use', 'only', '%s deletes or moves files' % g.qualname, g)


@check('C20')
def c20(ctx):
    ctx.rule('ring', 'a full buffer hands its oldest item to the callback, exactly once, before it takes the new one; nothing is dropped before')
    ctx.rule('rotate', 'files that fall out of the buffer are queued for deletion once; nothing is accepted after the thread was stopped')
    ctx.rule('consume', 'what is taken from the queue is deleted, or tried again; neither mode ends while files remain')
    ctx.rule('delete', 'only files of the list are deleted; those that could not be deleted are returned to be tried again')
    ctx.rule('use', 'the producer puts every file it wrote into a buffer of the configured size, once; nothing else is deleted')
    ring(ctx)
    rotating(ctx)
    used(ctx)
