# -*- coding: utf-8 -*-
"""Document sequences: admission, numbering, timing resolution, segmentation."""
from ..core import *
from .nodes import node_paths, DOC, EMIT
from .forward import DOC3
from .documents import SEQ, accessor

ERR = 'ebu_tt_live.errors.'


def at(t, *names):
    for n in names:
        t = ('attr', t, n)
    return t


class Either(F):
    """equivalent formulas: whichever is decided"""
    def __init__(self, *fs):
        self.fs = fs

    def ev(self, facts):
        for f in self.fs:
            v = f.ev(facts)
            if v is not None:
                return v
        return None

    def __repr__(self):
        return repr(self.fs[0])


def role_methods(ctx, c, exc):
    """methods of a class that raise the exception themselves"""
    import ast
    out = []
    for k in ctx.prog.mro(c):
        for f in getattr(k, 'methods', {}).values() if isinstance(k, Cls) else ():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if isinstance(e, ast.Name) and e.id == exc or isinstance(e, ast.Attribute) and e.attr == exc:
                        out.append(f)
    return out


def placing(ctx, c):
    """the outermost methods that place a document and report SequenceOverridden to add_document (or the helper that handles it)"""
    import ast
    all_ = [f for k in ctx.prog.mro(c) if isinstance(k, Cls) for f in k.methods.values()]

    def handles(f):
        return any(isinstance(n, ast.ExceptHandler) and n.type is not None and 'SequenceOverridden' in ast.dump(n.type)
                   for n in ast.walk(f.node))
    out, todo, seen = [], role_methods(ctx, c, 'SequenceOverridden'), set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        up = [g for g in all_ if g is not f and g.name != 'add_document' and not handles(g) and any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name for n in ast.walk(g.node))]
        if up:
            todo += up
        elif f not in out:
            out.append(f)
    return out


def apply_fn(ctx, fnterm, arg, scope):
    """term a key function gives for arg"""
    if fnterm[0] == 'call' and fnterm[1] == ('ext', 'operator.attrgetter') and fnterm[2] and is_k(fnterm[2][0]):
        return at(arg, *str(fnterm[2][0][1]).split('.'))
    w = ctx.walker()
    return w.expr('f(x)', {'f': fnterm, 'x': arg}, scope)


class SeqModel(object):
    def __init__(self, ctx):
        self.c = c = ctx.prog.cls(SEQ)
        self.seqid = accessor(ctx, c, 'sequence_identifier')
        self.clock = accessor(ctx, c, 'reference_clock')
        self.agid = accessor(ctx, c, 'authors_group_identifier')
        self.last = accessor(ctx, c, 'last_sequence_number')
        init = ctx.prog.find_method(c, '__init__')
        self.init = init
        ctx.need(init is not None, 'constructor of the sequence')
        self.heap = None
        for p in ctx.walker(noexc=True).run(init, c):
            if p.kind == 'return':
                self.heap = p.heap
        ctx.need(self.heap is not None, 'constructor of the sequence returns')
        regs = [k for k, v in self.heap.items() if isinstance(k, tuple) and k[0] == SELF and v[0] == 'call' and
                'SortedSet' in repr(v[1])]
        ctx.need(len(regs) == 1, 'register of documents')
        self.docs = ('attr', SELF, regs[0][1])
        self.docs_ctor = self.heap[regs[0]]


@check('C12')
def c12(ctx):
    ctx.rule('seq-admit', 'a document joins a sequence only with its sequence identifier, time base, clock mode, a free number '
             'and a matching authors group')
    ctx.rule('seq-reject', 'a document is rejected only for a mismatch, with the error that names it')
    ctx.rule('seq-number', 'the last number of a sequence is the highest joined or created; created numbers are consecutive')
    ctx.rule('seq-create', 'a sequence takes over the details of the document it is created from and gives them to new documents')
    ctx.rule('seq-order', 'documents are kept and looked up by sequence number')
    ctx.rule('seq-consume', 'the consumer joins every document of its sequence, stamped with the time of its clock when it has none')
    m = SeqModel(ctx)
    c = m.c
    f = ctx.prog.find_method(c, 'add_document')
    ctx.need(f is not None and len(f.params) > 1, 'add_document')
    d = ('p', f.params[1])
    placers = {x.name for x in placing(ctx, c)} - {'add_document'}
    same = And(eq(at(d, 'sequence_identifier'), m.seqid), eq(at(d, 'time_base'), at(m.clock, 'time_base')))
    clockish = Either(*(Or(Not(eq(at(t, 'time_base'), K('clock'))), eq(at(d, 'clock_mode'), at(m.clock, 'clock_mode')))
                        for t in (m.clock, d)))
    dag = at(d, 'authors_group_identifier')
    noag = Either(Or(isnone(dag), eq(dag, K(''))), Not(truthy(dag)))
    ag = Or(noag, Absent(m.agid), eq(dag, m.agid))
    num = at(d, 'sequence_number')
    fams = ((('sequence_identifier', 'time_base'), same), (('clock_mode',), clockish), (('authors_group',), ag))

    def number_free(p, upto, facts):
        """None unknown, True nobody has this number, False somebody does"""
        res = None
        for a, v in facts.items():
            if a[0] == 'eq' and num in a[1:] and mentions(a, m.docs):
                o = a[2] if a[1] == num else a[1]
                if o[0] == 'attr' and o[2] == 'sequence_number' and o[1][0] == 'sub' and o[1][1] == m.docs:
                    i = o[1][2]
                    if 'bisect' in repr(i) and mentions(i, num):
                        left = 'left' in repr(i) or i[0] == 'bin'
                        if v:
                            res = False
                        elif left and res is None:
                            res = True
                elif o[0] == 'attr' and o[1][0] == 'it' and not v:
                    res = res
            elif a[0] == 'eq' and mentions(a, m.docs) and 'len' in repr(a) and 'bisect' in repr(a) and v:
                res = True
            elif a[0] == 'lt' and mentions(a, m.docs) and "'len'" in repr(a) and 'bisect' in repr(a):
                if not v and "'len'" in repr(a[2]) or v and "'len'" in repr(a[1]):
                    res = True
            elif a[0] == 'in' and (a[1] == num or a[1] == d) and mentions(a[2], m.docs):
                res = not v
            elif a[0] == 'truthy' and a[1][0] in ('any', 'all') and m.docs in a[1][2] and not a[1][3] and a[1][1][0] == 'bool' and \
                    a[1][1][1][0] == 'eq' and num in a[1][1][1] and a[1][1][2] is (a[1][0] == 'any'):
                res = v is (a[1][0] == 'all')
            elif a[0] in ('truthy', 'isnone') and mentions(a, m.docs) and mentions(a, num) and a[1][0] in ('call', 'comp') and \
                    res is None and ('next' in repr(a[1][1]) or a[1][0] == 'comp'):
                res = v if a[0] == 'isnone' else not v
        if res is None:
            for e in p.events:
                if e is upto:
                    break
                if e.kind in ('mayraise', 'except') and e.value is not None and ('IndexError' in repr(e.value) or
                                                                                'KeyError' in repr(e.value)):
                    res = True
                if e.kind == 'loopend' and base_iter(e.value) == m.docs:
                    res = True
        return res

    def impossible(p):
        return any(a[0] == 'isnone' and v and a[1][0] == 'sub' and a[1][1] == m.docs for a, v in p.facts.items())
    w = ctx.walker(opaque=placers | Timeline.OPAQUE | {'format'}, loop=1,
                   raises={x: (('cls', ERR + 'SequenceOverridden'), ('cls', ERR + 'DocumentDiscardedError')) for x in placers})
    ps = [p for p in ctx.walk(c, 'add_document', walker=w) if not impossible(p)]
    joined = 0
    for p in ps:
        effects = [e for e in p.events if e.kind == 'store' and (e.recv == SELF or e.recv == d) or
                   e.kind == 'call' and (e.name in placers or e.name in ('add', 'remove', 'discard', 'append', 'pop', 'clear') and
                                         e.recv is not None and mentions(e.recv, SELF))]
        for e in effects[:1]:
            for names, form in fams:
                ctx.expect(form.ev(e.facts) is True, 'seq-admit', '/'.join(names),
                           'a document joins the sequence although it may not match its %s; path: %s' % (
                               '/'.join(names), show_facts(e.facts)), e)
            ctx.expect(number_free(p, e, e.facts) is True, 'seq-admit', 'number', 'a document joins the sequence although its '
                       'number may be taken; path: %s' % show_facts(e.facts), e)
        own = [e for e in p.events if e.kind == 'raise' and e.facts is not None]
        if p.kind == 'raise' and own and not effects:
            n = w.exc_name(p.exc)
            facts = own[-1].facts
            free = number_free(p, own[-1], facts)
            if n == 'IncompatibleSequenceError':
                ok = same.ev(facts) is False or clockish.ev(facts) is False
            elif n == 'SequenceNumberCollisionError':
                ok = free is False
            elif n == 'UnexpectedAuthorsGroupError':
                ok = ag.ev(facts) is False
            else:
                ok = False
            ctx.expect(ok, 'seq-reject', n, 'a document is rejected with %s although nothing says so; path: %s' % (
                n, show_facts(facts)), own[-1])
        elif p.kind == 'raise' and effects and w.exc_name(p.exc) in (
                'IncompatibleSequenceError', 'SequenceNumberCollisionError', 'UnexpectedAuthorsGroupError'):
            ctx.bad('seq-reject', 'effects', 'a rejected document has already changed the sequence', effects[0])
        if p.kind != 'return':
            continue
        # joined
        joined += 1
        ctx.expect(any(e.kind == 'store' and e.recv == d and e.name == 'sequence' and e.value == SELF for e in p.events),
                   'seq-admit', 'sequence', 'the document does not know the sequence it joined; path: %s' % show_facts(p.facts), f)
        if placers:
            ctx.expect(any(e.kind == 'call' and e.name in placers and e.arg(0) == d for e in p.events), 'seq-admit', 'placed',
                       'the document is accepted but not placed; path: %s' % show_facts(p.facts), f)
        st = [e for e in p.events if e.kind == 'store' and e.recv == SELF and e.name == m.agid[2]]
        for e in st:
            ctx.expect(e.value == dag and noag.ev(e.facts) is False and Absent(m.agid).ev(e.facts) is True,
                       'seq-admit', 'authors_group/adopt', 'the authors group of the sequence is replaced; path: %s' %
                       show_facts(e.facts), e)
        if not st and noag.ev(p.facts) is not True:
            ctx.expect(Absent(m.agid).ev(p.facts) is False, 'seq-admit', 'authors_group/adopt',
                       'the authors group of the first document is not adopted; path: %s' % show_facts(p.facts), f)
        higher = lt(m.last, num)
        cur = p.heap.get((SELF, m.last[2]))
        if cur is None:
            ctx.expect(higher.ev(p.facts) is False, 'seq-number', 'add_document', 'a higher number joins but is not '
                       'remembered; path: %s' % show_facts(p.facts), f)
        elif cur == num:
            ctx.expect(higher.ev(p.facts) is True or Not(lt(num, m.last)).ev(p.facts) is True, 'seq-number', 'add_document',
                       'a lower number becomes the last one; path: %s' % show_facts(p.facts), f)
        else:
            ctx.expect(cur[0] == 'call' and cur[1] == ('ext', 'max') and set(cur[2]) == {m.last, num}, 'seq-number',
                       'add_document', 'the last number becomes %s' % show(cur), f)
    ctx.some(joined, 'seq-admit', 'add_document', 'no document ever joins', f)
    # is_compatible: same checks, nothing stored unless they pass
    n = 0
    for p in ctx.walk(c, 'is_compatible'):
        if impossible(p):
            continue
        if p.kind == 'return':
            n += 1
            for names, form in fams:
                ctx.expect(form.ev(p.facts) is True or p.ret == FALSE, 'seq-admit', 'is_compatible/' + '/'.join(names),
                           'a document is declared compatible although it may not be; path: %s' % show_facts(p.facts), p.fn)
    ctx.some(n, 'seq-admit', 'is_compatible', 'nothing is ever compatible', f)
    # creation
    init = m.init
    for param, term in (('sequence_identifier', m.seqid), ('reference_clock', m.clock), ('authors_group_identifier', m.agid)):
        ctx.need(param in init.params, 'constructor argument ' + param)
        ctx.expect(m.heap.get((SELF, term[2])) == ('p', param), 'seq-create', 'constructor/' + param,
                   '%s of a new sequence is not the one given' % param, init)
    ctx.expect(m.heap.get((SELF, m.last[2])) == K(0), 'seq-number', 'constructor', 'a new sequence does not start from number 0', init)
    lang = sorted(ctor_attrs(ctx, c, 'lang'))
    ctx.expect(bool(lang), 'seq-create', 'constructor/lang', 'the language given is lost', init)
    cf = ctx.prog.find_method(c, 'create_from_document')
    ctx.need(cf is not None, 'create_from_document')
    src = ('p', cf.params[1])
    n = 0
    for p in ctx.walk(c, 'create_from_document', args={'cls': ('cls', c.qualname)}, walker=ctx.walker(
            opaque={'get_clock_from_document', 'get_clock'}, loop=1)):
        if p.kind != 'return':
            continue
        n += 1
        r = p.ret
        new = [e for e in p.events if e.kind == 'call' and e.value == r]
        if not new:
            ctx.bad('seq-create', 'create_from_document', 'returns %s instead of a new sequence' % show(r), cf)
            continue
        for name in ('sequence_identifier', 'authors_group_identifier', 'reference_clock', 'lang'):
            v = arg_of(ctx, new[0], init, name)
            own = at(src, name)
            if name != 'reference_clock' and v is not None and not mentions(v, own):
                own = accessor(ctx, DOC3, name, src)
            given = ('sub', ('p', '**kwargs'), K(name))

            def clk(t):
                return name == 'reference_clock' and t[0] == 'call' and 'get_clock' in repr(t[1]) and (
                    src in t[2] or any(x == src for _, x in t[3]) or at(src, 'time_base') in [x for _, x in t[3]] + list(t[2]) and
                    at(src, 'clock_mode') in [x for _, x in t[3]])
            ok = v is not None and (v == own or clk(v) or v == given or
                                    v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'bm' and v[1][2] == 'get' and
                                    v[2][0] == K(name) and len(v[2]) > 1 and (v[2][1] == own or clk(v[2][1])))
            ctx.expect(ok, 'seq-create', 'create_from_document/' + name, 'the new sequence gets %s as its %s' % (
                show(v) if v else 'nothing', name), new[0])
    ctx.some(n, 'seq-create', 'create_from_document', 'no sequence is created', cf)
    # new documents
    for meth in ('create_compatible_document', 'new_document'):
        g = ctx.prog.find_method(c, meth)
        ctx.need(g is not None, meth)
        n = 0
        for p in ctx.walk(c, meth):
            if p.kind != 'return':
                continue
            n += 1
            new = [e for e in p.events if e.kind == 'call' and e.value == p.ret and e.name == 'EBUTT3Document']
            if not new:
                ctx.bad('seq-create', meth, 'returns %s instead of a new document' % show(p.ret), g)
                continue
            e = new[0]
            dinit = ctx.prog.find_method(ctx.prog.cls(DOC3), '__init__')
            want = {'time_base': at(m.clock, 'time_base'), 'clock_mode': at(m.clock, 'clock_mode'),
                    'sequence_identifier': m.seqid, 'authors_group_identifier': m.agid}
            if lang:
                want['lang'] = at(SELF, lang[0])
            for k, v in want.items():
                got = arg_of(ctx, e, dinit, k)
                ctx.expect(got == v, 'seq-create', '%s/%s' % (meth, k), 'a new document of the sequence gets %s as its %s' % (
                    show(got) if got else 'nothing', k), e)
            got = arg_of(ctx, e, dinit, 'sequence_number')
            if meth == 'new_document':
                nxt = ('bin', '+', m.last, K(1))
                ctx.expect(p.heap.get((SELF, m.last[2])) in (nxt, ('bin', '+', K(1), m.last)), 'seq-number', 'new_document',
                           'the last number becomes %s' % show(p.heap.get((SELF, m.last[2])) or m.last), e)
                ok = got == p.heap.get((SELF, m.last[2])) or got is not None and got[0] == 'call' and got[2][-1:] == (
                    p.heap.get((SELF, m.last[2])),)
                ctx.expect(ok, 'seq-number', 'new_document/number', 'a new document gets the number %s' % (
                    show(got) if got else 'none'), e)
            else:
                given = ('sub', ('p', '**kwargs'), K('sequence_number'))
                ok = got in (m.last, given, ('p', 'sequence_number')) or got is not None and got[0] == 'call' and \
                    got[2][:1] == (K('sequence_number'),) and got[2][1:] == (m.last,)
                ctx.expect(ok, 'seq-number', meth + '/number', 'a new document gets the number %s' % (
                    show(got) if got else 'none'), e)
                ctx.expect((SELF, m.last[2]) not in p.heap, 'seq-number', meth, 'creating a document to hand out segments uses '
                           'up a number of the sequence', e)
        ctx.some(n, 'seq-create', meth, 'no document is created', g)
    # register of documents
    key = [v for k, v in m.docs_ctor[3] if k == 'key']
    ctx.need(key, 'key of the register of documents')
    x = ('p', '<doc>')
    ctx.expect(apply_fn(ctx, key[0], x, m.init) == at(x, 'sequence_number'), 'seq-order', 'register',
               'documents are not kept by sequence number', m.init)
    for meth in ('get_document', '__getitem__'):
        g = ctx.prog.find_method(c, meth)
        ctx.need(g is not None, meth)
        q = ('p', g.params[1])
        n = 0
        for p in ctx.walk(c, meth):
            if p.kind == 'raise':
                ctx.expect(w.exc_name(p.exc) == 'KeyError', 'seq-order', meth + '/missing', 'a missing number is reported as %s' %
                           w.exc_name(p.exc), g)
                continue
            if p.kind != 'return':
                continue
            n += 1
            r = p.ret
            good = eq(at(r, 'sequence_number'), q).ev(p.facts) is True or \
                r[0] == 'sub' and r[1][0] in ('dict', 'comp') and r[2] == q or \
                r[0] == 'sub' and r[1][0] == 'comp' and any(a[0] == 'eq' and q in a[1:] for a, v in r[1][4] if v)
            ctx.expect(good, 'seq-order', meth, 'returns a document whose number may not be the one asked for: %s' % show(r), g)
        ctx.some(n, 'seq-order', meth, 'no document is ever found', g)
    # a document accepts only a sequence of its own identifier
    dc = ctx.prog.cls(DOC3)
    pr = ctx.prog.find_prop(dc, 'sequence')
    ctx.need(pr is not None and pr.setter is not None and pr.getter is not None, 'sequence of a document')
    own = [p.ret for p in ctx.walk(dc, pr.getter) if p.kind == 'return']
    ctx.some(len(set(own)) == 1, 'seq-admit', 'document', 'a document does not know its sequence', pr.getter)
    value = ('p', pr.setter.params[1])
    fits = eq(at(SELF, 'sequence_identifier'), at(value, 'sequence_identifier'))
    seen = set()
    for p in ctx.walk(dc, pr.setter, walker=ctx.walker(opaque={'sequence_identifier'}, noexc=True)):
        kept = [k for k, v in p.heap.items() if isinstance(k, tuple) and k[0] == SELF and v == value]
        v = fits.ev(p.facts)
        seen.add(v)
        ctx.expect(v is not None and (p.kind == 'return' and own and kept == [own[0][1:]]) == v and (v or p.kind == 'raise'), 'seq-admit',
                   'document', 'a document %s; path: %s' % ('joins the sequence' if kept else 'does not join', show_facts(p.facts)), pr.setter)
    ctx.expect(seen >= {True, False}, 'seq-admit', 'document', 'a document joins any sequence', pr.setter)
    # consumer
    for cls in ('node.consumer:SimpleConsumer', 'node.consumer:ReSequencer'):
        consumer(ctx, cls, m)


def consumer(ctx, cls, m):
    c = ctx.prog.cls(cls)
    create = {'create_sequence_from_document'}
    f = ctx.prog.find_method(c, 'process_document')
    ctx.need(f is not None, 'process_document')
    d = ('p', f.params[1])
    short = c.name
    init = ctx.prog.find_method(c, '__init__')
    clock = accessor(ctx, c, 'reference_clock')
    # the attribute that keeps the sequence
    g = ctx.prog.find_method(c, 'create_sequence_from_document')
    ctx.need(g is not None, 'create_sequence_from_document')
    src = ('p', g.params[1])
    seq = None
    for p in ctx.walk(c, g.name, walker=ctx.walker(opaque={'create_from_document'})):
        if p.kind != 'return':
            continue
        news = [(k, v) for k, v in p.heap.items() if isinstance(k, tuple) and k[0] == SELF and v[0] == 'call' and
                isinstance(v[1], tuple) and v[1][-1] == 'create_from_document' or
                isinstance(k, tuple) and k[0] == SELF and v[0] == 'call' and 'create_from_document' in repr(v[1])]
        if not news:
            ctx.bad('seq-consume', short + '/create', 'no sequence is created from the document', g)
            continue
        k, v = news[0]
        seq = at(SELF, k[1])
        ctx.expect(src in v[2] or ('document', src) in v[3], 'seq-consume', short + '/create', 'the sequence is not created from '
                   'the document given', g)
        now = p.heap.get((SELF, clock[2]))
        if now is None:
            ctx.expect(isnone(clock).ev(p.facts) is False or truthy(clock).ev(p.facts) is True, 'seq-consume', short + '/clock',
                       'a consumer without a clock of its own does not get that of the sequence; path: %s' % show_facts(p.facts), g)
        else:
            ctx.expect((isnone(clock).ev(p.facts) is True or truthy(clock).ev(p.facts) is False) and now[0] == 'attr' and now[2] == 'reference_clock' or now == at(v, m.clock[2]), 'seq-consume', short + '/clock',
                       'the clock of the consumer is replaced; path: %s' % show_facts(p.facts), g)
    if seq is None:
        return
    ps, w, f, env = node_paths(ctx, cls, extra_opaque=create | {'add_document', 'get_time'})
    n = 0
    for p in ps:
        adds = [e for e in p.events if e.kind == 'call' and e.name == 'add_document' and d in e.args + tuple(
            v for _, v in e.kwargs)]
        isdoc = [v for a, v in p.facts.items() if a[0] in ('truthy', 'isinst') and mentions(a, d) and (
            a[0] == 'isinst' and a[1] == d or 'is_document' in repr(a[1]))]
        if p.kind == 'raise':
            continue
        if not adds:
            ctx.expect(isdoc and not all(isdoc), 'seq-consume', short + '/join', 'a document is not put into the sequence; path: %s' %
                       show_facts(p.facts), f)
            continue
        n += 1
        e = adds[0]
        ctx.expect(len(adds) == 1, 'seq-consume', short + '/join', 'a document is put into the sequence twice', e)
        made = [x for x in p.events if x.kind == 'call' and x.name in create]
        have = isnone(seq).ev(e.facts)
        if have is None and truthy(seq).ev(e.facts) is not None:
            have = not truthy(seq).ev(e.facts)
        ctx.expect(bool(made) == (have is True) and all(d in x.args or ('document', d) in x.kwargs for x in made), 'seq-consume',
                   short + '/create', 'a sequence is %s' % ('replaced by a later document' if made else 'missing for the first '
                                                              'document') + '; path: %s' % show_facts(e.facts), e)
        ctx.expect(e.recv == seq, 'seq-consume', short + '/join', 'the document joins %s' % show(e.recv), e)
        av = at(d, 'availability_time')
        if any(mentions(a, accessor(ctx, DOC3, 'availability_time', d)) for a in p.facts):
            av = accessor(ctx, DOC3, 'availability_time', d)
        stored = [x for x in p.events if x.kind == 'store' and x.recv == d and x.name == av[2] and x.idx < e.idx]
        if stored:
            ctx.expect(isnone(av).ev(stored[0].facts) is True and 'get_time' in repr(stored[0].value) and mentions(
                stored[0].value, clock), 'seq-consume', short + '/availability', 'the availability time becomes %s although %s' % (
                    show(stored[0].value), show_facts(stored[0].facts)), stored[0])
            ctx.expect(not made or made[0].idx < stored[0].idx, 'seq-consume', short + '/clock order', 'the clock is read before '
                       'there is one', stored[0])
        else:
            ctx.expect(isnone(av).ev(p.facts) is False, 'seq-consume', short + '/availability', 'a document joins without an '
                       'availability time; path: %s' % show_facts(p.facts), e)
        for x in p.events:
            if x.kind == 'except' and x.idx > e.idx:
                ctx.expect('SequenceNumberCollisionError' in repr(x.value), 'seq-consume', short + '/errors', 'an error of the '
                           'sequence is ignored: %s' % show(x.value), x)
    ctx.some(n, 'seq-consume', short + '/join', 'no document is ever put into the sequence', f)


BEGIN, END = 'documents.ebutt3:TimingEventBegin', 'documents.ebutt3:TimingEventEnd'


def is_new(t, cls, *args):
    return t[0] == 'new' and t[1].endswith('.' + cls) and (t[3] == tuple(args) or
                                                         not t[3] and tuple(v for _, v in t[4]) == tuple(args))


class Timeline(object):
    """names and terms of the timeline, as the walks with its accessors left alone see them"""
    OPAQUE = {'element', 'when', 'timeline', 'content_to_string', 'discard_document', 'locate_element_end', 'locate_element_begin'}

    def __init__(self, ctx):
        self.tl = at(SELF, 'timeline')
        self.bq, self.eq = ('cls', ctx.prog.cls(BEGIN).qualname), ('cls', ctx.prog.cls(END).qualname)

    def kind(self, item, facts):
        """'begin', 'end', 'other' or None"""
        b, e = (implied(('isinst', item, q), facts) for q in (self.bq, self.eq))
        if b is True or e is False and b is None:
            return 'begin'
        if e is True or b is False and e is None:
            return 'end'
        if b is False and e is False:
            return 'other'
        return None

    def scans(self, p, begins, backward):
        """scans of the timeline from the begin of a document: [(event, container term)]"""
        out = []
        for e in p.events:
            if e.kind == 'call' and e.name == 'irange' and e.recv == self.tl:
                rev = kw(e, 'reverse', FALSE) != FALSE
                lo, hi = e.arg(0, 'minimum'), e.arg(1, 'maximum')
                inc = kw(e, 'inclusive')
                if inc is not None and inc != ('tup', (TRUE, TRUE)):
                    continue
                if backward and rev and lo in (None, NONE) and hi is not None and begins(hi) or \
                        not backward and not rev and hi in (None, NONE) and lo is not None and begins(lo):
                    out.append((e, e.value))
        return out

    def visited(self, p, cont):
        return [('it', cont, e.name) for e in p.events if e.kind == 'loop' and e.value == cont]


@check('C32')
def c32(ctx):
    ctx.rule('res-discard', 'a document is discarded exactly when one with a higher number begins no later')
    ctx.rule('res-next', 'the next document with a higher number cuts off a document; a lower one makes room first')
    ctx.rule('res-trim', 'the document active at the begin of a new one ends there: its only end event is moved')
    ctx.rule('res-insert', 'a placed document is registered with its begin, and its end when it has one')
    ctx.rule('res-override', 'documents with lower numbers that begin no earlier are removed with all their events before the retry')
    ctx.rule('res-events', 'timing events are those of the computed times, sorted by time')
    ctx.rule('res-report', 'a document reports the times and the discarded state its sequence resolved')
    ctx.rule('res-before', 'dropping old documents removes every other document that began by then, with all its events')
    m = SeqModel(ctx)
    c = m.c
    T = Timeline(ctx)
    events(ctx, T)
    ms = placing(ctx, c)
    ctx.need(len(ms) == 1, 'the method that reports an overridden sequence')
    placer = ms[0]
    place(ctx, m, T, placer)
    add(ctx, m, T, placer)
    before(ctx, m, T)
    report(ctx, m, T)


def events(ctx, T):
    x = ('p', 'element')
    for cls, attr in ((BEGIN, 'computed_begin_time'), (END, 'computed_end_time')):
        c = ctx.prog.cls(cls)
        f = ctx.prog.find_method(c, '__init__')
        n = 0
        when, elem = accessor(ctx, c, 'when'), accessor(ctx, c, 'element')
        for p in ctx.walk(c, '__init__', args={f.params[1]: x}):
            if p.kind != 'return':
                continue
            n += 1
            ctx.expect(p.heap.get((SELF, when[2])) == at(x, attr), 'res-events', c.name + '/when', 'the time of the event is %s' %
                       show(p.heap.get((SELF, when[2])) or NONE), f)
            ctx.expect(p.heap.get((SELF, elem[2])) == x, 'res-events', c.name + '/element', 'the element of the event is %s' %
                       show(p.heap.get((SELF, elem[2])) or NONE), f)
        ctx.some(n, 'res-events', c.name, 'no event can be made', f)
        pr = ctx.prog.find_prop(c, 'when')
        ctx.need(pr.setter is not None, 'setting the time of an event')
        v = ('p', pr.setter.params[1])
        for p in ctx.walk(c, pr.setter):
            if p.kind == 'return':
                ctx.expect(p.heap.get((SELF, when[2])) == v, 'res-events', c.name + '/move', 'moving an event has no effect; path: %s' %
                           show_facts(p.facts), pr.setter)
            elif ('isinst', v, 'datetime.timedelta') not in p.facts:
                ctx.bad('res-events', c.name + '/move', 'an event can not be moved', pr.setter)
    c = ctx.prog.cls('TimelineUtilMixin')
    pr = ctx.prog.find_prop(c, 'timeline')
    ctx.need(pr is not None, 'timeline')
    n = 0
    keep = None
    for p in ctx.walk(c, pr.getter):
        if p.kind != 'return':
            continue
        r = p.ret
        if r[0] == 'attr':
            keep = r
            ctx.expect(Absent(r).ev(p.facts) is False, 'res-events', 'timeline', 'there may be no timeline', pr.getter)
            continue
        n += 1
        st = [k for k, v in p.heap.items() if v == r and isinstance(k, tuple) and k[0] == SELF]
        ctx.expect(bool(st) and (not keep or any(k[1] == keep[2] for k in st)), 'res-events', 'timeline', 'the new timeline is not kept',
                   pr.getter)
        for k in st:
            ctx.expect(isnone(('attr', SELF, k[1])).ev(p.facts) is True, 'res-events', 'timeline', 'a timeline with events '
                       'may be replaced; path: %s' % show_facts(p.facts), pr.getter)
        key = [v for k, v in r[3] if k == 'key'] if r[0] == 'call' else []
        e = ('p', '<event>')
        ctx.expect(bool(key) and apply_fn(ctx, key[0], e, pr.getter) == at(e, 'when'), 'res-events', 'timeline/key', 'the timeline '
                   'is not sorted by the time of its events', pr.getter)
    ctx.some(n, 'res-events', 'timeline', 'no timeline is ever made', pr.getter)
    # finding the event of an element
    for name, kind in (('locate_element_begin', 'begin'), ('locate_element_end', 'end')):
        f = ctx.prog.find_method(c, name)
        ctx.need(f is not None, name)
        x = ('p', f.params[1])
        n = 0
        for p in ctx.walk(c, name, walker=ctx.walker(loop=2, opaque={'element', 'when', 'timeline'})):
            if p.kind == 'raise':
                ctx.expect(ctx.walker().exc_name(p.exc) in ('LookupError', 'KeyError'), 'res-report', name + '/missing',
                           'a missing event is reported as %s' % show(p.exc), f)
                continue
            n += 1
            r = p.ret
            good = r[0] == 'it' and T.kind(r, p.facts) == kind and eq(at(r, 'element'), x).ev(p.facts) is True
            cont = r[1] if r[0] == 'it' else None
            full = cont == T.tl or cont is not None and cont[0] == 'call' and isinstance(cont[1], tuple) and cont[1][-1] == 'irange' and \
                not any(k in ('maximum', 'reverse', 'inclusive') for k, _ in cont[3]) and len(cont[2]) <= 1 and \
                all(is_new(a, 'TimingEventBegin', x) for a in cont[2] + tuple(v for _, v in cont[3]))
            ctx.expect(good and full, 'res-report', name, 'the event found is %s; path: %s' % (show(r), show_facts(p.facts)), f)
        ctx.some(n, 'res-report', name, 'no event is ever found', f)


def place(ctx, m, T, f):
    c = m.c
    d = ('p', f.params[1])
    num = at(d, 'sequence_number')
    w = ctx.walker(loop=2, opaque=T.OPAQUE | {'format'})
    ps = ctx.walk(c, f, walker=w)

    def begins(t):
        return is_new(t, 'TimingEventBegin', d)

    def number(item):
        return at(item, 'element', 'sequence_number')
    MUT = lambda e: e.kind == 'call' and e.name in ('add', 'remove', 'discard', 'pop', 'clear') and e.recv in (T.tl, m.docs) or \
        e.kind == 'store' and e.recv is not None and (e.recv == SELF or e.recv == d)
    n = {'discard': 0, 'override': 0, 'trim': 0, 'cut': 0, 'insert': 0}
    for p in ps:
        back = [b for _, t in T.scans(p, begins, True) for b in T.visited(p, t)]
        fwd = [b for _, t in T.scans(p, begins, False) for b in T.visited(p, t)]
        name = w.exc_name(p.exc) if p.kind == 'raise' else None
        highs = [b for b in back if lt(num, number(b)).ev(p.facts) is True]
        for b in back:
            if lt(num, number(b)).ev(p.facts) is None and lt(number(b), num).ev(p.facts) is not True:
                # an earlier item has already decided the matter
                ctx.expect(bool(highs), 'res-discard', 'number', 'an earlier event is passed over without comparing the '
                           'numbers; path: %s' % show_facts(p.facts), f)
        muts = [e for e in p.events if MUT(e)]
        if name == 'DocumentDiscardedError':
            n['discard'] += 1
            own = [e for e in p.events if e.kind == 'raise'][-1]
            ctx.expect(bool(highs), 'res-discard', 'raise', 'a document is discarded although no earlier one has a higher number; '
                       'path: %s' % show_facts(p.facts), own)
            ctx.expect(not muts, 'res-discard', 'effects', 'a discarded document has changed the sequence', own)
            off = p.heap.get((p.exc, 'offending_document'))
            if off is None and p.exc[0] == 'new':
                off = next(iter(p.exc[3] + tuple(v for _, v in p.exc[4])), None)
            ctx.expect(off is not None and any(off == at(b, 'element') for b in highs), 'res-discard', 'offending',
                       'the offending document is %s' % (show(off) if off else 'not told'), own)
            continue
        ctx.expect(not highs, 'res-discard', 'placed', 'a document is placed although one with a higher number begins no later; '
                   'path: %s' % show_facts(p.facts), f)
        if name == 'SequenceOverridden':
            n['override'] += 1
            own = [e for e in p.events if e.kind == 'raise'][-1]
            ctx.expect(any(T.kind(b, p.facts) == 'begin' and (lt(number(b), num).ev(p.facts) is True or
                                                             lt(num, number(b)).ev(p.facts) is False) for b in fwd),
                       'res-next', 'override', 'documents are overridden although none begins later with a lower number; path: %s' %
                       show_facts(p.facts), own)
            ctx.expect(not muts, 'res-next', 'override/effects', 'the timeline is changed before the retry', own)
            continue
        if name is not None:
            ctx.bad('res-insert', 'raise ' + name, 'a compatible document is rejected with %s; path: %s' % (name, show_facts(p.facts)), f)
            continue
        # the document is placed
        n['insert'] += 1
        sb, sf = T.scans(p, begins, True), T.scans(p, begins, False)
        if not sb or not sf:
            ctx.bad('res-discard' if not sb else 'res-next', 'scan', 'the events %s the begin of the document are not looked at' % (
                'up to' if not sb else 'after'), f)
            continue
        # own end
        ends = [e for e in p.events if e.kind == 'call' and e.name == 'TimingEventEnd' and is_new(e.value, 'TimingEventEnd', d)]
        own_end = ends[0].value if ends else None
        nxt = [b for b in fwd if T.kind(b, p.facts) == 'begin']
        for b in fwd:
            k = T.kind(b, p.facts)
            if k is None and not nxt:
                ctx.bad('res-next', 'kind', 'a later event is passed over without looking at its kind; path: %s' % show_facts(p.facts), f)
            if k == 'begin':
                ctx.expect(lt(number(b), num).ev(p.facts) is False or lt(num, number(b)).ev(p.facts) is True, 'res-next', 'lower',
                           'a document with a lower number that begins later stays; path: %s' % show_facts(p.facts), f)
        nxt = [b for b in nxt if lt(num, number(b)).ev(p.facts) is True]
        stores = [e for e in p.events if e.kind == 'store' and e.name == 'when' and own_end is not None and e.recv == own_end]
        orig = at(own_end, 'when') if own_end is not None else None
        if nxt and own_end is not None:
            b = nxt[0]
            bw = at(b, 'when')
            opened = isnone(orig).ev(p.facts) is True or isnone(at(d, 'computed_end_time')).ev(p.facts) is True
            later = lt(bw, orig).ev(p.facts) is True or lt(orig, bw).ev(p.facts) is True
            cut = opened or lt(bw, orig).ev(p.facts) is True
            nocut = lt(bw, orig).ev(p.facts) is False or lt(orig, bw).ev(p.facts) is True
            if stores:
                n['cut'] += 1
                ctx.expect(stores[-1].value == bw, 'res-next', 'cut', 'the end of the document becomes %s' % show(stores[-1].value),
                           stores[-1])
                ctx.expect(cut or lt(orig, bw).ev(p.facts) is False, 'res-next', 'cut', 'a document that ends before the next one '
                           'begins gets a later end; path: %s' % show_facts(p.facts), stores[-1])
            else:
                ctx.expect(nocut and not opened, 'res-next', 'cut', 'a document goes on after the begin of the next one; path: %s' %
                           show_facts(p.facts), f)
        else:
            ctx.expect(not stores, 'res-next', 'cut', 'the end of a document is moved without a later document; path: %s' %
                       show_facts(p.facts), f)
        # the document active until now
        first = [b for b in back if T.kind(b, p.facts) == 'begin'][:1]
        over = [b for b in back if T.kind(b, p.facts) == 'end' and (not first or b[2] < first[0][2])]
        for b in back:
            if T.kind(b, p.facts) is None and not first:
                ctx.bad('res-trim', 'kind', 'an earlier event is passed over without looking at its kind; path: %s' %
                        show_facts(p.facts), f)
        ended = None
        if first:
            be = at(first[0], 'element')
            known = [v for a, v in p.facts.items() if a[0] == 'in' and a[1] == be or a[0] == 'eq' and be in a[1:] and
                     any(at(o, 'element') in a[1:] for o in over) or a[0] == 'any' and mentions(a, be)]
            ended = True if any(known) else False if known or not over else None
            if ended is True and not over:
                continue      # nothing ended before: can not be among the ended ones
        adds = [e for e in p.events if e.kind == 'call' and e.name == 'add' and e.recv == T.tl and e.args]
        rems = [e for e in p.events if e.kind == 'call' and e.name in ('remove', 'discard') and e.recv == T.tl and e.args]
        mine = [e for e in adds if is_new(e.args[0], 'TimingEventBegin', d) or e.args[0] == own_end or
                is_new(e.args[0], 'TimingEventEnd', d)]
        other = [e for e in adds if e not in mine]
        if not first or ended is True:
            ctx.expect(not other and not rems, 'res-trim', 'none active', 'an event of another document is changed although none is '
                       'active; path: %s' % show_facts(p.facts), (other + rems + [f])[0])
        elif ended is None:
            ctx.bad('res-trim', 'ended', 'it is not checked whether the previous document has already ended; path: %s' %
                    show_facts(p.facts), f)
        else:
            n['trim'] += 1
            be = at(first[0], 'element')
            if len(other) != 1:
                ctx.bad('res-trim', 'moved', 'the active document is not ended by the new one (%d ends set); path: %s' % (
                    len(other), show_facts(p.facts)), f)
                continue
            y = other[0].args[0]
            loc = y[0] == 'call' and isinstance(y[1], tuple) and y[1][-1] == 'locate_element_end' and be in y[2] + tuple(v for _, v in y[3])
            hit = y[0] == 'it' and T.kind(y, p.facts) == 'end' and eq(at(y, 'element'), be).ev(p.facts) is True
            fresh = is_new(y, 'TimingEventEnd', be)
            ctx.expect(loc or hit or fresh, 'res-trim', 'end', 'the event moved is not the end of the active document; path: %s' %
                       show_facts(p.facts), other[0])
            if fresh:
                # nothing to move: its end has been searched for over the whole rest of the timeline
                failed = [e for e in p.events if e.kind in ('mayraise', 'except') and e.idx < other[0].idx and 'LookupError' in repr(e.value)]
                scans = [e for e in p.events if e.kind == 'loopend' and e.idx < other[0].idx and whole(e.value, T, first[0], be)]
                gone = [v for a, v in p.facts.items() if a[0] in ('isnone', 'truthy') and mentions(a, be) and 'locate' in repr(a) and
                        v == (a[0] == 'isnone')]
                ctx.expect(bool(failed or scans or gone), 'res-trim', 'search', 'a second end is added although the active document '
                           'may have one further on; path: %s' % show_facts(p.facts), other[0])
                ctx.expect(not [e for e in rems if e.idx < other[0].idx and not failed], 'res-trim', 'removed', 'another event is removed',
                           (rems + [f])[0])
            else:
                pre = [e for e in rems if e.args[0] == y and e.idx < other[0].idx]
                mv = [e for e in p.events if e.kind == 'store' and e.name == 'when' and e.recv == y]
                ctx.expect(len(pre) == 1 and mv and pre[0].idx < mv[0].idx, 'res-trim', 'removed', 'the end stays at its old place '
                           'on the timeline; path: %s' % show_facts(p.facts), other[0])
            mv = [e for e in p.events if e.kind == 'store' and e.name == 'when' and e.recv == y]
            ctx.expect(len(mv) == 1 and mv[0].idx < other[0].idx and mv[0].value[0] == 'attr' and mv[0].value[2] == 'when' and
                       begins(mv[0].value[1]) or len(mv) == 1 and mv[0].value == at(d, 'computed_begin_time') and
                       mv[0].idx < other[0].idx, 'res-trim', 'time', 'the active document does not end at the begin of the new '
                       'one; path: %s' % show_facts(p.facts), other[0])
        # registered
        reg = [e for e in p.events if e.kind == 'call' and e.name == 'add' and e.recv == m.docs and e.args == (d,)]
        ctx.expect(len(reg) == 1, 'res-insert', 'register', 'the document is registered %d times' % len(reg), f)
        bs = [e for e in mine if is_new(e.args[0], 'TimingEventBegin', d)]
        es = [e for e in mine if e not in bs]
        ctx.expect(len(bs) == 1, 'res-insert', 'begin', 'the begin of the document is put on the timeline %d times; path: %s' % (
            len(bs), show_facts(p.facts)), f)
        for e in es:
            ctx.expect(len(es) == 1 and (e.args[0] == own_end or own_end is None), 'res-insert', 'end', 'the end of the document put '
                       'on the timeline is not the resolved one', e)
            cur = stores[-1].value if stores else at(e.args[0], 'when')
            ctx.expect(bool(stores) or isnone(at(e.args[0], 'when')).ev(e.facts) is False, 'res-insert', 'open end', 'an end without '
                       'a time is put on the timeline; path: %s' % show_facts(e.facts), e)
            ctx.expect(not [x for x in stores if x.idx > e.idx], 'res-insert', 'end order', 'the end is moved while it is on the '
                       'timeline', e)
        if not es:
            v = stores[-1].value if stores else orig
            ctx.expect(v is not None and isnone(v).ev(p.facts) is True, 'res-insert', 'end', 'the end of the document is '
                       'missing on the timeline; path: %s' % show_facts(p.facts), f)
    for k, v in n.items():
        ctx.some(v, {'discard': 'res-discard', 'override': 'res-next', 'trim': 'res-trim', 'cut': 'res-next',
                     'insert': 'res-insert'}[k], 'case ' + k, 'this case never happens', f)


def whole(cont, T, first, elem):
    """iteration over the timeline from at most the begin of elem to its end"""
    cont = base_iter(cont)
    if cont == T.tl:
        return True
    if cont[0] != 'call' or not isinstance(cont[1], tuple) or cont[1] != ('bm', T.tl, 'irange'):
        return False
    if any(k in ('maximum', 'reverse', 'inclusive') for k, _ in cont[3]) or len(cont[2]) > 1:
        return False
    lo = cont[2] + tuple(v for _, v in cont[3])
    return all(x == first or is_new(x, 'TimingEventBegin', elem) or x == NONE for x in lo)


def removal(ctx, rule, m, T, p, evs, scan, keep, until, what, f, fwd, d):
    """documents met in a scan are registered with their events and then discarded and removed with all of them.
    keep(item, facts) -> True the document stays, False it has to go, None undecided"""
    items = [('it', scan, e.name) for e in evs if e.kind == 'loop' and e.value == scan]
    facts = p.facts
    got = {}
    conts = set()
    for it in items:
        reg = [e for e in evs if e.kind in ('call', 'setitem') and (it in e.args or e.value == it and e.kind == 'setitem' or
               any(a[0] in ('lst', 'tup') and it in a[-1] for a in e.args)) and
               e.name in ('append', 'add', '__setitem__', 'insert', 'extend', 'setdefault') + ((e.name,) if e.kind == 'setitem' else ())]
        got[it] = reg
        k = keep(it, facts)
        if k is None:
            ctx.bad(rule, what + '/choice', 'it is not decided which documents go; path: %s' % show_facts(facts), f)
        else:
            ctx.expect(bool(reg) != k, rule, what + '/choice', 'an event of a document that %s; path: %s' % (
                'stays is removed' if k else 'goes is left behind', show_facts(facts)), f)
        for e in reg:
            t = e.recv
            while t is not None and t[0] not in ('dict', 'lst', 'new', 'p') and t[0] in ('call', 'sub', 'attr'):
                if t[0] == 'call':
                    t = t[1][1] if isinstance(t[1], tuple) and t[1][0] == 'bm' else None
                else:
                    t = t[1]
            conts.add(t)
            ctx.expect(mentions(e.recv, at(it, 'element')) or any(mentions(a, at(it, 'element')) for a in e.args if a != it) or
                       e.kind == 'setitem' or t is None or t[0] != 'dict', rule, what + '/register', 'the event is registered for another document', e)
    return got, conts


def cleared(ctx, rule, m, T, p, evs, end_ok, what, f):
    """every registered document is discarded, taken out of the register, and its events off the timeline"""
    n = 0
    for e in evs:
        if e.kind == 'loop':
            ctx.expect(base_iter(e.value)[0] != 'slice' and 'islice' not in repr(base_iter(e.value)[1]), rule, what + '/part',
                       'only a part is gone through: %s' % show(e.value), e)
    disc = [e for e in evs if e.kind == 'call' and e.name == 'discard_document']
    outer = [e for e in evs if e.kind == 'loop' and any(x.recv == it_of(e) for x in disc)]
    for e in disc:
        v = e.arg(0, 'resolved_end_time')
        n += 1
        ctx.expect(v is not None and end_ok(v), rule, what + '/end', 'the end of a removed document becomes %s' % (show(v) if v else
                   'unknown'), e)
        doc = e.recv
        rem = [x for x in evs if x.kind == 'call' and x.name in ('remove', 'discard') and x.recv == m.docs and x.args == (doc,)]
        ctx.expect(len(rem) == 1, rule, what + '/register', 'a discarded document stays in the register', e)
        loops = [x for x in evs if x.kind == 'loop' and mentions(x.value, doc) and x.idx != e.idx]
        rm = [x for x in evs if x.kind == 'call' and x.name in ('remove', 'discard') and x.recv == T.tl]
        if loops:
            n += 1
            ctx.expect(any(x.args and x.args[0] == it_of(loops[0]) or x.args and mentions(x.args[0], doc) for x in rm), rule,
                       what + '/events', 'the events of a discarded document stay on the timeline', loops[0])
            ends = [x.name for x in evs if x.kind == 'loopend' and x.value == loops[0].value]
            ctx.expect(bool(ends) and max(ends) >= 1, rule, what + '/events', 'some events of a discarded document stay on the timeline',
                       loops[0])
        elif not [x for x in evs if x.kind == 'loopend' and mentions(x.value, doc)]:
            ctx.bad(rule, what + '/events', 'the events of a discarded document stay on the timeline', e)
        dep = [a for a in e.facts if mentions(a, doc) and doc[0] == 'it' and a not in ()]
        dep = [a for a in dep if a[0] not in ('in',)]
        ctx.expect(not dep, rule, what + '/all', 'a document is discarded only when %s' % ' and '.join(show_atom(a) for a in dep), e)
    return n


def it_of(e):
    return ('it', e.value, e.name)


def add(ctx, m, T, placer):
    c = m.c
    f = ctx.prog.find_method(c, 'add_document')
    d = ('p', f.params[1])
    num = at(d, 'sequence_number')
    w = ctx.walker(loop=1, opaque=T.OPAQUE | {placer.name, 'format'}, raises={
        placer.name: (('cls', ERR + 'SequenceOverridden'), ('cls', ERR + 'DocumentDiscardedError'))})
    ps = ctx.walk(c, 'add_document', walker=w)
    count = {'retry': 0, 'discard': 0, 'removed': 0}

    def begins(t):
        return is_new(t, 'TimingEventBegin', d)

    def keep(it, facts):
        n = at(it, 'element', 'sequence_number')
        low = lt(n, num).ev(facts)
        if low is None and lt(num, n).ev(facts) is True:
            low = False
        k = T.kind(it, facts)
        known = [v for a, v in facts.items() if a[0] == 'in' and a[1] == at(it, 'element')]
        if low is False:
            return True
        if low is None:
            return None
        if k == 'begin' or k == 'other':
            return False
        if known and any(known):
            return False
        if k == 'end' and known and not any(known):
            return True
        if known and not any(known) and k is None:
            return None
        return None
    for p in ps:
        for i, e in enumerate(p.events):
            if e.kind != 'mayraise' or e.name != placer.name:
                continue
            rest = p.events[i + 1:]
            if 'DocumentDiscardedError' in repr(e.value):
                if any(x.kind == 'mayraise' and x.name == placer.name for x in p.events[:i]):
                    continue       # the retry can not be discarded: the first attempt looks at the same earlier events
                count['discard'] += 1
                ds = [x for x in rest if x.kind == 'call' and x.name == 'discard_document' and x.recv == d]
                ctx.expect(len(ds) == 1 and p.kind == 'return', 'res-discard', 'report', 'a discarded document does not know that it '
                           'is; path: %s' % show_facts(p.facts), e)
                for x in ds:
                    v = x.arg(0, 'resolved_end_time')
                    ctx.expect(v is not None and v[0] == 'attr' and v[2] == 'resolved_begin_time' and v[1][0] == 'attr' and
                               v[1][2] == 'offending_document', 'res-discard', 'report/end', 'its end becomes %s instead of the begin '
                               'of the document it lost to' % (show(v) if v else 'unknown'), x)
            if 'SequenceOverridden' not in repr(e.value) or any(x.kind == 'mayraise' and x.name == placer.name for x in p.events[:i]):
                continue
            again = [j for j, x in enumerate(rest) if x.kind == 'call' and x.name == placer.name]
            count['retry'] += 1
            if not again or d not in rest[again[0]].args + tuple(v for _, v in rest[again[0]].kwargs):
                ctx.bad('res-override', 'retry', 'the document is not placed after making room; path: %s' % show_facts(p.facts), e)
                continue
            seg = rest[:again[0]]
            scans = [(x, t) for x, t in T.scans(p, begins, False) if x in seg]
            if len(scans) != 1:
                ctx.bad('res-override', 'scan', 'the events from the begin of the document on are not looked at', e)
                continue
            removal(ctx, 'res-override', m, T, p, seg, scans[0][1], keep, True, 'override', f, True, d)
            loops = [x for x in seg if x.kind == 'loop' and x.value == scans[0][1]]
            ends = [x for x in seg if x.kind == 'loopend' and x.value == scans[0][1]]
            ctx.expect(not loops or ends and max(x.name for x in ends) >= 1, 'res-override', 'scan/end', 'the scan stops early', e)
            count['removed'] += cleared(ctx, 'res-override', m, T, p, seg, lambda v: v[0] == 'attr' and v[2] == 'when' and begins(v[1]) or
                                        v == at(d, 'computed_begin_time'), 'override', f)
    for k, v in count.items():
        ctx.some(v, 'res-discard' if k == 'discard' else 'res-override', 'case ' + k, 'this case never happens', f)


def before(ctx, m, T):
    c = m.c
    f = ctx.prog.find_method(c, 'discard_before')
    ctx.need(f is not None, 'discard_before')
    d = ('p', f.params[1])
    ps = ctx.walk(c, f, walker=ctx.walker(loop=1, opaque=T.OPAQUE))

    def begins(t):
        return is_new(t, 'TimingEventBegin', d)

    def keep(it, facts):
        e = eq(at(it, 'element'), d).ev(facts)
        if e is None and implied(('is', at(it, 'element'), d), facts) is not None:
            e = implied(('is', at(it, 'element'), d), facts)
        return e
    n = 0
    zero = ('call', ('ext', 'datetime.timedelta'), (), ())
    for p in ps:
        if p.kind != 'return':
            ctx.bad('res-before', 'raise', 'old documents are not dropped but %s raised' % show(p.exc), f)
            continue
        scans = [e for e in p.events if e.kind == 'call' and e.name == 'irange' and e.recv == T.tl]
        ok = len(scans) == 1 and kw(scans[0], 'reverse', FALSE) == FALSE and begins(scans[0].arg(1, 'maximum') or NONE) and \
            scans[0].arg(0, 'minimum') in (None, NONE) and kw(scans[0], 'inclusive', ('tup', (TRUE, TRUE))) == ('tup', (TRUE, TRUE))
        if not ok:
            ctx.bad('res-before', 'scan', 'the events up to the begin of the document are not looked at', f)
            continue
        removal(ctx, 'res-before', m, T, p, p.events, scans[0].value, keep, False, 'discard_before', f, False, d)
        n += cleared(ctx, 'res-before', m, T, p, p.events, lambda v: v == zero or v[0] == 'call' and 'timedelta' in repr(v[1]) and all(
            x in (K(0),) for x in v[2]) and all(x in (K(0),) for _, x in v[3]), 'discard_before', f)
    ctx.some(n, 'res-before', 'discard_before', 'nothing is ever dropped', f)


def report(ctx, m, T):
    # the document's side
    dc = ctx.prog.cls(DOC3)
    f = ctx.prog.find_method(dc, 'discard_document')
    ctx.need(f is not None, 'discard_document')
    end = ('p', f.params[1])
    cb = accessor(ctx, dc, 'computed_begin_time')
    stored = {}
    n = 0
    for p in ctx.walk(dc, f, walker=ctx.walker(opaque={'content_to_string', 'format'})):
        late = lt(cb, end).ev(p.facts)
        if p.kind == 'raise':
            ctx.expect(late is True, 'res-report', 'discard/error', 'a document can not be discarded; path: %s' % show_facts(p.facts), f)
            continue
        n += 1
        b = [k[1] for k, v in p.heap.items() if isinstance(k, tuple) and k[0] == SELF and v == cb]
        e = [k[1] for k, v in p.heap.items() if isinstance(k, tuple) and k[0] == SELF and v == end]
        ctx.expect(len(b) == 1 and len(e) == 1, 'res-report', 'discard', 'a discarded document does not keep its begin and the end '
                   'given; path: %s' % show_facts(p.facts), f)
        if b and e:
            stored = {'resolved_begin_time': b[0], 'resolved_end_time': e[0]}
    ctx.some(n, 'res-report', 'discard', 'a document can not be discarded', f)
    for prop, attr in sorted(stored.items()):
        pr = ctx.prog.find_prop(dc, prop)
        own = at(SELF, attr)
        seen = set()
        for p in ctx.walk(dc, pr.getter, walker=ctx.walker(opaque={'sequence', prop}, attr_types={})):
            ctx.expect(not [e for e in p.events if e.kind in ('store', 'setattr') and e.recv == SELF], 'res-report', prop + '/kept',
                       'a time is kept when it is asked for, although documents that arrive later change it', pr.getter)
            if p.kind != 'return':
                continue
            r = p.ret
            if r == own:
                seen.add('own')
                ctx.expect(isnone(own).ev(p.facts) is False, 'res-report', prop, 'a time that is not set may be reported; path: %s' %
                           show_facts(p.facts), pr.getter)
            elif r[0] == 'call' and isinstance(r[1], tuple) and r[1][-1] == prop and SELF in r[2] + tuple(v for _, v in r[3]):
                seen.add('seq')
                ctx.expect(isnone(own).ev(p.facts) is True, 'res-report', prop, 'the time set when it was discarded is not '
                           'reported; path: %s' % show_facts(p.facts), pr.getter)
            else:
                ctx.bad('res-report', prop, 'reports %s' % show(r), pr.getter)
        ctx.expect(seen == {'own', 'seq'}, 'res-report', prop + '/cases', 'only one of the own and the resolved time is ever reported',
                   pr.getter)
    pr = ctx.prog.find_prop(dc, 'discarded')
    ctx.need(pr is not None, 'discarded')
    rb, re_ = at(SELF, 'resolved_begin_time'), at(SELF, 'resolved_end_time')
    early = lt(rb, re_)
    w = ctx.walker(opaque={'resolved_begin_time', 'resolved_end_time'})
    outcomes = set()
    for p in ctx.walk(dc, pr.getter, walker=w):
        if p.kind != 'return':
            continue
        r = p.ret
        for s, val in decide(w, r, p):
            facts = s
            none = isnone(re_).ev(facts)
            e = early.ev(facts)
            want = False if none is True else (not e) if none is False and e is not None else None
            outcomes.add((want, val))
            ctx.expect(want is not None and want == val, 'res-report', 'discarded', 'a document says %s although %s' % (
                'it is discarded' if val else 'it is not discarded', show_facts(facts) or 'nothing is known'), pr.getter)
    ctx.expect({v for _, v in outcomes} == {True, False}, 'res-report', 'discarded/cases', 'the discarded state never changes', pr.getter)
    # the sequence's side
    c = m.c
    for prop, loc in (('resolved_begin_time', 'locate_element_begin'), ('resolved_end_time', 'locate_element_end')):
        f = ctx.prog.find_method(c, prop)
        ctx.need(f is not None, prop)
        d = ('p', f.params[1])
        n = 0
        for p in ctx.walk(c, f, walker=ctx.walker(opaque=T.OPAQUE, raises={loc: ('LookupError',)})):
            member = [v for a, v in p.facts.items() if a[0] == 'in' and a[1] == d and a[2] == m.docs]
            missing = any(e.kind == 'mayraise' and e.name == loc for e in p.events)
            if p.kind == 'raise':
                ctx.expect(not all(member) or missing, 'res-report', prop + '/error', 'the time of a document of the sequence is not '
                           'reported; path: %s' % show_facts(p.facts), f)
                continue
            ctx.expect(bool(member) and all(member), 'res-report', prop + '/member', 'the time of a document that is not in the '
                       'sequence is reported; path: %s' % show_facts(p.facts), f)
            r = p.ret
            if r[0] == 'attr' and r[2] == 'when' and r[1][0] == 'call' and r[1][1][-1] == loc and d in r[1][2] + tuple(
                    v for _, v in r[1][3]):
                n += 1
                ctx.ok('res-report', prop)
            elif r == NONE and missing and prop == 'resolved_end_time':
                ctx.expect(isnone(at(d, 'computed_end_time')).ev(p.facts) is True, 'res-report', prop + '/open', 'a document with a '
                           'computed end is reported as open; path: %s' % show_facts(p.facts), f)
            elif r == NONE and prop == 'resolved_end_time' and any(
                    a[0] == 'truthy' and v is False and a[1][0] == 'attr' and a[1][2] == 'when' for a, v in p.facts.items()):
                ctx.bad('res-report', prop + '/zero', 'an end at time zero is reported as an open end; path: %s' % show_facts(p.facts), f)
            elif any(a[0] == 'truthy' and v is False and a[1][0] == 'call' and a[1][1][-1] == loc for a, v in p.facts.items()):
                pass        # an event is always true
            else:
                ctx.bad('res-report', prop, 'reports %s; path: %s' % (show(r), show_facts(p.facts)), f)
        ctx.some(n, 'res-report', prop, 'no time is ever reported', f)


def decide(w, r, p):
    """outcomes (facts, bool) of a returned truth value"""
    if r in (TRUE, FALSE):
        return [(p.facts, r == TRUE)]
    st = p.state.copy()
    st.ctrl = None
    T, F = w.split(r, st)
    return [(s.facts, True) for s in T] + [(s.facts, False) for s in F]
