# -*- coding: utf-8 -*-
"""Processing nodes: duplicate suppression, output identity, handover selection, pass-through, delays."""
from ..core import *

DOC = ('p', 'document')
EMIT = is_call('emit_data')
HELPERS = {'check_if_document_seen', 'limit_sequence_to_one', 'emit_data', 'validate', 'get_xml', 'convert_document',
           'create_from_raw_binding', 'remove_duplication', 'has_a_leaf_with_no_timing_path', 'update_body_timing',
           'update_children_timing', 'create_from_document', 'is_compatible', 'add_document', 'extract_segment',
           'get_sync_point', 'create_sequence_from_document'}


def node_paths(ctx, cls, kind='doc', extra_opaque=(), transparent=(), method='process_document', args=None):
    doc_t = ctx.prog.cls('documents.ebutt3:EBUTT3Document' if kind == 'doc' else
                         'documents.ebutt3:EBUTTAuthorsGroupControlRequest')
    w = ctx.walker(types={DOC: doc_t}, opaque=(HELPERS | set(extra_opaque)) - set(transparent), depth=8)
    ps = ctx.walk(cls, method, walker=w, args=args)
    f = ctx.prog.find_method(ctx.prog.cls(cls), method)
    env = {'self': SELF, 'document': DOC}
    w.selfcls = ctx.prog.cls(cls)
    w.o.types[SELF] = ctx.prog.cls(cls)
    return ps, w, f, env


def node_classes(ctx):
    base = ctx.prog.cls('node.base:AbstractConsumerNode')
    out = []
    for c in ctx.prog.subclasses(base):
        f = ctx.prog.find_method(c, 'process_document')
        if f is not None and not flow.is_abstract(f) and c.mod.name.startswith('ebu_tt_live.node'):
            out.append(c)
    return out


# ------------------------------------------------------------------------------------------------ C04
@check('C04')
def c04(ctx):
    ctx.rule('seen-guard', 'a document is emitted only after the duplicate test for that document succeeded')
    ctx.rule('seen-identity', 'the duplicate test runs on the identity the document arrived with')
    ctx.rule('seen-complete', 'a document that is not a duplicate is not dropped silently')
    ctx.rule('seen-test', 'the duplicate test answers false exactly for a remembered number of the same sequence and '
                          'remembers every other number')
    ctx.rule('seen-memory', 'at least the last 100 numbers of each sequence are remembered, per node instance')
    for cls in ('DistributingNode', 'RetimingDelayNode', 'DeDuplicatorNode', 'HandoverNode'):
        ps, w, f, env = node_paths(ctx, cls)
        seq = w.expr('document.sequence_identifier', env, f)
        num = w.expr('document.sequence_number', env, f)
        chk = ctx.prog.find_method(ctx.prog.cls(cls), 'check_if_document_seen')
        ctx.need(chk is not None, 'duplicate test of ' + cls)

        def seen_calls(p, upto=None):
            out = []
            for e in p.events:
                if e is upto:
                    break
                if e.kind == 'call' and e.name == 'check_if_document_seen':
                    out.append(e)
            return out
        n = 0
        guarded = True
        for p in ps:
            for e in p.events:
                if EMIT(e):
                    n += 1
                    cs = seen_calls(p, e)
                    good = [c for c in cs if truthy(c.value).ev(e.facts) is True]
                    if not good:
                        guarded = False
                        ctx.bad('seen-guard', cls, 'a document can be emitted although the duplicate test was not made or '
                                'did not succeed; known there: %s' % show_facts(e.facts), e)
                        continue
                    for c in good:
                        d = arg_of(ctx, c, chk, 'document')
                        s = arg_of(ctx, c, chk, 'sequence_identifier')
                        q = arg_of(ctx, c, chk, 'sequence_number')
                        if d is not None:
                            stale = [x for x in p.events[:p.events.index(c)] if x.kind == 'store' and
                                     (x.recv, x.name) in ((seq[1], seq[2]), (num[1], num[2]))]
                            ok = d == DOC and not stale
                        else:
                            ok = s == seq and q == num
                        ctx.expect(ok, 'seen-identity', cls, 'the duplicate test does not use the sequence identifier and '
                                   'number the document arrived with', c)
                        if len(cs) > 1:
                            ctx.bad('seen-guard', cls, 'the duplicate test runs twice on one document, so that it rejects '
                                    'the document it has just remembered', cs[1])
        ctx.some(n, 'seen-complete', cls, 'no document is ever emitted', f)
        if guarded:
            ctx.ok('seen-guard', cls)
        if cls != 'HandoverNode':      # the handover node selects, see C06
            for p in ps:
                if p.kind == 'return' and not any(EMIT(e) for e in p.events):
                    cs = seen_calls(p)
                    if not cs or truthy(cs[-1].value).ev(p.facts) is not False:
                        ctx.bad('seen-complete', cls, 'a document that is not a duplicate is dropped; path: %s' %
                                show_facts(p.facts), p.fn)
                        break
            else:
                ctx.ok('seen-complete', cls)
    # the duplicate test itself
    base = ctx.prog.cls('node.base:AbstractConsumerNode')
    for label, args in (('document', {'document': DOC}),
                        ('pair', {'document': NONE, 'sequence_identifier': ('p', 'sequence_identifier'),
                                  'sequence_number': ('p', 'sequence_number')})):
        w = ctx.walker(types={DOC: ctx.prog.cls('documents.ebutt3:EBUTT3Document')})
        ps = ctx.walk(base, 'check_if_document_seen', walker=w, args=args)
        f = ctx.prog.find_method(base, 'check_if_document_seen')
        env = dict(args, self=SELF)
        if label == 'document':
            seq, num = w.expr('document.sequence_identifier', env, f), w.expr('document.sequence_number', env, f)
            ps = [p for p in ps if implied(('truthy', DOC), p.facts) is not False]
        else:
            seq, num = args['sequence_identifier'], args['sequence_number']
        check_seen_function(ctx, ps, seq, num, label, f)


def check_seen_function(ctx, ps, seq, num, label, f):
    inst = 'check_if_document_seen/' + label
    trues = falses = 0
    for p in ps:
        if p.kind == 'raise':
            ok = isnone(seq).ev(p.facts) is True or isnone(num).ev(p.facts) is True
            ctx.expect(ok, 'seen-test', inst, 'raises although sequence identifier and number are known', p.events[-1])
            continue
        # membership facts about (num in <store>[seq])
        val = p.ret
        if val[0] == 'bool' or val[0] in ('not', 'and', 'or'):
            ctx.bad('seen-test', inst, 'does not remember the document it answers for: %s' % show(val), f)
            continue
        mem = member_facts(p.facts, seq, num)
        if val == FALSE or val[0] == 'k' and not val[1]:
            falses += 1
            ctx.expect(mem is True, 'seen-test', inst, 'answers "duplicate" although the number is not known to be '
                       'remembered for this sequence; path: %s' % show_facts(p.facts), f)
        elif val == TRUE or val[0] == 'k' and val[1]:
            trues += 1
            ctx.expect(mem is False, 'seen-test', inst, 'answers "new" although the number may be remembered for this '
                       'sequence; path: %s' % show_facts(p.facts), f)
            rec = [e for e in p.events if e.kind == 'call' and e.name in ('append', 'add', 'appendleft') and
                   e.args[:1] == (num,) and keyed_by(e.recv, seq, p)]
            ctx.expect(len(rec) >= 1, 'seen-test', inst, 'does not remember the number of a new document under its '
                       'sequence; path: %s' % show_facts(p.facts), f)
        else:
            ctx.bad('seen-test', inst, 'answers neither yes nor no: %s' % show(val), f)
    ctx.some(trues, 'seen-test', inst, 'never answers that a document is new', f)
    ctx.some(falses, 'seen-test', inst, 'never answers that a document is a duplicate', f)
    # capacity
    caps = 0
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and e.name in ('deque', 'RingBufferWithCallback'):
                caps += 1
                ml = kw(e, 'maxlen')
                if ml is None:
                    tgt = e.target
                    if isinstance(tgt, Cls):
                        init = ctx.prog.find_method(tgt, '__init__')
                        if init is not None:
                            ml = arg_of(ctx, e, init, 'maxlen')
                ctx.expect(ml is None or ml == NONE or ml[0] == 'k' and isinstance(ml[1], int) and ml[1] >= 100,
                           'seen-memory', inst, 'remembers fewer than 100 numbers of a sequence: %s' % show(ml or NONE), e)
    # per instance: the store is created in the constructor
    store = None
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and e.name in ('append', 'add', 'appendleft') and e.args[:1] == (num,):
                for t in subterms(e.recv):
                    if t[0] == 'attr' and t[1] == SELF:
                        store = t
    if store is not None:
        init = ctx.prog.find_method(ctx.prog.cls('node.base:AbstractConsumerNode'), '__init__')
        w = ctx.walker()
        ips = w.run(init, ctx.prog.cls('node.base:AbstractConsumerNode'))
        good = all(last_store(p, SELF, store[2]) is not None for p in ips if p.kind == 'return')
        ctx.expect(good, 'seen-memory', 'per instance', 'the remembered numbers are shared by all nodes because the '
                   'constructor does not create the store', init)


def keyed_by(recv, seq, p):
    """recv denotes the per-sequence container: it mentions the sequence identifier as key"""
    if recv is None:
        return False
    if mentions(recv, seq):
        return True
    # freshly created container stored under the key
    for e in p.events:
        if e.kind == 'setitem' and e.name == seq and e.value == recv:
            return True
    return False


def member_facts(facts, seq, num):
    """truth of 'num in store[seq]' given branch facts"""
    res = None
    for a, v in facts.items():
        if a[0] == 'in' and a[1] == num and mentions(a[2], seq):
            return v
        if a[0] == 'in' and a[1] == seq and v is False:
            res = False
        if a[0] in ('isnone',) and v is True and a[1][0] in ('call', 'sub') and mentions(a[1], seq) and a[1] != seq:
            res = False
        if a[0] == 'truthy' and v is False and a[1][0] in ('call', 'sub') and mentions(a[1], seq) and a[1] != seq:
            res = False
    return res


# ------------------------------------------------------------------------------------------------ C05
SINGLE_INPUT = ('RetimingDelayNode', 'DeDuplicatorNode', 'node.encoder:EBUTTDEncoder', 'node.consumer:SimpleConsumer',
                'node.consumer:ReSequencer')


@check('C05')
def c05(ctx):
    ctx.rule('own-output-id', 'every document leaves under the sequence identifier the node was configured with')
    ctx.rule('reject-own-id', 'a document already carrying the output identifier is rejected before anything else happens')
    ctx.rule('renumber', 'output numbers are consecutive, starting at 1, one per emitted document')
    ctx.rule('one-input', 'documents of a second input sequence are rejected before they have any effect')
    ctx.rule('one-input-test', 'the first document fixes the input sequence, others must match it')
    # identity of emitted documents
    for cls, param in (('RetimingDelayNode', 'document_sequence'), ('DeDuplicatorNode', 'sequence_identifier'),
                       ('HandoverNode', 'sequence_identifier')):
        out_id = ctor_attr(ctx, cls, param)
        ps, w, f, env = node_paths(ctx, cls)
        seq = w.expr('document.sequence_identifier', env, f)
        n = 0
        for p in ps:
            for e in p.events:
                if EMIT(e):
                    n += 1
                    data = e.arg(0, 'data')
                    cur = e.heap.get((seq[1], seq[2]), seq)
                    ok = data == DOC and cur == out_id
                    ctx.expect(ok, 'own-output-id', cls, 'the emitted document carries %s and not the configured output '
                               'identifier' % show(cur), e)
        ctx.some(n, 'own-output-id', cls, 'no document is ever emitted', f)
        if cls != 'HandoverNode':
            same = eq(seq, out_id)
            n = 0
            for p in ps:
                eff = [e for e in p.events if e.kind in ('store', 'setitem') or e.kind == 'call' and e.name in (
                    'emit_data', 'limit_sequence_to_one', 'check_if_document_seen', 'validate', 'append')]
                for e in eff:
                    if same.ev(e.facts) is not False:
                        ctx.bad('reject-own-id', cls, 'a document with the output identifier of the node is processed', e)
                        break
                else:
                    if same.ev(p.facts) is True:
                        n += 1
                        ctx.expect(p.kind == 'raise' and 'UnexpectedSequenceIdentifierError' == w.exc_name(p.exc),
                                   'reject-own-id', cls, 'a document with the output identifier of the node is not '
                                   'rejected with UnexpectedSequenceIdentifierError', f)
                    elif p.kind == 'raise' and p.events and p.events[-1].kind == 'raise' and not any(
                            e.kind == 'call' for e in p.events):
                        ctx.bad('reject-own-id', cls, 'other documents are rejected as well: %s' % show_facts(p.facts), f)
            ctx.expect(n > 0, 'reject-own-id', cls, 'no path rejects a document with the output identifier', f)
    # handover numbering
    ps, w, f, env = node_paths(ctx, 'HandoverNode')
    num = w.expr('document.sequence_number', env, f)
    check_counter(ctx, ps, f, w, num, 'HandoverNode')
    # live messages leave the handover node under the output identifier too
    psm, wm, fm, envm = node_paths(ctx, 'HandoverNode', kind='msg')
    mseq = wm.expr('document.sequence_identifier', envm, fm)
    out_id = ctor_attr(ctx, 'HandoverNode', 'sequence_identifier')
    for p in psm:
        for e in p.events:
            if EMIT(e):
                cur = e.heap.get((mseq[1], mseq[2]), mseq)
                ctx.expect(cur == out_id, 'own-output-id', 'HandoverNode/message', 'the emitted message carries %s and not '
                           'the configured output identifier' % show(cur), e)
    check_resequencer(ctx)
    # single input
    for cls in SINGLE_INPUT:
        ps, w, f, env = node_paths(ctx, cls, transparent={'create_sequence_from_document'})
        n = 0
        done = False
        for p in ps:
            lim = False
            for e in p.events:
                if e.kind == 'call' and e.name == 'limit_sequence_to_one':
                    lim = True
                    ctx.expect(DOC in (e.args + tuple(v for _, v in e.kwargs)), 'one-input', cls, 'the test is not made on '
                               'the received document', e)
                    stale = [x for x in p.events[:p.events.index(e)] if x.kind == 'store' and x.recv[:1] == ('attr',) and
                             x.recv[1] == DOC]
                    ctx.expect(not stale, 'one-input', cls, 'the test is made after the document was modified', e)
                elif e.kind in ('store', 'setitem') or e.kind == 'call' and e.name in (
                        'emit_data', 'add_document', 'convert_document', 'validate', 'create_from_document', 'append',
                        'remove_duplication', 'update_body_timing', 'update_children_timing'):
                    n += 1
                    if not lim and not done:
                        done = True
                        ctx.bad('one-input', cls, 'a document of a second sequence has an effect before it is rejected', e)
        ctx.some(n, 'one-input', cls, 'documents have no effect at all', f)
        if not done:
            ctx.ok('one-input', cls)
    base = ctx.prog.cls('node.base:AbstractConsumerNode')
    w = ctx.walker(types={DOC: ctx.prog.cls('documents.ebutt3:EBUTT3Document')}, opaque=set())
    ps = ctx.walk(base, 'limit_sequence_to_one', walker=w)
    f = ctx.prog.find_method(base, 'limit_sequence_to_one')
    seq = w.expr('document.sequence_identifier', {'self': SELF, 'document': DOC}, f)
    first = None
    for p in ps:
        for e in p.stores():
            if e.recv == SELF and e.value == seq:
                first = ('attr', SELF, e.name)
    if first is None:
        ctx.bad('one-input-test', 'limit_sequence_to_one', 'the first document does not fix the input sequence', f)
        return
    for p in ps:
        st = [e for e in p.stores(first[2]) if e.recv == SELF]
        for e in st:
            ctx.expect(e.value == seq and Absent(first).ev(e.facts) is True, 'one-input-test', 'limit_sequence_to_one',
                       'the accepted sequence is replaced although one is already fixed', e)
        if p.kind == 'raise':
            ctx.expect(eq(first, seq).ev(p.facts) is False and w.exc_name(p.exc) == 'UnexpectedSequenceIdentifierError' and
                       Absent(first).ev(p.facts) is not True,
                       'one-input-test', 'limit_sequence_to_one', 'rejects a document of the accepted sequence (%s)' %
                       show_facts(p.facts), p.events[-1])
        else:
            ok = eq(first, seq).ev(p.facts) is True or (Absent(first).ev(p.facts) is True and len(st) == 1)
            ctx.expect(ok, 'one-input-test', 'limit_sequence_to_one', 'accepts a document of another sequence or does not '
                       'fix the first one; path: %s' % show_facts(p.facts), f)


def plus_one(term):
    """base term x if term is x + 1 (in either order, possibly converted to int), else None"""
    if term[0] == 'call' and term[1] == ('ext', 'int') and len(term[2]) == 1:
        return plus_one(term[2][0])
    if term[0] == 'bin' and term[1] == '+':
        if term[3] == K(1):
            return term[2]
        if term[2] == K(1):
            return term[3]
    return None


def strip_int(t):
    while t[0] == 'call' and t[1] == ('ext', 'int') and len(t[2]) == 1:
        t = t[2][0]
    return t


def check_counter(ctx, ps, f, w, num, cls):
    c = ctx.prog.cls(cls)
    n = 0
    for p in ps:
        for e in p.events:
            if not EMIT(e):
                continue
            n += 1
            cur = e.heap.get((num[1], num[2]))
            if cur is None:
                ctx.bad('renumber', cls, 'the emitted document keeps the sequence number it arrived with', e)
                continue
            cur = strip_int(cur)
            base = plus_one(cur)
            if base is not None and base[0] == 'attr' and base[1] == SELF:
                counter, start = base, 0        # pre-increment
            elif cur[0] == 'attr' and cur[1] == SELF:
                counter, start = cur, 1         # post-increment
            else:
                ctx.bad('renumber', cls, 'the emitted number %s is not the next number of a counter' % show(cur), e)
                continue
            final = p.heap.get((SELF, counter[2]))
            ctx.expect(final is not None and plus_one(final) == counter, 'renumber', cls, 'the counter does not advance by '
                       'one with an emitted document', e)
            init = ctx.prog.find_method(c, '__init__')
            for q in ctx.walker(noexc=True).run(init, c):
                if q.kind == 'return':
                    v = q.heap.get((SELF, counter[2]))
                    ctx.expect(v == K(start), 'renumber', cls, 'the first emitted number is not 1', init)
        if not any(EMIT(e) for e in p.events) and p.kind == 'return':
            pass
    # the counter does not move without an emission
    for p in ps:
        if not any(EMIT(e) for e in p.events):
            for e in p.stores():
                if e.recv == SELF and plus_one(e.value) == ('attr', SELF, e.name):
                    ctx.bad('renumber', cls, 'the output number advances although nothing is emitted', e)
    ctx.some(n, 'own-output-id', cls, 'no document is ever emitted', f)


def check_resequencer(ctx):
    cls = 'node.consumer:ReSequencer'
    c = ctx.prog.cls(cls)
    out_id = ctor_attr(ctx, cls, 'sequence_identifier')
    w = ctx.walker(opaque={'extract_segment', 'emit_data', 'get_time'}, depth=6)
    ps = ctx.walk(cls, 'convert_next_segment', walker=w)
    f = ctx.prog.find_method(c, 'convert_next_segment')
    extract = ctx.prog.func('documents.ebutt3:EBUTT3DocumentSequence.extract_segment')
    n = 0
    for p in ps:
        segs = [e for e in p.events if e.kind == 'call' and e.name == 'extract_segment']
        for e in p.events:
            if EMIT(e):
                n += 1
                data = e.arg(0, 'data')
                if not segs:
                    ctx.bad('own-output-id', cls, 'emits something else than an extracted segment', e)
                    continue
                ctx.expect(data == segs[-1].value, 'own-output-id', cls, 'emits something else than the extracted segment', e)
                cur = e.heap.get((data, 'sequence_identifier'))
                ctx.expect(cur == out_id, 'own-output-id', cls, 'the emitted segment carries %s and not the configured '
                           'output identifier' % (show(cur) if cur else 'the input identifier'), e)
                num = strip_int(arg_of(ctx, segs[-1], extract, 'sequence_number') or NONE)
                if (data, 'sequence_number') in e.heap:
                    num = strip_int(e.heap[(data, 'sequence_number')])
                base = plus_one(num)
                if base is not None and base[0] == 'attr' and base[1] == SELF:
                    counter, start = base, 0
                elif num[0] == 'attr' and num[1] == SELF:
                    counter, start = num, 1
                else:
                    ctx.bad('renumber', cls, 'the emitted number %s is not the next number of a counter' % show(num), e)
                    continue
                final = p.heap.get((SELF, counter[2]))
                ctx.expect(final is not None and plus_one(final) == counter, 'renumber', cls, 'the counter does not '
                           'advance by one with an emitted segment', e)
                init = ctx.prog.find_method(c, '__init__')
                for q in ctx.walker(noexc=True, opaque={'get_time', 'create_from_xml', 'create_sequence_from_document'}
                                    ).run(init, c):
                    if q.kind == 'return':
                        ctx.expect(q.heap.get((SELF, counter[2])) == K(start), 'renumber', cls, 'the first emitted number '
                                   'is not 1', init)
        if not any(EMIT(e) for e in p.events):
            for e in p.stores():
                if e.recv == SELF and plus_one(e.value) == ('attr', SELF, e.name):
                    ctx.bad('renumber', cls, 'the output number advances although nothing is emitted', e)
    ctx.some(n, 'own-output-id', cls, 'no segment is ever emitted', f)


# ------------------------------------------------------------------------------------------------ C06
@check('C06')
def c06(ctx):
    ctx.rule('handover-select', 'a document is emitted exactly when it is new, its group matches, it carries a token, and '
                                'it either outbids the current token (or none is set) or comes from the selected sequence')
    ctx.rule('handover-update', 'an emitted document becomes the selected sequence when it outbids, its token becomes the '
                                'current one; an ignored document changes nothing')
    ctx.rule('handover-report', 'the emitted document names the input sequence it was taken from')
    ctx.rule('handover-group', 'each document is checked against the sequence it belongs to before it can be selected')
    cls = 'HandoverNode'
    c = ctx.prog.cls(cls)
    ps, w, f, env = node_paths(ctx, cls)
    group = ctor_attr(ctx, cls, 'authors_group_identifier')
    seq = w.expr('document.sequence_identifier', env, f)
    tok = w.expr('document.authors_group_control_token', env, f)
    grp = w.expr('document.authors_group_identifier', env, f)
    sel_out = w.expr('document.authors_group_selected_sequence_identifier', env, f)
    # roles of the private state: what an emitting path stores
    cur_tok = cur_sel = None
    for p in ps:
        if any(EMIT(e) for e in p.events):
            for e in p.stores():
                if e.recv == SELF and e.value == tok:
                    cur_tok = ('attr', SELF, e.name)
                if e.recv == SELF and e.value == seq:
                    cur_sel = ('attr', SELF, e.name)
    if cur_tok is None or cur_sel is None:
        ctx.bad('handover-update', cls, 'an emitted document does not update the current token and the selected sequence', f)
        return
    seen = None
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and e.name == 'check_if_document_seen':
                seen = e.value
    if seen is None:
        ctx.bad('handover-select', cls, 'a document is emitted without a duplicate test', f)
        return
    outbid = Or(isnone(cur_tok), lt(cur_tok, tok))
    accept = And(truthy(seen), eq(grp, group), Not(isnone(tok)), Or(outbid, eq(seq, cur_sel)))
    n = ctx.guarded('handover-select', 'emit only if', ps, EMIT, accept, 'a document is emitted')
    ctx.some(n, 'handover-select', cls, 'no document is ever emitted', f)
    ctx.complete('handover-select', 'emit if', ps, EMIT, accept, 'a document that should be selected is ignored')
    ctx.once('handover-select', 'emit once', ps, EMIT, 'a document is emitted')
    for p in ps:
        emitted = any(EMIT(e) for e in p.events)
        ft, fs = p.heap.get((SELF, cur_tok[2]), cur_tok), p.heap.get((SELF, cur_sel[2]), cur_sel)
        if emitted:
            ctx.expect(ft == tok, 'handover-update', 'token', 'the token of the emitted document does not become the '
                       'current token; path: %s' % show_facts(p.facts), f)
            if outbid.ev(p.facts) is True:
                ctx.expect(fs == seq, 'handover-update', 'selection', 'a document that outbids the current token does not '
                           'become the selected sequence; path: %s' % show_facts(p.facts), f)
            else:
                ctx.expect(fs in (seq, cur_sel), 'handover-update', 'selection', 'the selected sequence is lost', f)
            for e in p.events:
                if EMIT(e):
                    cur = e.heap.get((sel_out[1], sel_out[2]))
                    ctx.expect(cur == seq, 'handover-report', 'selected sequence', 'the emitted document does not name '
                               'the input sequence it was taken from but %s' % (show(cur) if cur else 'none'), e)
        elif p.kind == 'return':
            ctx.expect(ft == cur_tok and fs == cur_sel, 'handover-update', 'ignored document',
                       'an ignored document changes the current token or selection; path: %s' % show_facts(p.facts), f)
    # group consistency: create_from_document/setdefault + is_compatible on the document before state changes
    for p in ps:
        ok = False
        for e in p.events:
            if e.kind == 'call' and e.name == 'is_compatible' and DOC in e.args + tuple(v for _, v in e.kwargs):
                ok = mentions(e.recv, seq) or e.recv[0] == 'new'
            if EMIT(e) or e.kind == 'store':
                if not ok:
                    ctx.bad('handover-group', cls, 'a document is selected without having been checked against its '
                            'sequence', e)
                    break
    ctx.ok('handover-group', cls)
    init = ctx.prog.find_method(c, '__init__')
    # initial state: nothing selected
    for q in ctx.walker(noexc=True).run(init, c):
        if q.kind == 'return':
            for role, t in (('token', cur_tok), ('selection', cur_sel)):
                v = q.heap.get((SELF, t[2]))
                if v is None:
                    a = ctx.prog.find_attr(c, t[2])
                    v = w.static_value(a[0].mod, a[1], a[0]) if a else None
                ctx.expect(v == NONE, 'handover-update', 'initial ' + role, 'a new handover node starts with a %s' % role,
                           init)
