# -*- coding: utf-8 -*-
"""Forwarding: what leaves a node, with which details, after which delay; accessors of document details."""
from ..core import *
from .nodes import node_paths, DOC, EMIT, HELPERS, node_classes
from .websocket import returned_kwarg, ws_carriage, PAYLOAD

DOC3 = 'documents.ebutt3:EBUTT3Document'
MSG = 'documents.ebutt3:EBUTTAuthorsGroupControlRequest'


def rooted(t, root):
    while t is not None and t != root and t[0] in ('attr', 'sub', 'it'):
        t = t[1]
    return t == root


def doc_changes(p, upto=None, ignore=()):
    """events that change the content of the received document"""
    out = []
    for e in p.events:
        if e is upto:
            break
        if e.kind in ('store', 'setitem', 'del') and e.recv is not None and rooted(e.recv, DOC) and e.name not in ignore:
            out.append(e)
        elif e.kind == 'call' and e.name in ('update_body_timing', 'update_children_timing', 'remove_duplication', 'append',
                                             'insert', 'extend', 'remove', 'pop', 'add_div', 'set_begin', 'set_end', 'set_dur'):
            if any(rooted(a, DOC) for a in e.args + tuple(v for _, v in e.kwargs)) or e.recv is not None and rooted(e.recv, DOC):
                out.append(e)
    return out


def carries(e, name):
    """may the call hand on a keyword argument called name that came in with the ** arguments?"""
    v = kw(e, name)
    if v is not None:
        return v
    if passes_rest(e) and name not in {x.arg for x in e.fn.node.args.args + e.fn.node.args.kwonlyargs}:
        return ('p', '**kwargs')
    return None


@check('C07')
def c07(ctx):
    ctx.rule('verbatim', 'a distributing node emits the XML it received and its own serialization only when there is none')
    ctx.rule('untouched', 'a distributing node stores nothing in the document')
    ctx.rule('details', 'the details sent along with a document are those of the document')
    ctx.rule('stale-xml', 'the XML received is never sent along with a document that was changed')
    ctx.rule('message', 'live messages are forwarded exactly once, with their content and details')
    ctx.rule('hand-on', 'carriages, buffers and adapters that do not convert hand on exactly the data and details they got')
    # distributing node, documents
    cls = 'DistributingNode'
    ps, w, f, env = node_paths(ctx, cls)
    raw = ('p', 'raw_xml')
    n = 0
    for p in ps:
        for e in doc_changes(p):
            ctx.bad('untouched', cls, 'the document is changed before it is forwarded', e)
        for e in p.events:
            if not EMIT(e):
                continue
            n += 1
            d = e.arg(0, 'data')
            if d == raw:
                ctx.expect(Present(raw).ev(e.facts) is True, 'verbatim', cls, 'emits nothing when the document came without '
                           'its XML', e)
            else:
                ok = d is not None and d[0] == 'call' and d[1][:3] == ('bm', DOC, 'get_xml')
                ctx.expect(ok and Present(raw).ev(e.facts) is False, 'verbatim', cls, 'emits %s although the XML received '
                           'may be known' % show(d or NONE), e)
            for k in ('sequence_identifier', 'sequence_number', 'time_base', 'availability_time', 'clock_mode'):
                want = w.expr('document.' + k, env, f)
                v = kw(e, k)
                ctx.expect(v == want, 'details', '%s/%s' % (cls, k), 'sends %s as %s of the document' % (
                    show(v) if v else 'nothing', k), e)
            ctx.expect(passes_rest(e), 'details', cls + '/rest', 'drops further details that came with the document', e)
    ctx.some(n, 'verbatim', cls, 'no document is ever emitted', f)
    ctx.ok('untouched', cls)
    # stale xml
    for cls in ('RetimingDelayNode', 'DeDuplicatorNode', 'HandoverNode', 'node.encoder:EBUTTDEncoder'):
        ps, w, f, env = node_paths(ctx, cls)
        n = 0
        for p in ps:
            for e in p.events:
                if EMIT(e):
                    n += 1
                    same = e.arg(0, 'data') == DOC and not doc_changes(p, e)
                    v = carries(e, 'raw_xml')
                    ctx.expect(same or v is None or v == NONE, 'stale-xml', cls, 'the XML of the received document is sent '
                               'along with another document', e)
                    ctx.expect(passes_rest(e), 'details', cls + '/rest', 'drops further details that came with the document', e)
                    if 'EBUTTDEncoder' in cls:
                        ctx.expect(kw(e, 'time_base') == K('media'), 'details', cls + '/time_base', 'the time base sent along '
                                   'with an EBU-TT-D document is not media', e)
                        v = kw(e, 'sequence_identifier')
                        ctx.expect(v is not None and v != NONE, 'details', cls + '/sequence_identifier', 'no sequence '
                                   'identifier is sent along with an EBU-TT-D document', e)
        ctx.some(n, 'stale-xml', cls, 'no document is ever emitted', f)
    # messages
    for cls in ('DistributingNode', 'RetimingDelayNode', 'HandoverNode'):
        ps, w, f, env = node_paths(ctx, cls, kind='msg')
        ok = True
        for p in ps:
            es = [e for e in p.events if EMIT(e)]
            if p.kind != 'return' or len(es) != 1:
                ok = False
                ctx.bad('message', cls, 'a live message is emitted %d times; path: %s' % (len(es), show_facts(p.facts)), f)
                continue
            e = es[0]
            d = e.arg(0, 'data')
            ctx.expect(passes_rest(e), 'message', cls + '/rest', 'drops details that came with the message', e)
            if cls == 'DistributingNode':
                good = d == raw and Present(raw).ev(e.facts) is True or \
                    d is not None and d[0] == 'call' and d[1][:3] == ('bm', DOC, 'get_xml')
                for k in ('sequence_identifier', 'availability_time'):
                    want = w.expr('document.' + k, env, f)
                    v = kw(e, k)
                    ctx.expect(v == want, 'details', '%s/message/%s' % (cls, k), 'sends %s as %s of the message' % (
                        show(v) if v else 'nothing', k), e)
            else:
                good = d == DOC
                v = carries(e, 'raw_xml')
                ctx.expect(not doc_changes(p, e) or v is None or v == NONE, 'stale-xml', cls + '/message', 'the XML of the '
                           'received message is sent along with a changed one', e)
            if cls != 'HandoverNode':
                for c in doc_changes(p):
                    ctx.bad('message', cls, 'a live message is changed', c)
            ctx.expect(good, 'message', cls + '/content', 'something else than the message is emitted', e)
        if ok:
            ctx.ok('message', cls)
    # hand on
    D = ('p', 'data')
    for cls, method, param, out, recvattr in (
            ('DirectCarriageImpl', 'emit_data', 'data', 'process_document', 'consumer_node'),
            ('WebsocketConsumerCarriage', 'on_new_data', 'data', 'process_document', 'consumer_node'),
            ('BufferDelayNode', 'process_document', 'document', 'emit_data', 'producer_carriage'),
            ('TwistedWSConsumer', 'write', 'data', 'on_new_data', None)):
        c = ctx.prog.cls(cls)
        ps = ctx.walk(c, method)
        f = ctx.prog.find_method(c, method)
        rv = None
        if recvattr:
            w = ctx.walker(types={SELF: c})
            rv = w.expr('self.' + recvattr, {'self': SELF}, f)
        inst = '%s.%s' % (cls, method)
        for p in ps:
            es = [e for e in p.events if e.kind == 'call' and e.name == out and (rv is None or e.recv == rv)]
            if p.kind != 'return' or len(es) != 1:
                ctx.bad('hand-on', inst, 'data is handed on %d times; path: %s' % (len(es), show_facts(p.facts)), f)
                continue
            e = es[0]
            vals = e.args + tuple(v for _, v in e.kwargs)
            ctx.expect(('p', param) in vals, 'hand-on', inst, 'something else than the data is handed on', e)
            ctx.expect(passes_rest(e), 'hand-on', inst, 'details that came with the data are dropped', e)
            for a in f.params[2:]:
                if cls == 'BufferDelayNode' and a == 'delay':
                    continue
                ctx.expect(kw(e, a) == ('p', a), 'hand-on', inst, 'the detail %s is dropped or changed' % a, e)
    ws_carriage(ctx, 'hand-on')
    # node/carriage adapters
    for cls, method, param, out, side in (
            ('adapters.node_carriage:ProducerNodeCarriageAdapter', 'emit_data', 'data', 'emit_data', 'producer_carriage'),
            ('adapters.node_carriage:ConsumerNodeCarriageAdapter', 'process_document', 'document', 'process_document', 'consumer_node')):
        c = ctx.prog.cls(cls)
        w = ctx.walker(opaque={'convert_data'})
        ps = ctx.walk(c, method, walker=w)
        f = ctx.prog.find_method(c, method)
        w.o.types[SELF] = c
        rv = w.expr('self.' + side, {'self': SELF}, f)
        for p in ps:
            conv = [e for e in p.events if e.kind == 'call' and e.name == 'convert_data']
            es = [e for e in p.events if e.kind == 'call' and e.name == out and e.recv == rv]
            if p.kind != 'return' or len(es) != 1 or len(conv) != 1:
                ctx.bad('hand-on', cls, 'data is converted %d times and handed on %d times' % (len(conv), len(es)), f)
                continue
            ce, e = conv[0], es[0]
            ctx.expect(('p', param) in ce.args + tuple(v for _, v in ce.kwargs) and passes_rest(ce), 'hand-on', cls,
                       'not the data and its details are converted', ce)
            vals = e.args + tuple(v for k, v in e.kwargs)
            ctx.expect(('sub', ce.value, K(0)) in vals, 'hand-on', cls, 'not the converted data is handed on', e)
            ctx.expect(passes_rest(e, ('sub', ce.value, K(1))), 'hand-on', cls, 'not the converted details are handed on', e)
        # the chain of conversions
        w = ctx.walker()
        ps = ctx.walk(c, 'convert_data', walker=w)
        f = ctx.prog.find_method(c, 'convert_data')
        w.o.types[SELF] = c
        chain = w.expr('self.data_adapters', {'self': SELF}, f)
        seen = False
        for p in ps:
            cs = [e for e in p.events if e.kind == 'call' and e.name == 'convert_data']
            r = p.ret
            if r is None or p.kind != 'return':
                continue
            first, second = (r[1] if r[0] == 'tup' and len(r[1]) == 2 else (('sub', r, K(0)), ('sub', r, K(1))))
            if not cs:
                ctx.expect(first == ('p', 'data'), 'hand-on', cls + '/chain', 'without conversions something else than the '
                           'data is handed on', f)
                continue
            seen = True
            prev, prevkw = ('p', 'data'), ('p', '**kwargs')
            for e in cs:
                ctx.expect(e.arg(0, 'data') == prev, 'hand-on', cls + '/chain', 'a conversion does not get the result of '
                           'the one before', e)
                ctx.expect(e.recv[0] == 'it' and base_iter(e.recv[1]) == chain, 'hand-on', cls + '/chain', 'the conversions '
                           'are not those configured', e)
                ctx.expect(passes_rest(e, prevkw), 'hand-on', cls + '/chain', 'a conversion does not get the details handed '
                           'on by the one before', e)
                prev = ('sub', e.value, K(0))
                prevkw = ('sub', e.value, K(1))
            ctx.expect(first == prev and second == ('sub', cs[-1].value, K(1)), 'hand-on', cls + '/chain', 'something else '
                       'than the result of the last conversion is handed on', f)
        ctx.some(seen, 'hand-on', cls + '/chain', 'the configured conversions are not applied', f)
    # XML -> document -> XML adapters
    for kind, t, keys in (('document', DOC3, ('sequence_identifier', 'sequence_number', 'availability_time', 'time_base', 'clock_mode')),
                          ('message', MSG, ('sequence_identifier', 'availability_time'))):
        w = ctx.walker(types={D: ctx.prog.cls(t)}, opaque={'get_xml'})
        ps = ctx.walk('EBUTT3toXMLAdapter', 'convert_data', walker=w)
        f = ctx.prog.method('EBUTT3toXMLAdapter', 'convert_data')
        for p in ps:
            if p.kind != 'return':
                ctx.bad('details', 'EBUTT3toXMLAdapter/' + kind, 'the conversion fails', f)
                continue
            for k in keys:
                want = w.expr('data.' + k, {'data': D, 'self': SELF}, f)
                v, d = returned_kwarg(w, p, k)
                ctx.expect(v == want, 'details', 'EBUTT3toXMLAdapter/%s/%s' % (kind, k), 'sends %s as %s of the %s' % (
                    show(v) if v else 'nothing', k, kind), f)
            ctx.expect(d is not None and d[0] == 'call' and d[1][:3] == ('bm', D, 'get_xml'), 'verbatim',
                       'EBUTT3toXMLAdapter/' + kind, 'does not hand on the serialization of the %s' % kind, f)
    w = ctx.walker(opaque={'create_from_raw_binding', 'CreateFromDocument'})
    ps = ctx.walk('XMLtoEBUTT3Adapter', 'convert_data', walker=w)
    f = ctx.prog.method('XMLtoEBUTT3Adapter', 'convert_data')
    n = 0
    for p in ps:
        if p.kind == 'return':
            n += 1
            v, d = returned_kwarg(w, p, 'raw_xml')
            ctx.expect(v == D, 'verbatim', 'XMLtoEBUTT3Adapter', 'does not keep the XML received', f)
            mk = [e for e in p.events if e.kind == 'call' and e.name == 'create_from_raw_binding']
            ctx.expect(bool(mk) and d == mk[-1].value, 'verbatim', 'XMLtoEBUTT3Adapter/document', 'does not hand on the '
                       'parsed document', f)
            isdoc = [v for a, v in p.facts.items() if a[0] == 'isinst' and 'tt_type' in repr(a[2])]
            for e in mk:
                isd = e.recv == ('cls', ctx.prog.cls(DOC3).qualname)
                ctx.expect(isdoc[-1:] == [isd], 'verbatim', 'XMLtoEBUTT3Adapter/kind', 'a %s is created from XML that is not '
                           'known to be one' % ('document' if isd else 'message'), e)
                tgt = ctx.prog.method(DOC3, 'create_from_raw_binding')
                ctx.expect(arg_of(ctx, e, tgt, 'availability_time') == ('p', 'availability_time'), 'details',
                           'XMLtoEBUTT3Adapter/availability_time', 'loses the availability time', e)
                b = arg_of(ctx, e, tgt, 'binding')
                ctx.expect(b is not None and any(t[0] == 'call' and D in t[2] + tuple(v for _, v in t[3]) for t in subterms(b)
                                                 if t[0] == 'call'), 'verbatim',
                           'XMLtoEBUTT3Adapter/parsed', 'the document is not created from the XML received', e)
    ctx.some(n, 'verbatim', 'XMLtoEBUTT3Adapter', 'no document is ever created', f)


@check('C25')
def c25(ctx):
    ctx.rule('delay-sum', 'a buffer delay node adds its delay to the delay the data already carries')
    ctx.rule('delay-pass', 'the delay reaches the component that sends the data')
    ctx.rule('delay-honoured', 'data with a delay is sent after exactly that delay, data without one at once')
    cls = 'BufferDelayNode'
    c = ctx.prog.cls(cls)
    fixed = ctor_attr(ctx, cls, 'fixed_delay')
    DL = ('p', 'delay')
    f = ctx.prog.find_method(c, 'process_document')
    for label, val in (('none', NONE), ('some', DL)):
        w = ctx.walker()
        ps = ctx.walk(c, 'process_document', walker=w, args={'delay': val})
        for p in ps:
            if label == 'some' and (isnone(DL).ev(p.facts) is True or truthy(DL).ev(p.facts) is False):
                absent = True
            else:
                absent = label == 'none'
            es = [e for e in p.events if EMIT(e)]
            if len(es) != 1:
                ctx.bad('delay-sum', cls, 'data is emitted %d times' % len(es), f)
                continue
            v = kw(es[0], 'delay')
            want = {fixed, ('bin', '+', K(0), fixed), ('bin', '+', fixed, K(0))} if absent else set()
            if label == 'some':
                want |= {('bin', '+', DL, fixed), ('bin', '+', fixed, DL)}
                zero = ('boolop', DL)
            ok = v in want or (not absent and v is not None and is_sum(v, DL, fixed))
            ctx.expect(ok, 'delay-sum', '%s/%s' % (cls, 'no delay so far' if absent else 'delayed before'),
                       'the data leaves with delay %s' % (show(v) if v else 'none'), es[0])
    # pass
    c = ctx.prog.cls('WebsocketProducerCarriage')
    ps = ctx.walk(c, 'emit_data')
    f = ctx.prog.find_method(c, 'emit_data')
    target = ctx.prog.method('TwistedWSPushProducer', 'emit_data')
    n = 0
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and e.name == 'emit_data':
                n += 1
                ctx.expect(arg_of(ctx, e, target, 'delay') == DL, 'delay-pass', 'WebsocketProducerCarriage', 'the delay is '
                           'not handed to the backend', e)
    ctx.some(n, 'delay-pass', 'WebsocketProducerCarriage', 'data never reaches the backend', f)
    # honoured
    for cls, send in (('TwistedWSPushProducer', 'sendSequenceMessage'), ('TwistedPullProducer', 'write')):
        c = ctx.prog.cls(cls)
        f = ctx.prog.find_method(c, 'emit_data')
        params = [('p', x) for x in f.params[1:] if x != 'delay']
        for label, val in (('none', NONE), ('some', DL)):
            w = ctx.walker()
            ps = ctx.walk(c, 'emit_data', walker=w, args={'delay': val})
            n = 0
            for p in ps:
                later = [e for e in p.events if e.kind == 'call' and 'callLater' in (e.name or '')]
                absent = label == 'none' or isnone(DL).ev(p.facts) is True
                maybe0 = label == 'some' and truthy(DL).ev(p.facts) is False
                now = [e for e in p.events if e.kind == 'call' and e.name == send or e.kind in ('loop', 'loopend')]
                if absent or maybe0 and not later:
                    ctx.expect(not later and bool(now), 'delay-honoured', cls + '/at once', 'data without a delay is not sent '
                               'at once; path: %s' % show_facts(p.facts), f)
                    continue
                n += 1
                ok = len(later) == 1 and not now
                ctx.expect(ok, 'delay-honoured', cls + '/later', 'data with a delay is scheduled %d times%s; path: %s' % (
                    len(later), ' and sent at once' if now else '', show_facts(p.facts)), f)
                if ok:
                    e = later[0]
                    ctx.expect(e.args[:1] == (DL,), 'delay-honoured', cls + '/later', 'data is scheduled after %s instead of '
                               'its delay' % (show(e.args[0]) if e.args else 'nothing'), e)
                    fn = e.args[1] if len(e.args) > 1 else None
                    ctx.expect(fn is not None and all(x in e.args[2:] + tuple(v for _, v in e.kwargs) or mentions_env(fn, x)
                                                      for x in params), 'delay-honoured',
                               cls + '/later', 'not the data itself is scheduled', e)
            if label == 'some':
                ctx.some(n, 'delay-honoured', cls + '/later', 'a delay is never honoured', f)
    # what is scheduled sends the data: the scheduled method run on its own reaches every connection (C03 decides that for
    # the immediate case), so both cases have to use the same function
    c = ctx.prog.cls('TwistedWSPushProducer')
    f = ctx.prog.find_method(c, 'emit_data')
    w = ctx.walker()
    for p in ctx.walk(c, 'emit_data', walker=w, args={'delay': DL}):
        for e in p.events:
            if e.kind == 'call' and 'callLater' in (e.name or '') and len(e.args) > 1:
                fn = e.args[1]
                if fn[0] == 'bm':
                    m = ctx.prog.find_method(c, fn[2])
                    ctx.need(m is not None, 'scheduled method')
                    w2 = ctx.walker()
                    args = dict(zip(m.params[1:], e.args[2:]))
                    args.update({k: v for k, v in e.kwargs})
                    hit = 0
                    for q in ctx.walk(c, m, walker=w2, args=args):
                        for x in q.events:
                            if x.kind == 'call' and x.name == 'sendSequenceMessage':
                                hit += 1
                                tgt = ctx.prog.method('BroadcastServerProtocol', 'sendSequenceMessage')
                                ctx.expect(arg_of(ctx, x, tgt, 'sequence_identifier') == ('p', 'sequence_identifier'),
                                           'delay-honoured', 'scheduled/sequence', 'delayed data is sent under another '
                                           'sequence identifier', x)
                                pl = arg_of(ctx, x, tgt, 'payload')
                                ctx.expect(pl is not None and mentions(pl, ('p', 'data')), 'delay-honoured', 'scheduled/payload',
                                           'something else than the delayed data is sent', x)
                    ctx.some(hit, 'delay-honoured', 'scheduled', 'the scheduled function does not send the data', m)


def is_sum(v, a, b):
    """v is a + b, with (a or 0) allowed for a"""
    if v[0] != 'bin' or v[1] != '+':
        return False
    xs = {v[2], v[3]}
    if b not in xs:
        return False
    other = [x for x in (v[2], v[3]) if x != b]
    return bool(other) and other[0] == a


def mentions_env(fn, x):
    return fn[0] in ('lam', 'closure', 'func') and mentions(fn, x)


ACCESSORS = (
    ('sequence_identifier', 'sequenceIdentifier', True), ('sequence_number', 'sequenceNumber', True),
    ('authors_group_control_token', 'authorsGroupControlToken', False),
    ('authors_group_identifier', 'authorsGroupIdentifier', False),
    ('authors_group_selected_sequence_identifier', 'authorsGroupSelectedSequenceIdentifier', True),
    ('lang', 'lang', False), ('clock_mode', 'clockMode', False), ('time_base', 'timeBase', False))


@check('C29')
def c29(ctx):
    ctx.rule('read', 'a detail read from a document is the attribute of its XML')
    ctx.rule('write', 'a detail written to a document ends up in that attribute of its XML')
    ctx.rule('create', 'a new document carries the details it was created with')
    ctx.rule('serialize', 'the serialization is that of the current XML tree')
    c = ctx.prog.cls(DOC3)
    f0 = ctx.prog.find_method(c, 'get_xml')
    w = ctx.walker(types={SELF: c})
    binding = w.expr('self.binding', {'self': SELF}, f0)
    ctx.need(binding[0] == 'attr' and binding[1] == SELF, 'tree of a document')
    for name, attr, writable in ACCESSORS:
        pr = ctx.prog.find_prop(c, name)
        ctx.need(pr is not None and pr.getter is not None, 'accessor %s' % name)
        w = ctx.walker(types={SELF: c})
        for p in w.run(pr.getter, c):
            ctx.expect(p.kind == 'return' and p.ret == ('attr', binding, attr), 'read', name, 'reads %s' % (
                show(p.ret) if p.ret else 'nothing'), pr.getter)
        if writable:
            if pr.setter is None:
                ctx.bad('write', name, 'can not be written', c)
                continue
            v = ('p', pr.setter.params[1])
            for p in ctx.walker(types={SELF: c}).run(pr.setter, c):
                got = p.heap.get((binding, attr))
                ok = got == v or got == ('call', ('ext', 'int'), (v,), ())
                ctx.expect(p.kind == 'return' and ok, 'write', name, 'stores %s' % (show(got) if got else 'nothing'), pr.setter)
    for m, call in (('get_xml', 'toxml'), ('get_dom', 'toDOM')):
        f = ctx.prog.find_method(c, m)
        for p in ctx.walk(c, m):
            r = p.ret
            ctx.expect(r is not None and r[0] == 'call' and r[1][:3] == ('bm', binding, call), 'serialize', m,
                       'returns %s' % (show(r) if r else 'nothing'), f)
    # constructor
    w = ctx.walker(opaque={'validate'})
    ps = ctx.walk(c, '__init__', walker=w)
    f = ctx.prog.find_method(c, '__init__')
    pairs = (('timeBase', 'time_base'), ('sequenceIdentifier', 'sequence_identifier'), ('sequenceNumber', 'sequence_number'),
             ('lang', 'lang'), ('authorsGroupIdentifier', 'authors_group_identifier'))
    for p in ps:
        if p.kind != 'return':
            continue
        mk = [e for e in p.events if e.kind == 'call' and e.value == p.heap.get((SELF, binding[2]))]
        if not mk:
            ctx.bad('create', 'document', 'a new document has no tree of its own', f)
            continue
        for attr, par in pairs:
            v = p.heap.get((mk[-1].value, attr)) or kw(mk[-1], attr)
            ctx.expect(v == ('p', par), 'create', attr, 'a new document carries %s as %s' % (show(v) if v else 'nothing', attr),
                       mk[-1])
        v = p.heap.get((mk[-1].value, 'clockMode')) or kw(mk[-1], 'clockMode')
        cm = ('p', 'clock_mode')
        if truthy(cm).ev(p.facts) is not False:
            ctx.expect(v == cm, 'create', 'clockMode', 'a new document carries %s as clockMode' % (show(v) if v else 'nothing'),
                       mk[-1])
        at = ('p', 'availability_time')
        if isnone(at).ev(p.facts) is not True:
            avail = ctx.prog.find_prop(c, 'availability_time')
            t = ctx.walker(types={SELF: c}).run(avail.getter, c)[0].ret
            ctx.expect(p.heap.get((SELF, t[2])) == at or truthy(at).ev(p.facts) is False, 'create', 'availability time',
                       'a new document loses its availability time', f)
    # live messages
    c = ctx.prog.cls(MSG)
    w = ctx.walker(ctor={c.name})
    ps = ctx.walk(c, 'create_from_raw_binding', walker=w, args={'cls': ('cls', c.qualname)})
    f = ctx.prog.find_method(c, 'create_from_raw_binding')
    B = ('p', 'binding')
    for p in ps:
        if p.kind != 'return':
            continue
        r = p.ret
        for par, want in (('sequence_identifier', ('attr', B, 'sequenceIdentifier')),
                          ('sender', ('attr', ('attr', B, 'header'), 'sender')),
                          ('recipient', ('attr', ('attr', B, 'header'), 'recipient')),
                          ('availability_time', ('p', 'availability_time'))):
            pr = ctx.prog.find_prop(c, par)
            ctx.need(pr is not None, 'accessor ' + par)
            st = p.state.copy()
            st.ctrl = None
            t = w.expr('x.' + par, {'x': r}, f, st)
            if par == 'availability_time' and isnone(want).ev(p.facts) is True:
                continue
            ctx.expect(t == want, 'create', 'message/' + par, 'a parsed message has %s as %s' % (show(t), par), f)
    mk = ctx.walk(c, 'get_xml', walker=ctx.walker(types={SELF: c}))
    f = ctx.prog.find_method(c, 'get_xml')
    for p in mk:
        es = [e for e in p.events if e.kind == 'call' and e.name == 'message']
        if not es:
            ctx.bad('serialize', 'message', 'a message is not serialized', f)
            continue
        w = ctx.walker(types={SELF: c})
        for attr, par in (('sequenceIdentifier', 'sequence_identifier'), ('payload', 'payload')):
            want = w.expr('self.' + par, {'self': SELF}, f)
            ctx.expect(kw(es[-1], attr) == want, 'serialize', 'message/' + par, 'the serialized message carries another %s' % par,
                       es[-1])
        hd = kw(es[-1], 'header')
        for par in ('sender', 'recipient'):
            want = w.expr('self.' + par, {'self': SELF}, f)
            got = p.heap.get((hd, par)) or next((kw(e, par) for e in p.events if e.kind == 'call' and e.value == hd), None)
            if truthy(want).ev(p.facts) is not False:
                ctx.expect(got == want, 'serialize', 'message/' + par, 'the serialized message loses its %s' % par, es[-1])
