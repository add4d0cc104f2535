# -*- coding: utf-8 -*-
"""Websocket carriage: roles, sequence binding, registration lifecycle."""
from ..core import *

PAYLOAD = ('p', 'payload')
SIDES = (('BroadcastServerProtocol', 'publish', 'subscribe', 'server'),
         ('BroadcastClientProtocol', 'subscribe', 'publish', 'client'))
DROP = is_call('dropConnection', 'sendClose', 'abortConnection', 'failConnection', 'loseConnection')


def drop_self(e):
    return DROP(e) and e.recv in (SELF, ('attr', SELF, 'transport'))


def roles(ctx, cls):
    c = ctx.prog.cls(cls)
    w = ctx.walker(types={SELF: c})
    f = ctx.prog.find_method(c, 'onMessage')
    ctx.need(f is not None, cls + '.onMessage')
    action = w.expr('self.action', {'self': SELF}, f)
    setter = ctx.prog.find_prop(c, 'action')
    ctx.need(setter is not None and setter.setter is not None, cls + '.action setter')
    return c, w, action, setter


def is_write(e):
    return e.kind == 'call' and e.name == 'write' and e.recv != SELF


def seq_attr(ctx, c, side):
    """attribute that keeps the sequence identifier of the connection (first value of the parsed path)"""
    ps = ctx.walk(c, 'onOpen', opaque={'register'}, depth=6)
    found = {}
    for p in ps:
        for e in p.stores():
            if e.recv == SELF and e.value[0] == 'sub' and e.value[2] in (K(0), K(1)):
                found.setdefault(e.value[2][1], set()).add((e.name, e.value[1]))
    return ps, found


@check('C01')
def c01(ctx):
    ctx.rule('role-receive', 'payloads reach the consumer only on a connection whose action allows receiving, and always there')
    ctx.rule('role-send', 'payloads are sent only on a connection whose action allows sending')
    ctx.rule('role-drop', 'data travelling in the wrong direction drops the connection')
    ctx.rule('action-valid', 'only publish and subscribe are accepted as action; anything else is refused')
    ctx.rule('path-parse', 'sequence identifier and action are the two segments of the path; a path that does not parse '
                           'drops the connection')
    for cls, recv, send, side in SIDES:
        c, w0, action, prop = roles(ctx, cls)
        # receiving
        ps = ctx.walk(c, 'onMessage')
        can = eq(action, K(recv))
        n = ctx.guarded('role-receive', side, ps, is_write, can, 'a payload is handed to the consumer')
        ctx.some(n, 'role-receive', side, 'payloads never reach the consumer', c)
        ctx.complete('role-receive', side, ps, is_write, can, 'a payload on a %s connection' % recv)
        for p in ps:
            for e in p.events:
                if is_write(e):
                    ctx.expect(PAYLOAD in e.args + tuple(v for _, v in e.kwargs), 'role-receive', side + '/payload',
                               'the consumer does not get the received payload', e)
            if p.kind == 'return' and not any(is_write(e) for e in p.events):
                ctx.expect(any(drop_self(e) for e in p.events), 'role-drop', side + '/receive', 'a payload received by the '
                           'wrong end is ignored without dropping the connection; path: %s' % show_facts(p.facts), p.fn)
            elif p.kind == 'return' and not any(e.kind == 'mayraise' for e in p.events):
                ctx.expect(not any(drop_self(e) for e in p.events), 'role-drop', side + '/receive', 'the connection is '
                           'dropped although the payload was accepted', p.fn)
        # sending
        ps = ctx.walk(c, 'sendSequenceMessage')
        can = eq(action, K(send))
        is_send = is_call('sendMessage')
        n = ctx.guarded('role-send', side, ps, is_send, can, 'a payload is sent')
        ctx.some(n, 'role-send', side, 'payloads are never sent', c)
        for p in ps:
            if can.ev(p.facts) is False and p.kind == 'return':
                ctx.expect(any(drop_self(e) for e in p.events), 'role-drop', side + '/send', 'sending through the wrong end '
                           'does not drop the connection', p.fn)
            elif can.ev(p.facts) is True:
                ctx.expect(not any(drop_self(e) for e in p.events), 'role-drop', side + '/send', 'a connection with the '
                           'right role is dropped', p.fn)
            elif p.kind == 'return' and not any(is_send(e) for e in p.events) and not any(drop_self(e) for e in p.events):
                ctx.bad('role-drop', side + '/send', 'sending can be ignored without looking at the role; path: %s' %
                        show_facts(p.facts), p.fn)
        # no other public method of the protocol sends or hands over data without the role test
        for k in ctx.prog.mro(c):
            if not isinstance(k, Cls):
                continue
            for name in k.methods:
                if name.startswith('_') or name in ('onMessage', 'sendSequenceMessage', 'sendMessage'):
                    continue
                for p in ctx.walk(c, name):
                    for e in p.events:
                        if is_send(e) and e.recv == SELF:
                            ctx.expect(eq(action, K(send)).ev(e.facts) is True, 'role-send', '%s.%s' % (side, name),
                                       'a payload is sent without the role test', e)
                        if is_write(e):
                            ctx.expect(eq(action, K(recv)).ev(e.facts) is True, 'role-receive', '%s.%s' % (side, name),
                                       'a payload is handed to the consumer without the role test', e)
        # the action setter
        val = ('p', prop.setter.params[1])
        w = ctx.walker()
        ps = w.run(prop.setter, c)
        ctx.account(w, ps)
        valid = Or(eq(val, K('publish')), eq(val, K('subscribe')))
        st = lambda e: e.kind == 'store' and e.recv == SELF and ('attr', SELF, e.name) == action
        n = ctx.guarded('action-valid', side, ps, st, valid, 'an action is accepted')
        ctx.some(n, 'action-valid', side, 'no action is ever accepted', prop.setter)
        for p in ps:
            if not any(st(e) for e in p.events):
                ctx.expect(p.kind == 'raise', 'action-valid', side, 'an unknown action is ignored instead of refused', prop.setter)
                ctx.expect(valid.ev(p.facts) is False, 'action-valid', side, 'a valid action is refused: %s' %
                           show_facts(p.facts), prop.setter)
            else:
                ctx.expect(p.heap.get((SELF, action[2])) == val, 'action-valid', side, 'another action is stored', prop.setter)
        # onOpen
        ps, found = seq_attr(ctx, c, side)
        act = {x for x in found.get(1, ()) if x[0] == action[2]}
        sid = {x for x in found.get(0, ())}
        if not act or not sid:
            ctx.bad('path-parse', side, 'the connection does not take its sequence identifier from the first and its action '
                    'from the second path segment', c)
        else:
            src_attr = 'http_request_path' if side == 'server' else 'url'
            for n0, src in sid | act:
                ok = any(t[0] == 'attr' and t[2] == src_attr for t in subterms(src))
                ctx.expect(ok, 'path-parse', side, 'sequence identifier and action are not taken from the request path', c)
                ctx.expect(src[0] != 'slice', 'path-parse', side, 'further path segments are ignored', c)
                ctx.expect(not any(t[0] == 'comp' and t[4] or t[0] == 'call' and t[1] == ('ext', 'filter') for t in subterms(src)),
                           'path-parse', side, 'some of the path segments are ignored', c)
            for p in ps:
                srcs = {e.value[1] for e in p.stores() if e.recv == SELF and e.value[0] == 'sub' and e.value[2] in (K(0), K(1))}
                ctx.expect(len(srcs) <= 1, 'path-parse', side, 'sequence identifier and action come from different sources', c)
        for p in ps:
            for e in p.stores(action[2]):
                if e.recv == SELF:
                    ctx.expect(e.fn is prop.setter, 'action-valid', side + '/onOpen', 'the action is set without being '
                               'validated', e)
            if any(e.kind == 'except' for e in p.events):
                ctx.expect(any(drop_self(e) for e in p.events), 'path-parse', side + '/failure', 'a path that does not parse '
                           'does not drop the connection', p.fn)
                ctx.expect(p.kind != 'raise', 'path-parse', side + '/failure', 'a path that does not parse ends in an '
                           'unhandled error', p.fn)
            elif p.kind == 'return':
                ctx.expect(not any(drop_self(e) for e in p.events), 'path-parse', side, 'a valid path drops the connection',
                           p.fn)
        handled = {w0.exc_name(e.value) for p in ps for e in p.events if e.kind == 'except'}
        ctx.expect(bool(handled & {'Exception', 'BaseException', 'ValueError', 'StandardError'}), 'path-parse',
                   side + '/failure', 'errors in the path or action are not handled', c)


@check('C02')
def c02(ctx):
    ctx.rule('seq-send', 'a payload is sent only on connections of its own sequence, and on all of those')
    ctx.rule('seq-receive', 'a received payload is labelled with the sequence identifier of its connection')
    ctx.rule('seq-mismatch', 'a document whose own identifier differs from the label is rejected and the connection dropped')
    ctx.rule('seq-chain', 'every hop between the connection and the adapter hands on the payload and its label')
    for cls, recv, send, side in SIDES:
        c, w0, action, prop = roles(ctx, cls)
        ps, found = seq_attr(ctx, c, side)
        sid = {x[0] for x in found.get(0, ())}
        if not sid:
            ctx.bad('seq-receive', side, 'the connection does not keep the sequence identifier of its path', c)
            continue
        mine = ('attr', SELF, sorted(sid)[0])
        ps = ctx.walk(c, 'sendSequenceMessage')
        same = eq(('p', 'sequence_identifier'), mine)
        is_send = is_call('sendMessage')
        ctx.guarded('seq-send', side, ps, is_send, same, 'a payload is sent')
        ctx.complete('seq-send', side, ps, is_send, And(same, eq(action, K(send))), 'a payload of the sequence of the connection')
        for p in ps:
            for e in p.events:
                if is_send(e):
                    ctx.expect(e.arg(0, 'payload') == PAYLOAD, 'seq-send', side, 'something else than the payload is sent', e)
        ps = ctx.walk(c, 'onMessage')
        n = 0
        for p in ps:
            for e in p.events:
                if is_write(e):
                    n += 1
                    lab = kw(e, 'sequence_identifier')
                    ctx.expect(lab == mine, 'seq-receive', side, 'the payload is labelled %s and not with the sequence '
                               'identifier of the connection' % (show(lab) if lab else 'with nothing'), e)
            hs = [e for e in p.events if e.kind == 'except' and w0.exc_name(e.value) in (
                'UnexpectedSequenceIdentifierError', 'Exception', 'BaseException')]
            if hs:
                after = p.events[p.events.index(hs[0]):]
                ctx.expect(any(drop_self(e) for e in after), 'seq-mismatch', side, 'a payload of another sequence does not '
                           'drop the connection', hs[0])
        ctx.expect(any(e.kind == 'except' for p in ps for e in p.events), 'seq-mismatch', side,
                   'the rejection of a payload of another sequence is not handled', c)
        ctx.some(n, 'seq-receive', side, 'payloads never reach the consumer', c)
    # hops
    hop(ctx, 'TwistedWSConsumer', 'write', 'data', 'on_new_data')
    hop(ctx, 'WebsocketConsumerCarriage', 'on_new_data', 'data', 'process_document')
    # the adapter
    adapter(ctx)
    # producer side: the sequence identifier of a document reaches the connections
    ws_carriage(ctx, 'seq-chain')
    # adapter from document to XML: labels with the identifier of the document
    for kind, t in (('document', 'documents.ebutt3:EBUTT3Document'), ('message', 'documents.ebutt3:EBUTTAuthorsGroupControlRequest')):
        D = ('p', 'data')
        w = ctx.walker(types={D: ctx.prog.cls(t)}, opaque={'get_xml'})
        ps = ctx.walk('EBUTT3toXMLAdapter', 'convert_data', walker=w)
        f = ctx.prog.method('EBUTT3toXMLAdapter', 'convert_data')
        want = w.expr('data.sequence_identifier', {'data': D, 'self': SELF}, f)
        for p in ps:
            if p.kind != 'return':
                continue
            lab, data = returned_kwarg(w, p, 'sequence_identifier')
            ctx.expect(lab == want, 'seq-chain', 'EBUTT3toXMLAdapter/' + kind, 'labels the XML with %s instead of the sequence '
                       'identifier of the document' % (show(lab) if lab else 'nothing'), f)


def ws_carriage(ctx, rule):
    """the producing carriage hands data and sequence identifier to its backend, once"""
    target = ctx.prog.method('TwistedWSPushProducer', 'emit_data')
    c = ctx.prog.cls('WebsocketProducerCarriage')
    ps = ctx.walk(c, 'emit_data')
    f = ctx.prog.find_method(c, 'emit_data')
    hits = 0
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and e.name == 'emit_data':
                hits += 1
                ctx.expect(arg_of(ctx, e, target, 'sequence_identifier') == ('p', 'sequence_identifier') and
                           arg_of(ctx, e, target, 'data') == ('p', 'data'), rule,
                           'WebsocketProducerCarriage.emit_data', 'does not hand on the data and its sequence identifier', e)
        ctx.expect(sum(e.kind == 'call' and e.name == 'emit_data' for e in p.events) <= 1, rule,
                   'WebsocketProducerCarriage.emit_data', 'data is handed on more than once', f)
        if p.kind == 'return' and not any(e.kind == 'call' and e.name == 'emit_data' for e in p.events):
            # only when no backend is registered
            reg = ctor_or_setter_attr(ctx, c, 'register_backend_producer')
            ctx.expect(Present(reg).ev(p.facts) is False, rule, 'WebsocketProducerCarriage.emit_data',
                       'data is not handed to the registered backend; path: %s' % show_facts(p.facts), f)
    ctx.some(hits, rule, 'WebsocketProducerCarriage.emit_data', 'data never reaches the backend', f)


def ctor_or_setter_attr(ctx, c, method):
    f = ctx.prog.find_method(c, method)
    ctx.need(f is not None, '%s.%s' % (c.name, method))
    param = ('p', f.params[1])
    for p in ctx.walk(c, method):
        for e in p.stores():
            if e.recv == SELF and e.value == param:
                return ('attr', SELF, e.name)
    raise AnalysisError('anchor lost: attribute set by %s.%s' % (c.name, method))


def returned_kwarg(w, p, key):
    """value of a key in the returned (data, kwargs) pair"""
    r = p.ret
    if r is None or r[0] != 'tup' or len(r[1]) != 2:
        return None, None
    items, rest = w.dict_items(r[1][1], p.state)
    for k, v in items:
        if k == K(key) and v != ('deleted',):
            return v, r[1][0]
    return None, r[1][0]


def hop(ctx, cls, method, param, out, recv=None):
    c = ctx.prog.cls(cls)
    ps = ctx.walk(c, method)
    f = ctx.prog.find_method(c, method)
    inst = '%s.%s' % (cls.rpartition(':')[2], method)
    n = 0
    for p in ps:
        es = [e for e in p.events if e.kind == 'call' and e.name == out]
        for e in es:
            n += 1
            vals = e.args + tuple(v for _, v in e.kwargs)
            ctx.expect(('p', param) in vals and passes_rest(e), 'seq-chain', inst, 'does not hand on the payload and all '
                       'details that came with it', e)
        if p.kind == 'return' and not es:
            ctx.bad('seq-chain', inst, 'a payload is dropped; path: %s' % show_facts(p.facts), f)
    ctx.some(n, 'seq-chain', inst, 'payloads are never handed on', f)


def adapter(ctx):
    c = ctx.prog.cls('XMLtoEBUTT3Adapter')
    f = ctx.prog.find_method(c, 'convert_data')
    lab = ('p', 'sequence_identifier')
    for kind, cn in (('document', 'EBUTT3Document'), ('message', 'EBUTTAuthorsGroupControlRequest')):
        dc = ctx.prog.cls('documents.ebutt3:' + cn)
        w = ctx.walker(opaque={'create_from_raw_binding', 'CreateFromDocument'})
        ps = ctx.walk(c, f, walker=w)
        n = 0
        for p in ps:
            made = [e for e in p.events if e.kind == 'call' and e.name == 'create_from_raw_binding' and
                    e.recv == ('cls', dc.qualname)]
            if not made:
                continue
            n += 1
            doc = made[-1].value
            theirs = ('attr', doc, 'sequence_identifier')
            same = eq(lab, theirs)
            if p.kind == 'raise':
                ctx.expect(And(Not(isnone(lab)), Not(same)).ev(p.facts) is True and
                           w.exc_name(p.exc) == 'UnexpectedSequenceIdentifierError', 'seq-mismatch', 'adapter/' + kind,
                           'a %s of the right sequence is rejected: %s' % (kind, show_facts(p.facts)), p.events[-1])
            else:
                ctx.expect(Or(isnone(lab), same, Absent(lab)).ev(p.facts) is True, 'seq-mismatch', 'adapter/' + kind,
                           'a %s of another sequence than its connection is accepted; path: %s' % (kind, show_facts(p.facts)),
                           f)
        ctx.some(n, 'seq-mismatch', 'adapter/' + kind, 'a received %s is never created' % kind, f)


def bytes_type(t):
    return any(x in (('ext', 'str'), ('ext', 'bytes'), ('ext', 'six.binary_type')) or x[0] == 'attr' and x[2] == 'binary_type'
               for x in subterms(t))


def utf8(t):
    """x.encode('utf-8') without a way to lose characters"""
    args = list(t[2]) + [v for k, v in t[3] if k == 'encoding']
    errs = list(t[2][1:]) + [v for k, v in t[3] if k == 'errors']
    return bool(args) and args[0][0] == 'k' and str(args[0][1]).lower().replace('_', '-') in ('utf-8', 'utf8') and \
        all(x == K('strict') for x in errs)


@check('C03')
def c03(ctx):
    ctx.rule('ws-register', 'an opened connection is registered with the backend of its role, or dropped when there is none')
    ctx.rule('ws-unregister', 'a lost connection is removed from the backend it was registered with, safely when there is none')
    ctx.rule('ws-broadcast', 'a payload goes to every registered connection and to no unregistered one')
    ctx.rule('ws-exclusive', 'a registered producer or consumer is never silently replaced; removing a producer stops it')
    CL = ('p', 'client')
    for cls, side, send_action, recv_action in (('BroadcastServerFactory', 'server', 'subscribe', 'publish'),
                                                ('BroadcastClientFactory', 'client', 'publish', 'subscribe')):
        c = ctx.prog.cls(cls)
        act = ('attr', CL, 'action')
        for method, name in (('register', 'ws-register'), ('unregister', 'ws-unregister')):
            ps = ctx.walk(c, method)
            f = ctx.prog.find_method(c, method)
            w = ctx.walker(types={SELF: c})
            prod = w.expr('self.producer', {'self': SELF}, f)
            cons = w.expr('self.consumer', {'self': SELF}, f)
            for backend, action, bn in ((prod, send_action, 'producer'), (cons, recv_action, 'consumer')):
                pred = lambda e: e.kind == 'call' and e.name == method and e.recv == backend
                cond = And(eq(act, K(action)), Present(backend))
                inst = '%s/%s' % (side, bn)
                n = ctx.guarded(name, inst, ps, pred, cond, '%s.%s' % (bn, method))
                ctx.some(n, name, inst, 'a connection is never %sed' % method, f)
                ctx.complete(name, inst, ps, pred, cond, '%s.%s' % (bn, method))
                for p in ps:
                    for e in p.events:
                        if pred(e):
                            ctx.expect(CL in e.args + tuple(v for _, v in e.kwargs), name, inst, 'another object than the '
                                       'connection is passed', e)
                    if method == 'register' and And(eq(act, K(action)), Absent(backend)).ev(p.facts) is True:
                        ctx.expect(any(DROP(e) and e.recv == CL for e in p.events), name, inst + '/missing', 'a connection '
                                   'without a matching %s is not dropped' % bn, f)
    for cls, recv, send, side in SIDES:
        c = ctx.prog.cls(cls)
        ps = ctx.walk(c, 'connectionLost')
        f = ctx.prog.find_method(c, 'connectionLost')
        pred = lambda e: e.kind == 'call' and e.name == 'unregister' and SELF in e.args + tuple(v for _, v in e.kwargs)
        ctx.complete('ws-unregister', side + '/connectionLost', ps, pred, Const(True), 'removal of a lost connection')
        ps = ctx.walk(c, 'onOpen')
        pred = lambda e: e.kind == 'call' and e.name == 'register' and SELF in e.args + tuple(v for _, v in e.kwargs)
        ctx.complete('ws-register', side + '/onOpen', ps, pred, Const(True), 'registration of an opened connection',
                     skip=lambda p: any(e.kind == 'except' for e in p.events))
        # registration needs to know the action
        for p in ps:
            if p.kind == 'return' and not any(e.kind == 'except' for e in p.events):
                reg = [e for e in p.events if pred(e)]
                sto = [e for e in p.stores() if e.recv == SELF and e.value[0] == 'sub' and e.value[2] == K(1)]
                if reg and sto:
                    ctx.expect(p.events.index(sto[-1]) < p.events.index(reg[0]), 'ws-register', side + '/order',
                               'the connection is registered before its action is known', reg[0])
    # the push producer
    c = ctx.prog.cls('TwistedWSPushProducer')
    CONN = ('p', 'connection')
    cont = None
    for p in ctx.walk(c, 'register'):
        for e in p.events:
            if e.kind == 'call' and e.name in ('append', 'add') and CONN in e.args:
                cont = e.recv
        if cont is None or not any(e.kind == 'call' and e.name in ('append', 'add') and CONN in e.args for e in p.events):
            neg = [a for a, v in p.facts.items() if a[0] == 'in' and a[1] == CONN and v]
            ctx.expect(bool(neg), 'ws-register', 'push producer', 'a connection is not added to the connections served; path: '
                       '%s' % show_facts(p.facts), p.fn)
    if cont is not None:
        ctx.ok('ws-register', 'push producer')
        ps = ctx.walk(c, 'unregister')
        for p in ps:
            ok = any(e.kind == 'call' and e.name in ('remove', 'discard') and e.recv == cont and CONN in e.args for e in p.events)
            neg = any(a[0] == 'in' and a[1] == CONN and a[2] == cont and not v for a, v in p.facts.items())
            ctx.expect(ok or neg or any(e.kind == 'mayraise' for e in p.events), 'ws-unregister', 'push producer',
                       'a lost connection keeps being served; path: %s' % show_facts(p.facts), p.fn)
        ps = ctx.walk(c, 'emit_data', args={'delay': NONE})
        f = ctx.prog.find_method(c, 'emit_data')
        SEQ, DATA = ('p', 'sequence_identifier'), ('p', 'data')

        def sends(e, el):
            return e.kind == 'call' and e.name == 'sendSequenceMessage' and e.recv == el
        for_each(ctx, 'ws-broadcast', 'push producer', ps, cont, sends, 'the payload is sent to a connection', f)
        target = ctx.prog.method('BroadcastServerProtocol', 'sendSequenceMessage')
        for p in ps:
            for e in p.events:
                if e.kind == 'call' and e.name == 'sendSequenceMessage':
                    ctx.expect(arg_of(ctx, e, target, 'sequence_identifier') == SEQ, 'ws-broadcast', 'push producer/sequence',
                               'the payload is sent under another sequence identifier', e)
                    pl = arg_of(ctx, e, target, 'payload')
                    ok = pl is not None and (pl == DATA or pl[0] == 'call' and pl[1][:2] == ('bm', DATA) and pl[1][2] == 'encode')
                    ctx.expect(ok, 'ws-broadcast', 'push producer/payload', 'something else than the payload is sent', e)
                    if ok and pl != DATA:
                        ctx.expect(utf8(pl), 'ws-broadcast', 'push producer/encoding', 'the payload is not sent as UTF-8, '
                                   'completely', e)
                        ctx.expect(any(a[0] == 'isinst' and a[1] == DATA and v == (not bytes_type(a[2])) for a, v in e.facts.items()), 'ws-broadcast',
                                   'push producer/encoding', 'a payload that is encoded already is encoded again', e)
        init = ctx.prog.find_method(c, '__init__')
        good = all((SELF, cont[2]) in p.heap for p in ctx.walk(c, '__init__') if p.kind == 'return')
        ctx.expect(good, 'ws-register', 'push producer/own', 'all producers share one list of connections', init)
    else:
        ctx.bad('ws-register', 'push producer', 'connections are not collected', c)
    # the consumer
    c = ctx.prog.cls('TwistedWSConsumer')
    for m, want in (('register', SELF), ('unregister', NONE)):
        for p in ctx.walk(c, m):
            st = [e for e in p.events if e.kind == 'store' and e.recv == CONN and e.name == 'consumer']
            ctx.expect(bool(st) and st[-1].value == want, 'ws-%s' % m, 'consumer', 'the connection is not %s the consumer' %
                       ('given' if m == 'register' else 'detached from'), p.fn)
    # exclusive registration
    c = ctx.prog.cls('BroadcastServerFactory')
    for which in ('producer', 'consumer'):
        pr = ctx.prog.find_prop(c, which)
        ctx.need(pr is not None and pr.setter is not None, 'setter of ' + which)
        val = ('p', pr.setter.params[1])
        w = ctx.walker(types={SELF: c})
        cur = w.expr('self.' + which, {'self': SELF}, pr.setter)
        ps = w.run(pr.setter, c)
        ctx.account(w, ps)
        st = lambda e: e.kind == 'store' and e.recv == SELF and ('attr', SELF, e.name) == cur
        ctx.guarded('ws-exclusive', which, ps, st, Or(Absent(val), Absent(cur)), 'the registered %s is replaced' % which)
        for p in ps:
            if p.kind == 'return':
                ctx.expect(p.heap.get((SELF, cur[2])) == val, 'ws-exclusive', which, 'the %s is not stored' % which, pr.setter)
                if which == 'producer' and Absent(val).ev(p.facts) is True and Present(cur).ev(p.facts) is not False:
                    stops = [e for e in p.events if e.kind == 'call' and e.name == 'stopProducing' and e.recv == cur]
                    ctx.expect(bool(stops), 'ws-exclusive', 'stop', 'a removed producer is not stopped', pr.setter)
            elif p.kind == 'raise':
                ctx.expect(And(Present(val), Present(cur)).ev(p.facts) is True, 'ws-exclusive', which, 'a %s is refused '
                           'although none is registered: %s' % (which, show_facts(p.facts)), pr.setter)
