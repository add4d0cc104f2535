# -*- coding: utf-8 -*-
"""The legacy WebSocket protocol (channels) and the user input server."""
from ..core import *
from .websocket import utf8, bytes_type, ctor_or_setter_attr

CHAN, DATA, PL = ('p', 'channel'), ('p', 'data'), ('p', 'payload')
ADD, TAKE = ('append', 'add'), ('remove', 'discard')
CHANGES = {'append', 'add', 'remove', 'discard', 'clear', 'pop', 'update', 'extend', 'insert', 'difference_update',
           'intersection_update', 'symmetric_difference_update'}


def fully(f):
    return {n: ('p', n) for n in f.params[1:]}


def encoded(ctx, rule, inst, v, data, e):
    """v is data, as UTF-8: text encoded completely, what is encoded already left alone"""
    text = [v_ == (not bytes_type(a[2])) for a, v_ in e.facts.items() if a[0] == 'isinst' and a[1] == data]
    if v == data:
        ctx.expect(True not in text, rule, inst, 'text is sent without being encoded', e)
        return
    ok = v is not None and v[0] == 'call' and v[1][:2] == ('bm', data) and v[1][2] == 'encode' and utf8(v)
    ctx.expect(ok, rule, inst, 'something else than the data as UTF-8 is sent', e)
    if ok:
        ctx.expect(True in text, rule, inst, 'data that is encoded already is encoded again', e)


def hands_on(ctx, rule, inst, ps, pred, f, values, what):
    """every path calls it once, with exactly these values"""
    for p in ps:
        es = [e for e in p.events if pred(e)]
        ctx.expect(p.kind == 'return' and len(es) == 1, rule, inst, '%s happens %d times; path: %s' %
                   (what, len(es), show_facts(p.facts)), f)
        for e in es:
            got = tuple(e.args) + tuple(v for _, v in e.kwargs)
            ctx.expect(got[:len(values)] == tuple(values), rule, inst, '%s with other values than it was given' % what, e)


@check('C35')
def c35(ctx):
    ctx.rule('channel-send', 'a payload is sent on a connection exactly when it has subscribed to its channel')
    ctx.rule('channel-subscribe', 'subscribing and unsubscribing change the channels of that connection, as asked')
    ctx.rule('channel-broadcast', 'what is emitted for a channel reaches every connected client under that channel, as UTF-8')
    ctx.rule('channel-served', 'a connection is served from when it opens until it is lost')
    ctx.rule('channel-client', 'a client subscribes to all its channels and hands everything it receives to its consumer')
    ctx.rule('user-input', 'the user input server hands on every message once and answers whether that succeeded')
    server(ctx)
    factory(ctx)
    producer(ctx)
    client(ctx)
    user_input(ctx)


def server(ctx):
    c = ctx.prog.cls('LegacyBroadcastServerProtocol')
    f = ctx.prog.find_method(c, 'sendMessageOnChannel')
    ctx.need(f is not None, 'LegacyBroadcastServerProtocol.sendMessageOnChannel')
    chan, pay = ('p', f.params[1]), ('p', f.params[2])
    ps = ctx.walk(c, 'sendMessageOnChannel')
    own = {a[2] for p in ps for a in p.facts if a[0] == 'in' and a[1] == chan and a[2][0] == 'attr' and a[2][1] == SELF}
    if len(own) != 1:
        ctx.bad('channel-send', 'server', 'payloads are sent without looking at the channels of the connection', f)
        return
    own = own.pop()
    sub = ('in', chan, own)
    for p in ps:
        es = [e for e in p.events if e.kind == 'call' and e.name == 'sendMessage']
        if p.facts.get(sub) is True:
            ctx.expect(len(es) == 1, 'channel-send', 'server', 'a payload of a channel subscribed to is sent %d times; path: %s'
                       % (len(es), show_facts(p.facts)), f)
        else:
            ctx.expect(not es, 'channel-send', 'server', 'a payload is sent without the channel being subscribed to; path: %s'
                       % show_facts(p.facts), f)
        for e in es:
            v = e.args[0] if e.args else kw(e, 'payload')
            ctx.expect(v == pay, 'channel-send', 'server/payload', 'something else than the payload is sent', e)
    # subscriptions
    f = ctx.prog.find_method(c, 'onMessage')
    ctx.need(f is not None, 'LegacyBroadcastServerProtocol.onMessage')
    pay, binary = ('p', f.params[1]), ('p', f.params[2])

    def asked(t, key):
        """data[key] or data.get(key), of the parsed payload"""
        if t[0] == 'sub' and t[2] == K(key):
            src = t[1]
        elif t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'get' and t[2][:1] == (K(key),):
            src = t[1][1]
        else:
            return False
        return src[0] == 'call' and mentions(src, pay)
    w0 = ctx.walker()
    hits = {'subscribe': 0, 'unsubscribe': 0}
    for p in ctx.walk(c, 'onMessage'):
        ctx.expect(p.kind == 'return', 'channel-subscribe', 'server/failure', 'a message that can not be understood ends in an '
                   'unhandled error; path: %s' % show_facts(p.facts), f)
        changes = [e for e in p.events if e.kind == 'call' and e.recv is not None and e.recv == own and e.name in CHANGES]
        for e in changes:
            key = 'subscribe' if e.name in ADD else 'unsubscribe' if e.name in TAKE else None
            ok = key is not None and len(e.args) == 1 and asked(e.args[0], key)
            ctx.expect(ok, 'channel-subscribe', 'server/' + (key or 'change'), 'the channels of the connection are changed '
                       'otherwise than the client asked for', e)
            if ok:
                hits[key] += 1
        for e in p.events:
            if e.kind in ('store', 'setitem', 'del', 'delitem') and e.recv is not None and \
                    (('attr', e.recv, e.name) == own or e.recv == own):
                ctx.bad('channel-subscribe', 'server/change', 'the channels of the connection are replaced', e)
        if p.kind != 'return' or any(e.kind in ('except', 'mayraise') for e in p.events) or truthy(binary).ev(p.facts) is True:
            continue
        for key, names in (('subscribe', ADD), ('unsubscribe', TAKE)):
            absent = any(a[0] == 'in' and a[1] == K(key) and not v or asked(a[1], key) and
                         (a[0] == 'isnone' and v or a[0] == 'truthy' and not v) for a, v in p.facts.items()
                         if a[0] in ('in', 'isnone', 'truthy'))
            n = sum(e.name in names for e in changes)
            ctx.expect(n == (0 if absent else 1), 'channel-subscribe', 'server/' + key, 'the client asks to %s%s and this '
                       'happens %d times; path: %s' % (key, ' nothing' if absent else '', n, show_facts(p.facts)), f)
    handled = {w0.exc_name(e.value) for e in (e for p in ctx.walk(c, 'onMessage') for e in p.events) if e.kind == 'except'}
    ctx.expect(bool(handled & {'Exception', 'BaseException', 'StandardError'}), 'channel-subscribe', 'server/failure',
               'a message that can not be understood is an error', f)
    for key in hits:
        ctx.some(hits[key], 'channel-subscribe', 'server/' + key, 'a client can not ' + key, f)
    # life of a connection
    for m, call in (('onOpen', 'register'), ('connectionLost', 'unregister')):
        ps = ctx.walk(c, m)
        pred = lambda e: e.kind == 'call' and e.name == call and SELF in e.args + tuple(v for _, v in e.kwargs)
        ctx.complete('channel-served', 'server/' + m, ps, pred, Const(True), call + ' of the connection')
    fresh = False
    for m in ('onOpen', '__init__'):
        g = c.methods.get(m) if hasattr(c, 'methods') else ctx.prog.find_method(c, m)
        if g is not None and getattr(g, 'cls', None) is not None:
            qs = [p for p in ctx.walk(c, g) if p.kind == 'return']
            fresh = fresh or bool(qs) and all((SELF, own[2]) in p.heap for p in qs)
    ctx.expect(fresh, 'channel-subscribe', 'server/own', 'connections do not have channels of their own', c)


def factory(ctx):
    c = ctx.prog.cls('LegacyBroadcastServerFactory')
    f = ctx.prog.find_method(c, 'register')
    ctx.need(f is not None, 'LegacyBroadcastServerFactory.register')
    CL = ('p', f.params[1])
    cont = {e.recv for p in ctx.walk(c, 'register') for e in p.events if e.kind == 'call' and e.name in ADD and CL in e.args}
    if len(cont) != 1:
        ctx.bad('channel-served', 'factory', 'connections are not collected', f)
        return
    cont = cont.pop()
    for m, names, present in (('register', ADD, True), ('unregister', TAKE, False)):
        g = ctx.prog.find_method(c, m)
        ctx.need(g is not None, 'LegacyBroadcastServerFactory.' + m)
        el = ('p', g.params[1])
        for p in ctx.walk(c, m):
            es = [e for e in p.events if e.kind == 'call' and e.recv is not None and e.recv == cont and e.name in CHANGES]
            done = p.facts.get(('in', el, cont)) is present
            ctx.expect(len(es) == (0 if done else 1) and all(e.name in names and e.args == (el,) for e in es) or
                       done and all(e.name in ('add', 'discard') and e.args == (el,) for e in es),
                       'channel-served', 'factory/' + m, 'a connection is not %s; path: %s' %
                       ('served (once)' if present else 'given up, or others are', show_facts(p.facts)), g)
            if not present and p.facts.get(('in', el, cont)) is None:
                ctx.expect(all(e.name == 'discard' for e in es) or any(e.kind in ('mayraise', 'except') for e in p.events) and
                           p.kind == 'return', 'channel-served', 'factory/' + m, 'giving up a connection that is not served '
                           'is an error', g)
    init = ctx.prog.find_method(c, '__init__')
    ctx.expect(all((SELF, cont[2]) in p.heap for p in ctx.walk(c, '__init__') if p.kind == 'return'), 'channel-served',
               'factory/own', 'all servers share their connections', init)
    g = ctx.prog.find_method(c, 'write')
    ctx.need(g is not None, 'LegacyBroadcastServerFactory.write')
    ch, data = ('p', g.params[1]), ('p', g.params[2])
    target = ctx.prog.method('LegacyBroadcastServerProtocol', 'sendMessageOnChannel')
    ps = ctx.walk(c, 'write')
    for_each(ctx, 'channel-broadcast', 'factory', ps, cont,
             lambda e, el: e.kind == 'call' and e.name == 'sendMessageOnChannel' and e.recv == el,
             'the payload is offered to a connection', g)
    for p in ps:
        es = [e for e in p.events if e.kind == 'call' and e.name == 'sendMessageOnChannel']
        ctx.expect(len(es) <= 1, 'channel-broadcast', 'factory', 'a payload is offered to a connection more than once', g)
        if not es and p.kind == 'return':
            ctx.expect(any(e.kind == 'loopend' and base_iter(e.value) == cont for e in p.events), 'channel-broadcast',
                       'factory', 'a payload is not sent; path: %s' % show_facts(p.facts), g)
        for e in es:
            ctx.expect(arg_of(ctx, e, target, target.params[1]) == ch, 'channel-broadcast', 'factory/channel',
                       'the payload is sent under another channel', e)
            encoded(ctx, 'channel-broadcast', 'factory/payload', arg_of(ctx, e, target, target.params[2]), data, e)


def producer(ctx):
    c = ctx.prog.cls('TwistedPullProducer')
    f = ctx.prog.find_method(c, 'emit_data')
    ctx.need(f is not None, 'TwistedPullProducer.emit_data')
    ch, data = ('p', f.params[1]), ('p', f.params[2])
    cons, cust = ctor_attr(ctx, 'TwistedPullProducer', 'consumer'), ctor_attr(ctx, 'TwistedPullProducer', 'custom_producer')
    hands_on(ctx, 'channel-broadcast', 'producer', ctx.walk(c, 'emit_data', args={'delay': NONE}),
             lambda e: e.kind == 'call' and e.name == 'write' and e.recv == cons, f, (ch, data), 'writing to the server')
    hands_on(ctx, 'channel-broadcast', 'producer/resume', ctx.walk(c, 'resumeProducing'),
             lambda e: e.kind == 'call' and e.name == 'resume_producing' and e.recv == cust,
             ctx.prog.find_method(c, 'resumeProducing'), (), 'resuming the producer')
    init = ctx.prog.find_method(c, '__init__')
    for p in ctx.walk(c, '__init__'):
        for name, arg in (('registerProducer', ('p', 'consumer')), ('register_backend_producer', ('p', 'custom_producer'))):
            es = [e for e in p.events if e.kind == 'call' and e.name == name and e.recv in (arg, ('attr', SELF, 'x'))]
            ctx.expect(len(es) == 1 and es[0].args[:1] == (SELF,), 'channel-broadcast', 'producer/' + name,
                       'the producer is not registered (once)', init)


def client(ctx):
    c = ctx.prog.cls('LegacyBroadcastClientProtocol')
    fac = ctx.prog.cls('LegacyBroadcastClientFactory')
    f = ctx.prog.find_method(c, 'onOpen')
    ctx.need(f is not None, 'LegacyBroadcastClientProtocol.onOpen')
    FAC = ('attr', SELF, 'factory')
    w = ctx.walker(types={SELF: c, FAC: fac})
    ps = ctx.walk(c, 'onOpen', walker=w)
    chans = w.expr('self.factory.channels', {'self': SELF}, f)

    def message(e, key, el):
        if not (e.kind == 'call' and e.name == 'sendMessage' and e.recv == SELF):
            return False
        v = e.args[0] if e.args else kw(e, 'payload')
        while v is not None and v[0] == 'call' and v[1][0] == 'bm' and v[1][2] == 'encode':
            v = v[1][1]
        if v is None or v[0] != 'call' or v[1][-1] not in ('json.dumps', 'dumps') or len(v[2]) != 1:
            return False
        items, rest = w.dict_items(v[2][0], p.state)
        return not rest and list(items) == [(K(key), el)]
    loops = {base_iter(e.value) for p in ps for e in p.events if e.kind in ('loop', 'loopend')}
    src = {x for x in loops if x == chans or x is not None and x[0] == 'attr' and x[2].lstrip('_') == chans[2].lstrip('_')}
    if len(src) != 1:
        ctx.bad('channel-client', 'subscribe', 'a client does not subscribe to its channels', f)
    else:
        src = src.pop()
        for p in ps:
            n = [e for e in p.events if message(e, 'subscribe', ('it', src, 0))]
            for e in p.events:
                if e.kind == 'loopend' and base_iter(e.value) == src and e.name >= 1:
                    ctx.expect(len(n) == 1, 'channel-client', 'subscribe', 'a client does not subscribe to a channel (once); '
                               'path: %s' % show_facts(p.facts), f)
                elif e.kind == 'loop' and base_iter(e.value) == src:
                    ctx.expect(any(x.kind == 'loopend' and base_iter(x.value) == src and x.name >= 1 for x in p.events) or
                               p.kind != 'return', 'channel-client', 'subscribe', 'a client stops subscribing early', f)
            ctx.expect(p.kind == 'return' and any(e.kind == 'loopend' for e in p.events), 'channel-client', 'subscribe',
                       'a client does not subscribe to its channels; path: %s' % show_facts(p.facts), f)
    for m, key in (('subscribeChannel', 'subscribe'), ('unsubscribeChannel', 'unsubscribe')):
        g = ctx.prog.find_method(c, m)
        ctx.need(g is not None, 'LegacyBroadcastClientProtocol.' + m)
        for p in ctx.walk(c, m, walker=w):
            ctx.expect(sum(message(e, key, ('p', g.params[1])) for e in p.events) == 1, 'channel-client', key,
                       'the server is not asked to %s the channel' % key, g)
    # the channels are those the client was made for
    init = ctx.prog.find_method(fac, '__init__')
    ctx.need(init is not None and 'channels' in init.params, 'channels of LegacyBroadcastClientFactory')
    w1 = ctx.walker(types={SELF: fac})
    got = w1.expr('self.channels', {'self': SELF}, init)
    CHS = ('p', 'channels')
    for p in ctx.walk(fac, '__init__', walker=w1):
        v = p.heap.get((SELF, got[2])) if got[0] == 'attr' else None
        given = truthy(CHS).ev(p.facts)
        if given is not False and isnone(CHS).ev(p.facts) is not True:
            ok = v is not None and (v == CHS or v[0] == 'call' and v[1][0] == 'ext' and v[2] == (CHS,) or mentions(v, CHS))
            ctx.expect(ok, 'channel-client', 'channels', 'the client does not keep the channels it is made for', init)
    # receiving
    f = ctx.prog.find_method(c, 'onMessage')
    ctx.need(f is not None, 'LegacyBroadcastClientProtocol.onMessage')
    cons = ctor_attr(ctx, 'LegacyBroadcastClientFactory', 'consumer')
    sent = ('attr', FAC, cons[2])
    ps = ctx.walk(c, 'onMessage', walker=w)
    hands_on(ctx, 'channel-client', 'receive', ps, lambda e: e.kind == 'call' and e.name == 'write' and e.recv == sent, f,
             (('p', f.params[1]),), 'handing a payload to the consumer')
    c = ctx.prog.cls('TwistedConsumer')
    f = ctx.prog.find_method(c, 'write')
    ctx.need(f is not None, 'TwistedConsumer.write')
    cust = ctor_attr(ctx, 'TwistedConsumer', 'custom_consumer')
    hands_on(ctx, 'channel-client', 'consumer', ctx.walk(c, 'write'), lambda e: e.kind == 'call' and e.name == 'on_new_data' and
             e.recv == cust, f, (('p', f.params[1]),), 'handing data to the consumer')


def user_input(ctx):
    c = ctx.prog.cls('UserInputServerFactory')
    f = ctx.prog.find_method(c, 'write')
    ctx.need(f is not None, 'UserInputServerFactory.write')
    cons = ctor_attr(ctx, 'UserInputServerFactory', 'consumer')
    hands_on(ctx, 'user-input', 'factory', ctx.walk(c, 'write'), lambda e: e.kind == 'call' and e.name == 'write' and
             e.recv == cons, f, (('p', f.params[1]),), 'handing a message to the consumer')
    c = ctx.prog.cls('UserInputServerProtocol')
    f = ctx.prog.find_method(c, 'onMessage')
    ctx.need(f is not None, 'UserInputServerProtocol.onMessage')
    pay = ('p', f.params[1])
    seen = set()
    for p in ctx.walk(c, 'onMessage', walker=ctx.walker(types={SELF: c}, follow=lambda x: x.cls is c, opaque={'sendMessage'})):
        ws = [e for e in p.events if e.kind == 'call' and e.name == 'write']
        ctx.expect(p.kind == 'return' and len(ws) == 1 and ws[0].args[:1] == (pay,), 'user-input', 'hand on',
                   'a message is handed on %d times; path: %s' % (len(ws), show_facts(p.facts)), f)
        out = [e for e in p.events if e.kind == 'call' and e.name == 'sendMessage']
        ctx.expect(len(out) == 1, 'user-input', 'answer', 'a message is answered %d times; path: %s' %
                   (len(out), show_facts(p.facts)), f)
        failed = any(e.kind == 'mayraise' and e.name == 'write' for e in p.events)
        seen.add(failed)
        for e in out:
            v = e.args[0] if e.args else kw(e, 'payload')
            good = v == K('SUCCESS')
            ctx.expect(good is not failed, 'user-input', 'answer', 'a message that %s is answered with %s' %
                       ('failed' if failed else 'was handed on', show(v) if v else 'nothing'), e)
            if ws:
                ctx.expect(p.events.index(ws[0]) < p.events.index(e), 'user-input', 'answer', 'a message is answered before '
                           'it is handed on', e)
    ctx.expect(True in seen, 'user-input', 'answer', 'a message that fails is not answered', f)
