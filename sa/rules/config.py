# -*- coding: utf-8 -*-
"""C21: a configuration is turned into the system it describes, or is rejected with a configuration error."""
import ast

from ..core import *
from .copying import ran

LC = ('p', 'local_config')
CFG = 'ebu_tt_live.config.'
ADAPTERS = ('ProducerNodeCarriageAdapter', 'ConsumerNodeCarriageAdapter')


def opt(*names):
    t = LC
    for n in names:
        t = ('attr', t, n)
    return t


CLOCK = ('clock',)
SEQ = ('sequence',)

#: node type -> component, its parameters and where their values come from
NODES = {
    'simple-consumer': ('SimpleConsumer', {'node_id': opt('id'), 'verbose': opt('verbose'), 'reference_clock': CLOCK}),
    'simple-producer': ('SimpleProducer', {'node_id': opt('id'), 'document_sequence': SEQ}),
    'resequencer': ('ReSequencer', {'node_id': opt('id'), 'reference_clock': CLOCK, 'init_document': opt('init_document'),
                                    'discard': opt('discard'), 'segment_length': opt('segment_length'),
                                    'sequence_identifier': opt('sequence_identifier')}),
    'deduplicator': ('DeDuplicatorNode', {'node_id': opt('id'), 'sequence_identifier': opt('sequence_identifier')}),
    'ebuttd-encoder': ('EBUTTDEncoder', {'node_id': opt('id'), 'default_ns': opt('default_namespace')}),
    'buffer-delay': ('BufferDelayNode', {'node_id': opt('id'), 'fixed_delay': opt('delay')}),
    'retiming-delay': ('RetimingDelayNode', {'node_id': opt('id'), 'fixed_delay': opt('delay'),
                                             'document_sequence': opt('sequence_identifier')}),
    'distributor': ('DistributingNode', {'node_id': opt('id')}),
    'handover': ('HandoverNode', {'node_id': opt('id'), 'authors_group_identifier': opt('authors_group_identifier'),
                                  'sequence_identifier': opt('sequence_identifier')}),
}
#: carriage -> (component, parameters)
OUT = {
    'websocket': ('carriage.websocket.WebsocketProducerCarriage', {}),
    'websocket-legacy': ('carriage.websocket.WebsocketProducerCarriage', {}),
    'direct': ('carriage.direct.DirectCarriageImpl', {}),
    'filesystem': ('carriage.filesystem.FilesystemProducerImpl', {
        'dirpath': opt('folder'), 'file_name_pattern': opt('filename_pattern'), 'message_file_name_pattern': opt('message_filename_pattern'),
        'circular_buf_size': opt('rotating_buf'), 'suppress_manifest': opt('suppress_manifest')}),
}
IN = {
    'websocket': ('carriage.websocket.WebsocketConsumerCarriage', {}),
    'websocket-legacy': ('carriage.websocket.WebsocketConsumerCarriage', {}),
    'direct': ('carriage.direct.DirectCarriageImpl', {}),
    'filesystem': ('carriage.filesystem.FilesystemConsumerImpl', {}),
}
CLOCKS = {'utc': 'clocks.utc.UTCClock', 'local': 'clocks.local.LocalMachineClock', 'auto': None}
#: documented options and their defaults
DEFAULTS = {
    'SimpleConsumer': {'verbose': False, 'clock.type': 'auto'},
    'SimpleProducer': {'show_time': False, 'sequence_identifier': 'TestSequence1', 'interval': 2.0, 'clock.type': 'local'},
    'ReSequencer': {'segment_length': 2.0, 'begin_output': 'immediate', 'init_document': None, 'discard': True, 'clock.type': 'local'},
    'EBUTTDEncoder': {'media_time_zero': 'current', 'default_namespace': False, 'clock.type': 'local'},
    'BufferDelay': {'delay': 0.0},
    'RetimingDelay': {'delay': 0.0, 'sequence_identifier': 'RetimedSequence1'},
    'Handover': {'authors_group_identifier': 'AuthorsGroup1', 'sequence_identifier': 'HandoverSequence1'},
    'DeDuplicator': {'sequence_identifier': 'DeDuplicated1'},
    'DirectInput': {'id': 'default'},
    'DirectOutput': {'id': 'default'},
    'FilesystemOutput': {'folder': './export', 'rotating_buf': 0, 'suppress_manifest': False},
    'WebsocketOutput': {'connect': [], 'proxy': None, 'listen': None},
    'WebsocketInput': {'connect': [], 'proxy': None, 'listen': None},
    'WebsocketLegacyOutput': {'uri': 'ws://localhost:9001'},
    'WebsocketLegacyInput': {'uri': 'ws://localhost:9001', 'proxy': None},
}
#: options that are parsed before they are used
CONVERTERS = {
    ('UniversalNode', 'type'): 'get_node', ('UniversalBackend', 'backend.type'): 'get_backend',
    ('ProducerMixin', 'output.carriage.type'): 'get_producer_carriage', ('ConsumerMixin', 'input.carriage.type'): 'get_consumer_carriage',
    ('SimpleConsumer', 'clock.type'): 'get_clock', ('SimpleProducer', 'clock.type'): 'get_clock', ('ReSequencer', 'clock.type'): 'get_clock',
    ('EBUTTDEncoder', 'clock.type'): 'get_clock', ('WebsocketLegacyInput', 'proxy'): 'parse_proxy_address',
    ('WebsocketInput', 'proxy'): 'parse_proxy_address', ('WebsocketOutput', 'proxy'): 'parse_proxy_address',
    ('WebsocketInput', 'listen'): 'str_to_url_converter', ('WebsocketOutput', 'listen'): 'str_to_url_converter',
    ('WebsocketLegacyInput', 'uri'): 'str_to_url_converter', ('WebsocketLegacyOutput', 'uri'): 'str_to_url_converter',
}


def table(ctx, rule, fname, par_index=0):
    """{key: (facts path, value)} of a lookup function; unknown keys must give a ConfigurationError"""
    f = ctx.prog.func(fname)
    p0 = ('p', f.node.args.args[par_index].arg)
    w = ctx.walker(noexc=True)
    out = {}
    refused = False
    for p in ran(ctx, w, f, None):
        keys = []
        for a, v in p.facts.items():
            if a[0] == 'eq' and v and p0 in a[1:]:
                o = a[2] if a[1] == p0 else a[1]
                if o[0] == 'k':
                    keys.append(o[1])
            if a[0] == 'in' and v and a[1] == p0 and a[2][0] in ('lst', 'tup'):
                keys += [k[1] for k in a[2][-1] if k[0] == 'k']
        if p.kind == 'return':
            if not ctx.expect(len(keys) == 1 and p.ret is not None and p.ret[0] == 'cls', rule, fname + '/known', 'a name that is not known gives %s; path: %s'
                              % (show(p.ret), show_facts(p.facts)), f):
                continue
            out[keys[0]] = p.ret[1]
        else:
            refused = True
            name = w.exc_name(p.exc)
            ctx.expect(name is not None and name.endswith('ConfigurationError'), rule, fname + '/error', 'an unknown name gives %s; path: %s' % (
                name, show_facts(p.facts)), f)
            for k in keys:
                ctx.bad(rule, '%s/%s' % (fname, k), 'the known name %s is refused' % k, f)
    ctx.expect(refused, rule, fname + '/unknown', 'no name is ever refused', f)
    return out, f


def options(ctx, c):
    """options a configurator declares in its class body: {dotted name: (default node or None, converter name or None, call)}"""
    out = {}
    alias = {}
    body = c.node.body

    def path(n):
        names = []
        while isinstance(n, ast.Attribute):
            names.insert(0, n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            if n.id == 'required_config':
                return names
            if n.id in alias:
                return alias[n.id] + names
        return None
    for st in body:
        if isinstance(st, ast.Assign):
            ps = [path(t) for t in st.targets if isinstance(t, ast.Attribute)]
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id != 'required_config' and ps and ps[0] is not None:
                    alias[t.id] = ps[0]
        for n in ast.walk(st) if isinstance(st, (ast.Expr, ast.For, ast.If)) else ():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_option' and n.args:
                pre = path(n.func.value)
                if pre is None or not isinstance(n.args[0], ast.Constant):
                    continue
                d = dict((k.arg, k.value) for k in n.keywords)
                if len(n.args) > 1 and 'default' not in d:
                    d['default'] = n.args[1]
                cv = d.get('from_string_converter')
                out['.'.join(pre + [n.args[0].value])] = (d.get('default'), cv, n)
    return out


def all_options(ctx, c):
    out = {}
    for k in reversed([k for k in ctx.prog.mro(c) if isinstance(k, Cls)]):
        for n, v in options(ctx, k).items():
            out[n] = v + (k,)
    return out


def byq(ctx, q):
    got = [c for c in ctx.prog.classes if c.qualname == q]
    return got[0] if got else None


def name_of(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


@check('C21')
def declared(ctx):
    ctx.rule('config-option', 'the documented options exist with their documented defaults, and names are looked up before they are used')
    for cn, opts in sorted(DEFAULTS.items()):
        mod = 'config.node' if cn in ('SimpleConsumer', 'SimpleProducer', 'ReSequencer', 'EBUTTDEncoder', 'BufferDelay', 'RetimingDelay', 'Handover',
                                      'DeDuplicator') else 'config.carriage'
        c = ctx.prog.cls('%s:%s' % (mod, cn))
        have = all_options(ctx, c)
        for n, want in sorted(opts.items()):
            if not ctx.expect(n in have, 'config-option', '%s/%s' % (cn, n), 'the option %s is not known' % n, c.node):
                continue
            d = have[n][0]
            try:
                got = ast.literal_eval(d) if d is not None else None
            except ValueError:
                got = Ellipsis
            ctx.expect(got == want or got is Ellipsis, 'config-option', '%s/%s' % (cn, n), 'the default of %s is %r' % (n, got), d or c.node)
            cv = name_of(have[n][1]) if have[n][1] is not None else None
            if cv in ('int', 'long', 'float', 'bool', 'str', 'unicode', 'basestring'):
                ctx.expect(want is None or cv == type(want).__name__ or isinstance(want, str) and cv in ('unicode', 'str') or
                           cv == 'float' and isinstance(want, (int, float)) and not isinstance(want, bool), 'config-option',
                           '%s/%s/kind' % (cn, n), 'values of %s are turned into %s' % (n, cv), have[n][2])
    for (cn, n), conv in sorted(CONVERTERS.items()):
        cands = [c for m in ('config.node', 'config.carriage', 'config.backend') for c in ctx.prog.classes
                 if c.qualname == 'ebu_tt_live.%s.%s' % (m, cn)]
        ctx.need(cands, cn)
        have = all_options(ctx, cands[0])
        got = have.get(n)
        ctx.expect(got is not None and name_of(got[1]) == conv, 'config-option', '%s/%s/converter' % (cn, n), 'values of %s are not passed through %s' % (
            n, conv), got[2] if got else cands[0].node)
    # every declared option is read by the code that declares it
    ctx.rule('config-used', 'no option is accepted and then ignored')
    for c in sorted(ctx.prog.subclasses(ctx.prog.cls('config.common:ConfigurableComponent')), key=lambda c: c.qualname):
        if ctx.prog.subclasses(c) and not c.methods:
            continue
        if c.name.endswith(('Base', 'Common')) or c.name == 'UniversalNodeList':
            continue
        read = set()
        for k in ctx.prog.mro(c):
            if isinstance(k, Cls):
                for m in k.node.body:
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        read |= {n.attr for n in ast.walk(m) if isinstance(n, ast.Attribute)}
        for n in sorted(all_options(ctx, c)):
            ctx.expect(n.split('.')[-1] in read, 'config-used', '%s/%s' % (c.name, n), 'the option %s is never read' % n, c.node)


def stored(p, recv, name):
    e = last_store(p, recv, name)
    return e.value if e is not None else None


def find_clock(p):
    got = [e for e in p.events if e.kind == 'call' and (e.name == 'type' or e.name == 'configure_component') and e.recv is not None and
           (e.recv == opt('clock') or e.recv == opt('clock', 'type'))]
    return ('attr', got[-1].value, 'component') if got else None


def news(p, qual):
    return [e for e in p.events if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1].endswith('.' + qual)]


def given(ctx, e, par, cls=None):
    """value given for a parameter in a call creating an instance"""
    c = byq(ctx, e.value[1]) if e.value[0] == 'new' else None
    f = ctx.prog.find_method(c, '__init__') if c is not None else None
    if f is not None:
        return arg_of(ctx, e, f, par)
    return kw(e, par)


@check('C21')
def nodes(ctx):
    ctx.rule('config-lookup', 'type names select what they name; anything else is a configuration error')
    ctx.rule('config-node', 'a configured node is created with its options, connected to the carriages and adapters configured for it')
    tab, f = table(ctx, 'config-lookup', 'config.node:get_node')
    for n in sorted(NODES):
        ctx.expect(n in tab, 'config-lookup', n, 'the node type %s is not known' % n, f)
    for n, qual in sorted(tab.items()):
        if n not in NODES:
            continue
        comp, pars = NODES[n]
        c = byq(ctx, qual)
        f = ctx.prog.find_method(c, '__init__')
        w = ctx.walker(types={SELF: c}, opaque={'configure_component', 'get_example_data', 'tokenize_english_document', 'get_time', 'timedelta', 'as_timedelta'}, noexc=True)
        done = 0
        init = []
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                ctx.bad('config-node', n + '/refused', 'the configuration is refused; path: %s' % show_facts(p.facts), f)
                continue
            done += 1
            init.append(p)
            made = news(p, comp)
            if not ctx.expect(len(made) == 1, 'config-node', n + '/component', '%d %s are created; path: %s' % (len(made), comp, show_facts(p.facts)), f):
                continue
            m = made[0]
            held = stored(p, SELF, 'component')
            ctx.expect(held == m.value, 'config-node', n + '/component', 'the node is not kept', f)
            for par, src in sorted(pars.items()):
                got = given(ctx, m, par)
                if src is CLOCK:
                    want = find_clock(p)
                    ctx.expect(want is not None and got == want, 'config-node', '%s/%s' % (n, par), 'the reference clock is %s' % show(got), f)
                elif src is SEQ:
                    ok = got is not None and got[0] == 'new' and got[1].endswith('EBUTT3DocumentSequence')
                    if ctx.expect(ok, 'config-node', '%s/%s' % (n, par), 'the sequence is %s' % show(got), f):
                        se = [e for e in p.events if e.kind == 'call' and e.value == got][0]
                        ctx.expect(given(ctx, se, 'sequence_identifier') == opt('sequence_identifier'), 'config-node', n + '/sequence_identifier',
                                   'the sequence is not named as configured', f)
                        ctx.expect(find_clock(p) is not None and given(ctx, se, 'reference_clock') == find_clock(p), 'config-node', n + '/clock',
                                   'the sequence does not use the configured clock', f)
                else:
                    ctx.expect(got == src, 'config-node', '%s/%s' % (n, par), 'the parameter %s is %s' % (par, show(got)), f)
            extra(ctx, n, p, m, f)
            for side in ('input', 'output'):
                kind = 'consumer' if side == 'input' else 'producer'
                ac = byq(ctx, 'ebu_tt_live.node.base.Abstract%sNode' % kind.capitalize())
                nc = byq(ctx, m.value[1])
                conf = [e for e in p.events if e.kind == 'call' and e.name == 'configure_component' and e.recv == opt(side, 'carriage', 'type')]
                adap = [e for e in p.events if e.kind == 'call' and e.name == 'configure_component' and e.recv is not None and
                        e.recv[0] == 'cls' and e.recv[1].endswith('.' + kind.capitalize() + 'NodeCarriageAdapter')]
                want = 1 if ctx.prog.is_sub(nc, ac) else 0
                if not ctx.expect(len(conf) == want and len(adap) == want, 'config-node', '%s/%s' % (n, side), 'the %s is configured %d times; path: %s' % (
                        side, len(conf), show_facts(p.facts)), f) or not want:
                    continue
                vals = conf[0].args + tuple(v for _, v in conf[0].kwargs or ())
                ctx.expect(opt(side, 'carriage') in vals, 'config-node', '%s/%s/carriage' % (n, side), 'the %s is configured with %s' % (
                    side, [show(v) for v in vals]), f)
                a = adap[0]
                g = ctx.prog.find_method(byq(ctx, a.recv[1]), 'configure_component')
                for par, v in ((kind, m.value), ('carriage', ('attr', conf[0].value, 'component')), ('local_config', opt(side, 'adapters'))):
                    got = arg_of(ctx, a, g, par)
                    ctx.expect(got == v, 'config-node', '%s/%s/%s' % (n, side, par), '%s of the adapters is %s' % (par, show(got)), f)
        ctx.expect(done, 'config-node', n, 'the node can not be configured', f)
        starts(ctx, n, c, init)


def extra(ctx, n, p, m, f):
    if n == 'simple-producer':
        got = given(ctx, m, 'input_blocks')
        t = p.facts.get(('truthy', opt('show_time')))
        text = got is not None and any(x[0] == 'call' and 'tokenize_english_document' in repr(x[1]) for x in subterms(got) if x and isinstance(x, tuple))
        ctx.expect(t is not None and (got in (None, NONE) if t else text), 'config-node', n + '/show_time', 'with show_time %s the content is %s' % (t, show(got)), f)
    if n == 'ebuttd-encoder':
        got = given(ctx, m, 'media_time_zero')
        cur = p.facts.get(('eq', K('current'), opt('media_time_zero')), p.facts.get(('eq', opt('media_time_zero'), K('current'))))
        clk = find_clock(p)
        if cur:
            ok = got is not None and got[0] == 'call' and got[1][:2] == ('bm', clk) and got[1][2] == 'get_time'
        else:
            ok = got is not None and got[0] == 'attr' and got[2] == 'timedelta' and mentions(got, opt('media_time_zero'))
        ctx.expect(cur is not None and ok, 'config-node', n + '/media_time_zero', 'with media_time_zero %s the start of the media is %s' % (
            'current' if cur else 'given', show(got)), f)


def after(p, t):
    """a term of another method with what the constructor path stored"""
    if t is None:
        return None
    vals = {}
    for e in p.events:
        if e.kind == 'store' and e.recv == SELF:
            vals[('attr', SELF, e.name)] = e.value

    def go(t, depth=0):
        if t in vals and depth < 8:
            return go(vals[t], depth + 1)
        if isinstance(t, tuple):
            return tuple(go(x, depth) if isinstance(x, tuple) else x for x in t)
        return t
    return go(t)


def bound(t, p):
    """(receiver, method name) of a bound method term"""
    if t is not None and t[0] == 'bm':
        return after(p, t[1]), t[2]
    if t is not None and t[0] == 'attr':
        return after(p, t[1]), t[2]
    return None, None


def registered(p):
    return [e for e in p.events if e.kind == 'call' and e.name == 'register_component_start']


@check('C21')
def started(ctx):
    ctx.rule('config-start', 'everything that has to be started registers itself once and is started once by the backend')
    base = ctx.prog.cls('config.common:ConfigurableComponent')
    back = ctx.prog.cls('config.backend:BackendBase')
    n = 0
    for c in sorted(ctx.prog.subclasses(base, strict=True), key=lambda c: c.qualname):
        if ctx.prog.is_sub(c, back):
            continue
        g = ctx.prog.find_method(c, 'start')
        if g is None or g.cls is base or c.name.endswith(('Base', 'Mixin')):
            continue
        f = ctx.prog.find_method(c, '__init__')
        w = ctx.walker(types={SELF: c}, opaque={'configure_component', 'register_component_start', 'register_configurator', 'get_example_data',
                                               'tokenize_english_document'}, noexc=True)
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                continue
            n += 1
            got = registered(p)
            ctx.expect(len(got) == 1 and got[0].args + tuple(v for _, v in got[0].kwargs or ()) == (SELF,), 'config-start', c.name + '/registered',
                       'the component registers itself %d times; path: %s' % (len(got), show_facts(p.facts)), f)
    ctx.need(n >= 7, 'components to start')
    # the base constructor
    f = ctx.prog.find_method(base, '__init__')
    w = ctx.walker(types={SELF: base}, opaque={'register_configurator'}, noexc=True)
    b = ('p', 'backend')
    kinds = set()
    for p in ran(ctx, w, f, base):
        none = p.facts.get(('isnone', b))
        st = [e for e in p.events if e.kind in ('store', 'setattr') and e.value == b]
        reg = [e for e in p.events if e.kind == 'call' and e.name == 'register_configurator']
        exists = [not v for a, v in p.facts.items() if a[0] == 'isnone' and a[1] != b] + [v for a, v in p.facts.items() if a[0] == 'truthy' and a[1] != b]
        ex = exists[0] if exists else None
        kinds.add((none, ex))
        cfg = stored(p, SELF, 'config')
        if p.kind == 'return':
            ctx.expect(cfg == LC, 'config-start', 'component/config', 'a component does not keep its configuration', f)
        if none is False:
            if p.kind == 'return':
                ctx.expect(ex is False and len(st) == 1 and (st[0].recv or NONE)[0] == 'cls', 'config-start', 'backend/single',
                           'a second backend replaces the first; path: %s' % show_facts(p.facts), f)
            else:
                name = w.exc_name(p.exc)
                ctx.expect(ex is True and name and name.endswith('ConfigurationError'), 'config-start', 'backend/refused',
                           'a backend is refused with %s; path: %s' % (name, show_facts(p.facts)), f)
        elif none:
            ctx.expect(p.kind == 'return' and len(reg) == (1 if ex else 0) and all(e.args[:1] == (SELF,) for e in reg), 'config-start',
                       'component/known', 'a component is made known to the backend %d times; path: %s' % (len(reg), show_facts(p.facts)), f)
    for none, ex, what in ((False, False, 'the backend is never installed'), (False, True, 'a second backend is never refused'),
                           (True, True, 'components never become known to the backend')):
        ctx.expect((none, ex) in kinds, 'config-start', 'component/%s/%s' % (none, ex), what, f)
    # the backend
    for k in sorted(ctx.prog.subclasses(back, strict=False), key=lambda c: c.qualname):
        f = ctx.prog.find_method(k, 'start')
        w = ctx.walker(types={SELF: k}, noexc=True)
        some = 0
        for p in ran(ctx, w, f, k):
            loops = [e for e in p.events if e.kind == 'loop']
            stc = [e for e in p.events if e.kind == 'call' and e.name == 'start']
            run = [e for e in p.events if e.kind == 'call' and e.name == 'run']
            ctx.expect(p.kind == 'return', 'config-start', k.name + '/start', 'starting fails; path: %s' % show_facts(p.facts), f)
            for lo in loops:
                x = ('it', lo.value, lo.name)
                mine = [e for e in stc if e.recv == x]
                excl = any(v is True and a[0] == 'eq' and set(a[1:]) == {x, SELF} for a, v in p.facts.items()) or any(
                    v is False and a[0] == 'in' and a[1] == x for a, v in p.facts.items())
                some += len(mine)
                ctx.expect(len(mine) == (0 if excl else 1), 'config-start', k.name + '/started', 'a component that was registered is started %d times; '
                           'path: %s' % (len(mine), show_facts(p.facts)), f)
                if mine:
                    need = [a[2] for a, v in p.facts.items() if v is True and a[0] == 'in' and a[1] == x] + [lo.value]
                    ctx.expect(any(t in starters(ctx, k) for t in need), 'config-start', k.name + '/only', 'components that are not registered are '
                               'started; path: %s' % show_facts(p.facts), f)
            if k.name == 'TwistedBackend':
                ctx.expect(len(run) == 1 and all(e.idx < run[0].idx for e in stc), 'config-start', k.name + '/run', 'the reactor runs %d times or before '
                           'everything is started' % len(run), f)
        ctx.expect(some, 'config-start', k.name + '/started', 'no component is ever started', f)
        f = ctx.prog.find_method(k, '__init__')
        hold = starters(ctx, k) | starters(ctx, k, 'register_configurator')
        ini = 0
        for p in ran(ctx, ctx.walker(types={SELF: k}, noexc=True), f, k):
            if p.kind != 'return' or p.facts.get(('isnone', SELF)) is True:
                continue
            ini += 1
            sts = [e for e in p.events if e.kind in ('store', 'setattr')]
            ctx.expect(any(e.value == SELF and (e.recv or NONE)[0] == 'cls' for e in sts), 'config-start', k.name + '/installed',
                       'the backend is not installed for the components', f)
            ctx.expect(any(e.value == LC and e.recv == SELF for e in sts), 'config-start', k.name + '/config', 'the configuration is not kept', f)
            for e in sts:
                if e.recv == SELF and e.value is not None and e.value[0] in ('lst', 'dict', 'set'):
                    hold = {t for t in hold if t != ('attr', SELF, e.name)}
            ctx.expect(not hold, 'config-start', k.name + '/empty', 'the backend does not begin without components', f)
        ctx.expect(ini, 'config-start', k.name + '/created', 'the backend can not be created', f)
        for mn in ('register_component_start', 'register_configurator'):
            g = ctx.prog.find_method(k, mn)
            arg = ('p', g.node.args.args[1].arg)
            for p in ran(ctx, ctx.walker(types={SELF: k}, noexc=True), g, k):
                add = [e for e in p.events if e.kind == 'call' and e.name in ('append', 'add') and e.args == (arg,)]
                excl = any(v and a[0] == 'in' and a[1] == arg for a, v in p.facts.items())
                ctx.expect(p.kind == 'return' and (len(add) == 1 or excl), 'config-start', '%s.%s' % (k.name, mn), 'a component is registered %d times' %
                           len(add), g)


def starters(ctx, k, mn='register_component_start'):
    """container register_component_start adds to"""
    g = ctx.prog.find_method(k, mn)
    arg = ('p', g.node.args.args[1].arg)
    return {e.recv for p in ctx.walker(types={SELF: k}, noexc=True).run(g, k) for e in p.events
            if e.kind == 'call' and e.name in ('append', 'add') and e.args == (arg,)}


def starts(ctx, n, c, init):
    """what the timed nodes ask of the backend when they start"""
    if n not in ('resequencer', 'simple-producer'):
        return
    g = ctx.prog.find_method(c, 'start')
    w = ctx.walker(types={SELF: c}, opaque={'call_once', 'call_periodically'}, noexc=True)
    interval, method = (opt('interval'), 'resume_producing') if n == 'simple-producer' else (opt('segment_length'), 'convert_next_segment')
    for p in init:
        comp = stored(p, SELF, 'component')
        for q in ran(ctx, w, g, c):
            calls = [e for e in q.events if e.kind == 'call' and e.name in ('call_once', 'call_periodically')]
            if not ctx.expect(len(calls) == 1, 'config-node', n + '/start', 'starting schedules %d calls' % len(calls), g):
                continue
            e = calls[0]
            if n == 'resequencer':
                delay = after(p, kw(e, 'delay') or (e.args[1] if len(e.args) > 1 else K(0.0)))
                now = p.facts.get(('eq', K('immediate'), opt('begin_output')), p.facts.get(('eq', opt('begin_output'), K('immediate'))))
                if now:
                    ok = delay in (K(0), K(0.0))
                else:
                    t = delay[1][1] if delay[0] == 'call' and delay[1][0] == 'bm' and delay[1][2] == 'total_seconds' else None
                    ok = t is not None and t[0] == 'bin' and t[1] in ('-', 'Sub') and mentions(t[2], opt('begin_output')) and t[2][0] == 'attr' and \
                        t[2][2] == 'timedelta' and t[3][0] == 'call' and t[3][1][:2] == ('bm', find_clock(p)) and t[3][1][2] == 'get_time'
                ctx.expect(e.name == 'call_once' and now is not None and ok, 'config-node', n + '/begin_output', 'the first segment is produced after %s; '
                           'path: %s' % (show(delay), show_facts(p.facts)), g)
                r, mn = bound(kw(e, 'func') or (e.args[0] if e.args else None), p)
                h = ctx.prog.find_method(c, mn) if r == SELF and mn else None
                inner = []
                if h is not None:
                    for q2 in ran(ctx, w, h, c):
                        inner += [x for x in q2.events if x.kind == 'call' and x.name == 'call_periodically']
                if not ctx.expect(len(inner) == 1, 'config-node', n + '/periodic', 'segments are not produced periodically', g):
                    continue
                e = inner[0]
            r, mn = bound(kw(e, 'func') or (e.args[0] if e.args else None), p)
            iv = after(p, kw(e, 'interval') or (e.args[1] if len(e.args) > 1 else None))
            ctx.expect(e.name == 'call_periodically' and r == comp and mn == method and iv == interval, 'config-node', n + '/interval',
                       '%s of %s is called every %s' % (mn, show(r), show(iv)), g)


@check('C21')
def carriages(ctx):
    ctx.rule('config-carriage', 'a configured carriage mechanism is created with its options and wired to the backend with them')
    for side, tab, fn in (('output', OUT, 'get_producer_carriage'), ('input', IN, 'get_consumer_carriage')):
        got, f = table(ctx, 'config-lookup', 'config.carriage:' + fn)
        for n in sorted(tab):
            if not ctx.expect(n in got, 'config-lookup', '%s/%s' % (side, n), 'the carriage %s is not known' % n, f):
                continue
            comp, pars = tab[n]
            c = byq(ctx, got[n])
            direct = n == 'direct'
            f = ctx.prog.find_method(c, 'configure_component')
            w = ctx.walker(types={SELF: c, ('p', 'cls'): c}, noexc=True, opaque={'register_component_start', 'register_configurator', 'parse_url_list'})
            ok = 0
            for p in ran(ctx, w, f, c):
                mine = [e for e in p.events if e.kind == 'call' and e.value is not None and e.value == p.ret and p.ret[0] == 'new' and p.ret[1] == c.qualname]
                if not ctx.expect(p.kind == 'return' and len(mine) == 1 and given(ctx, mine[0], 'local_config') == LC, 'config-carriage',
                                  '%s/%s' % (side, n), 'configuring gives %s; path: %s' % (show(p.ret), show_facts(p.facts)), f):
                    continue
                ok += 1
                if not direct:
                    continue
                made = news(p, comp)
                held = [e.value for e in p.events if e.kind == 'store' and e.recv == p.ret and e.name == 'component']
                kept = [e for e in p.events if e.kind == 'setitem' and given_id(e.name)]
                kept += [e for e in p.events if e.kind == 'call' and e.name == 'setdefault' and e.args and given_id(e.args[0])]
                shared = held and held[-1][0] in ('call', 'sub') and any(given_id(x) for x in subterms(held[-1]))
                if shared and held[-1][0] == 'call' and held[-1][1][0] == 'bm' and held[-1][1][2] == 'get':
                    shared = p.facts.get(('isnone', held[-1])) is False or p.facts.get(('truthy', held[-1])) is True
                new = held and made and held[-1] == made[-1].value and kept and kept[-1].value in (held[-1], None)
                if new and kept[-1].kind == 'setitem':
                    # only when none of that name is known
                    miss = [v for a, v in p.facts.items() if a[0] in ('isnone', 'truthy', 'in') and any(given_id(x) for x in subterms(a)) and
                            v is (a[0] == 'isnone')]
                    new = bool(miss)
                ctx.expect(bool(shared or new), 'config-carriage', '%s/%s/shared' % (side, n), 'a direct carriage is not the one of its name; path: %s' %
                           show_facts(p.facts), f)
            ctx.expect(ok, 'config-carriage', '%s/%s' % (side, n), 'the carriage can not be configured', f)
            if direct:
                continue
            f = ctx.prog.find_method(c, '__init__')
            for p in ran(ctx, w, f, c):
                if p.kind != 'return':
                    ctx.bad('config-carriage', '%s/%s' % (side, n), 'the configuration is refused; path: %s' % show_facts(p.facts), f)
                    continue
                made = news(p, comp)
                if not ctx.expect(len(made) == 1 and stored(p, SELF, 'component') == made[0].value, 'config-carriage', '%s/%s' % (side, n),
                                  '%d components are created' % len(made), f):
                    continue
                for par, src in sorted(pars.items()):
                    v = given(ctx, made[0], par)
                    ctx.expect(v == src, 'config-carriage', '%s/%s/%s' % (side, n, par), 'the parameter %s is %s' % (par, show(v)), f)
            wire(ctx, side, n, c)


def given_id(t):
    return t == opt('id')


def wire(ctx, side, n, c):
    """the call a carriage makes to the backend when it is started"""
    if n in ('direct',) or (n, side) == ('filesystem', 'output'):
        return
    f = ctx.prog.find_method(c, '__init__')
    g = ctx.prog.find_method(c, 'start')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'register_component_start', 'register_configurator', 'parse_url_list', 'resume_reading',
                                                       'ws_backend_producer', 'ws_backend_consumer', 'wsl_backend_producer', 'wsl_backend_consumer'})
    label = '%s/%s/start' % (side, n)
    for p in ran(ctx, w, f, c):
        if p.kind != 'return':
            continue
        comp = stored(p, SELF, 'component')
        for q in ran(ctx, w, g, c):
            if n == 'filesystem':
                made = news(p, 'FilesystemReader')
                call = [e for e in q.events if e.kind == 'call' and e.name == 'resume_reading']
                ctx.expect(len(made) == 1 and len(call) == 1 and after(p, call[0].recv) == made[0].value, 'config-carriage', label,
                           'the files are read %d times' % len(call), g)
                for m in made:
                    for par, v in (('manifest_path', opt('manifest_file')), ('do_tail', opt('tail')), ('custom_consumer', comp)):
                        got = given(ctx, m, par)
                        ctx.expect(got == v, 'config-carriage', '%s/%s' % (label, par), '%s is %s' % (par, show(got)), f)
                continue
            role = 'producer' if side == 'output' else 'consumer'
            mn = ('wsl' if n == 'websocket-legacy' else 'ws') + '_backend_' + role
            call = [e for e in q.events if e.kind == 'call' and '_backend_' in e.name and e.name.startswith('ws')]
            if not ctx.expect(len(call) == 1 and call[0].name == mn, 'config-carriage', label, 'the backend is asked for %s' % [e.name for e in call], g):
                continue
            h = ctx.prog.find_method(ctx.prog.cls('config.backend:TwistedBackend'), mn)
            want = {'custom_' + role: comp}
            if n == 'websocket-legacy':
                want['uri'] = opt('uri')
                if side == 'input':
                    want['proxy'] = opt('proxy')
            else:
                want['listen'] = opt('listen')
                want['proxy'] = opt('proxy')
            for par, v in sorted(want.items()):
                got = after(p, arg_of(ctx, call[0], h, par))
                cfg = dict((('attr', ('attr', SELF, 'config'), x[2]), x) for x in (opt('listen'), opt('proxy'), opt('uri')))
                ctx.expect(got == v, 'config-carriage', '%s/%s' % (label, par), '%s is %s' % (par, show(got)), g)
            if n == 'websocket':
                got = after(p, arg_of(ctx, call[0], h, 'connect'))
                st = [e for e in p.events if e.kind == 'store' and e.recv == LC and e.name == 'connect']
                parsed = st[-1].value if st else got
                ok = parsed is not None and got in (opt('connect'), parsed) and parsed[0] == 'call' and 'parse_url_list' in repr(parsed[1]) and \
                    mentions(parsed, opt('connect'))
                ctx.expect(ok, 'config-carriage', label + '/connect', 'the connections are %s' % show(parsed), g)


def atoms_of(p, t):
    return p.facts.get(('truthy', t))


@check('C21')
def parsing(ctx):
    ctx.rule('config-parse', 'addresses, proxies and adapter lists are parsed completely or rejected')
    f = ctx.prog.func('config.carriage:parse_proxy_address')
    v = ('p', f.node.args.args[0].arg)
    w = ctx.walker(noexc=True)
    kinds = set()
    for p in ran(ctx, w, f, None):
        m = [(a, x) for a, x in p.facts.items() if a[0] in ('truthy', 'isnone') and a[1][0] == 'call' and 'match' in repr(a[1][1])]
        matched = None
        for a, x in m:
            matched = x if a[0] == 'truthy' else not x
        if p.kind == 'raise':
            kinds.add('refused')
            name = w.exc_name(p.exc)
            ctx.expect(name and name.endswith('ConfigurationError') and matched is not True and p.facts.get(('truthy', v)) is True, 'config-parse',
                       'proxy/refused', 'a proxy is refused with %s; path: %s' % (name, show_facts(p.facts)), f)
        elif matched:
            kinds.add('matched')
            items = w.dict_items(p.ret, p.state)[0] if p.ret is not None and p.ret[0] == 'dict' else None
            items = dict(items) if items else {}
            host, port = items.get(K('host')), items.get(K('port'))
            okh = host is not None and host[0] == 'call' and host[1][2:3] == ('group',) and host[2] == (K('host'),)
            okp = port is not None and port[0] == 'call' and port[1] == ('ext', 'int') and port[2][0][2] == (K('port'),)
            ctx.expect(okh and okp, 'config-parse', 'proxy/parts', 'a proxy is parsed to host %s and port %s' % (show(host), show(port)), f)
        else:
            ctx.expect(p.ret in (NONE, None) and p.facts.get(('truthy', v)) is not True and (p.facts.get(('truthy', v)) is False), 'config-parse',
                       'proxy/ignored', 'a proxy that can not be parsed is ignored; path: %s' % show_facts(p.facts), f)
    ctx.expect(kinds == {'refused', 'matched'}, 'config-parse', 'proxy', 'proxies are never %s' % ', '.join({'refused', 'matched'} - kinds), f)
    f = ctx.prog.func('config.carriage:parse_url_list')
    v = ('p', f.node.args.args[0].arg)
    for p in ran(ctx, ctx.walker(noexc=True, opaque={'urlparse'}), f, None):
        loops = [e for e in p.events if e.kind == 'loop']
        if p.ret[0] == 'comp':
            ctx.expect(p.ret[3] == (v,) and not p.ret[4], 'config-parse', 'connections', 'the connections are %s' % show(p.ret), f)
            continue
        got = [e.args[0] for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv == p.ret]
        want = [('it', e.value, e.name) for e in loops if e.value == v]
        ctx.expect(len(got) == len(want) and all(mentions(g, x) and 'urlparse' in repr(g) for g, x in zip(got, want)), 'config-parse', 'connections',
                   'of %d connections %d are kept' % (len(want), len(got)), f)
        ctx.expect(loops or p.facts.get(('isnone', v)) is True or p.facts.get(('truthy', v)) is False or any(
            e.kind == 'loopend' and e.value == v for e in p.events), 'config-parse', 'connections', 'configured connections are dropped; path: %s' %
            show_facts(p.facts), f)
    f = ctx.prog.func('config.carriage:str_to_url_converter')
    for p in ran(ctx, ctx.walker(noexc=True), f, None):
        ctx.expect(p.kind == 'return' and p.ret is not None and p.ret[0] == 'call' and 'urlparse' in repr(p.ret[1]) and
                   p.ret[2] == (('p', f.node.args.args[0].arg),), 'config-parse', 'address', 'an address is parsed to %s' % show(p.ret), f)
    tab, f = table(ctx, 'config-lookup', 'config.adapters:get_data_adapter')
    types = {'xml': ('text', 'unicode', 'str'), 'ebutt3': ('EBUTT3Document',), 'ebuttd': ('EBUTTDDocument',)}
    for n in ('xml->ebutt3', 'xml->ebuttd', 'ebutt3->xml', 'ebuttd->xml'):
        if ctx.expect(n in tab, 'config-lookup', n, 'the adapter %s is not known' % n, f):
            c = byq(ctx, tab[n])
            for part, attr in zip(n.split('->'), ('_expects', '_provides')):
                d = [k.attrs[attr] for k in ctx.prog.mro(c) if isinstance(k, Cls) and attr in k.attrs]
                s = name_of(d[0]) or '' if d else ''
                ctx.expect(any(s == t or (part == 'xml' and t in s) for t in types[part]), 'config-lookup', '%s/%s' % (n, attr[1:]),
                           'the adapter %s %s %s' % (n, attr[1:], s), f)
    for an, role in zip(ADAPTERS, ('producer', 'consumer')):
        c = ctx.prog.cls('config.adapters:' + an)
        f = ctx.prog.find_method(c, 'configure_component')
        w = ctx.walker(types={('p', 'cls'): c, SELF: c}, noexc=True, opaque={'get_data_adapter', 'register_configurator'})
        n = 0
        for p in ran(ctx, w, f, c):
            if p.kind != 'return':
                ctx.bad('config-parse', an + '/refused', 'the adapters are refused; path: %s' % show_facts(p.facts), f)
                continue
            made = [e for e in p.events if e.kind == 'call' and e.value is not None and e.value[0] == 'new' and
                    e.value[1] == 'ebu_tt_live.adapters.node_carriage.' + an]
            held = [e.value for e in p.events if e.kind == 'store' and e.recv == p.ret and e.name == 'component']
            if not ctx.expect(len(made) == 1 and held and held[-1] == made[0].value, 'config-parse', an + '/component', 'the adapters are not kept', f):
                continue
            m = made[0]
            for par, v in ((role + '_carriage', ('p', 'carriage')), (role + '_node', ('p', role))):
                ctx.expect(kw(m, par) == v, 'config-parse', '%s/%s' % (an, par), '%s is %s' % (par, show(kw(m, par))), f)
            lst = kw(m, 'data_adapters')
            loops = [e for e in p.events if e.kind == 'loop' and e.value == LC]
            n += len(loops)
            if loops:
                ctx.expect(p.facts.get(('isnone', LC)) is False or p.facts.get(('truthy', LC)) is True, 'config-parse', an + '/unset',
                           'without adapters configured the configuration fails', f)
            else:
                ctx.expect(lst in (None, NONE) or lst[0] in ('comp', 'bool', 'lst'), 'config-parse', an + '/none', 'without adapters configured they are %s' %
                           show(lst), f)
                if lst is not None and lst[0] == 'comp':
                    n += 1
                    ctx.expect(lst[3] == (LC,) and not lst[4] and 'get_data_adapter' in repr(lst[2]) and mentions(lst[2], K('type')), 'config-parse',
                               an + '/list', 'the adapters created are %s' % show(lst), f)
                if lst in (None, NONE):
                    ctx.expect(p.facts.get(('isnone', LC)) is True or p.facts.get(('truthy', LC)) is False or any(
                        e.kind == 'loopend' and e.value == LC for e in p.events), 'config-parse', an + '/dropped',
                        'configured adapters are ignored; path: %s' % show_facts(p.facts), f)
                continue
            if lst in (None, NONE):
                # the list was found empty although something was added
                lists = [a[1] for a, v in p.facts.items() if a[0] == 'truthy' and v is False and a[1][0] == 'lst' and any(
                    e.kind == 'call' and e.name == 'append' and e.recv == a[1] for e in p.events)]
                ctx.expect(lists, 'config-parse', an + '/dropped', 'configured adapters are ignored; path: %s' % show_facts(p.facts), f)
                continue
            got = [e.args[0] for e in p.events if e.kind == 'call' and e.name == 'append' and e.recv == lst]
            ok = len(got) == len(loops)
            for g, lo in zip(got, loops):
                x = ('it', LC, lo.name)
                mk = [e for e in p.events if e.kind == 'call' and e.value == g]
                look = [e for e in p.events if e.kind == 'call' and e.name == 'get_data_adapter']
                ok = ok and bool(mk) and any(('sub', x, K('type')) in e.args + tuple(v for _, v in e.kwargs or ()) or any(
                    mentions(v, K('type')) and mentions(v, x) for v in e.args) for e in look)
                rest = [v for k, v in (mk[0].kwargs or ()) if k == '**'] if mk else []
                ok = ok and len(rest) == 1 and mentions(rest[0], x)
                if ok and rest[0][0] == 'comp':
                    cs = rest[0][4]
                    ok = len(cs) == 1 and cs[0][1] is False and cs[0][0][0] == 'eq' and K('type') in cs[0][0]
            ctx.expect(ok, 'config-parse', an + '/list', 'the adapters created are not those configured; path: %s' % show_facts(p.facts), f)
        ctx.expect(n, 'config-parse', an, 'configured adapters are never created', f)


@check('C21')
def clocks(ctx):
    ctx.rule('config-clock', 'a configured clock is the clock it names')
    tab, f = table(ctx, 'config-lookup', 'config.clocks:get_clock')
    for n, comp in sorted(CLOCKS.items()):
        if not ctx.expect(n in tab, 'config-lookup', 'clock ' + n, 'the clock %s is not known' % n, f):
            continue
        c = byq(ctx, tab[n])
        g = ctx.prog.find_method(c, '__init__')
        w = ctx.walker(types={SELF: c}, noexc=True, opaque={'register_configurator'})
        for p in ran(ctx, w, g, c):
            if p.kind != 'return':
                continue
            v = stored(p, SELF, 'component')
            if v is None:
                a = [k.attrs['component'] for k in ctx.prog.mro(c) if isinstance(k, Cls) and 'component' in k.attrs]
                v = NONE if a and isinstance(a[0], ast.Constant) and a[0].value is None else None
            if comp is None:
                ctx.expect(v == NONE, 'config-clock', n, 'the clock is %s' % show(v), g)
            else:
                ctx.expect(v is not None and v[0] == 'new' and v[1] == 'ebu_tt_live.' + comp, 'config-clock', n, 'the clock is %s' % show(v), g)
    tab, f = table(ctx, 'config-lookup', 'config.backend:get_backend')
    for n, cn in (('twisted', 'TwistedBackend'), ('dummy', 'DummyBackend')):
        ctx.expect(tab.get(n) == CFG + 'backend.' + cn, 'config-lookup', 'backend ' + n, 'the backend %s is %s' % (n, tab.get(n)), f)


@check('C21')
def application(ctx):
    ctx.rule('config-app', 'the backend exists before the nodes; every configured node is created once and found by its name')
    c = ctx.prog.cls('config:AppConfig')
    f = ctx.prog.find_method(c, '__init__')
    w = ctx.walker(types={SELF: c}, noexc=True, opaque={'configure_component', 'get_required_config'})
    fields = {}
    for p in ran(ctx, w, f, c):
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'configure_component']
        names = [e.recv[1][2] if e.recv and e.recv[0] == 'attr' and e.recv[1][0] == 'attr' else None for e in calls]
        if not ctx.expect(p.kind == 'return' and names == ['backend', 'nodes'], 'config-app', 'order', 'what is configured: %s' % names, f):
            continue
        cm = [e for e in p.events if e.kind == 'call' and e.name == 'ConfigurationManager']
        rest = [v for e in cm for k, v in e.kwargs or () if k == '**']
        known = {}
        if len(cm) == 1:
            for k, v in cm[0].kwargs or ():
                if k == '**':
                    items, more = w.dict_items(v, p.state)
                    known.update(dict(items))
                    known['more'] = more
        ctx.expect(len(cm) == 1 and (K('definition_source') in known or kw(cm[0], 'definition_source') is not None) and (
            ('p', '**kwargs') in known.get('more', ()) or ('p', '**kwargs') in rest), 'config-app', 'sources',
            'the sources given are not used to read the configuration', f)
        for e, n in zip(calls, names):
            top = e.recv[1][1]
            ctx.expect(e.args + tuple(v for _, v in e.kwargs or ()) == (top, ('attr', top, n)), 'config-app', n, '%s is configured with %s' % (
                n, [show(a) for a in e.args]), f)
            for s in p.events:
                if s.kind == 'store' and s.recv == SELF and s.value == e.value:
                    fields[n] = ('attr', SELF, s.name)
    ctx.expect(len(fields) == 2, 'config-app', 'kept', 'backend or nodes are not kept', f)
    g = ctx.prog.find_method(c, 'start')
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), g, c):
        st = [e for e in p.events if e.kind == 'call' and e.name == 'start']
        ctx.expect(len(st) == 1 and st[0].recv == fields.get('backend'), 'config-app', 'start', 'starting the application starts %s' % [
            show(e.recv) for e in st], g)
    g = ctx.prog.func('config:create_app')
    for p in ran(ctx, ctx.walker(noexc=True, opaque={'install_app'}), g, None):
        made = news(p, 'AppConfig')
        inst = [e for e in p.events if e.kind == 'call' and e.name == 'install_app']
        ctx.expect(len(made) == 1 and p.ret == made[0].value and passes_rest(made[0], ('p', '**kwargs')) and len(inst) == 1 and inst[0].args == (p.ret,),
                   'config-app', 'create', 'creating an application gives %s' % show(p.ret), g)
    # the nodes
    k = ctx.prog.cls('config.node:UniversalNodeList')
    h = ctx.prog.find_method(k, 'configure_component')
    slots = sorted(n for n in slot_names(k))
    ctx.need(len(slots) >= 5, 'node slots')
    w = ctx.walker(types={('p', 'cls'): k}, noexc=True, opaque={'register_configurator'})
    store = None
    for p in ran(ctx, w, h, k):
        if p.kind != 'return':
            ctx.bad('config-app', 'nodes/refused', 'the nodes are refused; path: %s' % show_facts(p.facts), h)
            continue
        calls = [e for e in p.events if e.kind == 'call' and e.name == 'configure_component' and e.recv is not None and e.recv[0] == 'attr']
        seen = {}
        for e in calls:
            n = e.recv[1][2] if e.recv[1][0] == 'attr' else None
            seen.setdefault(n, []).append(e)
        fld = [e for e in p.events if e.kind == 'store' and e.recv == p.ret and e.value is not None and e.value[0] == 'dict']
        if not ctx.expect(len(fld) == 1, 'config-app', 'nodes/kept', 'the nodes are not kept by name', h):
            continue
        store = fld[0].name
        for n in slots:
            none = [v if a[0] == 'isnone' else not v for a, v in p.facts.items() if a[0] in ('isnone', 'truthy') and a[1][0] == 'attr' and
                    a[1][2] == 'type' and a[1][1][0] == 'attr' and a[1][1][2] == n]
            want = 0 if none and none[0] else 1
            es = seen.get(n, ())
            good = bool(none) and len(es) == want and all(
                e.args + tuple(v for _, v in e.kwargs or ()) == (('p', 'config'), e.recv[1]) for e in es)
            put = [e for e in p.events if e.kind == 'setitem' and e.recv == fld[0].value and e.name == K(n)]
            good = good and len(put) == want and all(x.value == e.value for x, e in zip(put, es))
            ctx.expect(good, 'config-app', n, '%s is configured %d times%s; path: %s' % (n, len(es), '' if none else ' whether or not it has a type',
                                                                                         show_facts(p.facts)), h)
    g = ctx.prog.find_method(c, 'get_node')
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True), g, c):
        ctx.expect(p.kind == 'return' and p.ret == ('sub', ('attr', fields.get('nodes'), store), param1(g)), 'config-app', 'get_node',
                   'asking for a node gives %s' % show(p.ret), g)


def param1(g):
    return ('p', g.node.args.args[1].arg)


def slot_names(k):
    for st in k.node.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'required_config':
                    yield t.attr


@check('C21')
def websockets(ctx):
    ctx.rule('config-websocket', 'each listening address and connection of a websocket carriage gets the socket asked for; an address can not be used twice')
    c = ctx.prog.cls('config.backend:TwistedBackend')
    init = ctx.prog.find_method(c, '__init__')
    vals = {}
    dicts = set()
    for p in ran(ctx, ctx.walker(types={SELF: c}, noexc=True, opaque={'register_configurator'}), init, c):
        for e in p.events:
            if e.kind == 'store' and e.recv == SELF and e.value is not None and e.value[0] == 'dict':
                dicts.add(('attr', SELF, e.name))
            elif e.kind == 'store' and e.recv == SELF and e.value is not None:
                vals[('attr', SELF, e.name)] = e.value

    for what in ('twisted.websocket', 'reactor', 'task'):
        ctx.expect(any(what in repr(v) and v[0] in ('modref', 'ext', 'glob') for v in vals.values()), 'config-websocket', 'backend/' + what,
                   'the backend does not know %s' % what, init)

    def kept_from_start(put, label, fn):
        ctx.expect(put.recv in dicts, 'config-websocket', label, 'nothing to remember servers in', fn)

    def res(t):
        return vals.get(t, t)
    servers = {}
    for role, typ in (('producer', 'TwistedWSPushProducer'), ('consumer', 'TwistedWSConsumer')):
        f = ctx.prog.find_method(c, 'ws_backend_' + role)
        ctx.need(f, 'ws_backend_' + role)
        cust, listen, conn, proxy = ('p', 'custom_' + role), ('p', 'listen'), ('p', 'connect'), ('p', 'proxy')
        addr = meth(listen, 'geturl')
        w = ctx.walker(types={SELF: c}, noexc=True)
        n = {'new': 0, 'join': 0, 'client': 0, 'refused': 0}
        paths = ran(ctx, w, f, c)
        own = {e.recv for p in paths for e in p.events if e.kind == 'setitem' and e.name == addr}
        for p in paths:
            lis = p.facts.get(('truthy', listen))
            if lis is None and p.facts.get(('isnone', listen)) is not None:
                lis = not p.facts.get(('isnone', listen))
            found = lookups(p, addr)
            ws = [t for t, v in found.items() if v]
            used = [a[1] for a, v in p.facts.items() if a[0] in ('truthy', 'isnone') and v is (a[0] == 'truthy') and a[1][0] == 'attr' and
                    a[1][2] == role and a[1][1] in found]
            label = 'ws_' + role
            if p.kind == 'raise':
                n['refused'] += 1
                name = w.exc_name(p.exc)
                other = [t for t in ws if t[1][1] not in own]
                ctx.expect(lis and name and name.endswith('ConfigurationError') and (used or other), 'config-websocket', label + '/refused',
                           'a configuration is refused with %s; path: %s' % (name, show_facts(p.facts)), f)
                continue
            made = [e for e in p.events if e.kind == 'call' and e.recv is None and res_name(e, res).endswith(typ) or
                    e.kind == 'call' and e.value is not None and e.value[0] == 'new' and e.value[1].endswith(typ)]
            made += [e for e in p.events if e.kind == 'call' and e not in made and typ in repr(res(callee(e)))]
            if not ctx.expect(len(made) == 1 and made[0].args + tuple(v for _, v in made[0].kwargs or ()) == (cust,) and p.ret == made[0].value,
                              'config-websocket', label, '%d %s are created for the carriage; path: %s' % (len(made), role, show_facts(p.facts)), f):
                continue
            tw = made[0].value
            srv = [e for e in p.events if e.kind == 'call' and e.name == 'BroadcastServerFactory']
            cli = [e for e in p.events if e.kind == 'call' and e.name == 'BroadcastClientFactory']
            if not lis:
                ctx.expect(not srv, 'config-websocket', label + '/listen', 'a server is created although no address is given', f)
            elif ws:
                n['join'] += 1
                st = [e for e in p.events if e.kind == 'store' and e.recv in ws and e.name == role]
                ctx.expect(not used and not srv and len(st) == 1 and st[0].value == tw, 'config-websocket', label + '/shared',
                           'the %s of a carriage is not given to the server already there, or replaces another; path: %s' % (role, show_facts(p.facts)), f)
                free = [p.facts.get(('truthy', ('attr', t, role))) is False or p.facts.get(('isnone', ('attr', t, role))) is True for t in ws]
                ctx.expect(all(free), 'config-websocket', label + '/used', 'the %s already using an address is replaced; path: %s' % (
                    role, show_facts(p.facts)), f)
                ctx.expect(all(t[1][1] in own for t in ws) and any(t[1][1] not in own for t in found), 'config-websocket', label + '/protocol',
                           'a server of another protocol is used; path: %s' % show_facts(p.facts), f)
            else:
                n['new'] += 1
                ctx.expect(len(found) >= 2, 'config-websocket', label + '/lookup', 'servers on the address are not looked for; path: %s' % show_facts(p.facts), f)
                if ctx.expect(len(srv) == 1, 'config-websocket', label + '/listen', '%d servers are created for an address' % len(srv), f):
                    s = srv[0]
                    kws = dict(s.kwargs or ())
                    url = s.args[0] if s.args else kws.get('url')
                    ctx.expect(url == addr and kws.get(role) == tw, 'config-websocket', label + '/server', 'the server is created with %s' % [show(a) for a in s.args], f)
                    factory(ctx, label + '/server', p, s, 'BroadcastServerProtocol', 'listen', f)
                    put = [e for e in p.events if e.kind == 'setitem' and e.value == s.value]
                    ctx.expect(len(put) == 1 and put[0].name == addr and put[0].recv in {t[1][1] for t in found}, 'config-websocket', label + '/known',
                               'the server on an address is not remembered', f)
                    if put:
                        servers.setdefault('ws', set()).add(put[0].recv)
                        kept_from_start(put[0], label + '/registry', init)
            loops = [e for e in p.events if e.kind == 'loop' and e.value == conn]
            ends = [e for e in p.events if e.kind == 'loopend' and e.value == conn]
            ctx.expect(ends or p.facts.get(('truthy', conn)) is False or p.facts.get(('isnone', conn)) is True, 'config-websocket', label + '/connections',
                       'configured connections are not made; path: %s' % show_facts(p.facts), f)
            if ctx.expect(len(cli) == len(loops), 'config-websocket', label + '/connect', 'for %d connections %d are made' % (len(loops), len(cli)), f):
                for s, lo in zip(cli, loops):
                    n['client'] += 1
                    kws = dict(s.kwargs or ())
                    url = s.args[0] if s.args else kws.get('url')
                    ctx.expect(url == meth(('it', conn, lo.name), 'geturl') and kws.get(role) == tw, 'config-websocket', label + '/client',
                               'the connection is created with %s' % [(k, show(v)) for k, v in kws.items()], f)
                    ce = factory(ctx, label + '/client', p, s, 'BroadcastClientProtocol', 'connect', f)
                    px = [e for e in p.events if e.kind == 'store' and e.recv == s.value and e.name == 'proxy']
                    ctx.expect(kws.get('proxy') == proxy or (len(px) == 1 and px[0].value == proxy and ce is not None and px[0].idx < ce.idx),
                               'config-websocket', label + '/proxy', 'the proxy is not used', f)
        for k, v in n.items():
            ctx.expect(v, 'config-websocket', 'ws_%s/%s' % (role, k), 'never happens: %s' % k, f)
    # legacy
    f = ctx.prog.find_method(c, 'wsl_backend_producer')
    uri = ('p', 'uri')
    addr = meth(uri, 'geturl')
    w = ctx.walker(types={SELF: c}, noexc=True)
    ok = 0
    for p in ran(ctx, w, f, c):
        found = lookups(p, addr)
        ws = [t for t, v in found.items() if v]
        ctx.expect(p.kind == 'raise' or {t[1][1] for t in found} >= servers.get('ws', set()), 'config-websocket', 'legacy/protocol',
                   'a server of another protocol is not looked for; path: %s' % show_facts(p.facts), f)
        if p.kind == 'raise':
            name = w.exc_name(p.exc)
            ctx.expect(name and name.endswith('ConfigurationError') and ws, 'config-websocket', 'legacy/refused', 'a configuration is refused with %s; '
                       'path: %s' % (name, show_facts(p.facts)), f)
            continue
        ok += 1
        srv = [e for e in p.events if e.kind == 'call' and e.name == 'LegacyBroadcastServerFactory']
        made = [e for e in p.events if e.kind == 'call' and 'TwistedPullProducer' in repr(res(callee(e)))]
        if not ctx.expect(not ws and len(found) >= 2 and len(srv) == 1 and len(made) == 1, 'config-websocket', 'legacy/server', '%d servers are created for '
                          'an address; path: %s' % (len(srv), show_facts(p.facts)), f):
            continue
        ctx.expect(p.ret == made[0].value, 'config-websocket', 'legacy/returned', 'the carriage gets %s' % show(p.ret), f)
        vals2 = made[0].args + tuple(v for _, v in made[0].kwargs or ())
        ctx.expect(set(vals2) == {srv[0].value, ('p', 'custom_producer')}, 'config-websocket', 'legacy/producer', 'the producer is created with %s' % [
            show(v) for v in vals2], f)
        url = srv[0].args[0] if srv[0].args else kw(srv[0], 'url')
        ctx.expect(url == addr, 'config-websocket', 'legacy/address', 'the server listens on %s' % show(url), f)
        factory(ctx, 'legacy/server', p, srv[0], 'LegacyBroadcastServerProtocol', 'listen', f)
        put = [e for e in p.events if e.kind == 'setitem' and e.value == srv[0].value]
        ctx.expect(len(put) == 1 and put[0].name == addr and put[0].recv in {t[1][1] for t in found} and put[0].recv not in servers.get('ws', ()),
                   'config-websocket', 'legacy/known', 'the server on an address is not remembered', f)
        if put:
            kept_from_start(put[0], 'legacy/registry', init)
    ctx.expect(ok, 'config-websocket', 'legacy', 'no legacy server is ever created', f)
    f = ctx.prog.find_method(c, 'wsl_backend_consumer')
    for p in ran(ctx, w, f, c):
        cli = [e for e in p.events if e.kind == 'call' and e.name == 'LegacyBroadcastClientFactory']
        if not ctx.expect(p.kind == 'return' and len(cli) == 1, 'config-websocket', 'legacy/connect', '%d connections are made' % len(cli), f):
            continue
        kws = dict(cli[0].kwargs or ())
        url = cli[0].args[0] if cli[0].args else kws.get('url')
        co = kws.get('consumer')
        mk = [e for e in p.events if e.kind == 'call' and e.value == co and co is not None]
        ctx.expect(url == addr and mk and 'TwistedConsumer' in repr(res(callee(mk[0]))) and mk[0].args + tuple(v for _, v in mk[0].kwargs or ()) == (
            ('p', 'custom_consumer'),), 'config-websocket', 'legacy/client', 'the connection is created with %s' % [(k, show(v)) for k, v in kws.items()], f)
        ce = factory(ctx, 'legacy/client', p, cli[0], 'LegacyBroadcastClientProtocol', 'connect', f)
        rest = kws.get('**')
        items = dict(w.dict_items(rest, p.state)[0]) if rest is not None and rest[0] == 'dict' else {}
        px = kws.get('proxy', items.get(K('proxy')))
        st = [e for e in p.events if e.kind == 'store' and e.recv == cli[0].value and e.name == 'proxy' and ce is not None and e.idx < ce.idx]
        if st:
            px = st[-1].value
        given_ = p.facts.get(('truthy', ('p', 'proxy')))
        if given_ is None and p.facts.get(('isnone', ('p', 'proxy'))) is not None:
            given_ = not p.facts.get(('isnone', ('p', 'proxy')))
        ctx.expect(px == ('p', 'proxy') if given_ is not False else px in (None, NONE, ('p', 'proxy')), 'config-websocket', 'legacy/proxy',
                   'the proxy is %s; path: %s' % (show(px), show_facts(p.facts)), f)


def meth(t, name):
    return ('call', ('bm', t, name), (), ())


def callee(e):
    v = e.value
    if v is None:
        return None
    if v[0] == 'call':
        fn = v[1]
        if fn[0] == 'bm':
            return ('attr', fn[1], fn[2])
        if fn[0] == 'dyn':
            return fn[1]
        return fn
    return v


def res_name(e, res):
    c = callee(e)
    t = res(c) if c is not None else None
    return t[-1] if t and isinstance(t[-1], str) else ''


def lookups(p, addr):
    """registered servers looked up under an address: {term: found}"""
    out = {}
    for a, v in p.facts.items():
        if a[0] in ('truthy', 'isnone') and a[1][0] == 'call' and a[1][1][0] == 'bm' and a[1][1][2] == 'get' and a[1][2][:1] == (addr,):
            out[a[1]] = v if a[0] == 'truthy' else not v
    return out


def factory(ctx, label, p, s, proto, go, f):
    pr = [e for e in p.events if e.kind == 'store' and e.recv == s.value and e.name == 'protocol']
    ce = [e for e in p.events if e.kind == 'call' and e.recv == s.value and e.name == go]
    ctx.expect(len(ce) == 1 and len(pr) >= 1 and proto in repr(pr[-1].value) and pr[-1].idx < ce[0].idx, 'config-websocket', label + '/' + go,
               'the socket is opened %d times or without its protocol' % len(ce), f)
    return ce[0] if ce else None


@check('C21')
def scheduling(ctx):
    ctx.rule('config-schedule', 'the backend runs calls after the delay or at the interval asked for and hands over results and failures')
    c = ctx.prog.cls('config.backend:TwistedBackend')
    for mn, prim, tpar in (('call_once', 'deferLater', 'delay'), ('call_periodically', 'LoopingCall', 'interval')):
        f = ctx.prog.find_method(c, mn)
        w = ctx.walker(types={SELF: c}, noexc=True)
        for p in ran(ctx, w, f, c):
            a = [e for e in p.events if e.kind == 'call' and e.name == prim]
            if not ctx.expect(p.kind == 'return' and len(a) == 1, 'config-schedule', mn, '%d calls are scheduled' % len(a), f):
                continue
            e = a[0]
            vals = e.args + tuple(v for _, v in e.kwargs or ())
            ok = ('p', 'func') in vals
            d = e.value
            if mn == 'call_once':
                ok = ok and ('p', 'delay') in vals
            else:
                st = [x for x in p.events if x.kind == 'call' and x.name == 'start' and x.recv == e.value]
                ok = ok and len(st) == 1 and (st[0].args[:1] == (('p', 'interval'),) or kw(st[0], 'interval') == ('p', 'interval'))
                ok = ok and (kw(st[0], 'now') == K(False) or st[0].args[1:2] == (K(False),))
                d = st[0].value if st else None
            ctx.expect(ok, 'config-schedule', mn + '/time', 'the call is scheduled with %s' % [show(v) for v in vals], f)
            for par, add in (('result_callback', 'addCallback'), ('error_callback', 'addErrback')):
                none = p.facts.get(('isnone', ('p', par)))
                if none is None and p.facts.get(('truthy', ('p', par))) is not None:
                    none = not p.facts.get(('truthy', ('p', par)))
                got = [x for x in p.events if x.kind == 'call' and x.name == add and x.recv == d]
                ctx.expect(none is not None and len(got) == (0 if none else 1) and all(x.args == (('p', par),) for x in got), 'config-schedule',
                           '%s/%s' % (mn, par), 'the %s is attached %d times; path: %s' % (par, len(got), show_facts(p.facts)), f)
