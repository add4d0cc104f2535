# -*- coding: utf-8 -*-
"""Documents: validation, sequences, timing resolution, segmentation."""
from ..core import *
from .nodes import node_paths, DOC, EMIT
from .forward import DOC3, doc_changes, rooted

SEQ = 'documents.ebutt3:EBUTT3DocumentSequence'


def content_attr(ctx, cls=DOC3):
    """the attribute of a document that keeps its tree"""
    c = ctx.prog.cls(cls)
    w = ctx.walker(types={SELF: c})
    t = w.expr('self.binding', {'self': SELF}, ctx.prog.find_method(c, 'get_xml'))
    ctx.need(t[0] == 'attr' and t[1] == SELF, 'tree of a document')
    return t[2]


def accessor(ctx, cls, name, base=SELF):
    """term an accessor property of an object reads (single path)"""
    c = ctx.prog.cls(cls) if isinstance(cls, str) else cls
    pr = ctx.prog.find_prop(c, name)
    ctx.need(pr is not None and pr.getter is not None, 'accessor %s of %s' % (name, c.name))
    ps = [p for p in ctx.walker(types={SELF: c}, noexc=True).run(pr.getter, c) if p.kind == 'return']
    ctx.need(len(ps) >= 1, 'accessor %s of %s returns' % (name, c.name))
    t = ps[0].ret
    return subst(t, SELF, base) if base != SELF else t


@check('C08')
def c08(ctx):
    ctx.rule('valid-create', 'a document is handed out by its constructor or parser only after it has been validated in its final state')
    ctx.rule('valid-availability', 'setting the availability time revalidates the document')
    ctx.rule('valid-fresh', 'validation starts from an empty timeline and covers the whole tree with the current availability time')
    ctx.rule('valid-times', 'after validation the computed times are those of the body, or the availability time without a body')
    ctx.rule('valid-emit', 'a node validates a document after its last change and before it emits it')
    ctx.rule('valid-order', 'validation runs the schema checks before the semantic ones and reports their failure')
    c = ctx.prog.cls(DOC3)
    tree = content_attr(ctx)
    avail = accessor(ctx, c, 'availability_time')
    VAL = is_call('validate')

    def validated(p, obj, upto=None):
        """validate() ran on obj after the last change to it"""
        done = False
        for e in p.events:
            if e is upto:
                break
            if VAL(e) and e.recv == obj:
                done = True
            elif e.kind in ('store', 'setitem', 'del') and e.recv is not None and rooted(e.recv, obj) and \
                    not (e.kind == 'store' and e.recv == obj and e.name not in (tree, avail[2])):
                done = False
            elif e.kind == 'store' and e.recv == p.heap.get((obj, tree)):
                done = False
        return done
    # constructors
    for m, args in (('__init__', None), ('create_from_raw_binding', {'cls': ('cls', c.qualname)}),
                    ('create_from_xml', {'cls': ('cls', c.qualname)})):
        w = ctx.walker(opaque={'validate'})
        f = ctx.prog.find_method(c, m)
        ctx.need(f is not None, m)
        n = 0
        for p in ctx.walk(c, m, walker=w, args=args):
            if p.kind != 'return':
                continue
            n += 1
            obj = SELF if m == '__init__' else p.ret
            if m == 'create_from_xml' and obj[0] == 'call' and isinstance(obj[1], tuple) and 'create_from_raw_binding' in repr(obj[1]):
                ctx.ok('valid-create', m)
                continue
            ctx.expect(validated(p, obj), 'valid-create', m, 'a document is handed out without having been validated; path: %s' %
                       show_facts(p.facts), f)
            at = ('p', 'availability_time')
            if isnone(at).ev(p.facts) is not True and truthy(at).ev(p.facts) is not False:
                st = [e for e in p.events if e.kind == 'store' and e.recv == obj and e.name == avail[2] and e.value == at]
                ctx.expect(bool(st) or isnone(at).ev(p.facts) is None and any(
                    isnone(at).ev(e.facts) is not None for e in p.events), 'valid-create', m + '/availability',
                    'the availability time given is not part of the document when it is validated', f)
        ctx.some(n, 'valid-create', m, 'no document is ever handed out', f)
    pr = ctx.prog.find_prop(c, 'availability_time')
    if pr.setter is None:
        ctx.bad('valid-availability', 'availability_time', 'the availability time can not be set', c)
    else:
        v = ('p', pr.setter.params[1])
        for p in ctx.walker(types={SELF: c}, opaque={'validate'}).run(pr.setter, c):
            if p.kind == 'raise':
                td = [a for a in p.facts if a[0] == 'isinst' and a[1] == v and p.facts[a] is False]
                ctx.expect(bool(td), 'valid-availability', 'availability_time', 'a valid time is rejected; path: %s' %
                           show_facts(p.facts), pr.setter)
                continue
            ctx.expect(p.heap.get((SELF, avail[2])) == v and validated(p, SELF), 'valid-availability', 'availability_time',
                       'the document keeps the times computed for another availability time; path: %s' % show_facts(p.facts),
                       pr.setter)
    # validate itself
    f = ctx.prog.find_method(c, 'validate')
    w = ctx.walker(types={SELF: c}, opaque={'validateBinding'})
    binding = ('attr', SELF, tree)
    tl = ctx.prog.find_method(c, 'reset_timeline')
    ctx.need(tl is not None, 'reset_timeline')
    reset = {(e.recv, e.name) for p in ctx.walker().run(tl, c) for e in p.events if e.kind == 'store'}
    ctx.need(reset, 'timeline store')
    cb, ce = accessor(ctx, c, 'computed_begin_time'), accessor(ctx, c, 'computed_end_time')
    body = ('attr', binding, 'body')
    seen = set()
    for p in ctx.walk(c, 'validate', walker=w):
        if p.kind != 'return':
            continue
        vb = [e for e in p.events if e.kind == 'call' and e.name == 'validateBinding']
        if len(vb) != 1 or vb[0].recv != binding:
            ctx.bad('valid-fresh', 'validate', 'the tree of the document is validated %d times; path: %s' % (
                len(vb), show_facts(p.facts)), f)
            continue
        e = vb[0]
        pre = [x for x in p.events[:p.events.index(e)] if x.kind == 'store' and (x.recv, x.name) in reset and
               x.value in (NONE,) or x.kind == 'call' and x.name == 'clear']
        ctx.expect(bool(pre), 'valid-fresh', 'timeline', 'events of an earlier validation stay on the timeline', e)
        late = [x for x in p.events[p.events.index(e):] if x.kind == 'store' and (x.recv, x.name) in reset]
        ctx.expect(not late, 'valid-fresh', 'timeline', 'the timeline is lost after validation', e)
        ctx.expect(kw(e, 'document') == SELF, 'valid-fresh', 'document', 'the elements are registered with another document', e)
        at = kw(e, 'availability_time')
        dflt = [('call', ('ext', 'datetime.timedelta'), (), ())]
        zero = at is not None and (at in dflt or at[0] == 'call' and 'timedelta' in repr(at[1]) and
                                   all(x in (K(0), K(0.0)) for x in at[2]) and all(x in (K(0), K(0.0)) for _, x in at[3]))
        ok = at == avail or zero and (truthy(avail).ev(p.facts) is False or isnone(avail).ev(p.facts) is True)
        if not ok and at is not None and at[0] in ('or', 'ite'):
            ok = mentions(at, avail)
        ctx.expect(ok, 'valid-fresh', 'availability', 'the tree is validated with %s instead of the availability time' % (
            show(at) if at else 'nothing'), e)
        has = Present(body).ev(p.facts)
        got = p.heap.get((SELF, cb[2])), p.heap.get((SELF, ce[2]))
        if has is True:
            want = ('attr', body, 'computed_begin_time'), ('attr', body, 'computed_end_time')
            seen.add('body')
        elif has is False:
            want = (at, at)
            seen.add('none')
        else:
            ctx.bad('valid-times', 'validate', 'the times of the body are used although there may be none', f)
            continue
        ctx.expect(same_times(got, want, ctx, binding), 'valid-times', 'with body' if has else 'without body',
                   'the computed times are %s' % ', '.join(show(x) if x else 'not set' for x in got), f)
        order = [x.idx for x in p.events if x.kind == 'store' and x.recv == SELF and x.name in (cb[2], ce[2])]
        ctx.expect(all(i > e.idx for i in order), 'valid-times', 'order', 'the computed times are those from before the '
                   'validation', f)
    ctx.expect(seen == {'body', 'none'}, 'valid-times', 'cases', 'documents with and without a body are not both handled', f)
    # nodes
    for cls in ('RetimingDelayNode', 'DeDuplicatorNode', 'SimpleProducer'):
        if cls == 'SimpleProducer':
            cls = 'node.producer:SimpleProducer'
        ps, w, f, env = node_paths(ctx, cls, extra_opaque={'new_document', '_create_fragment', 'add_div', 'set_begin',
                                                           'set_end', 'set_dur'})
        n = 0
        for p in ps:
            for e in p.events:
                if not EMIT(e):
                    continue
                n += 1
                d = e.arg(0, 'data')
                done = False
                for x in p.events:
                    if x is e:
                        break
                    if VAL(x) and x.recv == d:
                        done = True
                    elif x.kind in ('store', 'setitem', 'del') and x.recv is not None and rooted(x.recv, d) or \
                            x.kind == 'call' and x.name in ('update_body_timing', 'update_children_timing', 'remove_duplication',
                                                            'append', 'add_div', 'set_begin', 'set_end', 'set_dur', 'remove',
                                                            'extend') and (
                                x.recv is not None and rooted(x.recv, d) or any(rooted(a, d) for a in x.args)):
                        done = False
                    elif x.kind == 'call' and x.name == 'remove_duplication':
                        done = False
                ctx.expect(done, 'valid-emit', cls, 'the document is emitted without having been validated after its last change; '
                           'path: %s' % show_facts(e.facts), e)
        ctx.some(n, 'valid-emit', cls, 'no document is ever emitted', f)
    # schema checks, then semantic checks
    b = ctx.prog.cls('SemanticDocumentMixin')
    f = ctx.prog.find_method(b, 'validateBinding')
    ctx.need(f is not None, 'validateBinding')
    n = 0
    for p in ctx.walk(b, 'validateBinding', walker=ctx.walker(opaque={'proceed', '_semantic_before_validation'})):
        skipped = any(a[0] == 'truthy' and v is False and '_performValidation' in repr(a[1]) for a, v in p.facts.items())
        if p.kind != 'return' or skipped:
            continue
        n += 1
        names = [e.name for e in p.events if e.kind == 'call' and e.name in ('_semantic_before_validation', '_validateBinding_vx',
                                                                           'proceed')]
        ctx.expect(names == ['_semantic_before_validation', '_validateBinding_vx', 'proceed'], 'valid-order', 'validateBinding',
                   'the checks run are %s' % names, f)
        for e in p.events:
            if e.kind == 'call' and e.name == 'proceed':
                ctx.expect(passes_rest(e, ('p', '**extra_kwargs')) or any(k == '**' for k, _ in e.kwargs), 'valid-order',
                           'validateBinding/context', 'the semantic checks do not get the document and availability time', e)
                ctx.expect(e.recv[0] == 'call' and any(v == SELF for v in e.recv[2] + tuple(x for _, x in e.recv[3])) or
                           e.recv[0] in ('new', 'obj'), 'valid-order', 'validateBinding/root', 'the semantic checks do not '
                           'start at this element', e)
        for e in p.events:
            ctx.expect(e.kind != 'except', 'valid-order', 'validateBinding', 'a failed check is ignored', e)
    ctx.some(n, 'valid-order', 'validateBinding', 'a document is never checked', f)


def same_times(got, want, ctx, binding):
    return got == want
