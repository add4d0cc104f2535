# -*- coding: utf-8 -*-
"""Path-sensitive value-flow analysis over the syntax tree.

For an entry function and a concrete class of `self`, the walker enumerates the acyclic
paths of the function (helpers of the repository resolved through the class table and
followed up to a bound), numbering values symbolically by where they come from, and
recording per path the ordered list of events (calls, stores, raises, returns) together
with the branch facts known when each event happens. No path is handed to a solver: the
only pruning is constant folding and syntactic contradiction between branch facts.
"""
import ast

from .load import Cls, Func, Mod, Prop, AnalysisError

TRUE, FALSE, NONE = ('k', True), ('k', False), ('k', None)
MAXSTATES = 6000


def K(v):
    return ('k', v)


def is_k(t):
    return t[0] == 'k'


# --------------------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 7:
        return '..'
    h = t[0]
    n = d + 1
    if h == 'k':
        return repr(t[1])
    if h == 'p':
        return t[1]
    if h == 'attr':
        return '%s.%s' % (show(t[1], n), t[2])
    if h == 'call':
        return '%s(%s)' % (show(t[1], n) if isinstance(t[1], tuple) else t[1],
                           ', '.join([show(a, n) for a in t[2]] + ['%s=%s' % (k, show(v, n)) for k, v in t[3]]))
    if h == 'sub':
        return '%s[%s]' % (show(t[1], n), show(t[2], n))
    if h == 'bin':
        return '(%s %s %s)' % (show(t[2], n), t[1], show(t[3], n))
    if h == 'new':
        return '%s(..)#%s' % (t[1].rpartition('.')[2], t[2])
    if h == 'cls':
        return t[1].rpartition('.')[2]
    if h in ('ext', 'fn', 'modref'):
        return str(t[1])
    if h == 'it':
        return 'each(%s)' % show(t[1], n)
    if h == 'bool':
        return ('' if t[2] else 'not ') + show_atom(t[1])
    if h == 'tup':
        return '(%s)' % ', '.join(show(x, n) for x in t[1])
    if h == 'lst':
        return '[%s]#%s' % (', '.join(show(x, n) for x in t[2]), t[1])
    if h == 'str':
        return 'fmt(%s)' % ' + '.join(show(x, n) for x in t[1])
    if h == 'bm':
        return '%s.%s' % (show(t[1], n), t[2])
    if h == 'comp':
        return '[%s for each(%s)%s]' % (show(t[2], n), ', '.join(show(x, n) for x in t[3]), ' if ..' if t[4] else '')
    return '%s(%s)' % (h, ', '.join(show(x, n) if isinstance(x, tuple) else str(x) for x in t[1:]))


def show_atom(a):
    if a[0] == 'isnone':
        return '%s is None' % show(a[1])
    if a[0] == 'truthy':
        return 'bool(%s)' % show(a[1])
    if a[0] == 'eq':
        return '%s == %s' % (show(a[1]), show(a[2]))
    if a[0] == 'lt':
        return '%s < %s' % (show(a[1]), show(a[2]))
    if a[0] == 'in':
        return '%s in %s' % (show(a[1]), show(a[2]))
    if a[0] == 'isinst':
        return 'isinstance(%s, %s)' % (show(a[1]), show(a[2]))
    return '%s(%s)' % (a[0], ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:]))


def show_facts(f):
    return ' and '.join(('' if v else 'not ') + '(' + show_atom(a) + ')' for a, v in f.items())


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                for y in subterms(x):
                    yield y


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in t)
    return t


# --------------------------------------------------------------------------- atoms
def canon_eq(a, b):
    x, y = sorted((a, b), key=repr)
    return ('eq', x, y)


def definitely_not_none(t):
    return t[0] in ('new', 'lst', 'dict', 'tup', 'str', 'bool', 'cls', 'fn', 'lam', 'fmt', 'comp', 'lstcomp', 'bin') or \
        (t[0] == 'k' and t[1] is not None) or \
        (t[0] == 'call' and t[1] in (('ext', 'len'), ('ext', 'str'), ('ext', 'int'), ('ext', 'bool'), ('ext', 'float'), ('ext', 'repr')))


_NOVAL = object()


def atom_const(a):
    """Value of an atom when it is decided by constants alone, else None."""
    h = a[0]
    if h == 'isnone':
        if a[1] == NONE:
            return True
        if definitely_not_none(a[1]):
            return False
    elif h == 'truthy':
        t = a[1]
        if t[0] == 'k':
            return bool(t[1])
        if t[0] in ('cls', 'fn', 'lam', 'new'):
            return True
        if t[0] == 'tup':
            return bool(t[1])
    elif h == 'eq':
        if a[1] == a[2] and a[1][0] != 'call':
            return True
        if a[1][0] == 'k' and a[2][0] == 'k':
            return a[1][1] == a[2][1]
        if a[1][0] == 'cls' and a[2][0] == 'cls':
            return a[1] == a[2]
    elif h == 'is':
        if a[1] == a[2]:
            return True
        if a[1][0] == 'cls' and a[2][0] == 'cls':
            return False
    elif h == 'in':
        if a[2][0] == 'tup' and not a[2][1]:
            return False
    elif h == 'lt':
        if a[1][0] == 'k' and a[2][0] == 'k':
            try:
                return a[1][1] < a[2][1]
            except TypeError:
                return None
        if a[1] == a[2]:
            return False
    return None


def implied(a, facts):
    """Value of atom under facts by direct lookup and simple implications, else None."""
    v = atom_const(a)
    if v is not None:
        return v
    v = facts.get(a)
    if v is not None:
        return v
    h = a[0]
    if h == 'isnone':
        t = a[1]
        if facts.get(('truthy', t)) is True:
            return False
        if t[0] == 'call' and t[1] in (('ext', 'min'), ('ext', 'max')) and len(t[2]) > 1 and \
                all(implied(('isnone', x), facts) is False for x in t[2]):
            return False
        if t[0] == 'call' and t[1] in (('ext', 'min'), ('ext', 'max')) and len(t[2]) == 1 and t[2][0][0] == 'comp' and \
                (('isnone', t[2][0][2]), False) in t[2][0][4]:
            return False
        for f, val in facts.items():
            if f[0] == 'eq' and t in (f[1], f[2]):
                o = f[2] if f[1] == t else f[1]
                if val is True:
                    if definitely_not_none(o) or facts.get(('isnone', o)) is False:
                        return False
                    if facts.get(('isnone', o)) is True:
                        return True
            elif val is True and f[0] == 'isinst' and f[1] == t:
                return False
            elif f[0] == 'is' and val is True and t in (f[1], f[2]):
                o = f[2] if f[1] == t else f[1]
                if definitely_not_none(o):
                    return False
    elif h == 'truthy':
        t = a[1]
        if facts.get(('isnone', t)) is True:
            return False
        for f, val in facts.items():
            if f[0] == 'eq' and val is True and t in (f[1], f[2]):
                o = f[2] if f[1] == t else f[1]
                if o[0] == 'k':
                    return bool(o[1])
    elif h == 'eq':
        x, y = a[1], a[2]
        for f, val in facts.items():
            if f[0] == 'eq' and val is True:
                for p, q in ((x, y), (y, x)):
                    if p in (f[1], f[2]):
                        o = f[2] if f[1] == p else f[1]
                        if o[0] == 'k' and q[0] == 'k':
                            return o[1] == q[1]
            elif f[0] == 'isnone' and val is True:
                if f[1] == x and definitely_not_none(y) or f[1] == y and definitely_not_none(x):
                    return False
        # None on one side, non-None on the other
        for p, q in ((x, y), (y, x)):
            if facts.get(('isnone', p)) is True and facts.get(('isnone', q)) is False:
                return False
        if facts.get(('isnone', x)) is True and facts.get(('isnone', y)) is True:
            return True
        if facts.get(('lt', x, y)) is True or facts.get(('lt', y, x)) is True:
            return False
    elif h == 'lt':
        if facts.get(('lt', a[2], a[1])) is True:
            return False
        if facts.get(canon_eq(a[1], a[2])) is True:
            return False
    elif h == 'isinst':
        if facts.get(('isnone', a[1])) is True:
            return False
    return None


# --------------------------------------------------------------------------- state
class State(object):
    __slots__ = ('env', 'heap', 'facts', 'events', 'ctrl', 'handlers', 'n', 'stack')

    def __init__(self):
        self.env, self.heap, self.facts, self.events = {}, {}, {}, ()
        self.ctrl, self.handlers, self.n, self.stack = None, (), 0, ()

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.facts, s.events = self.env, self.heap, self.facts, self.events
        s.ctrl, s.handlers, s.n, s.stack = self.ctrl, self.handlers, self.n, self.stack
        return s

    def set_local(self, name, v):
        self.env = dict(self.env)
        self.env[name] = v

    def set_heap(self, key, v):
        self.heap = dict(self.heap)
        self.heap[key] = v

    def fresh(self):
        self.n += 1
        return self.n


class Event(object):
    __slots__ = ('kind', 'name', 'recv', 'args', 'kwargs', 'value', 'node', 'fn', 'facts', 'stack', 'target', 'heap',
                 'inlined', 'idx')

    def __init__(self, kind, st, node=None, fn=None, **kw):
        self.kind, self.node, self.fn = kind, node, fn
        self.facts, self.stack, self.heap = st.facts, st.stack, st.heap
        self.idx = len(st.events)
        for k in ('name', 'recv', 'args', 'kwargs', 'value', 'target', 'inlined'):
            setattr(self, k, kw.get(k))

    @property
    def loc(self):
        if self.fn is None:
            return '?'
        return '%s:%s (%s)' % (self.fn.mod.rel, getattr(self.node, 'lineno', '?'), self.fn.short)

    def arg(self, i, name=None):
        if name is not None and self.kwargs:
            for k, v in self.kwargs:
                if k == name:
                    return v
        if self.args is not None and i is not None and i < len(self.args):
            return self.args[i]
        return None

    def __repr__(self):
        if self.kind == 'call':
            return '%s.%s(%s)' % (show(self.recv) if self.recv else '', self.name, ', '.join(
                [show(a) for a in self.args] + ['%s=%s' % (k, show(v)) for k, v in self.kwargs]))
        if self.kind == 'store':
            return '%s.%s = %s' % (show(self.recv), self.name, show(self.value))
        return '%s %s %s' % (self.kind, self.name, show(self.value) if self.value else '')


class Path(object):
    def __init__(self, st, fn):
        self.events, self.facts, self.heap, self.ctrl, self.fn, self.env = \
            st.events, st.facts, st.heap, st.ctrl, fn, st.env
        self.state = st

    @property
    def kind(self):
        return self.ctrl[0] if self.ctrl else 'return'

    @property
    def ret(self):
        return self.ctrl[1] if self.ctrl and self.ctrl[0] == 'return' else NONE if self.kind == 'return' else None

    @property
    def exc(self):
        return self.ctrl[1] if self.ctrl and self.ctrl[0] == 'raise' else None

    def calls(self, *names, **kw):
        recv = kw.get('recv')
        return [e for e in self.events if e.kind == 'call' and e.name in names and
                (recv is None or e.recv == recv)]

    def stores(self, name=None, recv=None):
        return [e for e in self.events if e.kind == 'store' and (name is None or e.name == name) and
                (recv is None or e.recv == recv)]

    def describe(self, n=12):
        return 'path [%s] -> %s' % (show_facts(self.facts), self.kind)


BUILTIN_EXC = {
    'Exception': 'BaseException', 'StandardError': 'Exception', 'ValueError': 'StandardError', 'TypeError': 'StandardError',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'StandardError',
    'AttributeError': 'StandardError', 'NameError': 'StandardError', 'RuntimeError': 'StandardError',
    'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception', 'IOError': 'EnvironmentError',
    'OSError': 'EnvironmentError', 'EnvironmentError': 'StandardError', 'ImportError': 'StandardError',
    'AssertionError': 'StandardError', 'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError',
    'UnicodeEncodeError': 'UnicodeError', 'ArithmeticError': 'StandardError', 'OverflowError': 'ArithmeticError',
    'ZeroDivisionError': 'ArithmeticError', 'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'GeneratorExit': 'BaseException', 'EOFError': 'StandardError', 'MemoryError': 'StandardError',
}


class Opts(object):
    def __init__(self, **kw):
        self.opaque = set(kw.pop('opaque', ()))          # method/function names never followed
        self.follow = kw.pop('follow', None)             # predicate(Func) -> bool, None = everything
        self.depth = kw.pop('depth', 11)
        self.loop = kw.pop('loop', 1)
        self.types = dict(kw.pop('types', {}))           # term -> Cls
        self.attr_types = dict(kw.pop('attr_types', {}))  # (Cls name, attr) -> Cls
        self.impure = IMPURE_METHODS | set(kw.pop('impure', ()))      # methods whose result differs from call to call
        self.raises = dict(kw.pop('raises', {}))         # opaque name -> tuple of exception names
        self.ctor = set(kw.pop('ctor', ()))              # class names whose __init__ is followed
        self.facts = dict(kw.pop('facts', {}))
        self.heap = dict(kw.pop('heap', {}))
        self.noexc = kw.pop('noexc', False)              # do not model implicit exceptions in try bodies
        self.inline_args = kw.pop('inline_args', None)
        self.maxstates = kw.pop('maxstates', MAXSTATES)
        self.returns = dict(kw.pop('returns', {}))       # opaque function name -> Cls of the result
        self.opaque_classes = set(kw.pop('opaque_classes', ()))
        self.items = kw.pop('items', False)              # an event for every item read
        self.lists = kw.pop('lists', False)              # lists that are only appended to keep their known content
        self.sizes = kw.pop('sizes', True)              # what was found about the size of a local list is forgotten when it changes
        self.symbolic = set(kw.pop('symbolic', ()))      # attributes whose reads stay symbolic after a store
        assert not kw, kw


IGNORED_CALLS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'isEnabledFor', 'log'}
PURE_EXT = {'len', 'str', 'int', 'bool', 'repr', 'unicode', 'float', 'isinstance', 'hasattr', 'type', 'id', 'hex', 'abs',
            'min', 'max', 'sum', 'sorted', 'list', 'tuple', 'set', 'dict', 'iter', 'reversed', 'enumerate', 'zip',
            'range', 'xrange', 'getattr', 'callable', 'any', 'all', 'frozenset', 'map', 'filter', 'round', 'divmod'}
IMPURE_METHODS = {'pop', 'popleft', 'popitem', 'next', 'read', 'readline', 'readlines', 'get_full_count', 'fileno', 'recv'}
MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
               'popleft', 'appendleft'}


OPERATORS = {'operator.lt': ast.Lt, 'operator.le': ast.LtE, 'operator.gt': ast.Gt, 'operator.ge': ast.GtE, 'operator.eq': ast.Eq,
             'operator.ne': ast.NotEq, 'operator.is_': ast.Is, 'operator.is_not': ast.IsNot}


class Walker(object):
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.o = opts or Opts()
        self.analysed = set()
        self.identities = set()     # pairs compared by `is`, which the terms do not tell from equal ones
        self.iterated = set()       # what is gone through
        self.taken = set()          # (container, key) of everything taken from a container
        self.watched, self.unbound = (), []     # names to note reads of while they are not bound
        self.nstates = 0
        self._at = {}
        self.counted = {}           # loops over enumerate(), without the position

    # ------------------------------------------------------------------ entry
    def run(self, fn, selfcls=None, args=None, kwargs=None, state=None, bound=None):
        """Analyse function fn; args: mapping parameter -> term (default: ('p', name))."""
        st = State() if state is None else state.copy()
        if state is None:
            st.facts = dict(self.o.facts)
            st.heap = dict(self.o.heap)
        self.selfcls = selfcls or fn.cls
        env = {}
        a = fn.node.args
        names = fn.params
        args = args or {}
        kinds = fn.kind
        for i, n in enumerate(names):
            if i == 0 and fn.cls is not None and kinds in ('method', 'property'):
                env[n] = args.get(n, ('p', 'self'))
                self.o.types.setdefault(env[n], self.selfcls)
            elif i == 0 and kinds == 'classmethod':
                env[n] = args.get(n, ('cls', self.selfcls.qualname))
            else:
                env[n] = args.get(n, ('p', n))
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, ('p', '*' + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, ('p', '**' + a.kwarg.arg))
        for x in a.kwonlyargs:
            env[x.arg] = args.get(x.arg, ('p', x.arg))
        st.env = env
        st.stack = (fn,)
        self.analysed.add(fn.qualname)
        outs = self.block(fn.node.body, [st])
        return [Path(s, fn) for s in outs]

    def seq(self, calls):
        """Run several functions one after another on the same state: [(fn, selfcls, args)]."""
        sts = None
        for fn, cls, args in calls:
            nxt = []
            if sts is None:
                nxt = [p.state for p in self.run(fn, cls, args)]
            else:
                for s in sts:
                    if s.ctrl and s.ctrl[0] == 'raise':
                        nxt.append(s)
                        continue
                    s2 = s.copy()
                    s2.ctrl = None
                    nxt.extend(p.state for p in self.run(fn, cls, args, state=s2))
            sts = nxt
        return [Path(s, calls[-1][0]) for s in sts]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, states):
        done = []
        live = [s for s in states]
        for node in stmts:
            nxt = []
            for s in live:
                if s.ctrl is not None:
                    done.append(s)
                else:
                    nxt.extend(self.stmt(node, s))
            live = nxt
            if len(live) > 64:
                live = self.dedupe(live)
            if len(live) + len(done) > self.o.maxstates:
                raise AnalysisError('path budget exceeded in %s' % (live[0].stack[-1].qualname,))
            if not live:
                break
        return done + live

    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            try:
                k = (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.facts.items()),
                     tuple(id(e) for e in s.events), s.ctrl, s.handlers)
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                pass
            out.append(s)
        return out

    def stmt(self, node, st):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            return [st]
        return m(node, st)

    def s_Pass(self, node, st):
        return [st]

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [st]
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            out = []
            for s, v in (self.ev(node.value.value, st) if node.value.value else [(st, NONE)]):
                if s.ctrl is None:
                    s = s.copy()
                    self.event(s, 'yield', node, value=v)
                out.append(s)
            return out
        return [s for s, _ in self.ev(node.value, st)]

    def s_Return(self, node, st):
        if node.value is None:
            st = st.copy()
            st.ctrl = ('return', NONE)
            return [st]
        out = []
        for s, v in self.ev(node.value, st):
            if s.ctrl is None:
                s = s.copy()
                s.ctrl = ('return', v)
            out.append(s)
        return out

    def s_Break(self, node, st):
        st = st.copy()
        st.ctrl = ('break', None)
        return [st]

    def s_Continue(self, node, st):
        st = st.copy()
        st.ctrl = ('continue', None)
        return [st]

    def s_Assign(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            sts = [s]
            for t in node.targets:
                nxt = []
                for x in sts:
                    nxt.extend(self.assign(t, v, x) if x.ctrl is None else [x])
                sts = nxt
            out.extend(sts)
        return out

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [st]
        out = []
        for s, v in self.ev(node.value, st):
            out.extend(self.assign(node.target, v, s) if s.ctrl is None else [s])
        return out

    def s_AugAssign(self, node, st):
        load = self._as_load(node.target)
        expr = ast.copy_location(ast.BinOp(left=load, op=node.op, right=node.value), node)
        out = []
        for s, v in self.ev(expr, st):
            out.extend(self.assign(node.target, v, s) if s.ctrl is None else [s])
        return out

    @staticmethod
    def _as_load(t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
        return t

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            st = st.copy()
            st.set_local(target.id, v)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            sts = [st]
            items = self.unpack(v, len(target.elts), st)
            for t, x in zip(target.elts, items):
                nxt = []
                for s in sts:
                    nxt.extend(self.assign(t, x, s) if s.ctrl is None else [s])
                sts = nxt
            return sts
        if isinstance(target, ast.Starred):
            return self.assign(target.value, ('unk', 'star'), st)
        if isinstance(target, ast.Attribute):
            out = []
            for s, base in self.ev(target.value, st):
                out.extend(self.store_attr(base, target.attr, v, s, target) if s.ctrl is None else [s])
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, base in self.ev(target.value, st):
                if s.ctrl is not None:
                    out.append(s)
                    continue
                for s2, key in self.ev_slice(target.slice, s):
                    if s2.ctrl is None:
                        s2 = s2.copy()
                        self.event(s2, 'setitem', target, recv=base, name=key, value=v)
                        s2.set_heap((base, ('key', key)), v)
                        if base[0] in ('lst', 'dict'):
                            s2.set_heap((base, '#mut'), TRUE)
                    out.append(s2)
            return out
        return [st]

    def unpack(self, v, n, st):
        if v[0] == 'tup' and len(v[1]) == n:
            return list(v[1])
        if v[0] == 'lst' and len(v[2]) == n:
            return list(v[2])
        if v[0] == 'k' and isinstance(v[1], str) and len(v[1]) == n:
            return [K(c) for c in v[1]]
        return [('sub', v, K(i)) for i in range(n)]

    def store_attr(self, base, attr, v, st, node):
        c = self.type_of(base, st)
        if c is not None:
            p = self.prop_of(c, attr)
            if p is not None and p.setter is not None and self.may_follow(p.setter, st):
                return [s for s, _ in self.inline(p.setter, base, [v], [], st, node)]
        st = st.copy()
        self.event(st, 'store', node, recv=base, name=attr, value=v)
        st.set_heap((base, attr), v)
        return [st]

    def s_Delete(self, node, st):
        sts = [st]
        for t in node.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        s2 = s2.copy()
                        self.event(s2, 'del', t, recv=b, name=t.attr)
                        s2.set_heap((b, t.attr), ('deleted',))
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev_slice(t.slice, s2):
                            s3 = s3.copy()
                            self.event(s3, 'delitem', t, recv=b, name=k)
                            s3.set_heap((b, ('key', k)), ('deleted',))
                            nxt.append(s3)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def s_Global(self, node, st):
        return [st]

    s_Nonlocal = s_Import = s_Global

    def s_ImportFrom(self, node, st):
        st = st.copy()
        m = st.stack[-1].mod
        target = self.prog._from_target(m, node)
        for a in node.names:
            tm = self.prog.mods.get(target)
            r = self.prog.resolve(tm, a.name) if tm is not None else None
            if r is None and target + '.' + a.name in self.prog.mods:
                r = self.prog.mods[target + '.' + a.name]
            st.set_local(a.asname or a.name, self.entity_term(r, st) if r is not None else ('ext', target + '.' + a.name))
        return [st]

    def s_FunctionDef(self, node, st):
        st = st.copy()
        f = Func(st.stack[-1].mod, node.name, node, None, 'function', outer=st.stack[-1])
        st.set_local(node.name, ('lam', _Box(node, f), _Box(st.env), st.fresh()))
        return [st]

    def s_ClassDef(self, node, st):
        return [st]

    def s_Assert(self, node, st):
        t, f = self.branch(node.test, st)
        out = list(t)
        for s in f:
            if s.ctrl is None:
                s = s.copy()
                self.event(s, 'raise', node, name='AssertionError', value=('ext', 'AssertionError'))
                s.ctrl = ('raise', ('ext', 'AssertionError'))
            out.append(s)
        return out

    def s_Raise(self, node, st):
        if node.exc is None:
            st = st.copy()
            cur = st.env.get('#exc', ('ext', 'Exception'))
            self.event(st, 'raise', node, name=self.exc_name(cur), value=cur)
            st.ctrl = ('raise', cur)
            return [st]
        out = []
        for s, v in self.ev(node.exc, st):
            if s.ctrl is None:
                s = s.copy()
                self.event(s, 'raise', node, name=self.exc_name(v), value=v)
                s.ctrl = ('raise', v)
            out.append(s)
        return out

    def s_If(self, node, st):
        t, f = self.branch(node.test, st)
        out = []
        if t:
            out.extend(self.block(node.body, t))
        if f:
            out.extend(self.block(node.orelse, f) if node.orelse else f)
        return out

    def s_With(self, node, st):
        sts = [st]
        ctxs = []
        for it in node.items:
            nxt = []
            for s in sts:
                for s2, v in self.ev(it.context_expr, s):
                    if s2.ctrl is not None:
                        nxt.append(s2)
                        continue
                    s2 = s2.copy()
                    self.event(s2, 'enter', it.context_expr, value=v)
                    ctxs.append(v)
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, s2))
                    else:
                        nxt.append(s2)
            sts = nxt
        live = [s for s in sts if s.ctrl is None]
        dead = [s for s in sts if s.ctrl is not None]
        outs = self.block(node.body, live)
        res = []
        for s in outs:
            s = s.copy()
            for v in reversed(list(dict.fromkeys(ctxs))):
                self.event(s, 'exit', node, value=v)
            res.append(s)
        return dead + res

    def s_Try(self, node, st):
        types = []
        for h in node.handlers:
            types.append(self.handler_types(h, st))
        st = st.copy()
        saved = st.handlers
        if node.handlers:
            st.handlers = saved + (tuple(x for ts in types for x in ts),)
        outs = self.block(node.body, [st])
        res, raised = [], []
        for s in outs:
            s = s.copy()
            s.handlers = saved
            if s.ctrl is not None and s.ctrl[0] == 'raise':
                raised.append(s)
            elif s.ctrl is None and node.orelse:
                res.extend(self.block(node.orelse, [s]))
            else:
                res.append(s)
        for s in raised:
            exc = s.ctrl[1]
            handled = False
            for h, ts in zip(node.handlers, types):
                if any(self.exc_matches(exc, t) for t in ts):
                    s2 = s.copy()
                    s2.ctrl = None
                    old = s2.env.get('#exc')
                    s2.set_local('#exc', exc)
                    if h.name:
                        s2.set_local(h.name, exc)
                    self.event(s2, 'except', h, name=self.exc_name(exc), value=exc)
                    for s3 in self.block(h.body, [s2]):
                        if old is not None:
                            s3 = s3.copy()
                            s3.set_local('#exc', old)
                        res.append(s3)
                    handled = True
                    break
            if not handled:
                res.append(s)
        if node.finalbody:
            fin = []
            for s in res:
                s = s.copy()
                ctrl, s.ctrl = s.ctrl, None
                for s2 in self.block(node.finalbody, [s]):
                    if s2.ctrl is None:
                        s2 = s2.copy()
                        s2.ctrl = ctrl
                    fin.append(s2)
            res = fin
        return res

    s_TryStar = s_Try

    def handler_types(self, h, st):
        if h.type is None:
            return [('ext', 'BaseException')]
        if isinstance(h.type, ast.Name) and h.type.id in st.env:
            v = st.env[h.type.id]
            return list(v[1]) if v[0] == 'tup' else [v]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            r = self.prog.resolve_expr(st.stack[-1].mod, n)
            if isinstance(r, Cls):
                out.append(('cls', r.qualname))
            elif isinstance(r, tuple) and r[0] == 'const':
                for s, v in self.ev(n, st):
                    out.extend(v[1] if v[0] == 'tup' else [v])
                    break
            elif isinstance(r, tuple) and r[0] == 'ext':
                out.append(('ext', r[1]))
            else:
                out.append(('ext', ast.unparse(n)))
        return out

    def exc_name(self, v):
        if v[0] == 'new':
            return v[1].rpartition('.')[2]
        if v[0] == 'cls':
            return v[1].rpartition('.')[2]
        if v[0] == 'ext':
            return v[1].rpartition('.')[2]
        if v[0] == 'call' and isinstance(v[1], tuple):
            return self.exc_name(v[1])
        if v[0] == 'exc':
            return self.exc_name(v[1])
        return '?'

    def exc_ancestors(self, v):
        if v[0] in ('new', 'cls'):
            c = self.cls_by_qual(v[1])
            out = []
            if c is not None:
                for k in self.prog.mro(c):
                    if isinstance(k, Cls):
                        out.append(k.qualname)
                    else:
                        out.extend(self.exc_ancestors(('ext', k[4:])))
                return out + ['Exception', 'BaseException']
            return [v[1]]
        if v[0] == 'exc':
            return self.exc_ancestors(v[1])
        if v[0] == 'call' and isinstance(v[1], tuple):
            return self.exc_ancestors(v[1])
        if v[0] == 'ext':
            n = v[1].rpartition('.')[2]
            out = [v[1], n]
            while n in BUILTIN_EXC:
                n = BUILTIN_EXC[n]
                out.append(n)
            if n not in ('BaseException',):
                out += ['StandardError', 'Exception', 'BaseException']
            return out
        return ['Exception', 'BaseException']

    def exc_matches(self, exc, typ):
        anc = self.exc_ancestors(exc)
        name = typ[1]
        return name in anc or name.rpartition('.')[2] in anc and typ[0] == 'ext'

    def s_For(self, node, st):
        out = []
        for s, it in self.ev(node.iter, st):
            if s.ctrl is not None:
                out.append(s)
                continue
            pos = None
            loop = node
            if it[0] == 'call' and it[1] == ('ext', 'enumerate') and len(it[2]) == 1 and not it[3] and \
                    isinstance(node.target, (ast.Tuple, ast.List)) and len(node.target.elts) == 2 and isinstance(node.target.elts[0], ast.Name):
                # the positions are bound beside the items
                it, pos = it[2][0], node.target.elts[0]
                loop = self.counted.get(id(node))
                if loop is None:
                    loop = self.counted[id(node)] = ast.copy_location(ast.For(node.target.elts[1], node.iter, node.body, node.orelse), node)
                if not any(isinstance(x, ast.Name) and x.id == pos.id for b in node.body for x in ast.walk(b)):
                    pos = None
            exact = self.exact_items(it, s)
            if exact is not None and len(exact) <= 12:
                out.extend(self.loop_exact(loop, s, exact, pos))
            else:
                out.extend(self.loop_generic(loop, s, it, pos))
        return out

    def exact_items(self, it, st):
        if it[0] == 'kdict':
            return [k for k, _ in it[1]]
        if it[0] == 'call' and isinstance(it[1], tuple) and it[1][0] == 'bm' and not it[2]:
            tab = self.table_items(it[1][1], st)
            if tab is not None:
                if it[1][2] in ('items', 'iteritems'):
                    return [('tup', kv) for kv in tab]
                if it[1][2] in ('keys', 'iterkeys'):
                    return [k for k, _ in tab]
                if it[1][2] in ('values', 'itervalues'):
                    return [v for _, v in tab]
        if it[0] == 'tup':
            return list(it[1])
        if self.listed(it, st) is not None:
            return list(self.listed(it, st))
        if it[0] == 'call' and it[1] == ('ext', 'range') and len(it[2]) == 1 and is_k(it[2][0]) \
                and isinstance(it[2][0][1], int):
            return [K(i) for i in range(it[2][0][1])]
        return None

    def loop_exact(self, node, st, items, pos=None):
        live, done = [st], []
        for i, x in enumerate(items):
            nxt = []
            for s in live:
                if pos is not None:
                    s = s.copy()
                    s.set_local(pos.id, K(i))
                for s2 in self.assign(node.target, x, s):
                    for s3 in (self.block(node.body, [s2]) if s2.ctrl is None else [s2]):
                        if s3.ctrl is None or s3.ctrl[0] == 'continue':
                            s3 = s3.copy()
                            s3.ctrl = None
                            nxt.append(s3)
                        elif s3.ctrl[0] == 'break':
                            s3 = s3.copy()
                            s3.ctrl = None
                            done.append((s3, True))
                        else:
                            done.append((s3, True))
            live = nxt
        out = []
        for s in live:
            out.extend(self.block(node.orelse, [s]) if node.orelse else [s])
        return out + [s for s, _ in done]

    def elem(self, it, n):
        """(target value) of iterating over term it, iteration n."""
        self.iterated.add(it)
        if it[0] == 'call' and isinstance(it[1], tuple):
            f, a = it[1], it[2]
            if f[0] == 'bm' and f[2] in ('items', 'iteritems', 'viewitems'):
                k = ('it', f[1], n)
                return ('tup', (k, ('sub', f[1], k)))
            if f[0] == 'bm' and f[2] in ('keys', 'iterkeys'):
                return ('it', f[1], n)
            if f[0] == 'bm' and f[2] in ('values', 'itervalues'):
                return ('sub', f[1], ('it', f[1], n))
            if f[0] == 'bm' and f[2] in ('copy',) and not a:
                return self.elem(f[1], n)
            if f == ('ext', 'enumerate') and a:
                return ('tup', (('itidx', a[0], n), self.elem(a[0], n)))
            if f in (('ext', 'list'), ('ext', 'tuple'), ('ext', 'iter'), ('ext', 'set'), ('ext', 'sorted'),
                     ('ext', 'reversed'), ('ext', 'frozenset')) and len(a) == 1:
                return self.elem(a[0], n)
            if f in (('ext', 'zip'), ('ext', 'itertools.izip')):
                return ('tup', tuple(self.elem(x, n) for x in a))
        if it[0] == 'call' and it[1] in (('ext', 'six.iteritems'),) and it[2]:
            k = ('it', it[2][0], n)
            return ('tup', (k, ('sub', it[2][0], k)))
        if it[0] == 'slice' and it[2][1:] == (NONE, NONE, NONE):
            return self.elem(it[1], n)
        if it[0] == 'call' and it[1] in (('ext', 'range'), ('ext', 'xrange')) and len(it[2]) == 1:
            return ('it', it, n)
        if it[0] == 'comp':
            return it[2]
        if it[0] == 'bin' and it[1] == '+':
            return ('it', it, n)
        return ('it', it, n)

    def accumulates(self, node, st, it):
        """a loop that does nothing but append to one new list, as the comprehension it spells out"""
        if node.orelse or it[0] in ('lst', 'dict'):
            return None
        names = {c.func.value.id for c in ast.walk(node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
                 and c.func.attr == 'append' and isinstance(c.func.value, ast.Name)}
        names = [x for x in names if st.env.get(x, NONE)[0] == 'lst' and not st.env[x][2] and
                 (st.env[x], '#mut') not in st.heap]
        if len(names) != 1:
            return None
        name, acc = names[0], st.env[names[0]]
        if sum(isinstance(x, ast.Name) and x.id == name for b in node.body for x in ast.walk(b)) != \
                sum(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and
                    isinstance(x.func.value, ast.Name) and x.func.value.id == name for b in node.body for x in ast.walk(b)):
            return None
        if any(k != name and v == acc for k, v in st.env.items()) or any(v == acc for v in st.heap.values()):
            return None
        if any(isinstance(x, (ast.Break, ast.Return, ast.Yield)) for b in node.body for x in ast.walk(b)):
            return None
        srcs, pre = (it,), ()
        if it[0] == 'comp' and it[1] in ('list', 'gen', 'set'):
            srcs, pre = it[3], it[4]
        s0 = st.copy()
        s0.facts = dict(st.facts)
        s0.facts.update({a: v for a, v in pre if a[0] != 'dnf'})
        alts, value = [], None
        for s in self.assign(node.target, self.elem(it, 0), s0):
            for x in self.block(node.body, [s]):
                if x.ctrl is not None and x.ctrl[0] != 'continue':
                    return None
                new = x.events[len(st.events):]
                apps = [e for e in new if e.kind == 'call' and e.name == 'append' and e.recv == acc]
                if len(apps) > 1 or any(e not in apps and e.kind not in ('follow', 'leave') for e in new):
                    return None
                if any(st.heap.get(k) != v for k, v in x.heap.items() if k not in ((acc, '#app'), (acc, '#mut'), (acc, '#list'))):
                    return None
                if apps:
                    if value is not None and value != apps[0].args[0]:
                        return None
                    value = apps[0].args[0]
                    alts.append(tuple((a, v) for a, v in x.facts.items() if a not in st.facts and a[0] != 'dnf'))
        if value is None:
            return None
        alts = tuple(dict.fromkeys(alts))
        conds = alts[0] if len(alts) == 1 else ((('dnf', alts), True),)
        s = st.copy()
        self.event(s, 'loop', node, value=it, name=0)
        self.event(s, 'loopend', node, value=it, name=1)
        for b in node.body + [node.target]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    s.set_local(x.id, ('unk', 'loop'))
        s.set_local(name, ('comp', 'list', value, srcs, tuple(conds) + tuple(a for a in pre if a[0][0] == 'dnf')))
        return [s]

    def loop_generic(self, node, st, it, pos=None):
        acc = self.accumulates(node, st, it) if pos is None else None
        if acc is not None:
            return acc
        out = []
        live = [st]
        n = 0
        for k in range(self.o.loop + 1):
            # zero/one/.. iterations: leaving now
            for s in live:
                s = s.copy()
                self.event(s, 'loopend', node, value=it, name=k)
                out.extend(self.block(node.orelse, [s]) if node.orelse else [s])
            if k == self.o.loop:
                break
            nxt = []
            for s in live:
                s = s.copy()
                self.event(s, 'loop', node, value=it, name=k)
                v = self.elem(it, n)
                if pos is not None:
                    s.set_local(pos.id, ('itidx', it, n))
                if it[0] == 'comp' and it[1] in ('list', 'gen', 'set') and it[4]:
                    # what the comprehension selected is what the loop sees
                    s.facts = dict(s.facts)
                    s.facts.update({a: b for a, b in it[4] if a[0] != 'dnf'})
                if it[0] == 'lst' and len(it[2]) == 1:
                    v = it[2][0]
                app = s.heap.get((it, '#app'))
                if app:
                    v = app[1][min(n, len(app[1]) - 1)]
                for s2 in self.assign(node.target, v, s):
                    for s3 in (self.block(node.body, [s2]) if s2.ctrl is None else [s2]):
                        if s3.ctrl is None or s3.ctrl[0] == 'continue':
                            s3 = s3.copy()
                            s3.ctrl = None
                            nxt.append(s3)
                        elif s3.ctrl[0] == 'break':
                            s3 = s3.copy()
                            s3.ctrl = None
                            out.append(s3)
                        else:
                            out.append(s3)
            live = nxt
            n += 1
        return out

    s_AsyncFor = s_For

    def s_While(self, node, st):
        out = []
        st = st.copy()
        n0 = len(st.facts)
        for sub in ast.walk(node):
            if isinstance(sub, ast.AugAssign) and isinstance(sub.target, ast.Name) and \
                    isinstance(sub.op, (ast.Add, ast.Sub)) and st.env.get(sub.target.id, NONE)[0] == 'k':
                st.set_local(sub.target.id, ('idx', sub.target.id, st.env[sub.target.id]))
        live = [st]
        containers = []
        for k in range(self.o.loop + 1):
            nxt = []
            for s in live:
                base = s.facts
                if k > 0:
                    # the loop condition may have changed: forget what it says about itself
                    s = s.copy()
                    s.facts = {a: v for a, v in s.facts.items() if a not in cond_atoms}
                t, f = self.branch(node.test, s)
                if k == 0:
                    cond_atoms = set()
                for x in t + f:
                    cond_atoms |= set(a for a in x.facts if a not in base)
                if k == 0:
                    for x in t:
                        for a, v in x.facts.items():
                            if a[0] == 'lt' and v and a[1][0] == 'idx' and a[2][0] == 'call' and \
                                    a[2][1] == ('ext', 'len') and a[2][2][0] not in containers:
                                containers.append(a[2][2][0])
                for x in f:
                    if x.ctrl is None:
                        for cont in containers:
                            x = x.copy()
                            self.event(x, 'loopend', node, value=cont, name=k)
                        out.extend(self.block(node.orelse, [x]) if node.orelse else [x])
                    else:
                        out.append(x)
                if k == self.o.loop:
                    continue
                for x in t:
                    if x.ctrl is not None:
                        out.append(x)
                        continue
                    for cont in containers:
                        x = x.copy()
                        self.event(x, 'loop', node, value=cont, name=k)
                    for s3 in self.block(node.body, [x]):
                        if s3.ctrl is None or s3.ctrl[0] == 'continue':
                            s3 = s3.copy()
                            s3.ctrl = None
                            nxt.append(s3)
                        elif s3.ctrl[0] == 'break':
                            s3 = s3.copy()
                            s3.ctrl = None
                            out.append(s3)
                        else:
                            out.append(s3)
            live = nxt
            if not live:
                break
        return out

    # ------------------------------------------------------------------ events
    def event(self, st, kind, node, **kw):
        e = Event(kind, st, node, st.stack[-1] if st.stack else None, **kw)
        st.events = st.events + (e,)
        return e

    # ------------------------------------------------------------------ conditions
    def assume(self, st, atom, val):
        v = implied(atom, st.facts)
        if v is not None:
            return [st] if v == val else []
        if atom[0] == 'isinst':
            v = self.isinst_static(atom, st)
            if v is not None:
                return [st] if v == val else []
        if atom[0] == 'truthy' and atom[1][0] in ('lst', 'dict'):
            t = atom[1]
            if t[0] == 'lst' and self.listed(t, st) is not None:
                return [st] if bool(self.listed(t, st)) == val else []
            if (t, '#mut') not in st.heap:
                known = bool(t[2]) if t[0] == 'lst' else any(
                    k[0] == t for k in st.heap if isinstance(k, tuple) and len(k) == 2)
                return [st] if known == val else []
        if atom[0] == 'truthy' and not val and atom[1][0] in ('new', 'it'):
            c = self.type_of(atom[1], st) if atom[1][0] == 'new' or any(
                f[0] == 'isinst' and f[1] == atom[1] and v is True for f, v in st.facts.items()) else None
            if c is not None and self.always_true(c):
                return []
        s = st.copy()
        s.facts = dict(st.facts)
        s.facts[atom] = val
        if not consistent(s.facts, atom, val):
            return []
        return [s]

    def always_true(self, c):
        """instances of the class have no truth value of their own"""
        r = getattr(c, '_always_true', None)
        if r is None:
            r = all(isinstance(k, Cls) and not any(m in k.methods for m in ('__len__', '__nonzero__', '__bool__')) or
                    not isinstance(k, Cls) and k[4:] == 'object' for k in self.prog.mro(c))
            c._always_true = r
        return r

    def isinst_static(self, atom, st):
        t, typ = atom[1], atom[2]
        c = self.type_of(t, st)
        if c is None:
            return None
        if typ[0] == 'cls':
            d = self.cls_by_qual(typ[1])
            if d is None:
                return None
            if self.prog.is_sub(c, d):
                return True
            if t[0] == 'new' or t in self.o.types and not self.prog.is_sub(d, c):
                return False
        return None

    def branch(self, node, st):
        """-> (true states, false states); states with ctrl set appear in the true list."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, st)
            bad = [s for s in t + f if s.ctrl is not None]
            return [s for s in f if s.ctrl is None] + bad, [s for s in t if s.ctrl is None]
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            live, done, bad = [st], [], []
            for v in node.values:
                nxt = []
                for s in live:
                    t, f = self.branch(v, s)
                    for x in t:
                        if x.ctrl is not None:
                            bad.append(x)
                        else:
                            (nxt if is_and else done).append(x)
                    for x in f:
                        if x.ctrl is not None:
                            bad.append(x)
                        else:
                            (done if is_and else nxt).append(x)
                live = nxt
            return (live + bad, done) if is_and else (done + bad, live)
        if isinstance(node, ast.IfExp):
            t, f = self.branch(node.test, st)
            T, F = [], []
            for s in t:
                if s.ctrl is not None:
                    T.append(s)
                    continue
                a, b = self.branch(node.body, s)
                T += a
                F += b
            for s in f:
                a, b = self.branch(node.orelse, s)
                T += a
                F += b
            return T, F
        T, F = [], []
        for s, v in self.ev(node, st):
            if s.ctrl is not None:
                T.append(s)
                continue
            a, b = self.split(v, s)
            T += a
            F += b
        return T, F

    def split(self, v, st):
        """Branch on the truth value of a term."""
        if v[0] == 'bool':
            atom, pol = v[1], v[2]
        elif v[0] == 'call' and v[1] == ('ext', 'len') and len(v[2]) == 1:
            return self.split(v[2][0], st)
        elif v[0] == 'call' and v[1] == ('ext', 'bool') and len(v[2]) == 1:
            return self.split(v[2][0], st)
        elif v[0] == 'or':
            live, T = [st], []
            for x in v[1]:
                nxt = []
                for s in live:
                    a, b = self.split(x, s)
                    T += a
                    nxt += b
                live = nxt
            return T, live
        elif v[0] == 'and':
            live, F = [st], []
            for x in v[1]:
                nxt = []
                for s in live:
                    a, b = self.split(x, s)
                    F += b
                    nxt += a
                live = nxt
            return live, F
        elif v[0] == 'not':
            a, b = self.split(v[1], st)
            return b, a
        else:
            atom, pol = ('truthy', v), True
        return self.assume(st, atom, pol), self.assume(st, atom, not pol)

    def compare(self, op, a, b, st):
        """-> term (possibly a 'bool' term)"""
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            pol = isinstance(op, (ast.Eq, ast.Is))
            if isinstance(op, (ast.Is, ast.IsNot)):
                self.identities.add((a, b))
            if b == NONE:
                return self.mkbool(('isnone', a), pol, st)
            if a == NONE:
                return self.mkbool(('isnone', b), pol, st)
            for x, y in ((a, b), (b, a)):
                if y == TRUE:
                    return self.neg(self.truth(x), not pol, st)
                if y == FALSE:
                    return self.neg(self.truth(x), pol, st)
                # comparisons of lengths with zero
                if x[0] == 'call' and x[1] == ('ext', 'len') and y == K(0):
                    return self.neg(self.truth(x[2][0]), pol, st)
            return self.mkbool(canon_eq(a, b), pol, st)
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x[0] == 'call' and x[1] == ('ext', 'len') and y[0] == 'k' and y[1] in (0, 1):
                    o = type(op)
                    if flip:
                        o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[o]
                    if (o, y[1]) in ((ast.Gt, 0), (ast.GtE, 1)):
                        return self.truth(x[2][0])
                    if (o, y[1]) in ((ast.Lt, 1), (ast.LtE, 0)):
                        return self.neg(self.truth(x[2][0]), True, st)
            if isinstance(op, ast.Lt):
                return self.mkbool(('lt', a, b), True, st)
            if isinstance(op, ast.Gt):
                return self.mkbool(('lt', b, a), True, st)
            if isinstance(op, ast.LtE):
                return self.mkbool(('lt', b, a), False, st)
            return self.mkbool(('lt', a, b), False, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            pol = isinstance(op, ast.In)
            if b[0] == 'call' and isinstance(b[1], tuple) and b[1][0] == 'bm' and b[1][2] in ('keys', 'iterkeys') \
                    and not b[2]:
                b = b[1][1]
            if b[0] == 'call' and b[1] in (('ext', 'list'), ('ext', 'set'), ('ext', 'tuple'), ('ext', 'frozenset')) \
                    and len(b[2]) == 1:
                b = b[2][0]
            items = None
            tab = self.table_items(b, st)
            if tab is not None:
                items = [k for k, _ in tab]
            elif b[0] == 'tup':
                items = b[1]
            elif b[0] == 'lst' and (b, '#mut') not in st.heap:
                items = b[2]
            if items is not None and len(items) <= 12:
                parts = tuple(self.compare(ast.Eq(), a, x, st) for x in items)
                t = ('or', parts) if parts else FALSE
                return t if pol else ('not', t)
            return self.mkbool(('in', a, b), pol, st)
        return ('unk', 'cmp')

    def truth(self, x):
        if x[0] == 'bool' or x[0] in ('or', 'and', 'not'):
            return x
        if x[0] == 'call' and x[1] in (('ext', 'len'), ('ext', 'bool')) and len(x[2]) == 1:
            return self.truth(x[2][0])
        return ('bool', ('truthy', x), True)

    def neg(self, t, do, st):
        if not do:
            return t
        if t[0] == 'bool':
            return ('bool', t[1], not t[2])
        return ('not', t)

    def mkbool(self, atom, pol, st):
        v = implied(atom, st.facts)
        if v is not None:
            return K(v == pol)
        return ('bool', atom, pol)

    # ------------------------------------------------------------------ expressions
    def ev_many(self, nodes, st):
        outs = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                if s.ctrl is not None:
                    nxt.append((s, vs + (('unk', 'exc'),)))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + (v,)))
            outs = nxt
        return outs

    def ev(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [(st, ('unk', type(node).__name__))]
        return m(node, st)

    def e_Constant(self, node, st):
        return [(st, K(node.value))]

    def e_NameConstant(self, node, st):
        return [(st, K(node.value))]

    def e_Tuple(self, node, st):
        return [(s, ('tup', vs)) for s, vs in self.ev_many([self._unstar(e) for e in node.elts], st)]

    def _unstar(self, e):
        return e.value if isinstance(e, ast.Starred) else e

    def e_List(self, node, st):
        out = []
        for s, vs in self.ev_many([self._unstar(e) for e in node.elts], st):
            s = s.copy()
            t = ('lst', s.fresh(), vs)
            if any(isinstance(e, ast.Starred) for e in node.elts):
                s.set_heap((t, '#mut'), TRUE)
            out.append((s, t))
        return out

    def e_Set(self, node, st):
        return self.e_List(node, st)

    def e_Dict(self, node, st):
        out = []
        keys = [k for k in node.keys]
        nodes = [k for k in keys if k is not None] + list(node.values)
        nk = len([k for k in keys if k is not None])
        for s, vs in self.ev_many(nodes, st):
            s = s.copy()
            d = ('dict', s.fresh())
            ks, vals = list(vs[:nk]), vs[nk:]
            i = 0
            h = dict(s.heap)
            for k, v in zip(keys, vals):
                if k is None:
                    h[(d, '**')] = ('tup', (v,))
                else:
                    h[(d, ('key', ks[i]))] = v
                    i += 1
            s.heap = h
            out.append((s, d))
        return out

    def e_Name(self, node, st):
        n = node.id
        if n in st.env:
            return [(st, st.env[n])]
        fn = st.stack[-1]
        if n in self.watched:
            self.unbound.append((n, st.facts))
        if n in ('True', 'False', 'None'):
            return [(st, K({'True': True, 'False': False, 'None': None}[n]))]
        r = None
        c = fn.cls
        r = self.prog.resolve(fn.mod, n)
        if r is None:
            return [(st, ('ext', n))]
        return [(st, self.entity_term(r, st))]

    def entity_term(self, r, st):
        if isinstance(r, Cls):
            return ('cls', r.qualname)
        if isinstance(r, Func):
            return ('fn', r.qualname)
        if isinstance(r, Mod):
            return ('modref', r.name)
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'const':
            m, name, expr = r[1], r[2], r[3]
            if name not in m.multi:
                t = self.static_value(m, expr)
                if t is not None:
                    return t
            return ('glob', m.name, name)
        return ('unk', 'entity')

    def static_value(self, m, expr, cls=None):
        """Value of a constant module/class level expression, or None."""
        if isinstance(expr, ast.Constant):
            return K(expr.value)
        if isinstance(expr, (ast.Tuple, ast.List)):
            xs = [self.static_value(m, e, cls) for e in expr.elts]
            if all(x is not None for x in xs):
                return ('tup', tuple(xs))
            return None
        if isinstance(expr, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(m, expr, cls)
            if isinstance(r, (Cls, Func)) or isinstance(r, tuple) and r[0] == 'const':
                if isinstance(r, tuple):
                    return self.entity_term(r, None)
                return self.entity_term(r, None)
            if isinstance(expr, ast.Name) and expr.id in ('True', 'False', 'None'):
                return K({'True': True, 'False': False, 'None': None}[expr.id])
            if isinstance(r, tuple) and r[0] == 'ext':
                return ('ext', r[1])
            if isinstance(expr, ast.Name) and cls is not None and expr.id in cls.attrs:
                return self.static_value(m, cls.attrs[expr.id], cls)
            if isinstance(expr, ast.Name) and r is None:
                return ('ext', expr.id)
        if isinstance(expr, ast.Set):
            xs = [self.static_value(m, e, cls) for e in expr.elts]
            return ('tup', tuple(xs)) if all(x is not None for x in xs) else None
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and len(expr.args) == 1 and \
                not expr.keywords and expr.func.id in ('set', 'frozenset', 'tuple', 'list') and \
                isinstance(expr.args[0], (ast.List, ast.Tuple, ast.Set)):
            return self.static_value(m, expr.args[0], cls)
        if isinstance(expr, ast.Dict) and expr.keys and all(k is not None for k in expr.keys):
            ks = [self.static_value(m, e, cls) for e in expr.keys]
            vs = [self.static_value(m, e, cls) for e in expr.values]
            if all(k is not None and k[0] in ('k', 'cls') for k in ks) and all(v is not None for v in vs):
                return ('kdict', tuple(zip(ks, vs)))
            return None
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub):
            v = self.static_value(m, expr.operand, cls)
            if v is not None and v[0] == 'k':
                try:
                    return K(-v[1])
                except TypeError:
                    return None
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
            a, b = self.static_value(m, expr.left, cls), self.static_value(m, expr.right, cls)
            if a is not None and b is not None and a[0] == b[0] == 'k':
                try:
                    return K(a[1] + b[1])
                except TypeError:
                    return None
        return None

    def cls_by_qual(self, q):
        if not hasattr(self, '_cq'):
            self._cq = {c.qualname: c for c in self.prog.classes}
        return self._cq.get(q)

    def func_by_qual(self, q):
        if not hasattr(self, '_fq'):
            self._fq = {f.qualname: f for f in self.prog.funcs if f.cls is None}
        return self._fq.get(q)

    # ---- types
    def type_of(self, t, st):
        c = self.o.types.get(t)
        if c is not None:
            return c
        if t[0] == 'new':
            return self.cls_by_qual(t[1])
        if st is not None:
            for f, v in st.facts.items():
                if v is True and f[0] == 'isinst' and f[1] == t and f[2][0] == 'cls':
                    return self.cls_by_qual(f[2][1])
                if v is True and f[0] == 'eq' and f[2] == ('call', ('ext', 'type'), (t,), ()) and f[1][0] == 'cls':
                    return self.cls_by_qual(f[1][1])
        if t[0] == 'attr':
            bc = self.type_of(t[1], st)
            if bc is not None:
                for k in self.prog.mro(bc):
                    if isinstance(k, Cls) and (k.name, t[2]) in self.o.attr_types:
                        return self.o.attr_types[(k.name, t[2])]
                return self.inferred_attr_type(bc, t[2])
        if t[0] == 'call' and isinstance(t[1], tuple):
            f = t[1]
            name = f[2] if f[0] == 'bm' else f[1].rpartition('.')[2] if f[0] in ('fn', 'ext') else None
            if name in self.o.returns:
                return self.o.returns[name]
        return None

    def inferred_attr_type(self, cls, attr):
        key = (cls.qualname, attr)
        if key in self._at:
            return self._at[key]
        self._at[key] = None
        found, bad = None, False
        for k in self.prog.mro(cls):
            if not isinstance(k, Cls):
                continue
            fs = list(k.methods.values()) + [f for p in k.props.values() for f in (p.getter, p.setter) if f]
            for f in fs:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) \
                                    and t.value.id == 'self':
                                v = n.value
                                if isinstance(v, ast.Constant) and v.value is None:
                                    continue
                                r = None
                                if isinstance(v, ast.Call):
                                    r = self.prog.resolve_expr(f.mod, v.func)
                                if isinstance(r, Cls) and (found is None or found is r):
                                    found = r
                                else:
                                    bad = True
        self._at[key] = None if bad else found
        return self._at[key]

    def prop_of(self, c, attr):
        return self.prog.find_prop(c, attr)

    def may_follow(self, f, st):
        if f.name in self.o.opaque or f.qualname in self.o.opaque or f.short in self.o.opaque:
            return False
        if f.cls is not None and f.cls.name in self.o.opaque_classes:
            return False
        if len(st.stack) > self.o.depth:
            return False
        if f in st.stack:
            return False
        if self.o.follow is not None and not self.o.follow(f):
            return False
        if is_abstract(f):
            return False
        return True

    # ---- attribute access
    def e_Attribute(self, node, st):
        out = []
        for s, b in self.ev(node.value, st):
            if s.ctrl is not None:
                out.append((s, ('unk', 'exc')))
                continue
            out.extend(self.load_attr(b, node.attr, s, node))
        return out

    def load_attr(self, b, attr, st, node):
        if (b, attr) in st.heap and attr not in self.o.symbolic:
            return [(st, st.heap[(b, attr)])]
        if b[0] == 'modref':
            m = self.prog.mods.get(b[1])
            r = self.prog.resolve(m, attr) if m else None
            if r is None:
                return [(st, ('ext', b[1] + '.' + attr))]
            return [(st, self.entity_term(r, st))]
        if b[0] == 'ext':
            return [(st, ('ext', b[1] + '.' + attr))]
        if b[0] == 'super':
            f = self.prog.find_method(b[3], attr, after=b[2])
            if f is not None:
                return [(st, ('bm', b[1], attr, f, 's'))]
            p = self.prog.find_prop(b[3], attr, after=b[2])
            if p is not None and p.getter is not None and self.may_follow(p.getter, st):
                return self.inline(p.getter, b[1], [], [], st, node)
            return [(st, ('bm', b[1], attr, None, 's'))]
        if b[0] == 'cls':
            c = self.cls_by_qual(b[1])
            if c is not None:
                inner = self.prog.find_inner(c, attr)
                if inner is not None:
                    return [(st, ('cls', inner.qualname))]
                f = self.prog.find_method(c, attr)
                if f is not None:
                    return [(st, ('bm', b, attr, f, 'c'))]
                a = self.prog.find_attr(c, attr)
                if a is not None:
                    v = self.static_value(a[0].mod, a[1], a[0])
                    if v is not None and not (v[0] == 'k' and v[1] is None):
                        return [(st, v)]
            return [(st, ('attr', b, attr))]
        nt = self.named_fields(b)
        if nt is not None and attr in nt:
            return [(st, nt[attr])]
        c = self.type_of(b, st)
        if c is not None:
            p = self.prop_of(c, attr)
            if p is not None:
                if p.getter is not None and self.may_follow(p.getter, st):
                    return self.inline(p.getter, b, [], [], st, node)
                return self.maybe_raise_attr(('attr', b, attr), st, node)
            f = self.prog.find_method(c, attr)
            if f is not None:
                return [(st, ('bm', b, attr, f, 'i'))]
            inner = self.prog.find_inner(c, attr)
            if inner is not None:
                return [(st, ('cls', inner.qualname))]
            a = self.prog.find_attr(c, attr)
            if a is not None and not self.instance_assigned(c, attr):
                v = self.static_value(a[0].mod, a[1], a[0])
                if v is not None and not (v[0] == 'k' and v[1] is None):
                    return [(st, v)]
        return self.maybe_raise_attr(('attr', b, attr), st, node)

    def named_fields(self, b):
        """fields of a named tuple made by a call of a module level namedtuple type, in order"""
        if b[0] != 'call' or not isinstance(b[1], tuple) or b[1][0] != 'glob':
            return None
        m = self.prog.mods.get(b[1][1])
        r = self.prog.resolve(m, b[1][2]) if m is not None else None
        if not isinstance(r, tuple) or r[0] != 'const' or not isinstance(r[3], ast.Call):
            return None
        f, args = r[3].func, r[3].args
        if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)) != 'namedtuple' or len(args) < 2:
            return None
        names = args[1]
        if isinstance(names, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in names.elts):
            names = [x.value for x in names.elts]
        elif isinstance(names, ast.Constant) and isinstance(names.value, str):
            names = names.value.replace(',', ' ').split()
        else:
            return None
        if any(x[0] == 'star' for x in b[2]) or any(k == '**' for k, _ in b[3]):
            return None
        out = dict(zip(names, b[2]))
        out.update(b[3])
        return {n: out[n] for n in names} if set(out) == set(names) else None

    def maybe_raise_attr(self, t, st, node):
        out = [(st, t)]
        if st.handlers and not self.o.noexc:
            for typ in st.handlers[-1]:
                if typ[1] == 'AttributeError':
                    s = st.copy()
                    s.ctrl = ('raise', typ)
                    out.append((s, ('unk', 'exc')))
                    break
        return out

    def instance_assigned(self, c, attr):
        for k in self.prog.mro(c):
            if isinstance(k, Cls):
                names = getattr(k, '_stored', None)
                if names is None:
                    names = k._stored = {n.attr for n in ast.walk(k.node)
                                         if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                if attr in names:
                    return True
        return False

    # ---- operators
    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        live, done = [st], []
        last = len(node.values) - 1
        for i, v in enumerate(node.values):
            nxt = []
            for s in live:
                for s2, t in self.ev(v, s):
                    if s2.ctrl is not None or i == last:
                        done.append((s2, t))
                        continue
                    T, F = self.split(t, s2)
                    if is_and:
                        nxt += T
                        done += [(x, t if not (t[0] in ('bool', 'or', 'and', 'not')) else FALSE) for x in F]
                    else:
                        nxt += F
                        done += [(x, t if not (t[0] in ('bool', 'or', 'and', 'not')) else TRUE) for x in T]
            live = nxt
        return done

    def e_UnaryOp(self, node, st):
        out = []
        for s, v in self.ev(node.operand, st):
            if s.ctrl is not None:
                out.append((s, v))
            elif isinstance(node.op, ast.Not):
                if v[0] == 'k':
                    out.append((s, K(not v[1])))
                else:
                    out.append((s, self.neg(self.truth(v), True, s)))
            elif isinstance(node.op, ast.USub) and v[0] == 'k' and isinstance(v[1], (int, float)):
                out.append((s, K(-v[1])))
            else:
                out.append((s, ('un', type(node.op).__name__, v)))
        return out

    def e_IfExp(self, node, st):
        t, f = self.branch(node.test, st)
        out = []
        for s in t:
            out.extend(self.ev(node.body, s) if s.ctrl is None else [(s, ('unk', 'exc'))])
        for s in f:
            out.extend(self.ev(node.orelse, s))
        return out

    def e_Compare(self, node, st):
        outs = []
        for s, vs in self.ev_many([node.left] + list(node.comparators), st):
            if s.ctrl is not None:
                outs.append((s, ('unk', 'exc')))
                continue
            parts = [self.compare(op, vs[i], vs[i + 1], s) for i, op in enumerate(node.ops)]
            outs.append((s, parts[0] if len(parts) == 1 else ('and', tuple(parts))))
        return outs

    def e_BinOp(self, node, st):
        out = []
        op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
              ast.BitOr: '|', ast.BitAnd: '&', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>',
              ast.BitXor: '^'}.get(type(node.op), '?')
        for s, (a, b) in self.ev_many([node.left, node.right], st):
            if s.ctrl is not None:
                out.append((s, ('unk', 'exc')))
                continue
            out.append((s, self.binop(op, a, b, s)))
        return out

    def binop(self, op, a, b, st):
        if a[0] == 'k' and b[0] == 'k' and op in ('+', '-', '*') and not isinstance(a[1], (str, bytes)) \
                and a[1] is not None and b[1] is not None:
            try:
                return K({'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op](a[1], b[1]))
            except TypeError:
                pass
        if op == '+' and (is_strish(a) or is_strish(b)):
            return mkstr(a, b)
        if op == '%' and a[0] == 'k' and isinstance(a[1], str):
            items = list(b[1]) if b[0] == 'tup' else [b]
            return percent_fmt(a[1], items)
        return ('bin', op, a, b)

    def e_JoinedStr(self, node, st):
        out = []
        vals = [v for v in node.values]
        for s, vs in self.ev_many([v.value if isinstance(v, ast.FormattedValue) else v for v in vals], st):
            out.append((s, mkstr(*vs)))
        return out

    def ev_slice(self, sl, st):
        if isinstance(sl, ast.Slice):
            out = []
            parts = [sl.lower, sl.upper, sl.step]
            for s, vs in self.ev_many([p for p in parts if p is not None], st):
                it = iter(vs)
                out.append((s, ('slicekey',) + tuple(next(it) if p is not None else NONE for p in parts)))
            return out
        return self.ev(sl, st)

    def e_Subscript(self, node, st):
        out = []
        for s, b in self.ev(node.value, st):
            if s.ctrl is not None:
                out.append((s, b))
                continue
            for s2, k in self.ev_slice(node.slice, s):
                if s2.ctrl is not None:
                    out.append((s2, k))
                    continue
                out.extend(self.load_item(b, k, s2, node))
        return out

    def load_item(self, b, k, st, node):
        self.taken.add((b, k))
        if (b, ('key', k)) in st.heap:
            return [(st, st.heap[(b, ('key', k))])]
        if k[0] == 'slicekey':
            return [(st, ('slice', b, k))]
        if k[0] == 'k' and isinstance(k[1], int):
            xs = self.listed(b, st)
            if xs is not None and -len(xs) <= k[1] < len(xs):
                return [(st, xs[k[1]])]
        if k[0] == 'it' and k[1][0] == 'call' and k[1][1] in (('ext', 'range'), ('ext', 'xrange')) and \
                k[1][2] == (('call', ('ext', 'len'), (b,), ()),):
            return [(st, ('it', b, k[2]))]
        if k[0] == 'itidx' and k[1] == b:
            return [(st, ('it', b, k[2]))]
        if k[0] == 'idx' and st.facts.get(('lt', k, ('call', ('ext', 'len'), (b,), ()))) is True:
            return [(st, ('it', b, 0))]
        table = self.table_items(b, st)
        if table is not None and k[0] != 'slicekey':
            out = self.table_lookup(table, k, st)
            s = out.pop()[0] if out and out[-1][1] is None else None
            if s is not None:
                s = s.copy()
                self.event(s, 'raise', node, name='KeyError', value=('ext', 'KeyError'))
                s.ctrl = ('raise', ('ext', 'KeyError'))
                out.append((s, ('unk', 'exc')))
            return out
        t = ('sub', b, k)
        if self.o.items:
            self.event(st, 'item', node, name='[]', recv=b, args=(k,), value=t)
        out = [(st, t)]
        if st.handlers and not self.o.noexc:
            for typ in self.raise_types(st, ('KeyError', 'IndexError', 'LookupError', 'TypeError')):
                s = st.copy()
                self.event(s, 'mayraise', node, name='[]', recv=b, args=(k,), value=typ)
                s.ctrl = ('raise', typ)
                out.append((s, ('unk', 'exc')))
        return out

    def table_items(self, b, st):
        """items of a constant lookup table, else None"""
        if b[0] == 'kdict':
            return list(b[1])
        if b[0] == 'dict' and (b, '**') not in st.heap:
            items, rest = self.dict_items(b, st)
            if items and not rest and len(items) <= 12 and all(k[0] in ('k', 'cls') for k, _ in items):
                return items
        return None

    def table_lookup(self, table, k, st):
        """-> [(state, value)], last one with value None for 'not found' (when possible)"""
        out, live = [], [st]
        for key, val in table:
            nxt = []
            for s in live:
                t = self.compare(ast.Eq(), k, key, s)
                if t == TRUE:
                    out.append((s, val))
                elif t == FALSE:
                    nxt.append(s)
                else:
                    T, F_ = self.split(t, s)
                    out += [(x, val) for x in T]
                    nxt += F_
            live = nxt
        for s in live[:1]:
            out.append((s, None))
        return out

    def raise_types(self, st, only=None):
        seen = []
        for typ in st.handlers[-1]:
            n = typ[1].rpartition('.')[2]
            if n in ('BaseException',):
                typ = ('ext', 'Exception')
            if only is not None and n not in only and n not in ('Exception', 'BaseException', 'StandardError'):
                continue
            if typ not in seen:
                seen.append(typ)
        return seen

    def e_Lambda(self, node, st):
        s = st.copy()
        f = Func(st.stack[-1].mod, '<lambda>', node, None, 'function', outer=st.stack[-1])
        return [(s, ('lam', _Box(node, f), _Box(st.env), s.fresh()))]

    def e_Starred(self, node, st):
        return self.ev(node.value, st)

    def _unrolled(self, node, st, kind):
        """a comprehension over a few constants is the display it spells out"""
        g = node.generators[0]
        out = []
        for s, it in self.ev(g.iter, st):
            exact = self.exact_items(it, s) if s.ctrl is None else None
            if not exact or (len(exact) < 2 and kind != 'dictcomp' and not getattr(node, '_display', False)) or len(exact) > 64 or any(not is_k(x) and x[0] != 'tup' for x in exact):
                return None
            live = [(s.copy(), ())]
            for x in exact:
                nxt = []
                for s1, vs in live:
                    for s2 in self.assign(g.target, x, s1):
                        for s3, v in self.ev_many([node.key, node.value] if kind == 'dictcomp' else [node.elt], s2):
                            nxt.append((s3, vs + (v,)))
                live = nxt
                if len(live) > 8 or any(x.ctrl is not None for x, _ in live):
                    return None
            for s1, vs in live:
                s1 = s1.copy()
                s1.env = st.env
                if kind == 'dictcomp':
                    d = ('dict', s1.fresh())
                    s1.heap = dict(s1.heap)
                    for k, v in vs:
                        s1.heap[(d, ('key', k))] = v
                    out.append((s1, d))
                else:
                    out.append((s1, ('lst', s1.fresh(), tuple(v[0] for v in vs))))
        return out

    def _comp(self, node, st, kind):
        gens = node.generators
        if len(gens) == 1 and not gens[0].ifs and (kind != 'gen' or getattr(node, '_display', False)):
            r = self._unrolled(node, st, kind)
            if r is not None:
                return r
        outs = [(st, ())]
        saved = st.env
        for g in gens:
            nxt = []
            for s, its in outs:
                for s2, it in self.ev(g.iter, s):
                    if s2.ctrl is not None:
                        nxt.append((s2, its))
                        continue
                    s2 = s2.copy()
                    if kind != 'dictcomp':
                        exact = self.exact_items(it, s2)
                        if exact is not None and len(exact) == 1:
                            v = exact[0]
                        else:
                            v = self.elem(it, 0)
                    else:
                        v = self.elem(it, 0)
                    srcs, pre = (it,), ()
                    if it[0] == 'comp' and it[1] in ('list', 'gen', 'set'):
                        srcs, pre = it[3], it[4]
                    for s3 in self.assign(g.target, v, s2):
                        base = s3
                        s3 = s3.copy()
                        s3.facts = dict(s3.facts)
                        dnfs = tuple(a for a in pre if a[0][0] == 'dnf')
                        s3.facts.update({a: val for a, val in pre if a[0] != 'dnf'})
                        conds = [s3]
                        for c in g.ifs:
                            nn = []
                            for x in conds:
                                t, f = self.branch(c, x)
                                nn += t
                            conds = nn
                        if len(conds) > 1 and all(x.ctrl is None for x in conds):
                            alts = tuple(tuple((a, val) for a, val in x.facts.items() if a not in base.facts) for x in conds)
                            one = conds[0].copy()
                            one.facts, one.heap = base.facts, base.heap
                            dnfs += ((('dnf', alts), True),)
                            conds = [one]
                        for x in conds:
                            if dnfs:
                                x = x.copy()
                                x.facts = dict(x.facts)
                                x.facts.update(dict(dnfs))
                            nxt.append((x, its + srcs))
            outs = nxt
        res = []
        for s, its in outs:
            if s.ctrl is not None:
                s = s.copy()
                s.env = saved
                res.append((s, ('unk', 'exc')))
                continue
            elts = [node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]
            for s2, vs in self.ev_many(elts, s):
                s2 = s2.copy()
                inner = s2.facts
                conds = tuple((a, v) for a, v in inner.items() if a not in st.facts)
                # facts about the element do not hold after the comprehension
                s2.facts = {a: v for a, v in inner.items() if a in st.facts}
                s2.env = saved
                t = ('comp', kind, vs[0] if len(vs) == 1 else ('tup', vs), its, conds)
                res.append((s2, t if s2.ctrl is None else ('unk', 'exc')))
        if not res:
            s = st.copy()
            res = [(s, ('lst', s.fresh(), ()))]
        return res

    def e_ListComp(self, node, st):
        return self._comp(node, st, 'list')

    def e_SetComp(self, node, st):
        return self._comp(node, st, 'set')

    def e_GeneratorExp(self, node, st):
        return self._comp(node, st, 'gen')

    def e_DictComp(self, node, st):
        return self._comp(node, st, 'dictcomp')

    def e_Await(self, node, st):
        return self.ev(node.value, st)

    def e_Yield(self, node, st):
        return [(st, ('unk', 'yield'))]

    def e_NamedExpr(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            if s.ctrl is None:
                for s2 in self.assign(node.target, v, s):
                    out.append((s2, v))
            else:
                out.append((s, v))
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, node, st):
        fnode = node.func
        # super(...)
        if isinstance(fnode, ast.Name) and fnode.id == 'super' and 'super' not in st.env:
            fn = st.stack[-1]
            f = fn
            while f.cls is None and f.outer is not None:
                f = f.outer
            selfname = f.params[0] if f.params else 'self'
            recv = st.env.get(selfname, ('p', 'self'))
            after = f.cls
            if node.args and isinstance(node.args[0], ast.Name):
                r = self.prog.resolve(fn.mod, node.args[0].id)
                if isinstance(r, Cls):
                    after = r
            if recv[0] == 'cls':
                cc = self.cls_by_qual(recv[1])
            else:
                cc = self.type_of(recv, st) or after
            if after not in self.prog.mro(cc):
                cc = after
            return [(st, ('super', recv, after, cc))]
        outs = []
        if isinstance(fnode, ast.Name) and fnode.id in ('dict', 'list', 'tuple') and len(node.args) == 1 and \
                isinstance(node.args[0], ast.GeneratorExp):
            node.args[0]._display = True
        for s, f in self.ev(fnode, st):
            if s.ctrl is not None:
                outs.append((s, f))
                continue
            argn = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
            kwn = [k.value for k in node.keywords]
            for s2, vs in self.ev_many(argn + kwn, s):
                if s2.ctrl is not None:
                    outs.append((s2, ('unk', 'exc')))
                    continue
                args, star = [], None
                for a, v in zip(node.args, vs):
                    if isinstance(a, ast.Starred):
                        if self.listed(v, s2) is not None:
                            args.extend(self.listed(v, s2))
                        else:
                            args.append(('star', v))
                    else:
                        args.append(v)
                kwargs = []
                for k, v in zip(node.keywords, vs[len(argn):]):
                    if k.arg is not None:
                        kwargs.append((k.arg, v))
                    else:
                        kwargs.extend(self.expand_kwargs(v, s2))
                outs.extend(self.call(f, args, kwargs, s2, node))
        return outs

    def expand_kwargs(self, v, st):
        items, rest = self.dict_items(v, st)
        out = [(k[1], x) for k, x in items if k[0] == 'k' and isinstance(k[1], str) and x != ('deleted',)]
        for r in rest:
            out.append(('**', r))
        dels = [k[1] for k, x in items if x == ('deleted',)]
        if dels and rest:
            out = [(k, x if k != '**' else ('minus', x, tuple(sorted(map(str, dels))))) for k, x in out]
        return out

    def dict_items(self, v, st):
        """known items of a dict term, and terms of unknown remaining content"""
        items = {}
        rest = []
        if v[0] != 'dict':
            if v[0] == 'copy':
                i2, r2 = self.dict_items(v[1], st)
                items.update(dict(i2))
                rest.extend(r2)
            else:
                rest.append(v)
        r = st.heap.get((v, '**'))
        if r is not None:
            for x in r[1]:
                i2, r2 = self.dict_items(x, st)
                for k, y in i2:
                    items.setdefault(k, y)
                rest.extend(r2)
        for key, val in st.heap.items():
            if isinstance(key, tuple) and len(key) == 2 and key[0] == v and isinstance(key[1], tuple) \
                    and key[1] and key[1][0] == 'key':
                items[key[1][1]] = val
        return list(items.items()), rest

    def call(self, f, args, kwargs, st, node):
        h = f[0]
        if h == 'fn':
            fn = self.func_by_qual(f[1])
            if fn is not None and self.may_follow(fn, st):
                return self.inline(fn, None, args, kwargs, st, node)
            return self.opaque(f, f[1].rpartition('.')[2], None, args, kwargs, st, node, fn)
        if h == 'cls':
            return self.construct(f, args, kwargs, st, node)
        if h == 'bm':
            recv, name, fn, mode = f[1], f[2], f[3], f[4]
            if fn is not None and self.may_follow(fn, st):
                if fn.kind == 'staticmethod':
                    return self.inline(fn, None, args, kwargs, st, node)
                if fn.kind == 'classmethod':
                    r = recv
                    if recv[0] not in ('cls',):
                        c = self.type_of(recv, st)
                        r = ('cls', c.qualname) if c else recv
                    return self.inline(fn, r, args, kwargs, st, node)
                if mode == 'c':
                    if args:
                        return self.inline(fn, args[0], args[1:], kwargs, st, node)
                else:
                    return self.inline(fn, recv, args, kwargs, st, node)
            if mode == 'c' and fn is not None and fn.kind == 'method' and args:
                return self.opaque(('bm', args[0], name), name, args[0], args[1:], kwargs, st, node, fn)
            return self.opaque(('bm', recv, name), name, recv, args, kwargs, st, node, fn)
        if h == 'lam':
            nd, fn, env = f[1].a, f[1].b, f[2].a
            if isinstance(nd, ast.Lambda) or len(st.stack) <= self.o.depth and fn not in st.stack:
                return self.inline(fn, None, args, kwargs, st, node, closure=env)
            return self.opaque(f, fn.name, None, args, kwargs, st, node)
        if h == 'attr':
            return self.method_call(f[1], f[2], args, kwargs, st, node)
        if h == 'ext':
            return self.ext_call(f, args, kwargs, st, node)
        if h == 'partial':
            return self.call(f[1], list(f[2]) + list(args), list(f[3]) + list(kwargs), st, node)
        c = self.type_of(f, st)
        if c is not None and f[0] != 'cls':
            m = self.prog.find_method(c, '__call__')
            if m is not None and self.may_follow(m, st):
                return self.inline(m, f, args, kwargs, st, node)
        return self.opaque(f, '()', f, args, kwargs, st, node)

    def construct(self, f, args, kwargs, st, node):
        c = self.cls_by_qual(f[1])
        st = st.copy()
        t = ('new', f[1], st.fresh(), tuple(args), tuple(kwargs))
        self.event(st, 'call', node, name=f[1].rpartition('.')[2], recv=f, args=tuple(args), kwargs=tuple(kwargs),
                   value=t, target=c)
        self.mark_escape(st, args, kwargs)
        if c is not None and (c.name in self.o.ctor or '*' in self.o.ctor):
            init = self.prog.find_method(c, '__init__')
            if init is not None and self.may_follow(init, st):
                return [(s, t) for s, _ in self.inline(init, t, args, kwargs, st, node)]
        return self.may_raise(st, t, c.name if c else '', node)

    def ext_call(self, f, args, kwargs, st, node):
        n = f[1]
        short = n.rpartition('.')[2]
        if n == 'isinstance' and len(args) == 2:
            return [(st, self.isinst(args[0], args[1], st))]
        if n == 'issubclass' and len(args) == 2:
            return [(st, ('bool', ('issub', args[0], args[1]), True))]
        if n == 'hasattr' and len(args) == 2:
            return [(st, ('bool', ('hasattr', args[0], args[1]), True))]
        if n == 'getattr' and len(args) >= 2:
            if is_k(args[1]):
                if len(args) == 2:
                    return self.load_attr(args[0], args[1][1], st, node)
                if (args[0], args[1][1]) in st.heap or self.type_of(args[0], st) is not None and \
                        self.prop_of(self.type_of(args[0], st), args[1][1]) is not None:
                    return self.load_attr(args[0], args[1][1], st, node)
                return [(st, ('getattr', args[0], args[1], args[2]))]
            return [(st, ('getattr',) + tuple(args))]
        if n == 'setattr' and len(args) == 3:
            if is_k(args[1]):
                return [(s, NONE) for s in self.store_attr(args[0], args[1][1], args[2], st, node)]
            st = st.copy()
            self.event(st, 'setattr', node, recv=args[0], name=args[1], value=args[2])
            return [(st, NONE)]
        if n == 'bool' and len(args) == 1:
            return [(st, self.truth(args[0]))]
        if n in OPERATORS and len(args) == 2 and not kwargs:
            return [(st, self.compare(OPERATORS[n](), args[0], args[1], st))]
        if short == 'partial' and args:
            return [(st, ('partial', args[0], tuple(args[1:]), tuple(kwargs)))]
        if n in ('dict', 'collections.OrderedDict', 'OrderedDict') and len(args) <= 1:
            st = st.copy()
            d = ('dict', st.fresh())
            for k, v in kwargs:
                if k == '**':
                    st.set_heap((d, '**'), ('tup', (v,)))
                else:
                    st.set_heap((d, ('key', K(k))), v)
            if args:
                pairs = self.exact_items(args[0], st)
                if pairs is not None and all(x[0] == 'tup' and len(x[1]) == 2 for x in pairs):
                    for x in pairs:
                        if st.heap.get((d, ('key', x[1][0]))) is None:
                            st.set_heap((d, ('key', x[1][0])), x[1][1])
                else:
                    st.set_heap((d, '**'), ('tup', (args[0],)))
            return [(st, d)]
        if n in ('list', 'set', 'tuple') and not args:
            st = st.copy()
            t = ('lst', st.fresh(), ())
            return [(st, t)]
        if n == 'len' and self.o.lists and len(args) == 1 and self.listed(args[0], st) is not None:
            return [(st, K(len(self.listed(args[0], st))))]
        if n in ('list', 'tuple') and len(args) == 1 and self.listed(args[0], st) is not None:
            items = tuple(self.listed(args[0], st))
            st = st.copy()
            return [(st, ('tup', items) if n == 'tuple' else ('lst', st.fresh(), items))]
        if short in ('deepcopy',) and args:
            return [(st, ('call', f, tuple(args), tuple(kwargs)))]
        if n in ('str', 'unicode', 'six.text_type') and len(args) == 1 and is_strish(args[0]):
            return [(st, args[0])]
        if n in ('filter', 'map', 'itertools.ifilter', 'itertools.imap') and len(args) == 2 and not kwargs:
            r = self.comp_call(n.rpartition('.')[2].lstrip('i'), args[0], args[1], st, node)
            if r is not None:
                return r
        if n in ('any', 'all') and len(args) == 1 and args[0][0] == 'comp':
            return [(st, (n,) + args[0][2:])]
        if n in PURE_EXT:
            # pure built-in: remember nothing but the value
            t = ('call', f, tuple(args), tuple(kwargs))
            return self.may_raise(st, t, n, node, only=('ValueError', 'TypeError', 'StopIteration', 'Exception',
                                                        'OverflowError', 'AttributeError', 'KeyError'))
        return self.opaque(f, short, None, args, kwargs, st, node)

    def comp_call(self, what, f, it, st, node):
        """filter(f, it) and map(f, it) as comprehensions"""
        if f[0] not in ('lam', 'fn') and f != NONE and f[0] != 'bm':
            return None
        v = self.elem(it, 0)
        srcs, pre = (it,), ()
        if it[0] == 'comp' and it[1] in ('list', 'gen', 'set'):
            srcs, pre = it[3], it[4]
        s0 = st.copy()
        s0.facts = dict(st.facts)
        s0.facts.update({a: val for a, val in pre if a[0] != 'dnf'})
        dnfs = tuple(a for a in pre if a[0][0] == 'dnf')
        outs = [(s0, v)] if f == NONE else self.call(f, (v,), (), s0, node)
        if any(s.ctrl is not None for s, _ in outs):
            return None
        if what == 'map':
            if len(outs) != 1 or outs[0][0].heap != st.heap:
                return None
            return [(st, ('comp', 'list', outs[0][1], srcs, pre))]
        alts = []
        for s, r in outs:
            if s.heap != st.heap:
                return None
            t, _ = self.split(r, s)
            for x in t:
                alts.append(tuple((a, val) for a, val in x.facts.items() if a not in st.facts and a[0] != 'dnf'))
        alts = tuple(dict.fromkeys(alts))
        conds = alts[0] if len(alts) == 1 else ((('dnf', alts), True),)
        if not alts:
            s = st.copy()
            return [(s, ('lst', s.fresh(), ()))]
        return [(st, ('comp', 'list', v, srcs, tuple(conds) + dnfs))]

    def isinst(self, t, typ, st):
        if typ[0] == 'tup':
            return ('or', tuple(self.isinst(t, x, st) for x in typ[1]))
        atom = ('isinst', t, typ)
        v = implied(atom, st.facts)
        if v is None:
            v = self.isinst_static(atom, st)
        if v is None and t == NONE:
            v = False
        if v is None and t[0] == 'call' and t[1] == typ == ('ext', 'datetime.timedelta'):
            v = True
        if v is not None:
            return K(v)
        return ('bool', atom, True)

    def method_call(self, recv, name, args, kwargs, st, node):
        # string formatting
        if recv[0] in ('k', 'str') and name == 'format':
            if recv[0] == 'k' and isinstance(recv[1], str):
                return [(st, brace_fmt(recv[1], args, kwargs))]
        if recv[0] == 'k' and isinstance(recv[1], str) and name == 'join' and len(args) == 1:
            xs = self.listed(args[0], st)
            if xs is not None:
                parts = []
                for i, x in enumerate(xs):
                    if i:
                        parts.append(recv)
                    parts.append(x)
                return [(st, mkstr(*parts) if parts else K(''))]
        if name == 'update' and (recv[0] == 'dict' or recv[0] == 'p' and recv[1].startswith('**')
                                 or recv[0] == 'copy') and len(args) <= 1:
            s = st.copy()
            self.event(s, 'call', node, name='update', recv=recv, args=tuple(args), kwargs=tuple(kwargs))
            pairs = list(kwargs)
            new = [(K(k), v) for k, v in kwargs if k != '**']
            if args:
                items, rest = self.dict_items(args[0], s)
                new = items + new
                if rest:
                    old = s.heap.get((recv, '**'), ('tup', ()))
                    s.set_heap((recv, '**'), ('tup', old[1] + tuple(rest)))
            for k, v in new:
                s.set_heap((recv, ('key', k)), v)
            return [(s, NONE)]
        if name == 'update' and not args and kwargs and all(k != '**' for k, _ in kwargs) and recv[0] in ('p', 'attr', 'sub'):
            s = st.copy()
            self.event(s, 'call', node, name='update', recv=recv, args=(), kwargs=tuple(kwargs))
            for k, v in kwargs:
                self.event(s, 'setitem', node, recv=recv, name=K(k), value=v)
                s.set_heap((recv, ('key', K(k))), v)
            return [(s, NONE)]
        if name == 'copy' and not args and (recv[0] == 'dict' or recv[0] == 'p' and recv[1].startswith('**')):
            s = st.copy()
            d = ('dict', s.fresh())
            items, rest = self.dict_items(recv, s)
            for k, v in items:
                s.set_heap((d, ('key', k)), v)
            if rest:
                s.set_heap((d, '**'), ('tup', tuple(rest)))
            return [(s, d)]
        if name == 'get' and args and (recv, ('key', args[0])) in st.heap and \
                st.heap[(recv, ('key', args[0]))] != ('deleted',):
            return [(st, st.heap[(recv, ('key', args[0]))])]
        if name == 'get' and args and recv[0] == 'dict' and (recv, '**') not in st.heap and args[0][0] == 'k':
            return [(st, args[1] if len(args) > 1 else NONE)]
        if name == 'get' and args:
            table = self.table_items(recv, st)
            if table is not None:
                return [(s, v if v is not None else (args[1] if len(args) > 1 else NONE))
                        for s, v in self.table_lookup(table, args[0], st)]
        if name == 'setdefault' and len(args) == 2:
            if (recv, ('key', args[0])) in st.heap:
                return [(st, st.heap[(recv, ('key', args[0]))])]
        if name == 'pop' and args and (recv[0] == 'dict' or recv[0] == 'p' and recv[1].startswith('**')):
            s = st.copy()
            v = s.heap.get((recv, ('key', args[0])), ('call', ('bm', recv, 'get'), tuple(args), ()))
            self.event(s, 'call', node, name='pop', recv=recv, args=tuple(args), kwargs=tuple(kwargs))
            s.set_heap((recv, ('key', args[0])), ('deleted',))
            return [(s, v)]
        if name in ('append', 'add') and recv[0] == 'lst' and len(args) == 1:
            s = st.copy()
            self.event(s, 'call', node, name=name, recv=recv, args=tuple(args), kwargs=tuple(kwargs))
            app = s.heap.get((recv, '#app'), ('tup', ()))
            known = self.listed(recv, s)
            if self.o.lists and known is not None and name == 'append' and not any(e.kind == 'loop' for e in s.events):
                s.set_heap((recv, '#list'), ('tup', tuple(known) + (args[0],)))
            else:
                s.set_heap((recv, '#list'), NONE)
            s.set_heap((recv, '#app'), ('tup', app[1] + (args[0],)))
            s.set_heap((recv, '#mut'), TRUE)
            self.resized(recv, s)
            return [(s, NONE)]
        return self.opaque(('bm', recv, name), name, recv, args, kwargs, st, node)

    def resized(self, b, st):
        """forget what is known about the size of a list that changes"""
        if not self.o.sizes or b[0] != 'lst':
            return
        size = ('call', ('ext', 'len'), (b,), ())
        st.facts = {a: v for a, v in st.facts.items() if not (a[0] in ('truthy', 'lt', 'eq') and (b in a or size in a))}

    def listed(self, b, st):
        """known content of a tuple or list"""
        if b[0] == 'tup':
            return b[1]
        if b[0] == 'lst':
            if (b, '#mut') not in st.heap:
                return b[2]
            v = st.heap.get((b, '#list'))
            if self.o.lists and v is not None and v[0] == 'tup':
                return v[1]
        nt = self.named_fields(b)
        if nt is not None:
            return tuple(nt.values())
        return None

    def mark_escape(self, st, args, kwargs):
        for a in list(args) + [v for _, v in kwargs]:
            if a[0] in ('lst', 'dict') and (a, '#esc') not in st.heap and a[0] == 'lst':
                pass

    def opaque(self, f, name, recv, args, kwargs, st, node, fn=None):
        st = st.copy()
        args, kwargs = tuple(args), tuple(kwargs)
        t = ('call', _strip(f), args, tuple(sorted(kwargs, key=repr)))
        if name in self.o.impure:
            t = t + (st.fresh(),)
        if recv is not None and recv[0] == 'lst' and name in MUT_METHODS:
            st.set_heap((recv, '#mut'), TRUE)
            st.set_heap((recv, '#list'), NONE)
        if name not in IGNORED_CALLS or recv is not None and recv[0] not in ('glob', 'ext'):
            self.event(st, 'call', node, name=name, recv=recv, args=args, kwargs=kwargs, value=t,
                       target=fn if fn is not None else f)
        else:
            return [(st, NONE)]
        if recv is not None and recv[0] == 'lst' and name in MUT_METHODS:
            self.resized(recv, st)
        return self.may_raise(st, t, name, node)

    def may_raise(self, st, t, name, node, only=None):
        out = [(st, t)]
        decl = self.o.raises.get(name)
        if decl:
            for d in decl:
                s = st.copy()
                typ = d if isinstance(d, tuple) else ('ext', d)
                self.event(s, 'mayraise', node, name=name, value=typ)
                s.ctrl = ('raise', typ)
                out.append((s, ('unk', 'exc')))
        elif st.handlers and not self.o.noexc and name not in ('append', 'add'):
            for typ in self.raise_types(st, only):
                s = st.copy()
                self.event(s, 'mayraise', node, name=name, value=typ)
                s.ctrl = ('raise', typ)
                out.append((s, ('unk', 'exc')))
        return out

    # ------------------------------------------------------------------ inlining
    def bind(self, fn, recv, args, kwargs, st, closure=None):
        a = fn.node.args
        names = fn.params
        env = dict(closure) if closure else {}
        pos = list(args)
        if recv is not None and fn.kind in ('method', 'property', 'classmethod'):
            pos = [recv] + pos
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        kw = {}
        rest = []
        for k, v in kwargs:
            if k == '**':
                rest.append(v)
            else:
                kw[k] = v
        bound = {}
        extra = []
        starred = None
        for i, v in enumerate(pos):
            if v[0] == 'star':
                starred = v[1]
                break
            if i < len(names):
                bound[names[i]] = v
            else:
                extra.append(v)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw and n not in bound:
                bound[n] = kw.pop(n)
        for i, n in enumerate(names + [x.arg for x in a.kwonlyargs]):
            if n not in bound:
                dflt = None
                if n in defaults:
                    d = defaults[n]
                    dflt = self.static_value(fn.mod, d) or ('default', n)
                    if isinstance(d, (ast.Dict, ast.List)):
                        dflt = ('default', n)
                if starred is not None:
                    bound[n] = ('sub', starred, K(i))
                elif rest:
                    src = rest[0]
                    bound[n] = ('kwarg', src, n) if dflt is None else ('kwarg', src, n, dflt)
                elif dflt is not None:
                    bound[n] = dflt
                else:
                    bound[n] = ('missing', n)
        env.update(bound)
        heapadd = []
        if a.vararg:
            env[a.vararg.arg] = starred if starred is not None and not extra else ('tup', tuple(extra))
        if a.kwarg:
            d = ('dict', st.fresh())
            for k, v in kw.items():
                heapadd.append(((d, ('key', K(k))), v))
            if rest:
                heapadd.append(((d, '**'), ('tup', tuple(rest))))
            env[a.kwarg.arg] = d
        return env, heapadd

    def inline(self, fn, recv, args, kwargs, st, node, closure=None):
        self.analysed.add(fn.qualname)
        st = st.copy()
        saved_env, saved_stack, saved_handlers = st.env, st.stack, st.handlers
        env, heapadd = self.bind(fn, recv, args, kwargs, st, closure)
        for k, v in heapadd:
            st.set_heap(k, v)
        self.event(st, 'follow', node, name=fn.name, recv=recv, args=tuple(args), kwargs=tuple(kwargs), target=fn)
        st.env = env
        st.stack = st.stack + (fn,)
        if isinstance(fn.node, ast.Lambda):
            outs = []
            for s, v in self.ev(fn.node.body, st):
                s = s.copy()
                if s.ctrl is None:
                    s.ctrl = ('return', v)
                outs.append(s)
        else:
            outs = self.block(fn.node.body, [st])
        res = []
        for s in outs:
            s = s.copy()
            s.env, s.stack, s.handlers = saved_env, saved_stack, saved_handlers
            if s.ctrl is None:
                v = NONE
            elif s.ctrl[0] == 'return':
                v = s.ctrl[1]
                s.ctrl = None
            else:
                v = ('unk', 'exc')
            self.event(s, 'leave', node, name=fn.name, value=v, target=fn)
            res.append((s, v))
        if len(res) > 16:
            seen, r2 = set(), []
            for s, v in res:
                try:
                    k = (frozenset(s.heap.items()), frozenset(s.facts.items()), s.ctrl, v,
                         tuple((e.kind, e.name, e.recv, e.args, e.value) for e in s.events if e.kind not in ('follow', 'leave')))
                    if k in seen:
                        continue
                    seen.add(k)
                except TypeError:
                    pass
                r2.append((s, v))
            res = r2
        return res

    # ------------------------------------------------------------------ helper for rules
    def expr(self, text, env, fn, state=None):
        """Evaluate a specification expression in the context of function fn."""
        st = State() if state is None else state.copy()
        st.env = dict(env)
        st.stack = (fn,)
        st.handlers = ()
        node = ast.parse(text, mode='eval').body
        outs = self.ev(node, st)
        return outs[0][1]


class _Box(object):
    """Hashable holder for non-term data."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __repr__(self):
        return '<box>'


def _strip(f):
    if f[0] == 'bm':
        return ('bm', f[1], f[2])
    return f


def is_abstract(f):
    for d in f.node.decorator_list if hasattr(f.node, 'decorator_list') else ():
        n = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ''
        if n in ('abstractmethod', 'abstractproperty'):
            # an abstract method with an implementation can be reached through super()
            return all(isinstance(st, (ast.Pass, ast.Raise)) or isinstance(st, ast.Expr) and
                       isinstance(st.value, ast.Constant) for st in f.node.body)
    return False


def is_strish(t):
    return t[0] == 'str' or t[0] == 'k' and isinstance(t[1], str)


def mkstr(*parts):
    out = []
    for p in parts:
        xs = p[1] if p[0] == 'str' else (p,)
        for x in xs:
            if out and out[-1][0] == 'k' and x[0] == 'k' and isinstance(x[1], str) and isinstance(out[-1][1], str):
                out[-1] = K(out[-1][1] + x[1])
            elif x[0] == 'k' and x[1] == '':
                continue
            else:
                out.append(x)
    if not out:
        return K('')
    if len(out) == 1 and out[0][0] == 'k':
        return out[0]
    return ('str', tuple(out))


def brace_fmt(tmpl, args, kwargs):
    import string
    parts = []
    auto = 0
    kw = dict((k, v) for k, v in kwargs if k != '**')
    rest = [v for k, v in kwargs if k == '**']
    try:
        for lit, field, spec, conv in string.Formatter().parse(tmpl):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto] if auto < len(args) else ('fmterr', 'missing positional %d' % auto)
                auto += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else ('fmterr', 'missing positional %s' % field)
            else:
                name = field.replace('[', '.').split('.')[0]
                if name in kw:
                    v = kw[name] if name == field else ('fmtfield', kw[name], field)
                elif rest:
                    v = ('kwarg', rest[0], name)
                else:
                    v = ('fmterr', 'missing field %s' % name)
            if spec:
                v = ('spec', v, spec)
            parts.append(v)
    except (ValueError, IndexError):
        return ('str', (K(tmpl), ('fmterr', 'malformed template')))
    return mkstr(*parts)


def percent_fmt(tmpl, items):
    import re
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?[a-zA-Z%])', tmpl):
        if m.start() > pos:
            parts.append(K(tmpl[pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            parts.append(K('%'))
            continue
        v = items[i] if i < len(items) else ('fmterr', 'missing positional')
        i += 1
        if m.group(2) != 's':
            v = ('spec', v, m.group(2))
        parts.append(v)
    if pos < len(tmpl):
        parts.append(K(tmpl[pos:]))
    return mkstr(*parts)


def consistent(facts, atom, val):
    """Does adding atom=val contradict what is already known (both directions)?"""
    # check the other facts against the new one
    h = atom[0]
    if h in ('isnone', 'truthy', 'eq', 'lt', 'isinst'):
        for a, v in facts.items():
            if a == atom:
                continue
            if not (set(a[1:]) & set(atom[1:])):
                continue
            rest = facts.copy()
            del rest[a]
            iv = implied(a, rest)
            if iv is not None and iv != v:
                return False
    return True


# --------------------------------------------------------------------------- formulas
class F(object):
    """Three-valued formulas over atoms."""
    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


class A(F):
    def __init__(self, *atom):
        self.atom = atom if len(atom) > 1 else atom[0]

    def ev(self, facts):
        return implied(self.atom, facts)

    def __repr__(self):
        return show_atom(self.atom)


class And(F):
    def __init__(self, *fs):
        self.fs = fs

    def ev(self, facts):
        vs = [f.ev(facts) for f in self.fs]
        if any(v is False for v in vs):
            return False
        return True if all(v is True for v in vs) else None

    def __repr__(self):
        return '(' + ' and '.join(map(repr, self.fs)) + ')'


class Or(F):
    def __init__(self, *fs):
        self.fs = fs

    def ev(self, facts):
        vs = [f.ev(facts) for f in self.fs]
        if any(v is True for v in vs):
            return True
        return False if all(v is False for v in vs) else None

    def __repr__(self):
        return '(' + ' or '.join(map(repr, self.fs)) + ')'


class Not(F):
    def __init__(self, f):
        self.f = f

    def ev(self, facts):
        v = self.f.ev(facts)
        return None if v is None else not v

    def __repr__(self):
        return 'not ' + repr(self.f)


class Const(F):
    def __init__(self, v):
        self.v = v

    def ev(self, facts):
        return self.v


def eq(a, b):
    if b == NONE:
        return A('isnone', a)
    if a == NONE:
        return A('isnone', b)
    return A(canon_eq(a, b))


def isnone(t):
    return A('isnone', t)


def truthy(t):
    if t[0] == 'bool':
        return A(t[1]) if t[2] else Not(A(t[1]))
    if t[0] == 'or':
        return Or(*[truthy(x) for x in t[1]])
    if t[0] == 'and':
        return And(*[truthy(x) for x in t[1]])
    if t[0] == 'not':
        return Not(truthy(t[1]))
    return A('truthy', t)


def lt(a, b):
    return A('lt', a, b)


def isin(a, b):
    return A('in', a, b)
