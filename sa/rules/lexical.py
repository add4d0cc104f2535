# -*- coding: utf-8 -*-
"""C33: sizes, times and colours are read and written as the schema means them."""
import ast
import re
from fractions import Fraction

from ..core import *
from ..flow import canon_eq
from ..load import Cls
from ..lang import Prog, Unsupported, uncovered, accepts, outside, groups
from ..schema import simple_types, datatypes
from .copying import ran
from .sequence import decide

MOD = 'ebu_tt_live.bindings._ebuttdt.'
NUMBER = r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)'


# --------------------------------------------------------------------------- numbers as polynomials
class Poly(dict):
    """{monomial: coefficient}; a monomial is a sorted tuple of (term, exponent)"""

    def __add__(self, o):
        out = Poly(self)
        for m, c in o.items():
            out[m] = out.get(m, 0) + c
            if not out[m]:
                del out[m]
        return out

    def scale(self, k):
        return Poly({m: c * k for m, c in self.items() if k})

    def __sub__(self, o):
        return self + o.scale(-1)

    def mul(self, o):
        out = Poly()
        for m1, c1 in self.items():
            for m2, c2 in o.items():
                exp = {}
                for t, e in m1 + m2:
                    exp[t] = exp.get(t, 0) + e
                m = tuple(sorted(((t, e) for t, e in exp.items() if e), key=repr))
                out = out + Poly({m: c1 * c2})
        return out

    def inverse(self):
        if len(self) != 1:
            return None
        (m, c), = self.items()
        return Poly({tuple((t, -e) for t, e in m): 1 / Fraction(c)})

    def key(self):
        return tuple(sorted(self.items(), key=repr))


def const(v):
    return Poly({(): Fraction(str(v))}) if v else Poly()


def sym(t):
    return Poly({((t, 1),): Fraction(1)})


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Numbers(object):
    """terms as polynomials; whole: divisions of whole numbers met"""

    def __init__(self, leaf=None):
        self.leaf = leaf or (lambda t: None)
        self.whole = []

    def quotient(self, a, b):
        return sym(('quotient', self.poly(a).key(), self.poly(b).key()))

    def poly(self, t):
        v = self.leaf(t)
        if v is not None:
            return v
        if t[0] == 'k' and number(t[1]):
            return const(t[1])
        if t[0] == 'call' and t[1] in (('ext', 'float'), ('ext', 'decimal.Decimal')) and len(t[2]) == 1:
            return self.poly(t[2][0])
        if t[0] == 'bin':
            op, a, b = t[1], t[2], t[3]
            if op == '+':
                return self.poly(a) + self.poly(b)
            if op == '-':
                return self.poly(a) - self.poly(b)
            if op == '*':
                return self.poly(a).mul(self.poly(b))
            if op == '/':
                if not (self.fraction(a) or self.fraction(b)):
                    self.whole.append(t)
                inv = self.poly(b).inverse()
                return self.poly(a).mul(inv) if inv is not None else sym(t)
            if op == '//':
                return self.quotient(a, b)
            if op == '%':
                return self.poly(a) - self.poly(b).mul(self.quotient(a, b))
        if t[0] == 'sub' and t[1][0] == 'call' and t[1][1] == ('ext', 'divmod') and len(t[1][2]) == 2 and t[2] in (K(0), K(1)):
            a, b = t[1][2]
            q = self.quotient(a, b)
            return q if t[2] == K(0) else self.poly(a) - self.poly(b).mul(q)
        return sym(t)

    def fraction(self, t):
        """not a whole number type, so that dividing it does not truncate"""
        if t[0] == 'k':
            return isinstance(t[1], float)
        if t[0] == 'call':
            return t[1] in (('ext', 'float'), ('ext', 'decimal.Decimal'))
        if t[0] == 'bin' and t[1] in ('+', '-', '*', '/'):
            return self.fraction(t[2]) or self.fraction(t[3])
        return False


def remainder(t):
    """(dividend, divisor) when t is a remainder"""
    if t[0] == 'sub' and t[1][0] == 'call' and t[1][1] == ('ext', 'divmod') and t[2] == K(1):
        return t[1][2]
    if t[0] == 'bin' and t[1] == '%':
        return t[2], t[3]
    return None


def bound(t):
    """t is known to be below this whole number"""
    r = remainder(t)
    if r is not None and r[1][0] == 'k':
        return r[1][1]
    q = None
    if t[0] == 'sub' and t[1][0] == 'call' and t[1][1] == ('ext', 'divmod') and t[2] == K(0):
        q = t[1][2]
    elif t[0] == 'bin' and t[1] == '//':
        q = t[2], t[3]
    if q is not None and q[1][0] == 'k':
        b = bound(q[0])
        return None if b is None else -(-b // q[1][1])
    if t[0] == 'attr' and t[2] == 'microseconds':
        return 1000000
    if t[0] == 'attr' and t[2] == 'seconds':
        return 86400
    return None


# --------------------------------------------------------------------------- what is read
def unwrap(t):
    """a list of all elements of x is x"""
    while True:
        if t[0] == 'comp' and len(t[3]) == 1 and not t[4] and t[2] == ('it', t[3][0], 0):
            t = t[3][0]
        elif t[0] == 'call' and t[1] in (('ext', 'list'), ('ext', 'tuple')) and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def matched_group(t):
    """(class, attribute, method, text, group number or name) of a part read with an expression"""
    key = None
    if t[0] == 'sub' and t[2][0] == 'k':
        g = unwrap(t[1])
        if g[0] == 'call' and g[1][0] == 'bm' and g[1][2] in ('groups', 'groupdict') and not g[2]:
            key = t[2][1] + 1 if isinstance(t[2][1], int) else t[2][1]
            m = g[1][1]
    elif t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'group' and len(t[2]) == 1 and t[2][0][0] == 'k':
        key, m = t[2][0][1], t[1][1]
    if key is None:
        return None
    if m[0] == 'call' and m[1][0] == 'bm' and m[1][2] in ('match', 'search', 'fullmatch') and len(m[2]) == 1 and m[1][1][0] in ('attr', 'glob', 'modref'):
        return m[1][1], m[1][2], m[2][0], key
    return None


def expression(ctx, ref):
    """(pattern, node) of the compiled expression a term refers to"""
    node = None
    if ref[0] == 'attr' and ref[1][0] == 'cls':
        cs = [c for c in ctx.prog.classes if c.qualname == ref[1][1]]
        node = constant_of(ctx, cs[0], ref[2]) if cs else None
    if isinstance(node, ast.Call) and node.args:
        f = node.func
        if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)) == 'compile':
            try:
                v = ast.literal_eval(node.args[0])
            except ValueError:
                return None
            return (v, 0) if len(node.args) == 1 and not node.keywords else None
    return None


class Reader(object):
    """how a class takes its text apart"""

    def __init__(self, ctx, rule, c, st, ref, method, where):
        self.ok = False
        self.opt = {}
        got = expression(ctx, ref)
        name = c.name
        ctx.need(got is not None, 'the expression %s reads with' % name)
        pats, _ = simple_types(ctx).get(st, ([], []))
        ctx.need(len(pats) == 1, 'pattern of the type ' + st)
        try:
            spec, reader = Prog(pats[0]), Prog(got[0], got[1], search=method == 'search')
        except Unsupported as exc:
            raise AnalysisError('expression of %s: %s' % (name, exc))
        self.spec, self.reader = spec, reader
        word = uncovered(spec, reader, full=method == 'fullmatch')
        self.ok = ctx.expect(word is None, rule, name + '/covers', 'the valid value "%s" is not read completely by %s' % (word, got[0]), where)
        gs = groups(reader.tree)
        self.groups = {n: (opt, items) for n, opt, items in gs}
        names = reader.tree.state.groupdict
        self.names = dict(names)
        self.count = reader.tree.state.groups - 1

    def index(self, key):
        return self.names.get(key) if isinstance(key, str) else key


def paths_ok(ctx, p, readers):
    """the path is possible: groups that always take part are there"""
    for a, v in p.facts.items():
        if a[0] in ('isnone', 'truthy'):
            g = matched_group(a[1])
            if g is None:
                continue
            r = readers.get(g[0])
            if r is None:
                continue
            i = r.index(g[3])
            if i not in r.groups or not r.groups[i][0]:
                if (a[0] == 'isnone') == v:
                    return False
    return True


def constant_of(ctx, c, n):
    got = ctx.prog.find_attr(c, n)
    return got[1] if got is not None and isinstance(got[1], ast.AST) else None


def class_consts(ctx, c):
    """facts about attributes of the class that have constant values"""
    out = {}
    for d in ctx.prog.mro(c):
        for n in (d.attrs if isinstance(d, Cls) else ()):
            node = constant_of(ctx, c, n)
            for base in (('cls', c.qualname), SELF):
                if isinstance(node, ast.Constant):
                    out[('isnone', ('attr', base, n))] = node.value is None
    return out


def sizes(ctx):
    out = {}
    seen = 0
    for c, st in datatypes(ctx):
        pr = {n: ctx.prog.find_prop(c, n) for n in ('horizontal', 'vertical')}
        if not all(pr.values()):
            continue
        seen += 1
        facts = class_consts(ctx, c)
        spec = Prog(simple_types(ctx)[st][0][0])
        readers = {}
        vals = {}
        for n, q in sorted(pr.items()):
            w = ctx.walker(types={SELF: c}, noexc=True, facts=facts)
            for p in ran(ctx, w, q.getter, c):
                gs = {matched_group(t) for x in [p.ret or NONE] + list(p.facts) for t in subterms(x)} - {None}
                for g in gs:
                    if g[0] not in readers:
                        readers[g[0]] = Reader(ctx, 'read', c, st, g[0], g[1], q.getter)
                    ctx.expect(g[2] == SELF, 'read', c.name, 'something else than the value is read', q.getter)
                if not paths_ok(ctx, p, readers):
                    continue
                if p.kind != 'return':
                    ctx.bad('read', c.name, 'reading the size fails; path: ' + show_facts(p.facts), q.getter)
                    continue
                two = {}
                for g in gs:
                    r = readers[g[0]]
                    i = r.index(g[3])
                    ctx.expect(i is not None and 1 <= i <= r.count, 'read', c.name, 'there is no part %s' % g[3], q.getter)
                    if i == 2:
                        miss = [v for a, v in p.facts.items() if a[0] == 'isnone' and matched_group(a[1]) == g]
                        two[2] = not miss[0] if miss else (None if r.groups.get(2, (True,))[0] else True)
                vals.setdefault(n, []).append((p, two.get(2, False if all(r.count == 1 for r in readers.values()) else None)))
        if not ctx.expect(readers, 'read', c.name, 'the value is not read', pr['vertical'].getter):
            continue
        r = sorted(readers.items())[0][1]
        out[c] = r
        # the parts are whole numbers with their sign
        ctx.expect(not outside(r.reader.tree) & (set('0123456789.') | {'-'}), 'read', c.name + '/whole', 'digits, the decimal point or a negative sign '
                   'are left out of the number', pr['vertical'].getter)
        for n, (opt, items) in sorted(r.groups.items()):
            sub = Prog('')
            sub.code = []
            sub.seq(items)
            sub.emit('match')
            ctx.expect(uncovered(sub, Prog(NUMBER), full=True) is None, 'read', c.name + '/whole', 'a part read is not always a number: "%s"' %
                       uncovered(sub, Prog(NUMBER), full=True), pr['vertical'].getter)
        both = accepts_two(spec)
        for n, ps in sorted(vals.items()):
            met = set()
            for p, two in ps:
                got = p.ret
                if two is None and both != {1, 2}:
                    two = both == {2}
                met.add(two)
                part = None
                if two:
                    part = 1 if n == 'horizontal' else 2
                elif n == 'vertical':
                    part = 1
                if part is None:
                    ctx.expect(got == NONE, 'read', c.name + '/' + n, 'a single size has a horizontal part', pr[n].getter)
                    continue
                g = matched_group(got[2][0]) if got[0] == 'call' and got[1] in (('ext', 'float'), ('ext', 'decimal.Decimal')) and len(got[2]) == 1 else None
                ctx.expect(g is not None and r.index(g[3]) == part, 'read', c.name + '/' + n, 'it is read as ' + show(got)[:200], pr[n].getter)
            for t in both:
                ctx.some((t == 2) in met, 'read', c.name + '/' + n, 'sizes of %d part%s are not read' % (t, 's'[:t - 1]), pr[n].getter)
        written(ctx, c, spec, both, facts)
    ctx.need(seen >= 10, 'classes of sizes')
    return out


def accepts_two(spec):
    """numbers of parts the values of a type may have"""
    one = Prog(r'[^ ]*')
    out = set()
    from ..lang import classes
    start = frozenset(spec.close([0], first=True))
    todo, seen = [(start, 1)], {(start, 1)}
    while todo:
        a, n = todo.pop()
        if spec.matched(a):
            out.add(n)
        for ch in classes(spec, one):
            if ch in '\t\n\r':
                continue
            b = frozenset(spec.close(spec.step(a, ch)))
            m = n + (ch == ' ')
            if b and m < 6 and (b, m) not in seen:
                seen.add((b, m))
                todo.append((b, m))
    return out


def written(ctx, c, spec, both, facts):
    """numbers given become a value of the type"""
    f = ctx.prog.find_method(c, '_ConvertArguments_vx')
    if f is None:
        ctx.bad('write', c.name, 'numbers are not accepted', c)
        return
    nums = [('p', 'first number'), ('p', 'second number')]
    given = ('p', 'text')
    base = dict(facts)
    base.update({('isinst', given, ('ext', 'float')): False, ('isinst', given, ('ext', 'int')): False})
    w = ctx.walker(types={SELF: c}, noexc=True, facts=base, lists=True)
    ps = w.run(f, c, args={f.params[0]: ('cls', c.qualname), f.params[1]: ('tup', (given,))})
    ctx.account(w, ps)
    for p in ps:
        out = contents(p, p.ret) if p.kind == 'return' else None
        ctx.expect(out == [given], 'write', c.name + '/text', 'a text given as the value becomes ' + (show(p.ret) if p.ret else p.kind), f)
    for n, kind in ((1, 'int'), (1, 'float'), (2, 'int'), (2, 'float')):
        base = dict(facts)
        for x in nums:
            base[('isinst', x, ('ext', 'float'))] = kind == 'float'
            base[('isinst', x, ('ext', 'int'))] = kind == 'int'
        w = ctx.walker(types={SELF: c}, noexc=True, facts=base, lists=True)
        args = nums[:n]
        try:
            ps = w.run(f, c, args={f.params[0]: ('cls', c.qualname), f.params[1]: ('tup', tuple(args))})
        except AnalysisError:
            ctx.bad('write', c.name, 'numbers are not converted one after the other', f)
            continue
        ctx.account(w, ps)
        done = 0
        for p in ps:
            if p.kind == 'raise':
                if n in both:
                    ctx.bad('write', c.name + '/%d' % n, '%d number%s refused; path: %s' % (n, 's are' if n > 1 else ' is', brief(p, base)), f)
                continue
            if p.kind != 'return':
                continue
            out = contents(p, p.ret)
            if n not in both:
                ctx.bad('write', c.name + '/%d' % n, '%d numbers become %s' % (n, [show(x) for x in out or ()]), f)
                continue
            done += 1
            if not ctx.expect(out is not None and len(out) == 1 and out[0][0] == 'str', 'write', c.name + '/%d' % n,
                              'the numbers become %s' % ([show(x) for x in out] if out is not None else show(p.ret)), f):
                continue
            parts = out[0][1]
            vals = [x[1] if x[0] == 'spec' else x for x in parts if x[0] != 'k']
            ctx.expect(vals == args, 'write', c.name + '/%d' % n, 'the numbers are written as ' + show(out[0]), f)
            text = ''.join(str(x[1]) if x[0] == 'k' else '15' for x in parts)
            ctx.expect(accepts(spec, text), 'write', c.name + '/%d' % n, 'the result, like "%s", is not a valid value' % text, f)
        if n in both:
            ctx.some(done, 'write', c.name + '/%d' % n, 'numbers are not converted', f)


def brief(p, facts):
    return show_facts({a: v for a, v in p.facts.items() if a not in facts})[:300]


def contents(p, t):
    t = unwrap(t)
    return list(t[1]) if t[0] == 'tup' else list(t[2]) if t[0] == 'lst' else None


# --------------------------------------------------------------------------- times
UNITS = {'h': 3600000, 'm': 60000, 's': 1000, 'ms': 1}
DELTA = {'days': 86400000, 'seconds': 1000, 'microseconds': Fraction(1, 1000), 'milliseconds': 1, 'minutes': 60000, 'hours': 3600000, 'weeks': 604800000}
DELTA_POS = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')


def spanned(d, zs):
    """d is a combination of things that are zero"""
    rows = [Poly(z) for z in zs]
    d = Poly(d)
    used = []
    for z in rows:
        for pivot, u in used:
            z = z - u.scale(z.get(pivot, 0) / u[pivot]) if z.get(pivot) else z
        if z:
            pivot = sorted(z, key=repr)[0]
            used.append((pivot, z))
    for pivot, u in used:
        if d.get(pivot):
            d = d - u.scale(d[pivot] / u[pivot])
    return not d


class Times(Numbers):
    """whole number arithmetic on the parts of a duration"""

    def __init__(self, value):
        Numbers.__init__(self)
        self.value = value

    def poly(self, t):
        if t[0] == 'attr' and t[1] == self.value:
            return sym(t)
        if t[0] == 'call' and t[1] == ('bm', self.value, 'total_seconds') and not t[2]:
            v = self.value
            return sym(('attr', v, 'days')).scale(86400) + sym(('attr', v, 'seconds')) + sym(('attr', v, 'microseconds')).scale(Fraction(1, 1000000))
        if t[0] == 'call' and t[1] in (('ext', 'int'), ('ext', 'math.floor'), ('ext', 'math.trunc')) and len(t[2]) == 1:
            p = self.poly(t[2][0])
            rest = Poly({m: c for m, c in p.items() if Fraction(c).denominator != 1})
            us = sym(('attr', self.value, 'microseconds'))
            if not rest:
                return p
            if len(rest) == 1 and list(rest)[0] == list(us)[0] and 0 < list(rest.values())[0] <= Fraction(1, 1000000):
                return p - rest
            return sym(('call', ('ext', 'int'), p.key()))
        if t[0] == 'bin' and t[1] == '/' and not self.fraction(t[2]) and not self.fraction(t[3]):
            return self.quotient(t[2], t[3])
        return Numbers.poly(self, t)

    def fraction(self, t):
        return Numbers.fraction(self, t) or t[0] == 'call' and t[1][0] == 'bm' and t[1][2] == 'total_seconds'

    def quotient(self, a, b):
        n = b[1] if b[0] == 'k' and isinstance(b[1], int) and b[1] > 0 else None
        return Numbers.quotient(self, a, b) if n is None else self.whole_quotient(self.poly(a), n)

    def whole_quotient(self, p, n):
        """p // n: multiples of n are taken out, and one division after the other is one division"""
        out = Poly({m: c / n for m, c in p.items() if Fraction(c).denominator == 1 and c % n == 0})
        rest = Poly({m: c for m, c in p.items() if m not in out})
        if not rest:
            return out
        if len(rest) == 1:
            (m, c), = rest.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'whole':
                return out + sym(('whole', m[0][0][1], m[0][0][2] * n))
        return out + sym(('whole', rest.key(), n))

    def alternatives(self, facts):
        """sequences of values of which one is not zero on the path"""
        out = []
        for a, v in facts.items():
            if a[0] == 'truthy' and v and a[1][0] == 'call' and a[1][1] == ('ext', 'any') and len(a[1][2]) == 1 and a[1][2][0][0] in ('tup', 'lst'):
                out.append(a[1][2][0][1 if a[1][2][0][0] == 'tup' else 2])
            elif a[0] == 'truthy' and v:
                out.append((a[1],))
        return out

    def zeros(self, facts):
        out = []
        facts = dict(facts)
        for a, v in list(facts.items()):
            if a[0] == 'truthy' and not v and a[1][0] == 'call' and a[1][1] == ('ext', 'any') and len(a[1][2]) == 1 and a[1][2][0][0] in ('tup', 'lst'):
                for x in a[1][2][0][1 if a[1][2][0][0] == 'tup' else 2]:
                    facts[('truthy', x)] = False
        for a, v in facts.items():
            if a[0] == 'truthy' and not v or a[0] == 'eq' and v and K(0) in a[1:]:
                x = a[1] if a[0] == 'truthy' or a[2] == K(0) else a[2]
                if x == self.value:
                    out += [sym(('attr', self.value, n)) for n in ('days', 'seconds', 'microseconds')]
                elif x[0] != 'call' or x[1] != ('ext', 'len'):
                    out.append(self.poly(x))
            # a whole number that is not negative and below one
            if a[0] == 'lt' and (v and a[2] == K(1) or not v and a[1] == K(0)):
                out.append(self.poly(a[1] if v else a[2]))
        # a sum of parts is zero when all the parts are
        more = []
        for z in out:
            if len(z) > 1 and all(c > 0 for c in z.values()) and () not in z:
                more += [Poly({m: Fraction(1)}) for m in z]
        return out + more

    def below(self, t, facts):
        """largest value + 1, from the way t is computed or from what the path has compared"""
        b = bound(t)
        for a, v in facts.items():
            if a[0] == 'lt':
                for x, other in ((a[1], a[2]), (a[2], a[1])):
                    if other[0] == 'k' and number(other[1]) and self.poly(x) == self.poly(t):
                        lim = None
                        if other is a[1] and not v:            # not (n < t)
                            lim = other[1] + 1
                        elif other is a[2] and v:              # t < n
                            lim = other[1]
                        if lim is not None:
                            b = lim if b is None else min(b, lim)
        return b


def flat(t):
    """[literal text or term] of a text"""
    if t[0] == 'k' and isinstance(t[1], str):
        return [t]
    if t[0] == 'str':
        return [y for x in t[1] for y in flat(x)]
    return [t]


def pieces(t):
    out = []
    for x in flat(t):
        if x[0] == 'k' and isinstance(x[1], str) and out and out[-1][0] == 'k' and isinstance(out[-1][1], str):
            out[-1] = K(out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def width_of(x):
    """(term, least width) of a piece"""
    if x[0] == 'spec':
        m = re.match(r'^(?:0(\d+))?d?$', x[2])
        return (x[1], int(m.group(1) or 0)) if m else (x[1], None)
    if x[0] == 'call' and x[1][0] == 'bm' and x[1][2] in ('zfill', 'rjust') and x[2] and x[2][0][0] == 'k':
        if x[1][2] == 'zfill' or x[2][1:] == (K('0'),):
            y = x[1][1]
            return (y[2][0] if y[0] == 'call' and y[1] == ('ext', 'str') else y), x[2][0][1]
    if x[0] == 'call' and x[1] == ('ext', 'str') and len(x[2]) == 1:
        return x[2][0], 0
    return x, 0


def times(ctx):
    seen = 0
    for c, st in datatypes(ctx):
        rd, wr = ctx.prog.find_method(c, 'as_timedelta'), ctx.prog.find_method(c, 'from_timedelta')
        if rd is None or wr is None or st == 'smpteTimingType':
            continue
        seen += 1
        pats = simple_types(ctx)[st][0]
        ctx.need(len(pats) == 1, 'pattern of ' + st)
        spec = Prog(pats[0])
        clock = accepts(spec, '00:00:00')
        read_time(ctx, c, st, spec, clock, rd)
        write_time(ctx, c, spec, clock, wr)
    ctx.need(seen >= 3, 'classes of times')


def read_time(ctx, c, st, spec, clock, f):
    value = ('p', 'text')
    args = {f.params[0]: ('cls', c.qualname), f.params[1]: value}
    w = ctx.walker(types={SELF: c}, noexc=True, lists=True)
    first = w.run(f, c, args=args)
    ctx.account(w, first)
    readers = {}
    gs = set()
    for p in first:
        for x in [p.ret or NONE] + list(p.facts):
            gs |= {(matched_group(t), t) for t in subterms(x) if matched_group(t) is not None}
    for g, t in sorted(gs, key=repr):
        ctx.expect(g[2] == value, 'time', c.name, 'something else than the text is read', f)
        if g[0] not in readers:
            readers[g[0]] = Reader(ctx, 'time', c, st, g[0], g[1], f)
    if not ctx.expect(len(readers) == 1, 'time', c.name, 'the text is not taken apart with one expression', f):
        return
    (ref, r), = readers.items()
    ctx.expect(not outside(r.reader.tree) & set('0123456789'), 'time', c.name, 'digits are left out of the numbers', f)
    if clock:
        scenarios = [((), {})]
        ctx.expect(r.count == 4, 'time', c.name, 'there are %d parts' % r.count, f)
    else:
        units = [u for u in UNITS if accepts(spec, '1' + u)]
        ut = sorted({t for g, t in gs if r.index(g[3]) == 2}, key=repr)
        ctx.expect(ut and r.count == 2, 'time', c.name, 'the unit is not read', f)
        scenarios = [((u,), dict([(canon_eq(t, K(u)), True) for t in ut] + [(canon_eq(t, K(o)), False) for t in ut for o in UNITS if o != u])) for u in units]
    for u, facts in scenarios:
        w = ctx.walker(types={SELF: c}, noexc=True, lists=True, facts=facts)
        ps = w.run(f, c, args=args)
        ctx.account(w, ps)
        done = set()
        for p in ps:
            if not paths_ok(ctx, p, readers):
                continue
            if p.kind != 'return':
                ctx.bad('time', c.name + '/read' + ''.join(u), 'reading a valid time fails; path: ' + brief(p, facts), f)
                continue
            kinds = dict(p.facts)

            def leaf(t):
                if t[0] == 'call' and t[1] in (('ext', 'float'), ('ext', 'int'), ('ext', 'decimal.Decimal')) and len(t[2]) == 1:
                    x = t[2][0]
                    g = matched_group(x)
                    if g is not None:
                        i = r.index(g[3])
                        whole = t[1] == ('ext', 'int')
                        if clock and i in (1, 2, 3) or not clock and i == 1 and not whole:
                            return sym(('group', i))
                    if x[0] == 'str' and len(flat(x)) == 2 and flat(x)[0] in (K('0.'), K('.')) and t[1] != ('ext', 'int'):
                        g = matched_group(flat(x)[1])
                        if g is not None and r.index(g[3]) == 4:
                            return sym(('group', 4))
                return None

            num = Numbers(leaf)
            num.fraction = lambda t: True
            t = p.ret
            ok = t[0] == 'call' and t[1] == ('ext', 'datetime.timedelta') and len(t[2]) <= len(DELTA_POS)
            if not ctx.expect(ok, 'time', c.name + '/read', 'a time is read as ' + show(t)[:200], f):
                continue
            total = Poly()
            for k, x in list(zip(DELTA_POS, t[2])) + list(t[3]):
                total = total + num.poly(x).scale(Fraction(DELTA[k]))
            zs = []
            missing = False
            for a, v in p.facts.items():
                if a[0] in ('truthy', 'isnone'):
                    g = matched_group(a[1])
                    if g is not None and r.index(g[3]) == 4 and (a[0] == 'truthy') != v:
                        zs.append(sym(('group', 4)))
                        missing = True
                    elif g is None and a[0] == 'truthy' and not v:
                        zs.append(num.poly(a[1]))
            want = Poly()
            for i, k in ((1, 3600000), (2, 60000), (3, 1000), (4, 1000)) if clock else ((1, UNITS[u[0]]),):
                want = want + sym(('group', i)).scale(Fraction(k))
            if missing or total.get(list(sym(('group', 4)))[0]):
                done.add(missing)
            ctx.expect(spanned(total - want, zs), 'time', c.name + '/read' + ''.join(u), 'the time is read as %s%s; path: %s' %
                       (show(t)[:300], ' for the unit ' + u[0] if u else '', brief(p, facts)), f)
            if not missing and clock and False in done:
                bad = [x for x in subterms(t) if x[0] == 'str' and matched_group(flat(x)[-1]) is not None]
                known = {matched_group(a[1]) for a, v in p.facts.items() if a[0] in ('truthy', 'isnone') and (a[0] == 'truthy') == v}
                for x in bad:
                    ctx.expect(matched_group(flat(x)[-1]) in known, 'time', c.name + '/read', 'a fraction that may be missing is used', f)
        if clock:
            for m in (True, False):
                ctx.some(m in done, 'time', c.name + '/read', 'times %s a fraction are not read' % ('without' if m else 'with'), f)
        else:
            ctx.some([p for p in ps if p.kind == 'return'], 'time', c.name + '/read', 'times are not read', f)


def write_time(ctx, c, spec, clock, f):
    value = ('p', 'duration')
    w = ctx.walker(types={SELF: c}, noexc=True, lists=True)
    ps = w.run(f, c, args={f.params[0]: ('cls', c.qualname), f.params[1]: value})
    ctx.account(w, ps)
    tm = Times(value)
    A = lambda n: sym(('attr', value, n))
    want = A('days').scale(86400000) + A('seconds').scale(1000) + tm.quotient(('attr', value, 'microseconds'), K(1000))
    hours = A('days').scale(24) + tm.quotient(('attr', value, 'seconds'), K(3600))
    unlimited = accepts(spec, '100:00:00') if clock else True
    done = 0
    for p in ps:
        zs = tm.zeros(p.facts)
        if any(all(tm.value != x and spanned(tm.poly(x), zs) for x in xs) for xs in tm.alternatives(p.facts)):
            continue
        key = c.name + '/write'
        if p.kind == 'raise':
            over = False
            for a, v in p.facts.items():
                if a[0] == 'lt' and not unlimited:
                    over = over or v and a[1] == K(99) and tm.poly(a[2]) == hours or not v and a[2] == K(100) and tm.poly(a[1]) == hours
            ctx.expect(over, 'time', key, 'a time is refused; path: ' + brief(p, {}), f)
            continue
        if p.kind != 'return':
            continue
        done += 1
        if p.ret[0] == 'k' and isinstance(p.ret[1], str):
            m = re.match(r'^0(?:\.0+)?(h|ms|s|m)$', p.ret[1])
            zero = bool(m) if not clock else p.ret[1] in ('00:00:00', '00:00:00.000')
            ctx.expect(zero and spanned(want, zs), 'time', key, 'a time that may not be zero is written as "%s"; path: %s' % (p.ret[1], brief(p, {})), f)
            continue
        xs = pieces(p.ret)
        if clock:
            seps = [x[1] if x[0] == 'k' else None for x in xs[1::2]]
            ok = len(xs) in (5, 7) and seps == [':', ':', '.'][:len(xs) // 2] and not any(x[0] == 'k' for x in xs[::2])
            if not ctx.expect(ok, 'time', key, 'the time is written as ' + show(p.ret)[:300], f):
                continue
            total = Poly()
            for i, x in enumerate(xs[::2]):
                t, width = width_of(x)
                total = total + tm.poly(t).scale(Fraction((3600000, 60000, 1000, 1)[i]))
                ctx.expect(width == (2, 2, 2, 3)[i], 'time', key, 'the %s are written with %s digits' % (('hours', 'minutes', 'seconds', 'milliseconds')[i], width), f)
                lim = tm.below(t, p.facts)
                if i:
                    ctx.expect(lim is not None and lim <= (60, 60, 60, 1000)[i], 'time', key, 'the %s are not below %d' %
                               (('', 'minutes', 'seconds', 'milliseconds')[i], (60, 60, 60, 1000)[i]), f)
                elif not unlimited:
                    ctx.expect(lim is not None and lim <= 100, 'time', key, 'more hours than fit are written; path: ' + brief(p, {}), f)
            ctx.expect(spanned(total - want, zs), 'time', key, 'another time is written: %s; path: %s' % (show(p.ret)[:300], brief(p, {})), f)
            continue
        unit = xs[-1][1] if xs and xs[-1][0] == 'k' else None
        if not ctx.expect(len(xs) == 2 and unit in UNITS and accepts(spec, '1' + unit), 'time', key, 'the time is written as %s; path: %s' %
                          (show(p.ret)[:300], brief(p, {})), f):
            continue
        t, _ = width_of(xs[0])
        got = tm.poly(t).scale(Fraction(UNITS[unit]))
        ctx.expect(spanned(got - want, zs), 'time', key, 'another time is written: %s; path: %s' % (show(p.ret)[:300], brief(p, {})), f)
    ctx.some(done, 'time', c.name + '/write', 'times are not written', f)
    if not unlimited:
        ctx.some([p for p in ps if p.kind == 'raise'], 'time', c.name + '/write', 'times of too many hours are not refused', f)
    conv = ctx.prog.find_method(c, '_ConvertArguments_vx')
    if not ctx.expect(conv is not None, 'time', c.name + '/convert', 'durations are not accepted', c):
        return
    facts = {('isinst', value, ('ext', 'datetime.timedelta')): True}
    w = ctx.walker(types={SELF: c}, noexc=True, lists=True, facts=facts, opaque={'from_timedelta'})
    n = 0
    for p in w.run(conv, c, args={conv.params[0]: ('cls', c.qualname), conv.params[1]: ('tup', (value,))}):
        if p.kind != 'return':
            continue
        n += 1
        out = contents(p, p.ret)
        ok = out is not None and len(out) == 1 and out[0][0] == 'call' and out[0][1][0] == 'bm' and out[0][1][2] == 'from_timedelta' and out[0][2] == (value,)
        ctx.expect(ok, 'time', c.name + '/convert', 'a duration becomes ' + show(p.ret)[:200], conv)
    ctx.some(n, 'time', c.name + '/convert', 'durations are not accepted', conv)
    pr = ctx.prog.find_prop(c, 'timedelta')
    if ctx.expect(pr is not None and pr.getter is not None, 'time', c.name + '/timedelta', 'the duration of a time is not available', c):
        w = ctx.walker(types={SELF: c}, noexc=True, opaque={'as_timedelta'})
        for p in ran(ctx, w, pr.getter, c):
            ok = p.kind == 'return' and p.ret[0] == 'call' and p.ret[1][0] == 'bm' and p.ret[1][2] == 'as_timedelta' and p.ret[2] == (SELF,)
            ctx.expect(ok, 'time', c.name + '/timedelta', 'the duration of a time is ' + show(p.ret or NONE)[:200], pr.getter)


# --------------------------------------------------------------------------- colours
COLOURS = {
    'transparent': '00000000', 'black': '000000ff', 'silver': 'c0c0c0ff', 'gray': '808080ff', 'white': 'ffffffff', 'maroon': '800000ff',
    'red': 'ff0000ff', 'purple': '800080ff', 'fuchsia': 'ff00ffff', 'magenta': 'ff00ffff', 'green': '008000ff', 'lime': '00ff00ff',
    'olive': '808000ff', 'yellow': 'ffff00ff', 'navy': '000080ff', 'blue': '0000ffff', 'teal': '008080ff', 'aqua': '00ffffff', 'cyan': '00ffffff'}


def colours(ctx):
    f = ctx.prog.func('bindings._ebuttdt:named_color_to_rgba')
    names = simple_types(ctx).get('namedColorType', ([], []))[1]
    ctx.need(len(names) >= 16, 'named colours of the schema')
    for n in names:
        ctx.need(n in COLOURS, 'value of the colour ' + n)
        w = ctx.walker(noexc=True)
        ps = w.run(f, None, args={f.params[0]: K(n)})
        ctx.account(w, ps)
        for p in ps:
            got = ''.join(x[1] if x[0] == 'k' and isinstance(x[1], str) else '?' for x in flat(p.ret)) if p.kind == 'return' else None
            ctx.expect(got is not None and got.lower() == '#' + COLOURS[n], 'colour', n, 'the colour is converted to ' + str(got), f)


# --------------------------------------------------------------------------- calculations with sizes
H, V = 'horizontal', 'vertical'


class Sizes(Numbers):
    def fraction(self, t):
        return Numbers.fraction(self, t) or t[0] == 'attr' and t[2] in (H, V)


def agrees(ctx, key, t, want, f, facts):
    num = Sizes()
    got = num.poly(t)
    ctx.expect(not num.whole, 'calculation', key, 'numbers are divided that may be whole numbers', f)
    ctx.expect(not (got - want), 'calculation', key, 'a part is %s; path: %s' % (show(t)[:200], facts), f)


def part(t, n, two):
    """a part of a size; a single size has the same value both ways"""
    return ('attr', t, n if two else V)


def results(ctx, p, t):
    """(class, parts) of a size made on the path"""
    return (t[1], t[3]) if t[0] == 'new' and not t[4] else None


def operators(ctx):
    other = ('p', 'other')
    by = {c.name: c for c, _ in datatypes(ctx)}
    for n in ('CellFontSizeType', 'PixelFontSizeType', 'PercentageFontSizeType', 'PercentageLineHeightType', 'CellLineHeightType'):
        ctx.need(n in by, 'class ' + n)
    q = lambda n: by[n].qualname
    num = Sizes()
    todo = []
    for n in ('CellFontSizeType', 'PixelFontSizeType', 'PercentageFontSizeType'):
        for op in ('__mul__', '__rmul__'):
            todo.append(('PercentageFontSizeType', op, n, n, False, True))
    for op in ('__mul__', '__rmul__'):
        todo.append(('PercentageLineHeightType', op, 'CellFontSizeType', 'CellLineHeightType', False, False))
    todo.append(('CellFontSizeType', '__div__', 'CellFontSizeType', 'PercentageFontSizeType', True, True))
    for cn, op in sorted({t[:2] for t in todo}):
        f = ctx.prog.find_method(by[cn], op)
        if f is None:
            continue
        known = {t[2] for t in todo if t[:2] == (cn, op)}
        facts = {('isinst', other, ('cls', q(k))): False for k in known}
        w = ctx.walker(noexc=True, types={SELF: by[cn]}, opaque={H, V}, facts=facts, lists=True)
        ps = w.run(f, by[cn], args={f.params[1]: other})
        ctx.account(w, ps)
        for p in ps:
            ok = p.kind == 'return' and p.ret[0] in ('ext', 'glob', 'modref') and p.ret[-1].endswith('NotImplemented') or \
                p.kind == 'return' and p.ret == K(NotImplemented)
            ctx.expect(ok, 'calculation', '%s.%s/other' % (cn, op), 'with something else the result is ' + (show(p.ret)[:200] if p.ret else p.kind), f)
    for cn, op, on, rn, div, dims in todo:
        c = by[cn]
        f = ctx.prog.find_method(c, op)
        if not ctx.expect(f is not None, 'calculation', '%s.%s' % (cn, op), 'the calculation is gone', c):
            continue
        for a in (True, False) if dims else (False,):
            for b in (True, False):
                facts = {('isinst', other, ('cls', q(k))): k == on for k in by}
                facts[('isinst', SELF, ('cls', c.qualname))] = True
                facts[('isnone', ('attr', SELF, H))] = not a
                facts[('isnone', ('attr', other, H))] = not b
                for x in (SELF, other):
                    facts[('isnone', ('attr', x, V))] = False
                w = ctx.walker(noexc=True, types={SELF: c}, opaque={H, V}, facts=facts, lists=True)
                key = '%s.%s/%s/%d%d' % (cn, op, on, a + 1, b + 1)
                ps = w.run(f, c, args={f.params[1]: other})
                ctx.account(w, ps)
                ctx.some(ps, 'calculation', key, 'there is no result', f)
                for p in ps:
                    got = results(ctx, p, p.ret) if p.kind == 'return' else None
                    if not ctx.expect(got is not None and got[0] == q(rn), 'calculation', key, 'the result is %s' % (show(p.ret)[:200] if p.ret else p.kind), f):
                        continue
                    parts = [H, V] if dims and (a or b) else [V]
                    if not ctx.expect(len(got[1]) == len(parts), 'calculation', key, 'the result has %d parts' % len(got[1]), f):
                        continue
                    for t, n in zip(got[1], parts):
                        x, y = num.poly(part(SELF, n, a)), num.poly(part(other, n, b))
                        want = x.mul(y.inverse()).scale(100) if div else x.mul(y).scale(Fraction(1, 100))
                        agrees(ctx, key, t, want, f, show_facts({k: v for k, v in p.facts.items() if k not in facts})[:200])


def conversions(ctx):
    num = Sizes()
    for name, to_cells in (('pixels_to_cells', True), ('cells_to_pixels', False)):
        f = ctx.prog.func('bindings._ebuttdt:' + name)
        size, root, res = [('p', x) for x in f.params[:3]]
        ext = [c for c, _ in datatypes(ctx) if c.name == 'PixelExtentType']
        ctx.need(ext, 'class of extents in pixels')
        for two in (True, False):
            facts = {('isinst', root, ('cls', ext[0].qualname)): True, ('isnone', ('attr', size, H)): not two, ('isnone', ('attr', size, V)): False}
            for x in (root, res):
                facts[('isnone', ('attr', x, H))] = facts[('isnone', ('attr', x, V))] = False
            w = ctx.walker(noexc=True, facts=facts, lists=True, opaque={H, V})
            ps = w.run(f, None, args={x: ('p', x) for x in f.params})
            ctx.account(w, ps)
            key = '%s/%d' % (name, two + 1)
            ctx.some(ps, 'calculation', key, 'there is no result', f)
            for p in ps:
                out = contents(p, p.ret) if p.kind == 'return' else None
                parts = [H, V] if two else [V]
                if not ctx.expect(out is not None and len(out) == len(parts), 'calculation', key, 'the result is ' + (show(p.ret)[:200] if p.ret else p.kind), f):
                    continue
                for t, n in zip(out, parts):
                    a, b = (res, root) if to_cells else (root, res)
                    want = num.poly(('attr', size, n)).mul(num.poly(('attr', a, n))).mul(num.poly(('attr', b, n)).inverse())
                    agrees(ctx, key, t, want, f, show_facts({k: v for k, v in p.facts.items() if k not in facts})[:200])
    f = ctx.prog.func('bindings._ebuttdt:convert_cell_region_to_percentage')
    size, res = [('p', x) for x in f.params[:2]]
    w = ctx.walker(noexc=True)
    ps = w.run(f, None, args={x: ('p', x) for x in f.params})
    ctx.account(w, ps)
    key = 'convert_cell_region_to_percentage'
    for p in ps:
        xs = pieces(p.ret) if p.kind == 'return' else []
        ok = len(xs) == 4 and xs[1] == K('% ') and xs[3] == K('%')
        if not ctx.expect(ok, 'calculation', key, 'the result is ' + (show(p.ret)[:200] if p.ret else p.kind), f):
            continue
        for x, n in ((xs[0], H), (xs[2], V)):
            t, _ = width_of(x)
            ctx.expect(x[0] != 'spec', 'calculation', key + '/digits', 'the percentage is written as ' + show(x)[:200], f)
            want = num.poly(('attr', size, n)).mul(num.poly(('attr', res, n)).inverse()).scale(100)
            agrees(ctx, key, t, want, f, '')
    ctx.some(ps, 'calculation', key, 'there is no result', f)


def equality(ctx):
    """sizes of one kind are equal exactly when they are the same in both directions"""
    two = ctx.prog.cls('bindings._ebuttdt:TwoDimSizingMixin')
    for c in sorted(ctx.prog.subclasses(two), key=lambda c: c.qualname):
        f = ctx.prog.find_method(c, '__eq__')
        if not ctx.expect(f is not None, 'equal', c.name, 'sizes are compared by the way they are written', c):
            continue
        other = ('p', f.params[1])
        single = c.name == 'CellFontSizeType'
        seen = set()
        for na, nb in ((False, False), (True, True), (False, True), (True, False)):
            facts = {('isinst', other, ('cls', c.qualname)): True, ('isinst', SELF, ('cls', c.qualname)): True,
                     ('isnone', ('attr', SELF, H)): na, ('isnone', ('attr', other, H)): nb}
            w = ctx.walker(noexc=True, types={SELF: c, other: c}, opaque={H, V}, facts=facts)
            for p in ran(ctx, w, f, c):
                if p.kind != 'return':
                    ctx.bad('equal', c.name, 'sizes can not be compared; path: ' + show_facts(p.facts)[:300], f)
                    continue
                if p.ret[-1] == 'NotImplemented' or p.ret == K(NotImplemented) or p.ret[0] == 'bool' and 'str' in repr(p.ret[1]):
                    outcomes = [(p.facts, False)]       # the texts of different sizes differ
                else:
                    outcomes = decide(w, p.ret, p)
                for facts_, val in outcomes:
                    if any(a[0] == 'eq' and "'type'" in repr(a) and not v for a, v in facts_.items()):
                        continue                        # sizes of another kind
                    same = equal_sizes(facts_, other, single, na, nb)
                    seen.add(val)
                    if impossible(facts_, na, nb, other):
                        continue
                    if same is False and any(a[0] == 'eq' and v and "'str'" in repr(a) for a, v in facts_.items()):
                        continue                        # the texts of different sizes differ
                    ctx.expect(same is not None and same == val, 'equal', c.name,
                               'sizes are %s although %s' % ('equal' if val else 'different', show_facts(facts_)[:300] or 'nothing is known'), f)
        ctx.expect(seen == {True, False}, 'equal', c.name, 'all sizes are %s' % ('equal' if True in seen else 'different'), f)


def parted(facts):
    """with the parts of equal pairs"""
    known = dict(facts)
    for a, v in facts.items():
        if v and a[0] == 'eq' and a[1][0] == a[2][0] == 'tup' and len(a[1][1]) == len(a[2][1]):
            known.update((canon_eq(x, y), True) for x, y in zip(a[1][1], a[2][1]))
    return known


def equal_sizes(facts, other, single, na, nb):
    """what the path knows about both directions being the same"""
    known = parted(facts)
    for a, v in facts.items():
        if a[0] == 'eq' and a[1][0] == a[2][0] == 'tup' and len(a[1][1]) == len(a[2][1]):
            pairs = list(zip(a[1][1], a[2][1]))
            if not v and {frozenset(x) for x in pairs} == {frozenset((('attr', SELF, n), ('attr', other, n))) for n in (H, V)} and not single:
                return False
    res = []
    for n in (H, V):
        a, b = ('attr', SELF, n), ('attr', other, n)
        if n == H:
            if na and nb:
                res.append(True)
                continue
            if na != nb and not single:
                res.append(False)
                continue
            a = ('attr', SELF, V) if na else a
            b = ('attr', other, V) if nb else b
        res.append(eq(a, b).ev(known))
    return False if False in res else None if None in res else True


def impossible(facts, na, nb, other):
    """the path takes an axis that is missing for one of both to be the same"""
    a, b = ('attr', SELF, H), ('attr', other, H)
    v = eq(a, b).ev(parted(facts))
    return v is not None and v != (na and nb) and (na or nb)


@check('C33')
def c33(ctx):
    ctx.rule('read', 'every value the schema allows is taken apart completely, each number with its sign, and as the part it is')
    ctx.rule('write', 'numbers given for a size become a value of the type with these numbers, in order')
    sizes(ctx)
    ctx.rule('time', 'a time is read as the duration it stands for, for every valid text, and a duration is written as a valid text of the same duration to the millisecond')
    ctx.rule('colour', 'every named colour of the schema is converted to the value TTML gives it')
    ctx.rule('calculation', 'percentages of sizes, ratios and changes of the unit are calculated for each direction from the matching parts')
    times(ctx)
    colours(ctx)
    ctx.rule('equal', 'sizes of one kind are equal exactly when they are the same in both directions')
    operators(ctx)
    conversions(ctx)
    equality(ctx)
