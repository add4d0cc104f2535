# -*- coding: utf-8 -*-
"""Regular languages: schema patterns against the expressions the code reads values with (nothing is matched at run time)."""
try:
    import re._parser as sre_parse
    import re._constants as sre
except ImportError:            # before Python 3.11
    import sre_parse
    import sre_constants as sre

ALPHABET = [chr(i) for i in range(32, 127)] + ['\t', '\n', '\r']
DIGITS = frozenset('0123456789')
SPACES = frozenset(' \t\n\r\x0b\x0c')
WORD = frozenset(c for c in ALPHABET if c.isalnum() or c == '_')
ALL = frozenset(ALPHABET)
CATS = {sre.CATEGORY_DIGIT: DIGITS, sre.CATEGORY_NOT_DIGIT: ALL - DIGITS, sre.CATEGORY_SPACE: SPACES, sre.CATEGORY_NOT_SPACE: ALL - SPACES,
        sre.CATEGORY_WORD: WORD, sre.CATEGORY_NOT_WORD: ALL - WORD}


class Unsupported(Exception):
    pass


def parse(pattern, flags=0):
    return sre_parse.parse(pattern, flags)


def charset(items):
    out, neg = set(), False
    for op, av in items:
        if op is sre.NEGATE:
            neg = True
        elif op is sre.LITERAL:
            out.add(chr(av))
        elif op is sre.RANGE:
            out |= {chr(i) for i in range(av[0], av[1] + 1)}
        elif op is sre.CATEGORY:
            out |= CATS[av]
        else:
            raise Unsupported(str(op))
    return frozenset(ALL - out if neg else out)


class Prog(object):
    """a backtracking program: ('char', set) ('split', a, b) ('jmp', a) ('begin',) ('end',) ('match',)"""

    def __init__(self, pattern, flags=0, search=False):
        self.tree = parse(pattern, flags)
        self.icase = bool(self.tree.state.flags & sre_parse.SRE_FLAG_IGNORECASE)
        self.code = []
        if search:
            self.repeat(0, sre.MAXREPEAT, False, lambda: self.emit('char', ALL))
        self.seq(self.tree)
        self.emit('match')

    def emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def seq(self, items):
        for op, av in items:
            self.one(op, av)

    def char(self, s):
        if self.icase:
            s = frozenset(s) | {c.lower() for c in s} | {c.upper() for c in s}
        self.emit('char', frozenset(s))

    def one(self, op, av):
        if op is sre.LITERAL:
            self.char({chr(av)})
        elif op is sre.NOT_LITERAL:
            self.char(ALL - {chr(av)})
        elif op is sre.ANY:
            self.char(ALL - {'\n'})
        elif op is sre.IN:
            self.char(charset(av))
        elif op is sre.SUBPATTERN:
            self.seq(av[-1])
        elif op is sre.BRANCH:
            jumps = []
            alts = av[1]
            for i, alt in enumerate(alts):
                if i < len(alts) - 1:
                    s = self.emit('split', None, None)
                    self.seq(alt)
                    jumps.append(self.emit('jmp', None))
                    self.code[s] = ('split', s + 1, len(self.code))
                else:
                    self.seq(alt)
            for j in jumps:
                self.code[j] = ('jmp', len(self.code))
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = av
            self.repeat(lo, hi, op is sre.MAX_REPEAT, lambda: self.seq(sub))
        elif op is sre.AT:
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                self.emit('begin')
            elif av in (sre.AT_END, sre.AT_END_STRING):
                self.emit('end')
            else:
                raise Unsupported(str(av))
        else:
            raise Unsupported(str(op))

    def repeat(self, lo, hi, greedy, body):
        for _ in range(lo):
            body()
        if hi is sre.MAXREPEAT or hi == sre.MAXREPEAT:
            s = self.emit('split', None, None)
            body()
            self.emit('jmp', s)
            n = len(self.code)
            self.code[s] = ('split', s + 1, n) if greedy else ('split', n, s + 1)
        else:
            ss = []
            for _ in range(hi - lo):
                ss.append(self.emit('split', None, None))
                body()
            n = len(self.code)
            for s in ss:
                self.code[s] = ('split', s + 1, n) if greedy else ('split', n, s + 1)

    def close(self, pcs, first=False, last=False, cut=False):
        """threads in order of preference; cut: lower ones end where a match is found"""
        out, seen = [], set()

        def go(pc):
            if pc in seen:
                return False
            seen.add(pc)
            ins = self.code[pc]
            if ins[0] == 'jmp':
                return go(ins[1])
            if ins[0] == 'split':
                return go(ins[1]) or go(ins[2])
            if ins[0] == 'begin':
                return first and go(pc + 1)
            if ins[0] == 'end':
                if last:
                    return go(pc + 1)
                out.append(pc)
                return False
            out.append(pc)
            return cut and ins[0] == 'match'
        for pc in pcs:
            if go(pc):
                break
        return tuple(out)

    def step(self, threads, c):
        return [pc + 1 for pc in threads if self.code[pc][0] == 'char' and c in self.code[pc][1]]

    def matched(self, threads, cut=False):
        """a thread has matched when the input ends here"""
        return any(self.code[pc][0] == 'match' for pc in self.close(threads, last=True, cut=cut))


def classes(*progs):
    """characters no program tells apart -> one representative each"""
    sets = {ins[1] for p in progs for ins in p.code if ins[0] == 'char'}
    reps = {}
    for c in reversed(ALPHABET):
        reps[tuple(c in s for s in sorted(sets, key=sorted)) + (c in '\t\n\r',)] = c
    return sorted(reps.values())


def uncovered(spec, reader, full=False):
    """a word of spec that reader does not match as a whole (None: there is none).  full: the reader has to match the whole word anyway"""
    chars = [c for c in classes(spec, reader) if c not in '\t\n\r']      # other white space was replaced before
    start = (frozenset(spec.close([0], first=True)), reader.close([0], first=True, cut=not full))
    todo, seen = [(start, '')], {start}
    while todo:
        (a, b), word = todo.pop(0)
        if spec.matched(a) and not reader.matched(b, cut=not full):
            return word
        for c in chars:
            na = frozenset(spec.close(spec.step(a, c)))
            if not na:
                continue
            nb = reader.close(reader.step(b, c), cut=not full)
            if (na, nb) not in seen:
                seen.add((na, nb))
                todo.append(((na, nb), word + c))
    return None


def accepts(prog, word):
    t = prog.close([0], first=True)
    for c in word:
        t = prog.close(prog.step(t, c))
    return prog.matched(t)


def outside(tree):
    """characters that may be matched outside of every capturing group"""
    out = set()
    for op, av in tree:
        if op is sre.SUBPATTERN:
            if av[0] is None:
                out |= outside(av[-1])
        elif op is sre.BRANCH:
            for alt in av[1]:
                out |= outside(alt)
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            out |= outside(av[2])
        elif op is sre.LITERAL:
            out.add(chr(av))
        elif op is sre.NOT_LITERAL:
            out |= ALL - {chr(av)}
        elif op is sre.ANY:
            out |= ALL
        elif op is sre.IN:
            out |= charset(av)
    return out


def groups(tree, optional=False):
    """[(number, may be missing, [items])] of the capturing groups, outermost ones"""
    out = []
    for op, av in tree:
        if op is sre.SUBPATTERN:
            if av[0] is None:
                out += groups(av[-1], optional)
            else:
                out.append((av[0], optional, av[-1]))
                out += groups(av[-1], optional)
        elif op is sre.BRANCH:
            for alt in av[1]:
                out += groups(alt, True)
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            out += groups(av[2], optional or av[0] == 0)
    return out
