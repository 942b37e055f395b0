from common import *
import sym
import lists
from cov import Task
SOURCES = [PROBE, 'src/types.c', 'src/reader.c']
DRIVER = 'c16.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck']
TRUSTED = ['lemmas of the grammar, each by induction over the rest of the text: DIGITS_END, SYMBOL_END and SKIP do not lie before their argument, a terminated string has a length between 0 and that of the text', 'the bytes of a name in the buffer, proved at an arbitrary index, hold at each index the loop over digits visits','getc and ungetc deliver the bytes of the text in order, then EOF; strtoll reads decimal digits; fprintf and exit', 'the character classes of the C locale', 'the grammar is deterministic: a text at a position denotes what READ and its unfolding say']
OUTSIDE = ['recursion depth (C stack)', 'printObj and printCons: driver', 'texts with zero bytes in names']
W64 = BitVecSort(64)
B8 = BitVecSort(8)
IN = z3.Function('IN', W64, B8)
LEN = BitVec('LEN', 64)
f1 = lambda n: z3.Function(n, W64, W64)
SKIP, EOL, DEND, LL, READ, NEXT, RC, NC, ELS, LEND, STRV, SEND, SYMV, IEND, SP = map(f1, ['SKIP', 'EOL', 'DEND', 'DECIMAL', 'READ', 'NEXT', 'READ_TAIL', 'NEXT_TAIL', 'ELEMENTS', 'LIST_END', 'STRING', 'STRING_END', 'SYMBOL_AT', 'SYMBOL_END', 'SOURCE'])
BAD, BC, BL = [z3.Function(n, W64, z3.BoolSort()) for n in ('INCOMPLETE', 'INCOMPLETE_TAIL', 'INCOMPLETE_LIST')]
HEAD = z3.Function('HEAD', W64, W64, W64)
SN = f1('STRING_LENGTH')
SB = z3.Function('STRING_BYTE_AT', W64, W64, B8)
UN = z3.Function('UNTERMINATED', W64, z3.BoolSort())
OB = z3.Function('STRING_BYTE', W64, B8)
CONSV = z3.Function('PAIR', W64, W64, W64)
RAV = z3.Function('REVERSE_ONTO', W64, W64, W64)
NAMED = z3.Function('NAMED', W64, W64)      # the symbol of a constant text
EOF = bv(-1, 32)
SPACES = [9, 10, 11, 12, 13, 32]
DELIMS = [ord(x) for x in '()"\'`,;[]']


def space(b): return Or(*[b == s for s in SPACES])
def digit(b): return And(UGE(b, bv(48, 8)), ULE(b, bv(57, 8)))
def delim(b): return Or(space(b), *[b == s for s in DELIMS])
def starts(t): return Or(t == LEN, And(Not(space(IN(t))), IN(t) != ord(';')))
def inside(t): return And(t >= 0, t < LEN)


class Ctype(Contract):
    """the table of character classes"""
    name = '__ctype_b_loc'
    params = []
    def __init__(self, root): self.root = root
    def fresh_ret(self, c): return self.root.G('CT')


class R(Contract):
    """functions of the reader: the stream is a position in the text, with at most one byte pushed back"""
    ghosts = {'K': 64, 'STM': 64, 'CT': 64, 'TAB': 64}
    err = None
    reads = True
    def G(self, n): return simplify(self.cx.G[n])
    def pos(self, rd): return rd(self.G('STM'), 8)
    def back(self, rd): return rd(self.G('STM') + 8, 8)
    def stream(self, c):
        self.cx = c
        r = [('stream', c.valid(c.G['STM'], bv(16), 'stream', own=True)), ('', And(LEN >= 0, LEN < bv(1 << 40))), ('', And(self.pos(c.pre) >= 0, self.pos(c.pre) <= LEN, self.back(c.pre) >= 0, self.back(c.pre) <= 1)), ('class cell', c.valid(c.G['CT'], bv(8), 'class cell', own=True, writable=False)), ('', c.pre(c.G['CT'], 8) == c.G['TAB']), ('class table', c.valid(c.G['TAB'] - 256, bv(768), 'class table', own=True, writable=False))]
        for k in (range(-1, 256) if getattr(self, 'enumerate', False) else ()):
            w = c.pre(c.G['TAB'] + bv(2 * k), 2)
            r.append(('', And((Extract(13, 13, w) == 1) == BoolVal(k in SPACES), (Extract(11, 11, w) == 1) == BoolVal(48 <= k <= 57))))
        return r
    def cls(self, rd, t):
        """the table's entry for one character"""
        w, b = rd(self.G('TAB') + 2 * sx(t), 2), Extract(7, 0, t)
        return Implies(And(t >= -128, t < 256), And((Extract(13, 13, w) == 1) == And(t >= 0, space(b)), (Extract(11, 11, w) == 1) == And(t >= 0, digit(b))))
    def modifies(self, c): return [(c.G['STM'], bv(16))]


class Getc(Contract):
    name = 'getc'
    params = ['f']
    ret_bits = 32
    def __init__(self, root): self.root = root
    def modifies(self, c): return [(self.root.G('STM'), bv(16))]
    def post_effects(self, c):
        g, p = self.root.G('STM'), self.root.pos(c.pre)
        c.st.mem = sym.Mem(c.st.mem, 'store', g, If(p < LEN, p + 1, p), 8)
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(g + 8), bv(0), 8)
    def ensures(self, c):
        p = self.root.pos(c.pre)
        return [('', c.ret == If(p < LEN, zx(IN(p), 32), EOF))] + [('', x) for x in self.root.at(p)]


def zx32(b): return z3.ZeroExt(24, b)


class Ungetc(Contract):
    name = 'ungetc'
    params = ['ch', 'f']
    ret_bits = 32
    def __init__(self, root): self.root = root
    def requires(self, c):
        p = self.root.pos(c.pre)
        return [('the byte just read', Or(c.ch == EOF, And(p > 0, c.ch == zx32(IN(p - 1)), self.root.back(c.pre) == 0)))]
    def modifies(self, c): return [(self.root.G('STM'), bv(16))]
    def post_effects(self, c):
        g, p = self.root.G('STM'), self.root.pos(c.pre)
        c.st.mem = sym.Mem(c.st.mem, 'store', g, If(c.ch == EOF, p, p - 1), 8)
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(g + 8), If(c.ch == EOF, bv(0), bv(1)), 8)


Getc.ensures = lambda self, c: [('', c.ret == If(self.root.pos(c.pre) < LEN, zx32(IN(self.root.pos(c.pre))), EOF))] + [('', x) for x in self.root.at(self.root.pos(c.pre))] + [('', self.root.cls(c.pre, c.ret))]


class Space(R):
    """what is before the next datum: white space and comments"""
    name = 'eatWhitespace'
    params = ['f']
    ret_bits = None
    generic_clauses = False
    def requires(self, c): return self.stream(c) + [('', x) for x in self.at(self.pos(c.pre))]
    def at(self, t):
        return [And(Implies(t == LEN, And(SKIP(t) == t, EOL(t) == t)), Implies(inside(t), And(SKIP(t) == If(space(IN(t)), SKIP(t + 1), If(IN(t) == ord(';'), SKIP(EOL(t + 1)), t)), EOL(t) == If(IN(t) == 10, t + 1, EOL(t + 1)))))]
    def loops(self, view):
        p, p0, pe = self.pos(view.rd), self.pos(self.cx.pre), self.pos(view.rd0)
        for t in (p, p - 1, EOL(p)):
            for x in self.at(t): view.st.assume(x)
        return [('skip', SKIP(p) == SKIP(p0)), ('line', SKIP(EOL(p)) == SKIP(p0)), ('range', And(p >= 0, p <= LEN)), ('back', And(self.back(view.rd) >= 0, self.back(view.rd) <= 1))]
    def ensures(self, c): return [('the next datum', self.pos(c.post) == SKIP(self.pos(c.pre))), ('inside', And(self.pos(c.post) >= 0, self.pos(c.post) <= LEN)), ('not space', starts(self.pos(c.post)))]


class USpace(Contract):
    """the above, for callers"""
    name = 'eatWhitespace'
    params = ['f']
    ret_bits = None
    def __init__(self, root): self.root = root
    def modifies(self, c): return [(self.root.G('STM'), bv(16))]
    def ensures(self, c):
        r, s = self.root, SKIP(self.root.pos(c.pre))
        return [('', And(r.pos(c.post) == s, s >= r.pos(c.pre), s <= LEN, starts(s), r.back(c.post) >= 0, r.back(c.post) <= 1))] + [('', x) for x in r.at(s)]


class Number(R):
    name = 'readNumber'
    params = ['f']
    ghosts = dict(R.ghosts, P=64)
    generic_clauses = False
    def requires(self, c):
        self.cx = c
        p = self.pos(c.pre)
        return self.stream(c) + [('', p == c.G['P']), ('', UGE(c.f, bv(0)))] + [('', x) for x in self.at(p)]
    def at(self, t): return [And(Implies(t == LEN, DEND(t) == t), Implies(inside(t), DEND(t) == If(digit(IN(t)), DEND(t + 1), t))), Implies(And(t >= 0, t <= LEN), And(DEND(t) >= t, DEND(t) <= LEN))]
    def traps(self, c): return DEND(c.G['P']) >= c.G['P'] + 29
    def loops(self, view):
        p, P, K = self.pos(view.rd), self.cx.G['P'], self.cx.G['K']
        out = [('range', And(p >= P, p <= LEN)), ('fresh', self.back(view.rd) == 0)]
        i32 = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 32]
        for n, t in i32:
            out += [('length %s' % n, And(t >= 0, t < 30, sx(t) <= LEN)), ('count %s' % n, DEND(P) == DEND(P + sx(t)))]
            for x in self.at(P + sx(t)) + [self.cls(view.rd, t)]: view.st.assume(x)
            for m, u in i32:
                if n != m: out.append(('at %s %s' % (n, m), Or(And(u == EOF, P + sx(t) == LEN, p == LEN), And(p == P + sx(t) + 1, u == zx32(IN(p - 1))))))
            for r in view.st.regions:
                if r.local and 'buf' in r.name: out.append(('digits %s' % n, Implies(And(K >= 0, K < sx(t)), view.rd(r.base + K, 1) == IN(P + K))))
        return out
    def ensures(self, c): return [('the number', c.ret == NUM(LL(c.G['P']))), ('its end', self.pos(c.post) == DEND(c.G['P']))]


class Strtoll(Contract):
    name = 'strtoll'
    params = ['s', 'e', 'base']
    def __init__(self, root): self.root = root
    def requires(self, c):
        P, K = self.root.G('P'), self.root.G('K')
        n = DEND(P) - P
        return [('decimal', And(c.base == 10, c.e == 0)), ('the digits', Implies(And(K >= 0, K < n), c.pre(c.s + K, 1) == IN(P + K))), ('terminated', c.pre(c.s + n, 1) == 0)]
    def ensures(self, c): return [('', c.ret == LL(self.root.G('P')))]


class Cons(Contract):
    name = 'makeCons'
    params = ['gc', 'a', 'b']
    def __init__(self, root): self.root = root
    def fresh_ret(self, c): return simplify(CONSV(c.a, c.b))
    def ensures(self, c): return [('', RAV(c.ret, q) == RAV(c.b, CONSV(c.a, q))) for q in self.root.queries(c)]


class Datum(R):
    """functions that read data: value, position after it, and whether the text ended"""
    def at(self, t): return []
    def queries(self, c): return [NIL]
    params = ['gc', 'f', 'err']
    def requires(self, c):
        return self.stream(c) + [('error cell', c.valid(c.err, bv(4), 'error cell', own=True)), ('', Or(c.pre(c.err, 4) == 0, c.pre(c.err, 4) == 1))] + [('', x) for x in self.unfold(self.pos(c.pre))]
    def unfold(self, p): return []
    def modifies(self, c): return R.modifies(self, c) + [(c.err, bv(4))]
    def is_err(self, c, b): return (c.post(c.err, 4) != 0) == Or(c.pre(c.err, 4) != 0, b)


class UDatum(Contract):
    name = 'sexpRead'
    params = ['gc', 'f', 'err']
    V, N, B = READ, NEXT, BAD
    def __init__(self, root): self.root = root
    def requires(self, c): return [('error cell', c.err == self.root.cx.err)]
    def modifies(self, c): return [(self.root.G('STM'), bv(16)), (c.err, bv(4))]
    def ensures(self, c):
        r, p = self.root, self.root.pos(c.pre)
        e0, e1, n = c.pre(c.err, 4), c.post(c.err, 4), self.N(p)
        return [('', And(c.ret == self.V(p), r.pos(c.post) == n, n >= p, n <= LEN, r.back(c.post) >= 0, r.back(c.post) <= 1)), ('', Or(e1 == 0, e1 == 1)), ('', (e1 != 0) == Or(e0 != 0, self.B(p)))]


class UTail(UDatum):
    name = 'readCons'
    V, N, B = RC, NC, BC


class UList(UDatum):
    name = 'readListMacro'
    V = staticmethod(lambda p: CONSV(HEAD(SKIP(p), NAMED(bv(0))), ELS(SKIP(p))))
    N = staticmethod(lambda p: LEND(SKIP(p)))
    B = staticmethod(lambda p: BL(SKIP(p)))


class UNumber(UDatum):
    name = 'readNumber'
    params = ['f']
    def requires(self, c): return []
    def modifies(self, c): return [(self.root.G('STM'), bv(16))]
    def ensures(self, c):
        r, p = self.root, self.root.pos(c.pre)
        return [('', And(c.ret == NUM(LL(p)), r.pos(c.post) == DEND(p), DEND(p) >= p, DEND(p) <= LEN, r.back(c.post) >= 0, r.back(c.post) <= 1))]


class Tail(Datum):
    name = 'readCons'
    def unfold(self, p):
        s = SKIP(p)
        w = SKIP(NEXT(s))
        return [Implies(s == LEN, And(RC(p) == NIL, NC(p) == LEN, BC(p))), Implies(And(s < LEN, IN(s) == ord(')')), And(RC(p) == NIL, NC(p) == s + 1, Not(BC(p)))),
                Implies(And(s < LEN, IN(s) != ord(')')), And(RC(p) == CONSV(READ(s), RC(w)), NC(p) == NC(w), BC(p) == Or(BAD(s), BC(w))))]
    def ensures(self, c):
        p = self.pos(c.pre)
        return [('the elements', c.ret == RC(p)), ('its end', self.pos(c.post) == NC(p)), ('incomplete', self.is_err(c, BC(p)))]


class Intern(Contract):
    name = 'intern'
    params = ['s']
    def __init__(self, root): self.root = root
    def ensures(self, c):
        txt = lambda w: And(*[c.pre(c.s + i, 1) == ord(x) for i, x in enumerate(w + '\0')])
        return [('', Implies(txt('list'), c.ret == NAMED(bv(0)))), ('', Implies(txt('list-rest'), c.ret == NAMED(bv(1))))]


class Macro(Datum):
    name = 'readListMacro'
    generic_clauses = False
    def unfold(self, p):
        return [RAV(NIL, ELS(SKIP(p))) == ELS(SKIP(p))]
    def step(self, w):
        h = z3.Const('h', W64)
        d, n = SKIP(w + 1), SKIP(NEXT(w))
        hs = [NAMED(bv(0)), NAMED(bv(1))]
        end = Or(w == LEN, IN(w) == ord(']'))
        dot = And(w < LEN, IN(w) == ord('.'))
        return [Implies(end, And(ELS(w) == NIL, LEND(w) == If(w == LEN, w, w + 1), Not(BL(w)), *[HEAD(w, x) == x for x in hs])), Implies(And(Not(end), dot), And(ELS(w) == ELS(d), LEND(w) == LEND(d), BL(w) == BL(d), *[HEAD(w, x) == HEAD(d, hs[1]) for x in hs])),
                Implies(And(Not(end), Not(dot)), And(ELS(w) == CONSV(READ(w), ELS(n)), LEND(w) == LEND(n), BL(w) == Or(BAD(w), BL(n)), *[HEAD(w, x) == HEAD(n, x) for x in hs]))]
    def at(self, t): return self.step(t)
    def queries(self, c): return [ELS(SKIP(NEXT(t))) for t in self.heads] + [NIL]
    heads = ()
    def loops(self, view):
        rd, p, p0 = view.rd, self.pos(view.rd), SKIP(self.pos(self.cx.pre))
        e0, e = self.cx.pre(self.cx.err, 4), rd(self.cx.err, 4)
        hs = [NAMED(bv(0)), NAMED(bv(1))]
        out = [('errors', Or(e == 0, e == 1)), ('fresh', self.back(rd) == 0), ('range', And(p >= 0, p <= LEN))]
        v64 = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 64]
        for n, t in view.vals.items():
            if isinstance(t, z3.BoolRef) or t.size() != 32: continue
            w = If(t == EOF, LEN, p - 1)
            self.heads = (w,)
            for x in self.step(w): view.st.assume(x)
            out += [('at %s' % n, Or(And(t == EOF, p == LEN), And(p > 0, t == zx32(IN(p - 1))))), ('end %s' % n, LEND(w) == LEND(p0)), ('incomplete %s' % n, Or(e != 0, BL(w)) == Or(e0 != 0, BL(p0)))]
            for m, u in v64:
                out += [('elements %s %s' % (n, m), RAV(u, ELS(w)) == ELS(p0)), ('head %s %s' % (n, m), And(HEAD(w, u) == HEAD(p0, hs[0]), Or(u == hs[0], u == hs[1])))]
        return out
    def ensures(self, c):
        s = SKIP(self.pos(c.pre))
        return [('the list', c.ret == CONSV(HEAD(s, NAMED(bv(0))), ELS(s))), ('its end', self.pos(c.post) == LEND(s)), ('incomplete', self.is_err(c, BL(s)))]


class Reverse(Contract):
    name = 'reverse'
    params = ['gc', 'l']
    def fresh_ret(self, c): return simplify(RAV(c.l, NIL))


class Ident(Contract):
    name = 'isIdentifierChar'
    params = ['ch']
    ret_bits = 'bool'
    enumerate = True
    ghosts = R.ghosts
    cxc = None
    def requires(self, c): return R.stream(self, c) + [('a byte or EOF', And(c.ch >= -1, c.ch < 256))]
    G, pos, back = R.G, R.pos, R.back
    def ensures(self, c): return [('not a delimiter', c.ret == And(c.ch != EOF, Not(delim(Extract(7, 0, c.ch)))))]


class UIdent(Ident):
    def requires(self, c): return [('a byte or EOF', And(c.ch >= -1, c.ch < 256))]


class MakeStr(Contract):
    name = 'makeString'
    params = ['gc', 's', 'n']
    def __init__(self, root): self.root = root
    def requires(self, c):
        K, t = self.root.G('K'), self.root.s + 1
        return [('the length', sx(c.n) == SN(t)), ('the bytes', Implies(And(K >= 0, K < sx(c.n)), c.pre(c.s + K, 1) == SB(t, K)))]
    def ensures(self, c): return [('', c.ret == STRV(self.root.s + 1))]


class Text(Contract):
    """a function of the symbol's text in the buffer"""
    params = ['s', 'e', 'base']
    def __init__(self, root, name, value): self.root, self.name, self.value = root, name, value
    def requires(self, c):
        K, t = self.root.G('K'), self.root.s
        n = IEND(t) - t
        return [('the bytes', Implies(And(K >= 0, K < n), c.pre(c.s + K, 1) == IN(t + K))), ('terminated', c.pre(c.s + n, 1) == 0)]
    def ensures(self, c): return [('', c.ret == self.value(self.root.s))]


class Strcmp(Contract):
    name = 'strcmp'
    params = ['a', 'b']
    ret_bits = 32
    def ensures(self, c):
        txt = lambda s, w: And(*[c.pre(s + i, 1) == ord(x) for i, x in enumerate(w + '\0')])
        return [('', Implies(txt(c.b, w), (c.ret == 0) == txt(c.a, w))) for w in ('true', 'false')]


class Read(Datum):
    name = 'sexpRead'
    generic_clauses = False
    def __init__(self, kind, chars, mod):
        self.may_not_return = kind == 'other'
        self.kind, self.label, self.chars, self.mod = kind, 'sexpRead: ' + kind, chars, mod
    def requires(self, c):
        self.cx, self.err = c, c.err
        self.s = SKIP(self.pos(c.pre))
        self.syms = [c.pre(c.v.gaddr(c.st, n, self.mod), 8) for n in ('symQuote', 'symBackQuote', 'symUnQuote')]
        return Datum.requires(self, c) + [('', BoolVal(True) if self.chars is None else self.s == LEN if self.chars == 'end' else And(self.s < LEN, self.chars(IN(self.s))))] + [('', x) for k in range(6) for x in self.at(self.s + k)]
    def at(self, t):
        return [Implies(inside(t), And(IN(t) != 0, IEND(t) == If(delim(IN(t)), t, IEND(t + 1)), DEND(t) == If(digit(IN(t)), DEND(t + 1), t))), Implies(t == LEN, And(IEND(t) == t, DEND(t) == t)),
                Implies(And(t >= 0, t <= LEN), And(DEND(t) >= t, DEND(t) <= LEN, IEND(t) >= t, IEND(t) <= LEN))]
    def string(self, t, j):
        b = If(IN(t) == 92, If(IN(t + 1) == ord('n'), bv(10, 8), IN(t + 1)), IN(t))
        u = If(IN(t) == 92, t + 2, t + 1)
        cut = Or(t == LEN, And(IN(t) == 92, t + 1 == LEN))
        return [Implies(And(t >= 0, t <= LEN, cut), UN(t)), Implies(And(inside(t), IN(t) == 34), And(SN(t) == 0, SEND(t) == t + 1, Not(UN(t)))),
                Implies(And(inside(t), Not(cut), IN(t) != 34), And(SN(t) == 1 + SN(u), SEND(t) == SEND(u), UN(t) == UN(u), SB(t, j) == If(j == 0, b, SB(u, j - 1)), Or(UN(u), And(SN(u) >= 0, SN(u) <= LEN))))]
    def text(self, w): return And(IEND(self.s) == self.s + len(w), *[IN(self.s + i) == ord(x) for i, x in enumerate(w)])
    def value(self):
        """value, end, incomplete, and whether the reader may stop"""
        s, q = self.s, IN(self.s)
        pre = lambda i: (CONSV(self.syms[i], CONSV(READ(s + 1), NIL)), NEXT(s + 1), BAD(s + 1), BoolVal(False))
        no = BoolVal(False)
        neg = And(q == ord('-'), IEND(s) > s + 1, DEND(s + 1) >= IEND(s))
        named = If(neg, NUM(LL(s)), SYMV(s)) if self.kind == 'minus' else If(self.text('true'), TRUE, If(self.text('false'), FALSE, SYMV(s)))
        sym = (named, IEND(s), no, IEND(s) >= s + 999)
        if self.kind in ('name', 'minus'): return sym
        cases = [(s == LEN, (NIL, LEN, BoolVal(True), no)), (digit(q), (NUM(LL(s)), DEND(s), no, no)), (q == ord("'"), pre(0)), (q == ord('`'), pre(1)), (q == ord(','), pre(2)), (q == ord('('), (RC(s + 1), NC(s + 1), BC(s + 1), no)),
                 (q == ord('['), (UList.V(s + 1), UList.N(s + 1), UList.B(s + 1), no)), (q == 34, (STRV(s + 1), SEND(s + 1), no, Or(UN(s + 1), SN(s + 1) >= 1000))), (Not(delim(q)), sym)]
        out = [NIL, s, no, BoolVal(True)]
        for g, v in reversed(cases): out = [If(g, x, y) for x, y in zip(v, out)]
        return out
    def traps(self, c): return self.value()[3]
    def loops(self, view):
        rd, s, K = view.rd, self.s, self.cx.G['K']
        p = self.pos(rd)
        e0, e = self.cx.pre(self.cx.err, 4), rd(self.cx.err, 4)
        i32 = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 32]
        flags = [(n, t) for n, t in view.vals.items() if isinstance(t, z3.BoolRef) or t.size() in (1, 8)]
        bufs = [r for r in view.st.regions if r.local and 'buf' in r.name]
        out = [('range', And(p > s, p <= LEN)), ('fresh', self.back(rd) == 0)]
        for n, t in i32:
            i = sx(t)
            out += [('length %s' % n, And(t >= 0, t <= 999, s + i <= (IEND(s) if flags else LEN)) if flags or len(i32) > 1 else And(t >= 0, t <= 999))]
            if flags:
                # the bytes of the buffer, which the loop before this one leaves as the invariant at an arbitrary place says
                for r in bufs: view.st.assume(Implies(And(t >= 0, s + i < IEND(s)), rd(r.base + i, 1) == IN(s + i)))
                view.st.assume(self.cls(rd, z3.SignExt(24, IN(s + i))))
                for x in self.at(s + i): view.st.assume(x)
                for m, fl in flags:
                    on = fl if isinstance(fl, z3.BoolRef) else Extract(0, 0, fl) == 1
                    one = BoolVal(True) if isinstance(fl, z3.BoolRef) or fl.size() == 1 else Or(fl == 0, fl == 1)
                    out.append(('digits %s %s' % (n, m), And(one, t >= 1, If(on, DEND(s + 1) == DEND(s + i), DEND(s + 1) < s + i))))
                continue
            if len(i32) == 1:
                for x in self.string(p, K - i) + self.at(p): view.st.assume(x)
                out += [('unread %s' % n, And(UN(s + 1) == UN(p), SEND(s + 1) == SEND(p), Or(UN(p), SN(s + 1) == i + SN(p))))]
                for r in bufs: out.append(('string %s' % n, Implies(And(K >= 0, K < i), rd(r.base + K, 1) == SB(s + 1, K)))), out.append(('rest %s' % n, Implies(K >= i, SB(s + 1, K) == SB(p, K - i))))
                continue
            for x in self.at(s + i) : view.st.assume(x)
            out.append(('name %s' % n, IEND(s) == IEND(s + i)))
            for m, u in i32:
                if n != m: out.append(('at %s %s' % (n, m), Or(And(u == EOF, s + i == LEN, p == LEN), And(p == s + i + 1, u == zx32(IN(p - 1))))))
            for r in bufs:
                for k in [K] + [bv(x) for x in range(1 if self.kind == 'minus' else 6)]: out.append(('byte %s %s' % (n, k), Implies(And(k >= 0, k < i), rd(r.base + k, 1) == IN(s + k))))
        return out
    def ensures(self, c):
        v = self.value()
        return [('the datum', c.ret == v[0]), ('its end', self.pos(c.post) == v[1]), ('incomplete', self.is_err(c, v[2]))]


KINDS = [('end', 'end'), ('number', digit), ('prefix or list', lambda b: Or(*[b == ord(x) for x in "'`,(["])), ('string', lambda b: b == 34), ('name', lambda b: And(Not(delim(b)), Not(digit(b)), b != ord('-'))), ('minus', lambda b: b == ord('-')), ('other', lambda b: Or(b == ord(')'), b == ord(']')))]


def tasks(ctx):
    num = OPAQUE_NUM
    out = []
    s, i, n, t, m = Space(), Ident(), Number(), Tail(), Macro()
    io = lambda r: [Getc(r), Ungetc(r), Ctype(r)]
    out.append(Task('eatWhitespace', s, io(s)))
    out.append(Task('isIdentifierChar', i, [Ctype(i)]))
    out.append(Task('readNumber', n, io(n) + num + [Strtoll(n)]))
    out.append(Task('readCons', t, io(t) + [USpace(t), UDatum(t), UTail(t), Cons(t)]))
    out.append(Task('readListMacro', m, io(m) + [USpace(m), UDatum(m), Cons(m), Reverse(), Intern(m)]))
    for kind, chars in KINDS:
        r = Read(kind, chars, ctx.prog.find('sexpRead').module)
        out.append(Task('sexpRead', r, io(r) + num + [USpace(r), UIdent(), UNumber(r), UDatum(r), UTail(r), UList(r), Cons(r), MakeStr(r), Text(r, 'strtoll', LL), Text(r, 'intern', SYMV), Strcmp()], label=r.label, weight=3 if kind in ('name', 'minus') else 1, limit=400 if kind in ('name', 'minus') else None, opts={'cvc5': False} if kind in ('name', 'minus', 'string') else {}))
    return out + lists.reverse_tasks(ctx)
