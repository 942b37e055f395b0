from common import *
import sym
import vm
import c17
from c17 import F, LIM, W64
from vm import *
SOURCES = [PROBE, c17.PROBE_STR, 'src/types.c', 'src/runtime.c', 'lib/toc/internal.c']
DRIVER = 'c21.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck', 'src/str.c', 'src/gc.c', 'src/types.c', 'src/reader.c', 'src/runtime.c', 'src/trace.c', 'src/export.c', 'lib/toc/internal.c']
TRUSTED = [TRACE_ASSUMPTION, ALLOC_ASSUMPTION, vm.MACHINE, 'string buffers of C08, seen as a text that grows', 'fprintf writes what its format says', 'symbolStr gives the name of the symbol (C06)',
           'strings are shorter than 2^24 bytes and hold no NUL byte (generated literals are read up to the first NUL)']
OUTSIDE = ['the code generator lib/toc.cora that puts literals and names together (C22)', 'names of different symbols are different: driver only']
B8 = BitVecSort(8)
POS = z3.Function('POS', W64, W64)      # where the text of byte t starts in the output
OUT = z3.Function('OUT', W64, B8)       # the output
SIMPLE = {ord('"'): ord('"'), 10: ord('n'), 9: ord('t'), 13: ord('r'), 92: 92}   # the escape sequences of C that are used


def special(b): return Or(*[b == k for k in SIMPLE])
def letter(b):
    r = b
    for k, v in SIMPLE.items(): r = If(b == k, bv(v, 8), r)
    return r


class Buf:
    """the buffer in use: its address, its length and its bytes, in ghost memory"""
    def g(self, c): return self.root.cx.G['TXT']
    def cur(self, c): return c.pre(self.g(c), 8)
    def len(self, c): return c.pre(self.g(c) + 8, 8)
    def put(self, c, at, val, n): c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.g(c) + at), val, n)
    def mine(self, c): return [('the current buffer', c.s == self.cur(c))]


class New(Buf, Contract):
    name = 'strNew'
    params = ['cap']
    def __init__(self, root): self.root = root
    def requires(self, c): return [('a capacity', c.cap > 0)]
    def modifies(self, c): return [(self.g(c), bv(16))]
    def fresh_ret(self, c): return fresh('buffer', 64)
    def post_effects(self, c):
        self.put(c, 0, c.ret, 8)
        self.put(c, 8, bv(0), 8)


class Add(Buf, Contract):
    name = 'strAppend'
    params = ['s', 'ch']
    def __init__(self, root): self.root = root
    def requires(self, c): return self.mine(c) + [('room', And(self.len(c) >= 0, self.len(c) < bv(4 * LIM)))]
    def modifies(self, c): return [(self.g(c), bv(16 + 4 * LIM))]
    def fresh_ret(self, c): return fresh('buffer', 64)
    def post_effects(self, c):
        g, l, K = self.g(c), self.len(c), self.root.cx.G['K']
        self.put(c, 0, c.ret, 8)
        self.put(c, 8, l + 1, 8)
    def ensures(self, c):
        g, l, K = self.g(c), self.len(c), self.root.cx.G['K']
        return [('', Implies(And(K >= 0, K <= l), c.post(g + 16 + K, 1) == If(K == l, Extract(7, 0, c.ch), c.pre(g + 16 + K, 1))))]


class Text(Buf, Contract):
    name = 'toStr'
    params = ['s']
    ret_bits = (64, 32)
    def __init__(self, root): self.root = root
    def requires(self, c): return self.mine(c)
    def ensures(self, c): return [('', And(c.ret[0] == self.g(c) + 16, c.ret[1] == Extract(31, 0, self.len(c))))]


class CText(Text):
    name = 'toCStr'
    ret_bits = 64
    def fresh_ret(self, c): return simplify(self.g(c) + 16)
    def ensures(self, c): return []


class Free(Text):
    name = 'strFree'
    ret_bits = None
    def ensures(self, c): return []


class Escape(F):
    generic_clauses = False
    ghosts = {'K': 64, 'TXT': 64}
    def requires(self, c):
        r = F.requires(self, c)
        return r + [('output', c.valid(c.G['TXT'], bv(16 + 4 * LIM), 'output', own=True)), ('', POS(bv(0)) == 0)]
    def hyps(self, c):
        def h(t):
            b, p = self.byte(c, 1, t), POS(t)
            return Implies(And(t >= 0, t < self.n(c, 1)), And(p >= 0, p <= 2 * t, POS(t + 1) == If(special(b), p + 2, p + 1), If(special(b), And(OUT(p) == 92, OUT(p + 1) == letter(b)), OUT(p) == b)))
        return [h]
    def modifies(self, c): return F.modifies(self, c) + [(c.G['TXT'], bv(16 + 4 * LIM))]
    def bounds(self, view): return [('n', self.n(self.cx, 1))]
    def loops(self, view):
        g, K, rd = self.cx.G['TXT'], self.cx.G['K'], view.rd
        l = rd(g + 8, 8)
        v = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 64]
        return [('range %s' % n, And(t >= 0, t <= self.n(self.cx, 1)))  for n, t, e in view.ints()] + [('length %s' % n, And(l == POS(t), POS(t) >= 0, POS(t) <= 2 * t)) for n, t, e in view.ints()] + [('buffer %s' % n, rd(g, 8) == t) for n, t in v] + [('bytes', Implies(And(K >= 0, K < l), rd(g + 16 + K, 1) == OUT(K)))]
    def ensures(self, c):
        n = self.n(c, 1)
        same = simplify(self.res(c) == self.arg(c, 1))
        if z3.is_true(same): return [('unchanged when empty', n == 0)]
        return [('not empty', n > 0)] + self.is_str(c, POS(n), OUT, 'the escaped text')


class Print(Contract):
    """one call to fprintf; the root says what it may be"""
    name = 'fprintf'
    params = ['out', 'fmt', 'value']
    ret_bits = 32
    def __init__(self, root): self.root = root
    def is_fmt(self, c, s): return And(*[c.pre(c.fmt + i, 1) == ord(ch) for i, ch in enumerate(s + '\0')])
    def requires(self, c): return [('the stream', c.out == self.root.stream())] + self.root.prints(self, c)
    def modifies(self, c): return [(self.root.cx.G['LOG'], bv(8))]
    def post_effects(self, c):
        l = self.root.cx.G['LOG']
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(l), c.pre(l, 8) + 1, 8)


class Gen(F):
    nargs, strs = 2, (2,)
    ghosts = {'K': 64, 'LOG': 64}
    def stream(self):
        c = self.cx
        return addr(simplify(self.arg(c, 1)))
    def requires(self, c):
        r = F.requires(self, c)
        return r + [('stream', And(has_tag(self.arg(c, 1), COBJ))), ('log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', c.pre(c.G['LOG'], 8) == 0)]
    def modifies(self, c): return F.modifies(self, c) + [(c.G['LOG'], bv(8))]
    def ensures(self, c): return [('once', c.post(c.G['LOG'], 8) == 1)]


class GenStr(Gen):
    def prints(self, p, c): return [('the text', And(p.is_fmt(c, '%s'), c.value == self.d(self.cx, 2)))]


class GenNum(Gen):
    strs = ()
    def traps(self, c): return Not(ISINT(self.arg(c, 2)))
    def prints(self, p, c): return [('the number', And(Or(p.is_fmt(c, '%lld'), p.is_fmt(c, '%ld')), c.value == IVAL(self.arg(self.cx, 2))))]


class Name(Contract):
    """C06: the text of the symbol, which fits"""
    name = 'symbolStr'
    params = ['sym', 'd', 'sz']
    ret_bits = 32
    def __init__(self, root): self.root = root
    def requires(self, c):
        self.root.start = simplify(c.d)
        return [('the symbol', c.sym == self.root.arg(self.root.cx, 2)), ('buffer', c.valid(c.d, c.sz, 'buffer', own=True)), ('room', UGE(c.sz, bv(256)))]
    def modifies(self, c): return [(c.d, c.sz)]
    def ensures(self, c):
        n = self.root.cx.G['N']
        return [('', And(n >= 0, n < 255, c.post(c.d + n, 1) == 0))]


class GenSym(Gen):
    explicit = True
    strs = ()
    ghosts = {'K': 64, 'LOG': 64, 'N': 64}
    def digit(self, x): return And(x >= 48, x <= 57)
    def prints(self, p, c):
        val = getattr(c, 'value', bv(0))
        v = Extract(7, 0, val) if val.size() > 8 else val
        l = c.pre(self.cx.G['LOG'], 8)
        num = Extract(31, 0, val)
        al = Or(And(v >= 65, v <= 90), And(v >= 97, v <= 122))
        return [('characters of identifiers', Or(p.is_fmt(c, 'v'), p.is_fmt(c, '__'), And(p.is_fmt(c, '_%d'), num >= 0), And(p.is_fmt(c, '%c'), Or(al, self.digit(v))))),
                ('no digit first', Or(l > 0, Not(p.is_fmt(c, '%c')), Not(self.digit(v))))]
    def loops(self, view):
        l = view.rd(self.cx.G['LOG'], 8)
        out = [('count', And(l >= 0, l <= view.it + 1))]
        for n, p, e in view.ptrs():
            out += [('in %s' % n, And(p - self.start >= 0, p - self.start <= self.cx.G['N'])), ('first %s' % n, Or(l > 0, p == self.start)), ('end %s' % n, view.rd(self.start + self.cx.G['N'], 1) == 0),
                    ('start %s' % n, Or(l > 0, Not(self.digit(view.rd(self.start, 1)))))]
        return out
    def ensures(self, c): return []


def lemmas():
    b = z3.BitVec('b', 8)
    dec = lambda x: If(x == ord('n'), bv(10, 8), If(x == ord('t'), bv(9, 8), If(x == ord('r'), bv(13, 8), x)))   # C: \n \t \r, and \" \\ themselves
    return [Lemma('an escape sequence of C denotes the byte', Implies(special(b), And(dec(letter(b)) == b, Or(*[letter(b) == ord(x) for x in 'ntr"\\'])))),
            Lemma('other bytes denote themselves in a literal', Implies(Not(special(b)), And(b != ord('"'), b != 92, b != 10, b != 13)))]


def tasks(ctx):
    base = trace_stubs() + OPAQUE_NUM + [vm.CoraReturn(ctx.off)]
    e, s, n, y = Escape(ctx), GenStr(ctx), GenNum(ctx), GenSym(ctx)
    return [Task('builtinEscapeStr', e, base + [MakeString(ctx), New(e), Add(e), Text(e), CText(e), Free(e)], weight=30, limit=600),
            Task('builtinGenerateStr', s, base + [Print(s)]), Task('builtinGenerateNum', n, base + [Print(n)]), Task('builtinGenerateSym', y, base + [Print(y), Name(y)])] + lemmas()
