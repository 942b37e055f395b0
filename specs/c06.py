from common import *
import vm
import c08
from vm import *
PROBE_STR = c08.PROBE_STR
SOURCES = [PROBE, PROBE_STR, 'src/types.c', 'src/runtime.c']
DRIVER = 'c06.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck']
TRUSTED = [TRACE_ASSUMPTION, ALLOC_ASSUMPTION, vm.MACHINE, 'texts are shorter than 2^28 bytes', 'the table of names is the finite map of C07',
           'the name of a symbol is never changed after interning (no function writes to a string buffer reachable from a symbol word)']
OUTSIDE = ['the text of a generated symbol is produced by snprintf from its address (driver)']


class Intern(c08.Txt):
    """found: the symbol of the entry; absent: a fresh buffer with the text becomes the entry, keyed by its own bytes"""
    params = ['p']
    ghosts = {'K': 64, 'N': 64, 'CELL': 64, 'LOG': 64}
    def __init__(self, ctx, found, get, put):
        c08.Txt.__init__(self, ctx)
        self.found, self.get, self.put = found, get, put
    def requires(self, c):
        self.cx = c
        N = c.G['N']
        self.get.maps.clear()
        self.get.cell = c.G['CELL']
        self.get.key = lambda cc: (c.p, Extract(31, 0, N))
        self.put.log = lambda cc: c.G['LOG']
        r = [('readable', c.valid(c.p, N + 1, 'text')), ('', ULT(N, bv(c08.LIM))), ('', c.pre(c.p + N, 1) == 0),
             ('ghost log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', c.pre(c.G['LOG'], 8) == 0)]
        if self.found:
            r += [('entry', c.valid(c.G['CELL'], bv(8), 'entry')), ('', ULT(c.pre(c.G['CELL'], 8), bv(1 << 47)))]
        return r
    hyps = c08.FromCStr.hyps
    setup = c08.FromCStr.setup
    def modifies(self, c): return [(c.G['LOG'], bv(8))]
    def entry(self, cc):
        """what is entered: key = the bytes of the new buffer, value = the buffer"""
        b, o, c = cc.pre(cc.v_, 8), self.o, self.cx
        N, K = c.G['N'], c.G['K']
        return [('the key is the text of the buffer', And(cc.pre(cc.k, 8) == b + o('sb_data'), cc.pre(cc.k + 8, 4) == Extract(31, 0, N))),
                ('the buffer has the length of the text', cc.pre(b + o('sb_len'), 4) == Extract(31, 0, N)),
                ('the buffer has the bytes of the text', Implies(And(K >= 0, K < N), cc.pre(b + o('sb_data') + K, 1) == c.pre(c.p + K, 1)))]
    def ensures(self, c):
        log = c.post(c.G['LOG'], 8)
        if self.found:
            return [('the symbol of the entry', c.ret == tagged(c.pre(c.G['CELL'], 8), SYMBOL)), ('no entry is made', log == 0)]
        o, N = self.o, c.G['N']
        return [('the symbol of the entry just made', And(log != 0, c.ret == tagged(log, SYMBOL))), ('a new buffer', c.is_fresh(log, bv(o('sb_data')) + N + 1))]


def intern_task(ctx, found):
    get = MapGet(found, None, None)
    put = MapSet(get, None, lambda cc: con.entry(cc), 8)
    con = Intern(ctx, found, get, put)
    return Task('intern', con, [get, put], label='intern: %s' % ('known text' if found else 'new text'))


def symbuf(con, c, sym, name='name'):
    """sym is an interned symbol whose name buffer has any length"""
    return [('an interned symbol', And(has_tag(sym, SYMBOL)))] + con.buf(c, simplify(addr(sym)), name)


class SymbolStr(c08.Txt):
    params = ['sym', 'd', 'sz']
    def requires(self, c):
        return symbuf(self, c, c.sym) + [('destination', c.valid(c.d, c.sz, 'destination', own=True)), ('', ULT(c.sz, bv(1 << 31)))]
    def fits(self, c): return ULT(sx(self.len(c.pre, addr(c.sym))) + 1, c.sz)
    def traps(self, c): return Not(self.fits(c))
    def modifies(self, c): return [(c.d, c.sz)]
    def ensures(self, c):
        p, K = addr(c.sym), c.G['K']
        n = sx(self.len(c.pre, p))
        return [('stops when too long', self.fits(c)), ('ends with NUL', c.post(c.d + n, 1) == 0),
                ('the bytes of the name', Implies(And(K >= 0, K < n), c.post(c.d + K, 1) == self.byte(c.pre, p, K)))]


class SymbolToString(Builtin, c08.Txt):
    ghosts = {'K': 64}
    def requires(self, c):
        return Builtin.requires(self, c) + symbuf(self, c, simplify(self.arg(c, 1))) + [('', self.len(c.pre, addr(simplify(self.arg(c, 1)))) < bv(1 << 26, 32))]
    def ensures(self, c):
        p, q, K, o = addr(simplify(self.arg(c, 1))), addr(self.res(c)), c.G['K'], self.o
        n = self.len(c.pre, p)
        return [('a string', has_tag(self.res(c), BYTES)), ('of the length of the name', c.post(q + o('bytes_len'), 4) == n),
                ('the bytes of the name', Implies(And(K >= 0, K < sx(n)), c.post(q + o('bytes_data') + K, 1) == self.byte(c.pre, p, K)))]


class GenSym(MakeObj):
    params = ['co']
    name = 'primGenSym'
    def requires(self, c): return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine'))]
    def ensures(self, c):
        return self.head(c, PTR, 'symbol', bv(self.o('sizeof_symbol'))) + [('no value yet', c.post(addr(c.ret) + self.o('symbol_value'), 8) == NIL)]


class UIntern(Contract):
    name = 'intern'
    params = ['s']
    def ensures(self, c): return [('', c.ret == SYM(c.s))]


SYM = z3.Function('SYM', W64, W64)


class BuiltinIntern(Builtin):
    def requires(self, c):
        p = simplify(addr(self.arg(c, 1)))
        return Builtin.requires(self, c) + [('object', c.valid(p, bv(self.o('bytes_data')), 'argument'))]
    def ok(self, c): return And(has_tag(self.arg(c, 1), BYTES), c.pre(addr(self.arg(c, 1)) + self.o('head_type'), 1) == self.o('HEAD_bytes'))
    def traps(self, c): return Not(self.ok(c))
    def ensures(self, c):
        return [('stops unless a string', self.ok(c)), ('the symbol of the text', self.res(c) == SYM(simplify(addr(self.arg(c, 1))) + self.o('bytes_data')))]


def lemmas():
    p, q = z3.BitVecs('p q', 64)
    low = lambda x: Extract(63, 48, x) == bv(0, 16)
    return [Lemma('different buffers give different symbols, and the buffer is recovered from the symbol',
                  Implies(And(low(p), low(q)), And((tagged(p, SYMBOL) == tagged(q, SYMBOL)) == (p == q), addr(tagged(p, SYMBOL)) == p))),
            Lemma('an interned symbol is no generated symbol', Implies(And(low(p), low(q)), tagged(p, SYMBOL) != tagged(q, PTR)))]


def tasks(ctx):
    o = ctx.off
    r = [CoraReturn(o)]
    return [intern_task(ctx, True), intern_task(ctx, False), Task('symbolStr', SymbolStr(ctx), label='symbolStr: interned symbol'),
            Task('symbolToString', SymbolToString(ctx), r + [MakeString(ctx)], label='symbol->string: interned symbol'), Task('primGenSym', GenSym(ctx), [GcAlloc(o)]),
            Task('builtinIntern', BuiltinIntern(ctx), r + [UIntern()] + trace_stubs())] + lemmas()
