from common import *
import vm
import c06
import c08
from vm import *
from c05 import Barrier, GenBarrier
SOURCES = [PROBE, c08.PROBE_STR, 'src/types.c', 'src/runtime.c', 'src/export.c']
DRIVER = 'c15.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck']
TRUSTED = [TRACE_ASSUMPTION, ALLOC_ASSUMPTION, vm.MACHINE, 'there are fewer than 2^24 global variables',
           'the table of names is the finite map of C07, its entries are written by bindSymbol only (symbol and index, contract of bindSymbol), so an index in it is below the number of globals',
           'the write barriers store the value in the slot and otherwise touch only collector data (C11)']
OUTSIDE = ['loading of packages']


class Glob(Contract):
    """globals: array data[0..n), n <= cap; the table of names holds for the name of sym the cell CELL = {symbol, index}, or nothing"""
    ghosts = {'K': 64, 'CELL': 64, 'LOG': 64}
    found = True
    gensym = False
    def __init__(self, ctx, found=True, gensym=False):
        self.ctx, self.o = ctx, ctx.off
        self.txt = c08.Txt(ctx)
        self.found, self.gensym = found, gensym
        self.get = MapGet(found, None, None)
        self.put = MapSet(self.get, None, self.entry, self.o('sizeof_bind'))
    def maps(self): return [self.get, self.put]
    def g(self, rd, co, f, n): return rd(co + self.o('cora_globals') + self.o('vec_' + f), n)
    def len(self, rd, c): return self.g(rd, c.co, 'len', 4)
    def at(self, rd, c, i): return rd(self.g(rd, c.co, 'data', 8) + 8 * i, 8)
    def machine(self, c):
        cap, n = self.g(c.pre, c.co, 'cap', 4), self.len(c.pre, c)
        return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True)), ('globals', And(n >= 0, n <= cap, cap > 0, cap < bv(1 << 24, 32))),
                ('global values', c.valid(self.g(c.pre, c.co, 'data', 8), 8 * sx(cap), 'globals', own=True))]
    def table(self, c, sym):
        """the name of sym in the table of names"""
        self.cx, self.sym = c, sym
        self.get.maps.clear()
        self.get.cell = c.G['CELL']
        b = simplify(addr(sym))
        self.get.key = lambda cc: (b + self.o('sb_data'), self.txt.len(c.pre, b))
        self.put.log = lambda cc: c.G['LOG']
        r = [('interned symbol', has_tag(sym, SYMBOL))] + self.txt.buf(c, b, 'name') + [('ghost log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', c.pre(c.G['LOG'], 8) == 0)]
        if self.found:
            r += [('entry', c.valid(c.G['CELL'], bv(self.o('sizeof_bind')), 'entry')), ('index of the entry', And(self.idx(c) >= 0, self.idx(c) < self.len(c.pre, c)))]
        return r
    def idx(self, c): return c.pre(c.G['CELL'] + self.o('bind_idx'), 4)
    def entry(self, cc):
        b, c = simplify(addr(self.sym)), self.cx
        return [('entered under the name of the symbol', And(cc.m == c.co + self.o('cora_env'), cc.pre(cc.k, 8) == b + self.o('sb_data'), cc.pre(cc.k + 8, 4) == self.txt.len(c.pre, b))),
                ('the entry is the symbol and the next free index', And(cc.pre(cc.v_, 8) == self.sym, cc.pre(cc.v_ + self.o('bind_idx'), 4) == self.len(c.pre, c)))]
    def frame(self, c):
        return [(c.co + self.o('cora_globals'), bv(self.o('sizeof_vec'))), (self.g(c.pre, c.co, 'data', 8), 8 * sx(self.g(c.pre, c.co, 'cap', 4))), (c.G['LOG'], bv(8))]
    def logged(self, c):
        return ('the name is entered exactly if it was unknown', (c.post(c.G['LOG'], 8) == 0) if self.found else (c.post(c.G['LOG'], 8) == self.sym))
    def place(self, c):
        """(index of the variable, number of globals afterwards)"""
        n = self.len(c.pre, c)
        return (self.idx(c), n) if self.found else (n, n + 1)
    def all_but(self, c, i):
        K = c.G['K']
        return ('every other variable keeps its value', Implies(And(K >= 0, K < sx(self.len(c.pre, c)), K != sx(i)), self.at(c.post, c, K) == self.at(c.pre, c, K)))
    def sound(self, c):
        n, cap = self.len(c.post, c), self.g(c.post, c.co, 'cap', 4)
        return [('number of variables', n == self.place(c)[1]), ('within the storage', And(n <= cap, cap > 0)),
                ('storage', c.alive(c.v.resolve(c.st, self.g(c.post, c.co, 'data', 8)), 8 * sx(cap)))]
    def old(self, c): return self.at(c.pre, c, sx(self.idx(c))) if self.found else UNDEF


class Bind(Glob):
    params = ['co', 'sym']
    name = 'bindSymbol'
    ret_bits = (64, 32)
    def requires(self, c): return self.machine(c) + self.table(c, c.sym)
    def modifies(self, c): return self.frame(c)
    def ensures(self, c):
        i, n = self.place(c)
        r = self.sound(c) + [self.logged(c), ('the index of the variable', c.ret[1] == i)]
        if self.found:
            return r + [('the symbol', c.ret[0] == c.pre(c.G['CELL'] + self.o('bind_name'), 8)), self.all_but(c, bv(-1, 32))]
        return r + [('the symbol', c.ret[0] == c.sym), ('a new variable has no value', self.at(c.post, c, sx(i)) == UNDEF), self.all_but(c, i)]


class Get(Glob):
    params = ['co', 'sym']
    def requires(self, c): return self.machine(c) + self.table(c, c.sym)
    def modifies(self, c): return self.frame(c)
    def value(self, c, res):
        return [('the value of the variable', res == self.old(c)), self.logged(c), self.all_but(c, bv(-1, 32) if self.found else self.place(c)[0])] + self.sound(c)
    def ensures(self, c): return self.value(c, c.ret)


class SetG(Glob):
    params = ['co', 'sym', 'val']
    def requires(self, c): return self.machine(c) + self.table(c, c.sym)
    def modifies(self, c): return self.frame(c)
    def ensures(self, c):
        i, n = self.place(c)
        return [('the value', c.ret == c.val), ('the variable holds the value', self.at(c.post, c, sx(i)) == c.val), self.logged(c), self.all_but(c, i)] + self.sound(c)


class Generated(Glob):
    """variables of generated symbols live in the symbol object"""
    ghosts = {}
    def gen(self, c, sym):
        p = simplify(addr(sym))
        self.p = p
        return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True)), ('generated symbol', And(has_tag(sym, PTR), c.pre(p + self.o('head_type'), 1) == self.o('HEAD_symbol'))),
                ('object', c.valid(p, bv(self.o('sizeof_symbol')), 'symbol', own=True))]
    def requires(self, c): return self.gen(c, c.sym)
    def val(self, rd): return rd(self.p + self.o('symbol_value'), 8)


class GenGet(Generated):
    params = ['co', 'sym']
    def ensures(self, c): return [('the value in the symbol', c.ret == self.val(c.pre))]


class GenSet(Generated):
    params = ['co', 'sym', 'x']
    def modifies(self, c): return [(self.p + self.o('symbol_value'), bv(8)), (self.p + self.o('headex_rset'), bv(self.o('sizeof_headex') - self.o('headex_rset')))]
    def ensures(self, c): return [('the value', c.ret == c.x), ('the symbol holds the value', self.val(c.post) == c.x)]


class Wrong(Glob):
    """neither an interned nor a generated symbol: stops"""
    ghosts = {}
    may_not_return = True
    def __init__(self, ctx, setter):
        Glob.__init__(self, ctx)
        self.params = ['co', 'sym', 'val'] if setter else ['co', 'sym']
    def requires(self, c):
        p = simplify(addr(c.sym))
        return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True)), ('object', c.valid(p, bv(16), 'object')),
                ('no symbol', And(Not(has_tag(c.sym, SYMBOL)), Not(And(tagof(c.sym) == bv(PTR, 3), c.pre(p + self.o('head_type'), 1) == self.o('HEAD_symbol'))), boxed(c.sym)))]
    def traps(self, c): return BoolVal(True)
    def ensures(self, c): return [('never returns', BoolVal(False))]


class Value(Glob):
    """builtin (value sym) / (value-or sym default)"""
    params = ['co', 'label', 'R']
    ret_bits = None
    def __init__(self, ctx, found, default, gensym=False):
        Glob.__init__(self, ctx, found, gensym)
        self.default = default
    def arg(self, c, i): return simplify(c.pre(c.R + 8 * i, 8))
    def requires(self, c):
        r = self.machine(c) + [('frame', c.valid(c.R, bv(8 * (3 if self.default else 2)), 'frame'))]
        return r + self.table(c, self.arg(c, 1))
    def traps(self, c): return BoolVal(False) if self.default else self.old(c) == UNDEF
    def modifies(self, c): return self.frame(c) + Builtin.modifies(self, c)
    def ensures(self, c):
        res = c.post(c.co + self.o('cora_res'), 8)
        v = If(self.old(c) == UNDEF, self.arg(c, 2), self.old(c)) if self.default else self.old(c)
        r = [('stops unless it has a value', self.old(c) != UNDEF)] if not self.default else []
        return r + [('the value%s' % (' or the default' if self.default else ''), res == v), self.logged(c), self.all_but(c, bv(-1, 32))] + self.sound(c)


class GenValue(Generated):
    params = ['co', 'label', 'R']
    ret_bits = None
    arg = Value.arg
    def __init__(self, ctx, default):
        Glob.__init__(self, ctx)
        self.default = default
    def requires(self, c): return [('frame', c.valid(c.R, bv(8 * (3 if self.default else 2)), 'frame'))] + self.gen(c, self.arg(c, 1))
    def old(self, c): return self.val(c.pre)
    def traps(self, c): return BoolVal(False) if self.default else self.old(c) == UNDEF
    def modifies(self, c): return Builtin.modifies(self, c)
    def ensures(self, c):
        res = c.post(c.co + self.o('cora_res'), 8)
        v = If(self.old(c) == UNDEF, self.arg(c, 2), self.old(c)) if self.default else self.old(c)
        return [('the value in the symbol', res == v)]


class Ref(Glob):
    """globalRef, globalSet at a binding"""
    ghosts = {'K': 64}
    def __init__(self, ctx, setter):
        Glob.__init__(self, ctx)
        self.setter = setter
        self.params = ['co', 'b', 'val'] if setter else ['co', 'b']
        self.ret_bits = None if setter else 64
    def i(self, c): return c.pre(c.b + self.o('bind_idx'), 4)
    def requires(self, c): return self.machine(c) + [('binding', c.valid(c.b, bv(self.o('sizeof_bind')), 'binding')), ('below the number of variables', self.i(c) < self.len(c.pre, c))]
    def traps(self, c): return self.i(c) < 0
    def modifies(self, c): return [(self.g(c.pre, c.co, 'data', 8) + 8 * sx(self.i(c)), bv(8))] if self.setter else []
    def ensures(self, c):
        if not self.setter:
            return [('the value of the variable', c.ret == self.at(c.pre, c, sx(self.i(c))))]
        return [('the variable holds the value', self.at(c.post, c, sx(self.i(c))) == c.val), self.all_but(c, self.i(c))]


class Api(Contract):
    def __init__(self, name, params, fn): self.name, self.params, self.fn = name, params, fn
    def ensures(self, c): return [('', c.ret == self.fn(*[getattr(c, p) for p in self.params]))]


def lemmas():
    i, j, n, m = z3.BitVecs('i j n m', 32)
    return [Lemma('a new variable shares its place with no other', Implies(And(j >= 0, j < n, i == n), i != j)),
            Lemma('an index stays below the number of variables when the number grows', Implies(And(j >= 0, j < n, Or(m == n, m == n + 1), n < (1 << 24)), j < m))]


def tasks(ctx):
    o = ctx.off
    ret = [CoraReturn(o)]
    bar = [Barrier(), GenBarrier(o)]
    out = []
    for f in (True, False):
        w = ' (known name)' if f else ' (new name)'
        for fn, C, extra in (('bindSymbol', Bind, []), ('symbolGet', Get, []), ('primSet', SetG, bar)):
            con = C(ctx, f)
            out.append(Task(fn, con, con.maps() + extra, label=fn + w))
        for fn, d in (('builtinValue', False), ('builtinValueOr', True)):
            con = Value(ctx, f, d)
            if f or d:
                out.append(Task(fn, con, con.maps() + ret + trace_stubs(), label=fn + w))
    out += [Task('symbolGet', GenGet(ctx), label='symbolGet (generated symbol)'), Task('primSet', GenSet(ctx), bar, label='primSet (generated symbol)'),
            Task('builtinValue', GenValue(ctx, False), ret + trace_stubs(), label='builtinValue (generated symbol)'),
            Task('builtinValueOr', GenValue(ctx, True), ret + trace_stubs(), label='builtinValueOr (generated symbol)'),
            Task('symbolGet', Wrong(ctx, False), label='symbolGet (no symbol)'), Task('primSet', Wrong(ctx, True), label='primSet (no symbol)'),
            Task('p_globalRef', Ref(ctx, False)), Task('p_globalSet', Ref(ctx, True), bar)]
    F = z3.Function('SGET', W64, W64, W64)
    G = z3.Function('PSET', W64, W64, W64, W64)
    out += [Task('coraSymbolGet', Api('coraSymbolGet', ['co', 'sym'], F), [Api('symbolGet', ['co', 'sym'], F)]),
            Task('coraPrimSet', Api('coraPrimSet', ['co', 'key', 'val'], G), [Api('primSet', ['co', 'key', 'val'], G)])]
    return out + lemmas()
