"""vocabulary of the machine (struct Cora): return register, frames, tables of names"""
from common import *
import sym

MACHINE = 'the machine satisfies its representation invariant when a builtin returns (frames, C13)'


class CoraReturn(Contract):
    """as a builtin sees it: the value is in the result register and the machine is back in the caller (C13 proves the full contract)"""
    name = 'coraReturn'
    params = ['co', 'val']
    ret_bits = None
    def __init__(self, o): self.o = o
    def modifies(self, c):
        o = self.o
        return [(c.co + o('cora_ctx'), bv(o('sizeof_frame'))), (c.co + o('cora_callstack'), bv(o('sizeof_vec'))), (c.co + o('cora_stk'), bv(o('cora_res') + 8 - o('cora_stk')))]
    def post_effects(self, c):
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(c.co + self.o('cora_res')), c.val, 8)


class Builtin(Contract):
    """a function the machine calls: co, label, R; arguments in R[1..n]; the result goes to the result register"""
    params = ['co', 'label', 'R']
    ret_bits = None
    nargs = 1
    def __init__(self, ctx):
        self.ctx = ctx
        self.o = ctx.off
    def requires(self, c):
        return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True)), ('frame', c.valid(c.R, bv(8 * (self.nargs + 1)), 'frame'))]
    def arg(self, c, i): return c.pre(c.R + 8 * i, 8)
    def res(self, c): return c.post(c.co + self.o('cora_res'), 8)
    def modifies(self, c):
        o = self.o
        return [(c.co + o('cora_ctx'), bv(o('sizeof_frame'))), (c.co + o('cora_callstack'), bv(o('sizeof_vec'))), (c.co + o('cora_stk'), bv(o('cora_res') + 8 - o('cora_stk')))]


class MapGet(Contract):
    """lookup in a table from texts, in the caller's view: the cell of the text if it has one (C07)"""
    name = '_map_get'
    params = ['m', 'k']
    def __init__(self, found, cell, key):
        self.found, self.cell, self.key = found, cell, key
        self.maps = []
    def requires(self, c):
        self.maps.append(c.m)
        kp, kn = self.key(c)
        return [('the key is the text', And(c.pre(c.k, 8) == kp, c.pre(c.k + 8, 4) == kn))]
    def fresh_ret(self, c): return self.cell if self.found else bv(0)


class MapSet(Contract):
    """the call that enters a text into a table (C07); log is a ghost location that records that it happened"""
    name = '_map_set'
    params = ['m', 'k', 'v_', 'ks', 'vs']
    def __init__(self, get, log, check, vs):
        self.get, self.log, self.check, self.size = get, log, check, vs
    def requires(self, c):
        return [('the same table', c.m == self.get.maps[0] if self.get.maps else BoolVal(False)), ('sizes', And(c.ks == 16, c.vs == self.size)),
                ('only when absent', BoolVal(not self.get.found)), ('once', c.pre(self.log(c), 8) == 0)] + self.check(c)
    def modifies(self, c): return [(self.log(c), bv(8))]
    def post_effects(self, c):
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.log(c)), simplify(c.pre(c.v_, 8)), 8)
