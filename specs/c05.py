from common import *
SOURCES = [PROBE, 'src/types.c', 'src/gc.c']
DRIVER = 'c05.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck']
TRUSTED = [ALLOC_ASSUMPTION, 'vectors have fewer than 2^26 elements (a larger object stops in the allocator)',
           'the write barriers store the value in the slot and otherwise touch only collector data (C11)', 'a vector word carries the address of an allocated vector of its capacity']
OUTSIDE = ['vector builtins registered by runtime.c reach these functions through the frame (driver)']


class Barrier(Contract):
    """*slot = val, and collector data (proved in C11)"""
    name = 'writeBarrierForIncremental'
    params = ['gc', 'slot', 'val']
    ret_bits = None
    def modifies(self, c): return [(c.slot, bv(8))]
    def ensures(self, c): return [('the slot holds the value', c.post(c.slot, 8) == c.val)]


class GenBarrier(Contract):
    """remembers the vector: only the remembered-set link of its header (bytes 8..24)"""
    name = 'writeBarrierForGeneration'
    params = ['gc', 'v_', 'val']
    ret_bits = None
    def __init__(self, o): self.o = o
    def modifies(self, c): return [(c.v_ + self.o('headex_rset'), bv(self.o('sizeof_headex') - self.o('headex_rset')))]


class Vec(Contract):
    ghosts = {'K': 64}
    def __init__(self, ctx):
        self.ctx = ctx
        self.o = ctx.off
    def size(self, rd, p): return rd(p + self.o('vector_size'), 4)
    def cap(self, rd, p): return rd(p + self.o('vector_cap'), 4)
    def at(self, rd, p, i): return rd(p + self.o('vector_data') + 8 * i, 8)
    def vec(self, c, x, own=True):
        p = simplify(addr(x))
        cap = self.cap(c.pre, p)
        n = self.size(c.pre, p)
        return [('sizes', And(n >= 0, n <= cap, cap >= 0, cap < bv(1 << 24, 32))),
                ('an object', c.valid(p, bv(self.o('vector_data')) + 8 * sx(cap), 'vector', own=own)),
                ('boxed', boxed(x)), ('tagged as a general object', tagof(x) == PTR)]
    def isvec(self, c, x): return c.pre(addr(x) + self.o('head_type'), 1) == self.o('HEAD_vector')


class Ref(Vec):
    params = ['x', 'i']
    def requires(self, c): return self.vec(c, c.x)
    def ok(self, c): return And(self.isvec(c, c.x), c.i >= 0, c.i < self.size(c.pre, addr(c.x)))
    def traps(self, c): return Not(self.ok(c))
    def ensures(self, c): return [('stops outside the length', self.ok(c)), ('the element', c.ret == self.at(c.pre, addr(c.x), sx(c.i)))]


class Set(Vec):
    params = ['gc', 'x', 'i', 'val']
    ok = Ref.ok
    def requires(self, c): return self.vec(c, c.x)
    def traps(self, c): return Not(self.ok(c))
    def modifies(self, c):
        p = addr(c.x)
        return [(p + self.o('vector_data') + 8 * sx(c.i), bv(8)), (p + self.o('headex_rset'), bv(self.o('sizeof_headex') - self.o('headex_rset')))]
    def ensures(self, c):
        K, p = c.G['K'], addr(c.x)
        n = self.size(c.pre, p)
        return [('stops outside the length', self.ok(c)), ('the vector', c.ret == c.x), ('that index holds the value', self.at(c.post, p, sx(c.i)) == c.val),
                ('no other element changes', Implies(And(K >= 0, K < sx(n), K != sx(c.i)), self.at(c.post, p, K) == self.at(c.pre, p, K))),
                ('the length stays', And(self.size(c.post, p) == n, self.cap(c.post, p) == self.cap(c.pre, p)))]


class Length(Vec):
    params = ['x']
    ret_bits = 32
    field = 'size'
    def requires(self, c): return self.vec(c, c.x)
    def traps(self, c): return Not(self.isvec(c, c.x))
    def ensures(self, c): return [('stops unless a vector', self.isvec(c, c.x)), (self.field, c.ret == c.pre(addr(c.x) + self.o('vector_' + self.field), 4))]


class Capacity(Length):
    field = 'cap'


class Append(Vec):
    params = ['gc', 'x', 'val']
    def requires(self, c): return self.vec(c, c.x)
    def traps(self, c): return Or(Not(self.isvec(c, c.x)), self.cap(c.pre, addr(c.x)) == 0)
    def modifies(self, c):
        p = addr(c.x)
        n, cap = self.size(c.pre, p), self.cap(c.pre, p)
        room = n < cap
        return [(p + self.o('vector_data') + 8 * sx(n), If(room, bv(8), bv(0))), (p + self.o('vector_size'), If(room, bv(4), bv(0))),
                (p + self.o('headex_rset'), bv(self.o('sizeof_headex') - self.o('headex_rset')))]
    def ensures(self, c):
        K, p = c.G['K'], addr(c.x)
        n = self.size(c.pre, p)
        q = simplify(addr(c.ret))
        return [('stops unless a vector', self.isvec(c, c.x)), ('a vector', And(has_tag(c.ret, PTR), c.post(q + self.o('head_type'), 1) == self.o('HEAD_vector'))),
                ('one longer', self.size(c.post, q) == n + 1), ('within the storage', self.size(c.post, q) <= self.cap(c.post, q)),
                ('new storage is an object of that capacity', Or(q == p, c.is_fresh(q, bv(self.o('vector_data')) + 8 * sx(self.cap(c.post, q))))),
                ('the old elements stay', Implies(And(K >= 0, K < sx(n)), self.at(c.post, q, K) == self.at(c.pre, p, K))),
                ('the new element is last', self.at(c.post, q, sx(n)) == c.val),
                ('the argument keeps its elements', Implies(And(K >= 0, K < sx(n)), self.at(c.post, p, K) == self.at(c.pre, p, K)))]


def tasks(ctx):
    o = ctx.off
    b = [Barrier(), GenBarrier(o)]
    return [Task('makeVector', MakeVector(ctx), [GcAlloc(o)]), Task('vectorRef', Ref(ctx)), Task('vectorSet', Set(ctx), b), Task('vectorLength', Length(ctx)),
            Task('vectorCapacity', Capacity(ctx)), Task('vectorAppend', Append(ctx), b + [MakeVector(ctx)])]
