import os
from common import *
import sym
PROBE_GC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe_gc.c')
SOURCES = [PROBE_GC]
DRIVER = 'c10.c'
TRUSTED = [TRACE_ASSUMPTION, 'the collector keeps the invariant of blocks and of arenas that the allocator relies on and keeps (a block of a size class: its position is a multiple of the class size within 4096, its memory lies in its arena',
           'mmap and malloc return fresh memory, mmap aligned to 4096', 'constructors give the object they allocate a type before the next allocation']
OUTSIDE = ['objects in use are those the collector has not left behind (C11)',
           'heapArenaAllocLarge and gcAllocLargeObject (objects of 4096 bytes and more) are exercised by the driver only: the contract AllocLarge is written down, but its nested loops exceed the solver']
BLOCK, BLOCKS = 4096, 16384
NODE = z3.Function('NODE', z3.BitVecSort(32), z3.BoolSort())
lo = lambda t: simplify(Extract(31, 0, t))


class H(Contract):
    def __init__(self, ctx): self.ctx, self.o = ctx, ctx.off
    def gcf(self, rd, gc, f, n): return rd(gc + self.o('gc_' + f), n)
    def gc_valid(self, c): return ('collector', c.valid(c.gc, bv(self.o('sizeof_gc')), 'collector', own=True))
    def bf(self, rd, b, f): return rd(b + self.o('block_' + f), 8 if f in ('ha', 'base', 'next') else 4)
    def cls(self, c, slot):
        mod = self.ctx.prog.find('getSlotBySize').module
        return c.pre(c.v.gaddr(c.st, 'sizeClass', mod) + 4 * sx(slot), 4)
    def behind(self, v1, v2):
        d = (v1 - v2) & 63
        return Or(And(d > 0, d < 32), And(d == 32, UGT(v2, v1)))
    def used(self, rd, gc, p):
        v1, v2 = Extract(7, 0, self.gcf(rd, gc, 'version', 8)) & 63, rd(p + self.o('head_version'), 1) & 63
        return And(rd(p + self.o('head_type'), 1) != 0, Not(self.behind(v1, v2)))
    def block_ok(self, rd, b):
        """a block of a size class: k objects of the size of the class from the start have been passed"""
        s, k = self.bf(rd, b, 'sizeClass'), self.bf(rd, b, 'curr')
        return And(s >= 16, s <= BLOCK, Extract(2, 0, s) == 0, k >= 0, k <= BLOCK, z3.URem(k, s) == 0, UGT(self.bf(rd, b, 'base'), bv(4096)), ULT(self.bf(rd, b, 'base'), bv((1 << 46) + (1 << 26))), Extract(2, 0, self.bf(rd, b, 'base')) == 0)


class Slot(H):
    """the size class of an object is at least as large"""
    name = 'getSlotBySize'
    params = ['size']
    ret_bits = 32
    def requires(self, c): return [('small object', And(c.size > self.o('sizeof_head'), c.size < BLOCK))]
    def ensures(self, c):
        s = self.cls(c, c.ret)
        return [('a class', And(c.ret > 0, c.ret < self.o('classes'))), ('large enough', s >= c.size), ('of aligned objects within a block', And(Extract(2, 0, s) == 0, s <= BLOCK))]


class Version(H):
    """versions are compared in the cyclic order"""
    name = 'versionCmp'
    params = ['v1', 'v2']
    ret_bits = 32
    def requires(self, c): return [('versions', And(c.v1 >= 0, c.v1 < 64, c.v2 >= 0, c.v2 < 64))]
    def ensures(self, c): return [('same', (c.ret == 0) == (c.v1 == c.v2)), ('behind', (c.ret > 0) == self.behind(c.v1, c.v2)), ('ahead', (c.ret < 0) == And(c.v1 != c.v2, Not(self.behind(c.v1, c.v2))))]


class InUse(H):
    """an object is in use when it has a type and its version is not behind that of the collector"""
    name = 'inuse'
    params = ['gc', 'h']
    ret_bits = 32
    def requires(self, c): return [self.gc_valid(c)] + ([('', Or(ULE(c.gc + self.o('sizeof_gc'), c.h), ULE(c.h + 8, c.gc)))] if c.mode == 'body' else [])
    def ensures(self, c): return [('in use or not', (c.ret != 0) == self.used(c.pre, c.gc, c.h)), ('', And(c.ret >= 0, c.ret <= 2))]


class BlockAlloc(H):
    """the next object of the block that is not in use, or none is left"""
    name = 'blockAlloc'
    params = ['gc', 'block']
    ghosts = {}
    def requires(self, c):
        self.cx = c
        o = self.o
        r = [self.gc_valid(c), ('block', c.valid(c.block, bv(o('sizeof_block')), 'block', own=True)), ('of a size class', self.block_ok(c.pre, c.block))]
        if c.mode == 'body':
            r.append(('memory', c.valid(self.bf(c.pre, c.block, 'base'), bv(BLOCK), 'memory of the block', own=True, writable=False)))
        return r
    def modifies(self, c): return [(c.block + self.o('block_curr'), bv(4)), (c.block + self.o('block_touch'), bv(4))]
    def loops(self, view):
        c = self.cx
        k, s = self.bf(view.rd, c.block, 'curr'), self.bf(c.pre, c.block, 'sizeClass')
        return [('position', And(k >= self.bf(c.pre, c.block, 'curr'), k <= BLOCK, z3.URem(k, s) == 0))]
    def ensures(self, c):
        b, o = c.block, self.o
        base, s, k0, k = self.bf(c.pre, b, 'base'), self.bf(c.pre, b, 'sizeClass'), self.bf(c.pre, b, 'curr'), self.bf(c.post, b, 'curr')
        some = c.ret != 0
        return [('passed', Implies(some, c.ret == base + sx(k - s))), ('was not passed before', Implies(some, And(k - s >= k0, k - s >= 0))), ('within the block', Implies(some, k <= BLOCK)), ('not in use', Implies(some, Not(self.used(c.pre, c.gc, c.ret)))),
                ('still a block of the class', And(k >= 0, k <= BLOCK, z3.URem(k, s) == 0)), ('none when no room is left', Implies(c.ret == 0, k + s > BLOCK))]
    def post_effects(self, c): c.st.ghost['blockAlloc'] = (c.block, c.ret, c.pre)


class ArenaNew(H):
    name = 'heapArenaNew'
    params = []
    def ensures(self, c):
        o = self.o
        p = c.ret
        f = lambda n, k: c.post(p + o('arena_' + n), k)
        return [('a new arena', c.is_fresh(p, bv(o('sizeof_arena')))), ('with memory', And(UGT(f('ptr', 8), bv(4096)), ULT(f('ptr', 8), bv(1 << 46)), Extract(11, 0, f('ptr', 8)) == 0)), ('of which nothing is used', And(f('idx', 4) == 0, f('curr', 4) == 0, f('large', 1) == 0)), ('not in a list', f('next', 8) == 0)]


class ArenaAlloc(H):
    """the next block of the arena, its memory the next 4096 bytes"""
    name = 'heapArenaAlloc'
    params = ['h']
    def af(self, rd, f): return rd(self.cx.h + self.o('arena_' + f), 8 if f in ('ptr', 'next') else 4)
    def requires(self, c):
        self.cx = c
        i = self.af(c.pre, 'idx')
        return [('arena', c.valid(c.h, bv(self.o('sizeof_arena')), 'arena', own=True)), ('not full', And(i >= 0, i < BLOCKS)), ('memory', And(UGT(self.af(c.pre, 'ptr'), bv(4096)), ULT(self.af(c.pre, 'ptr'), bv(1 << 46))))]
    def modifies(self, c): return [(c.h + self.o('arena_blocks'), bv(self.o('sizeof_block') * BLOCKS)), (c.h + self.o('arena_idx'), bv(4))]
    def ensures(self, c):
        o = self.o
        i = self.af(c.pre, 'idx')
        b = simplify(c.h + o('arena_blocks') + o('sizeof_block') * sx(i))
        return [('its next block', c.ret == b), ('one block more', self.af(c.post, 'idx') == i + 1), ('with the next memory', self.bf(c.post, b, 'base') == self.af(c.pre, 'ptr') + 4096 * sx(i)), ('of no class yet', And(self.bf(c.post, b, 'sizeClass') == 0, self.bf(c.post, b, 'curr') == 0, self.bf(c.post, b, 'touch') == 0)),
                ('in no list', self.bf(c.post, b, 'next') == 0), ('of this arena', self.bf(c.post, b, 'ha') == c.h)]


class GetArena(H):
    """an arena with room: the first one, or a new one before it"""
    name = 'gcGetHeapArena'
    params = ['gc']
    cases = ('room', 'full', 'none')
    def __init__(self, ctx, case='room'):
        H.__init__(self, ctx)
        self.case = case
    def heap(self, rd, c): return self.gcf(rd, c.gc, 'heap', 8)
    def requires(self, c):
        h, o = self.heap(c.pre, c), self.o
        i = c.pre(h + o('arena_idx'), 4)
        return [self.gc_valid(c)] + ([('no arena', h == 0)] if self.case == 'none' else [('arena', And(h != 0, c.valid(h, bv(o('sizeof_arena')), 'arena', own=True))), ('room', And(i >= 0, i < BLOCKS) if self.case == 'room' else i >= BLOCKS), ('memory', self.mem_ok(c.pre, h))])
    def modifies(self, c): return [(c.gc + self.o('gc_heap'), bv(8))]
    def mem_ok(self, rd, h): return And(UGT(rd(h + self.o('arena_ptr'), 8), bv(4096)), ULT(rd(h + self.o('arena_ptr'), 8), bv(1 << 46)), Extract(11, 0, rd(h + self.o('arena_ptr'), 8)) == 0)
    def ensures(self, c):
        size = bv(self.o('sizeof_arena'))
        r = [('the same', c.ret == self.heap(c.pre, c)), ('', c.ret == self.heap(c.pre, c))] if self.case == 'room' else [('new', c.is_fresh(c.ret, size))]
        i = c.post(c.ret + self.o('arena_idx'), 4)
        return r + [('the first of the heap', self.heap(c.post, c) == c.ret), ('with memory', self.mem_ok(c.post, c.ret)), ('has room', And(i >= 0, i < BLOCKS))] + ([] if self.case == 'room' else [('the others stay in the list', c.post(c.ret + self.o('arena_next'), 8) == self.heap(c.pre, c)), ('empty', i == 0)])
    def fresh_ret(self, c): return simplify(self.heap(c.pre, c)) if self.case == 'room' else H.fresh_ret(self, c)


class Done(H):
    """the object carries its size and the version of objects in use"""
    name = 'allocDone'
    params = ['gc', 'size', 'obj']
    ret_bits = None
    def requires(self, c): return [self.gc_valid(c)] + ([('object', c.valid(c.obj, bv(8), 'object', own=True))] if c.mode == 'body' else [])
    def modifies(self, c): return [(c.gc + self.o('gc_stats'), bv(self.o('gc_rset') - self.o('gc_stats'))), (c.obj, bv(8))]
    def ensures(self, c):
        o = self.o
        v = Extract(7, 0, self.gcf(c.pre, c.gc, 'version', 8))
        return [('size', c.post(c.obj + o('head_size'), 4) == c.size), ('type', c.post(c.obj + o('head_type'), 1) == c.pre(c.obj + o('head_type'), 1)),
                ('version', c.post(c.obj + o('head_version'), 1) == If(self.gcf(c.pre, c.gc, 'state', 4) == o('stateNone'), v & 63, (v + 2) & 63)), ('in use', Not(self.behind(v & 63, c.post(c.obj + o('head_version'), 1))))]


class Mmap(Contract):
    """fresh memory at a page boundary"""
    name = 'mmap'
    params = ['addr', 'length', 'prot', 'flags', 'fd', 'offset']
    trusted = True
    def ensures(self, c): return [('fresh', c.is_fresh(c.ret, c.length)), ('', And(UGT(c.ret, bv(4096)), ULT(c.ret, bv(1 << 46)), Extract(11, 0, c.ret) == 0))]


class BlockNew(H):
    """a block that was not handed out before, from an arena of the heap"""
    name = 'blockNew'
    params = ['gc']
    def __init__(self, ctx, case='room'):
        H.__init__(self, ctx)
        self.arena = GetArena(ctx, case)
    def requires(self, c): return self.arena.requires(c) if c.mode == 'body' else [self.gc_valid(c)]
    def modifies(self, c):
        h, o = self.gcf(c.pre, c.gc, 'heap', 8), self.o
        return [(c.gc + o('gc_heap'), bv(8))] + ([(h + o('arena_blocks'), bv(o('sizeof_block') * BLOCKS)), (h + o('arena_idx'), bv(4))] if c.mode == 'body' and self.arena.case == 'room' else [])
    def ensures(self, c):
        f = [('not handed out before', c.is_fresh(c.ret, bv(self.o('sizeof_block'))))] if c.mode == 'call' else []
        r = f + [('of no class', self.blank(c.post, c.ret)), ('in no list', self.bf(c.post, c.ret, 'next') == 0)]
        if c.mode == 'call': return r
        h = self.gcf(c.pre, c.gc, 'heap', 8) if self.arena.case == 'room' else c.v.resolve(c.st, self.gcf(c.post, c.gc, 'heap', 8))
        i = c.post(h + self.o('arena_idx'), 4)
        return r + [('handed out now', And(i > 0, i <= BLOCKS, c.ret == h + self.o('arena_blocks') + self.o('sizeof_block') * sx(i - 1))), ('its memory is the part of its place', self.bf(c.post, c.ret, 'base') == c.post(h + self.o('arena_ptr'), 8) + 4096 * sx(i - 1))]
    def blank(self, rd, b): return And(self.bf(rd, b, 'sizeClass') == 0, self.bf(rd, b, 'curr') == 0, rd(b + self.o('block_touch'), 4) == 0, UGT(self.bf(rd, b, 'base'), bv(4096)), ULT(self.bf(rd, b, 'base'), bv((1 << 46) + (1 << 26))), Extract(2, 0, self.bf(rd, b, 'base')) == 0)


class GetBlock(BlockNew):
    """the block of the class at the head of its list: one with room, a recycled one or a new one"""
    name = 'getBlock'
    params = ['gc', 'slot']
    def head(self, c, rd): return rd(c.gc + self.o('gc_sizeClass') + 8 * sx(c.slot), 8)
    def requires(self, c): return [self.gc_valid(c), ('class', And(c.slot > 0, c.slot < self.o('classes')))]
    def __init__(self, ctx, case=0):
        BlockNew.__init__(self, ctx)
        self.case = case
    def setup(self, c):
        b, f = self.head(c, c.pre), self.gcf(c.pre, c.gc, 'freelist', 8)
        size = bv(self.o('sizeof_block'))
        c.st.assume(b == 0 if self.case else And(c.valid(b, size, 'block', own=True), self.block_ok(c.pre, b), self.bf(c.pre, b, 'sizeClass') == self.cls(c, c.slot)))
        if self.case: c.st.assume(f == 0 if self.case == 2 else And(c.valid(f, size, 'free block', own=True), self.blank(c.pre, f)))
    def modifies(self, c):
        f = self.gcf(c.pre, c.gc, 'freelist', 8)
        return [(c.gc + self.o('gc_heap'), bv(8)), (c.gc + self.o('gc_freelist'), bv(8)), (c.gc + self.o('gc_sizeClass') + 8 * sx(c.slot), bv(8))] + ([(f, bv(self.o('sizeof_block')))] if c.mode == 'body' else [])
    def ensures(self, c):
        b0 = self.head(c, c.pre)
        if c.mode == 'call': c.v_add_region(c.ret, bv(self.o('sizeof_block')), 'block %d' % next(sym._serial), True, True)
        return [('at the head of its list', self.head(c, c.post) == c.ret), ('of the class', And(c.ret != 0, self.bf(c.post, c.ret, 'sizeClass') == self.cls(c, c.slot))), ('in order', self.block_ok(c.post, c.ret)), ('one in use stays', Implies(b0 != 0, c.ret == b0))]


class Run(H):
    """a step of the collector"""
    name = 'gcRun'
    params = ['gc']
    ret_bits = None
    trusted = True
    def requires(self, c): return [self.gc_valid(c)]
    def modifies(self, c): return [(c.gc, bv(self.o('sizeof_gc')))]


class Large(H):
    """memory for an object larger than a block"""
    name = 'gcAllocLargeObject'
    params = ['gc', 'size']
    def requires(self, c): return [self.gc_valid(c), ('large', And(c.size >= BLOCK, c.size < BLOCK * BLOCKS))]
    def modifies(self, c): return [(c.gc, bv(self.o('sizeof_gc')))]
    def ensures(self, c): return [('size', c.post(c.ret + self.o('head_size'), 4) == c.size)]
    def post_effects(self, c): c.st.ghost['large'] = (c.size, c.ret)


class Meta(H):
    name = 'updateLargeObjectMeta'
    params = ['ha', 'start', 'slots', 'h']
    ret_bits = None
    def requires(self, c): return [('arena', c.valid(c.ha, bv(self.o('sizeof_arena')), 'arena', own=True)), ('blocks of the arena', And(c.start >= 0, c.start <= BLOCKS, c.slots >= 0, c.slots <= BLOCKS, c.start + c.slots <= BLOCKS))]
    def modifies(self, c):
        o = self.o
        return [(c.ha + o('arena_blocks'), bv(o('sizeof_block') * BLOCKS))]
    def ensures(self, c): return []


class NodeSlots(H):
    """the number of blocks of a node"""
    name = 'getLargeObjSlots'
    params = ['n']
    ret_bits = 32
    def requires(self, c): return [('node', c.valid(c.n, bv(self.o('sizeof_free')), 'node', own=True))]
    def ensures(self, c): return [('', c.ret == extent(self, c.pre, c.n))]


def extent(h, rd, p):
    o = h.o
    size = rd(p + o('head_size'), 4)
    n = size + (BLOCK - 1)
    return If(rd(p + o('head_type'), 1) == 0, rd(p + o('free_slots'), 4), z3.UDiv(n, bv(BLOCK, 32)))


class AllocLarge(H):
    """the result is a run of blocks of the arena, none of which belongs to an object in use (K)"""
    name = 'heapArenaAllocLarge'
    params = ['ha', 'gc', 'slots']
    ghosts = {'K': 32, 'N': 32, 'Q': 64}
    generic_clauses = False
    def af(self, rd, f): return rd(self.cx.ha + self.o('arena_' + f), 4)
    def ext(self, rd, i): return extent(self, rd, self.at(i))
    def at(self, i): return simplify(self.cx.P + sx(BLOCK * i))
    def requires(self, c):
        self.cx = c
        o = self.o
        c.P = c.pre(c.ha + o('arena_ptr'), 8)
        i, k = self.af(c.pre, 'idx'), self.af(c.pre, 'curr')
        return [self.gc_valid(c), ('arena', c.valid(c.ha, bv(o('sizeof_arena')), 'arena', own=True)), ('memory', c.valid(c.P, bv(BLOCK * BLOCKS), 'memory', own=True)), ('aligned', And(Extract(11, 0, c.P) == 0, ULT(c.P, bv(1 << 46)))),
                ('blocks', And(c.slots > 0, c.slots <= BLOCKS)), ('place', And(k >= 0, k <= i, i <= BLOCKS)), ('at a node', Or(k == i, NODE(k))), ('an object in use', And(NODE(c.G['K']), self.used(c.pre, c.gc, self.at(c.G['K']))))]
    def hyps(self, c):
        K, idx = c.G['K'], self.af(c.pre, 'idx')
        e = lambda t: self.ext(c.pre, t)
        return [lambda t: self.tiled(lo(t), K, idx, e)]
    def tiled(self, t, K, idx, e): return Implies(NODE(t), And(t >= 0, t < idx, e(t) > 0, e(t) <= BLOCKS, t + e(t) <= idx, Or(t + e(t) == idx, NODE(t + e(t))), Implies(t < K, t + e(t) <= K), Implies(t > K, K + e(K) <= t)))
    def modifies(self, c):
        o = self.o
        return [(c.P, bv(BLOCK * BLOCKS)), (c.ha + o('arena_blocks'), bv(o('sizeof_block') * BLOCKS)), (c.ha + o('arena_idx'), bv(4)), (c.ha + o('arena_curr'), bv(4))]
    def traps(self, c): return BoolVal(True)
    def same(self, view, i):
        f = lambda rd: (rd(self.at(i), 4), rd(self.at(i) + self.o('head_type'), 1), rd(self.at(i) + self.o('head_version'), 1), rd(self.at(i) + self.o('free_slots'), 4))
        return And(*[x == y for x, y in zip(f(view.rd), f(self.cx.pre))])
    def place(self, view): return self.af(view.rd, 'curr')
    def kept(self, view, lo, i): return Implies(And(NODE(i), i >= lo), self.same(view, i))
    def steps(self, view): return [(n, lo(t)) for n, t, e in view.ints()]
    def loops(self, view):
        c = self.cx
        K, N, Q = c.G['K'], c.G['N'], c.G['Q']
        k, idx = self.place(view), self.af(c.pre, 'idx')
        node = lambda t: And(t >= 0, t <= idx, Or(t == idx, NODE(t)))
        r = [('idx', self.af(view.rd, 'idx') == idx), ('curr', And(k >= self.af(c.pre, 'curr'), node(k))), ('node', node(k)), ('kept', self.kept(view, k, N)), ('header of the object in use', self.same2(view.rd, K)), ('bytes', self.byte(view.rd, Q)), ('not in use', k != K)]
        for n, t in self.steps(view):
            r += [('step ' + n, And(t > 0, t <= BLOCKS, node(k + t))), ('kept ' + n, self.kept(view, k + t, N)), ('cut ' + n, Implies(k < K, k + t <= K))]
        return r
    def instances(self, view):
        k = self.place(view)
        return [('kept', self.kept(view, k, k))] + [('kept ' + n, self.kept(view, k + t, k + t)) for n, t in self.steps(view)]
    def loop_terms(self, view):
        k = self.place(view)
        return [sx(k)] + [sx(k + t) for n, t in self.steps(view)]
    def byte(self, rd, q): return Implies(And(q >= 0, q < sx(BLOCK * self.ext(self.cx.pre, self.cx.G['K']))), rd(self.at(self.cx.G['K']) + q, 1) == self.cx.pre(self.at(self.cx.G['K']) + q, 1))
    def ensures(self, c):
        K, e = c.G['K'], self.ext(c.pre, c.G['K'])
        k0, k, i = self.af(c.pre, 'curr'), self.af(c.post, 'curr'), self.af(c.post, 'idx')
        j = k - c.slots
        some = c.ret != 0
        return [('a run of blocks', Implies(some, c.ret == self.at(j))), ('not passed before', Implies(some, j >= k0)), ('within the arena', Implies(some, And(k <= i, i <= BLOCKS))), ('not those of an object in use', Implies(some, Or(K + e <= j, K >= k))),
                ('header of the object in use', self.same2(c.post, K)), ('its bytes', self.byte(c.post, c.G['Q']))]
    def same2(self, rd, i):
        f = lambda rd: (rd(self.at(i), 4), rd(self.at(i) + self.o('head_type'), 1), rd(self.at(i) + self.o('head_version'), 1))
        return And(*[x == y for x, y in zip(f(rd), f(self.cx.pre))])


class Alloc(H):
    """the result is the first place in a block of a class large enough that is neither in use nor passed before, and it carries its size"""
    name = 'gcAlloc'
    params = ['gc', 'size']
    def requires(self, c): return [self.gc_valid(c), ('size', And(c.size > self.o('sizeof_head'), c.size < BLOCK * BLOCKS))]
    def modifies(self, c): return [(bv(0), bv((1 << 64) - 1))]
    def loops(self, view): return []
    def ensures(self, c):
        g = c.st.ghost
        if 'large' in g:
            return [('a large object', And(c.size >= BLOCK, g['large'][0] == c.size, g['large'][1] == c.ret))]
        b, p, rd = g['blockAlloc']
        base, s = self.bf(rd, b, 'base'), self.bf(rd, b, 'sizeClass')
        o = self.o
        return [('a small object', c.size < BLOCK), ('the place found', And(c.ret == p, c.ret != 0)), ('room for the object', s >= c.size), ('within the block', And(UGE(c.ret, base), ULE(c.ret + sx(c.size), base + BLOCK))), ('size', c.post(c.ret + o('head_size'), 4) == c.size)]


def tasks(ctx):
    t = trace_stubs()
    new = [ArenaNew(ctx)]
    return [Task('getSlotBySize', Slot(ctx)), Task('versionCmp', Version(ctx)), Task('inuse', InUse(ctx), [Version(ctx)]), Task('blockAlloc', BlockAlloc(ctx), [InUse(ctx)]), Task('heapArenaNew', ArenaNew(ctx), t + [Mmap()]), Task('heapArenaAlloc', ArenaAlloc(ctx)),
            *[Task('gcGetHeapArena', GetArena(ctx, k), t + new, label='gcGetHeapArena (%s)' % k) for k in GetArena.cases], Task('allocDone', Done(ctx)), *[Task('getBlock', GetBlock(ctx, k), [BlockNew(ctx)], label='getBlock ' + w) for k, w in enumerate(('of the list', 'from the free list', 'new'))], *[Task('blockNew', BlockNew(ctx, k), t + [GetArena(ctx, k), ArenaAlloc(ctx)], label='blockNew (%s)' % k) for k in GetArena.cases], Task('gcAlloc', Alloc(ctx), [Slot(ctx), GetBlock(ctx), BlockAlloc(ctx), Done(ctx), Run(ctx), Large(ctx)]), Task('updateLargeObjectMeta', Meta(ctx)), Task('getLargeObjSlots', NodeSlots(ctx))]
