import os
from common import *
import sym
import c10
from c10 import H, PROBE_GC, InUse, Version, BLOCK, BLOCKS
PROBE_RT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe_rt.c')
SOURCES = [PROBE_GC, PROBE, PROBE_RT, 'src/types.c']
DRIVER = 'c11.c'
DRIVER_SRC = ['-Wl,--wrap=gcMarkRoot']
TRUSTED = [TRACE_ASSUMPTION, 'versions of objects in use lie within 24 of the version of the collector (64 versions, halves apart)',
           'marking changes only the data of the collector and the versions of objects: nothing that the tracers and barriers read', 'kinds of objects that are marked have a registered tracer (typesInit proved; coraInit registers continuations)',
           'the invariant of blocks and arenas that C10 keeps']
OUTSIDE = ['that marking every root, tracing every grey object and the barriers together keep every reachable object is the tri-colour argument over the whole heap (snapshot at the beginning); the functions are proved one by one, the composition is exercised by the driver', 'sweeping (sweepSizeClass, sweepLargeObjects) and the flip of versions are exercised by the driver only']


class Marks(H):
    """a call to gcMark; the root task watches for one value"""
    name = 'gcMark'
    params = ['gc', 'p', 'minv']
    ret_bits = None
    def __init__(self, ctx, root):
        H.__init__(self, ctx)
        self.root = root
    def log(self): return simplify(self.root.c0.G['LOG'])
    def modifies(self, c): return [(self.log(), bv(8))]
    def post_effects(self, c):
        log = self.log()
        c.st.mem = sym.Mem(c.st.mem, 'store', log, If(And(c.p == self.root.want(), c.minv == self.root.age()), bv(1), c.pre(log, 8)), 8)


class Trace(H):
    """every field of the object is marked, with the version of the object"""
    params = ['gc', 'f']
    ghosts = {'J': 64, 'LOG': 64}
    ret_bits = None
    def __init__(self, ctx, fn, count, first, size):
        H.__init__(self, ctx)
        self.name, self.count, self.first, self.size = fn, count, first, size
    def n(self, c): return self.count(c.pre, c.f)
    def seen(self, rd): return rd(self.c0.G['LOG'], 8) == 1
    def age(self): return self.c0.pre(self.c0.f + self.o('head_version'), 1)
    def want(self):
        c = self.c0
        return c.pre(c.f + self.o(self.first) + 8 * c.G['J'], 8)
    def requires(self, c):
        self.c0 = c
        n, J = self.n(c), c.G['J']
        return [('log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', c.pre(c.G['LOG'], 8) == 0), ('fields', And(n >= 0, n < bv(1 << 24))), ('object', c.valid(c.f, bv(self.o(self.first)) + 8 * n, 'object', own=True)), ('a field', And(J >= 0, J < n))]
    def modifies(self, c): return [(c.G['LOG'], bv(8))]
    def loops(self, view):
        J = self.c0.G['J']
        return [('seen ' + n, Implies(J < t, self.seen(view.rd))) for n, t, e in view.ints()] + [('range ' + n, And(t >= 0, t <= self.n(self.c0))) for n, t, e in view.ints()]
    def ensures(self, c): return [('every field is marked', self.seen(c.post))]


class Roots(H):
    """every global, every slot of the current and of the saved frames and the result register is marked"""
    explicit = True
    name = 'coraGCFunc'
    params = ['gc', 'p']
    ghosts = {'I': 64, 'J': 64, 'LOG': 64}
    ret_bits = None
    kinds = ('global', 'current frame', 'result', 'saved frame')
    def __init__(self, ctx, kind):
        H.__init__(self, ctx)
        self.kind = kind
    def age(self): return bv(0, 8)
    seen = Trace.seen
    def f(self, name, n=8): return self.c0.pre(self.c0.p + self.o(name), n)
    def vec(self, v, f, n): return self.c0.pre(self.c0.p + self.o('cora_' + v) + self.o('vec_' + f), n)
    def frame(self, i, f): return self.c0.pre(self.vec('callstack', 'data', 8) + self.o('sizeof_frame') * i + self.o('frame_' + f), 8)
    def ctxf(self, f): return self.f('ctx_' + f) if False else self.c0.pre(self.c0.p + self.o('cora_ctx') + self.o('frame_' + f), 8)
    def cell(self):
        J, I = self.c0.G['J'], self.c0.G['I']
        return {'global': lambda: self.vec('globals', 'data', 8) + 8 * J, 'current frame': lambda: self.ctxf('bp') + 8 * J, 'result': lambda: self.c0.p + self.o('cora_res'), 'saved frame': lambda: self.frame(I, 'bp') + 8 * J}[self.kind]()
    def want(self): return self.c0.pre(self.cell(), 8)
    def requires(self, c):
        self.c0 = c
        I, J = c.G['I'], c.G['J']
        r = [('log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', c.pre(c.G['LOG'], 8) == 0), ('machine', c.valid(c.p, bv(self.o('sizeof_cora')), 'machine', own=True))]
        for v, es in (('globals', 8), ('callstack', self.o('sizeof_frame'))):
            n = self.vec(v, 'len', 4)
            r += [('', And(n >= 0, n < bv(1 << 24, 32))), ('', c.valid(self.vec(v, 'data', 8), es * sx(n), v, own=True))]
        def slots(bp, sp, name): return [('', Or(ULE(c.G['LOG'] + 8, bp), ULE(sp, c.G['LOG']))), ('', And(ULE(bp, sp), ULE(sp - bp, bv(1 << 24)), Extract(2, 0, sp - bp) == 0)), ('', c.valid(bp, sp - bp, name, own=True))]
        bp, sp = self.ctxf('bp'), self.ctxf('sp')
        if self.kind == 'global': r.append(('', And(J >= 0, J < sx(self.vec('globals', 'len', 4)))))
        if self.kind == 'current frame': r += slots(bp, sp, 'current frame') + [('', And(J >= 0, 8 * J < sp - bp, J < bv(1 << 24)))]
        if self.kind == 'saved frame':
            r += [('', And(I >= 0, I < sx(self.vec('callstack', 'len', 4))))] + slots(self.frame(I, 'bp'), self.frame(I, 'sp'), 'saved frame') + [('', And(J >= 0, J < bv(1 << 24), 8 * J < self.frame(I, 'sp') - self.frame(I, 'bp')))]
        return r
    def modifies(self, c): return [(c.G['LOG'], bv(8))]
    def loops(self, view):
        c = self.c0
        I, J, s = c.G['I'], c.G['J'], self.seen(view.rd)
        r = [('seen', s)]
        lim = {'global': J, 'saved frame': I}.get(self.kind)
        for n, t, e in view.ints():
            r.append(('from ' + n, t >= 0))
            if lim is not None: r.append(('seen ' + n, Implies(lim < t, s)))
        outer = [t for n, t in view.allints() if n not in [x[0] for x in view.ints()]]
        for n, t, e in view.ptrs():
            d = t - e
            if self.kind == 'current frame': r.append(('slot ' + n, And(e == self.ctxf('bp'), ULE(d, self.ctxf('sp') - e), Extract(2, 0, d) == 0, Implies(UGT(d, 8 * J), s))))
            if self.kind == 'saved frame':
                for k, i in enumerate(outer):
                    here = i == I
                    r += [('start %s %d' % (n, k), Implies(here, e == self.frame(I, 'bp'))), ('within %s %d' % (n, k), Implies(here, ULE(d, self.frame(I, 'sp') - e))), ('aligned %s %d' % (n, k), Implies(here, Extract(2, 0, d) == 0)), ('slot %s %d' % (n, k), Implies(And(here, UGT(d, 8 * J)), s)), ('before %s %d' % (n, k), Implies(I < i, s))]
        return r
    def ensures(self, c): return [('the %s is marked' % self.kind, self.seen(c.post))]


class ContTrace(Roots):
    """every slot of every saved frame of the continuation is marked, with its version"""
    name = 'continuationGCFunc'
    def __init__(self, ctx): Roots.__init__(self, ctx, 'saved frame')
    def age(self): return self.c0.pre(self.c0.p + self.o('head_version'), 1)
    def frame(self, i, f): return self.c0.pre(self.c0.p + self.o('cont_data') + self.o('sizeof_frame') * i + self.o('frame_' + f), 8)
    def requires(self, c):
        self.c0 = c
        I, J = c.G['I'], c.G['J']
        n = c.pre(c.p + self.o('cont_len'), 4)
        bp, sp = self.frame(I, 'bp'), self.frame(I, 'sp')
        return [('log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', c.pre(c.G['LOG'], 8) == 0), ('frames', And(n >= 0, n < bv(1 << 20, 32))), ('continuation', c.valid(c.p, bv(self.o('cont_data')) + self.o('sizeof_frame') * sx(n), 'continuation', own=True)),
                ('', And(I >= 0, I < sx(n))), ('', And(ULE(bp, sp), ULE(sp - bp, bv(1 << 24)), Extract(2, 0, sp - bp) == 0)), ('', c.valid(bp, sp - bp, 'saved frame', own=True)), ('', Or(ULE(c.G['LOG'] + 8, bp), ULE(sp, c.G['LOG']))), ('', And(J >= 0, J < bv(1 << 24), 8 * J < sp - bp))]


class Next(H):
    """the version of a marked object: grey, 1 to 23 ahead of the collector, never of a younger generation"""
    name = 'nextVersion'
    params = ['gen', 'ver']
    ret_bits = 8
    def requires(self, c): return [('generation', And(c.gen >= 0, c.gen < 4)), ('version of the collector', Extract(0, 0, c.ver) == 0)]
    def ensures(self, c):
        d = (c.ret - Extract(7, 0, c.ver)) & 63
        g = z3.LShR(c.ret, 6)
        return [('grey', Extract(0, 0, c.ret) == 1), ('ahead', And(d >= 1, d <= 23)), ('not of a younger generation', And(UGE(zx(g, 32), c.gen), ULE(zx(g, 32), c.gen + 1)))]


class Enqueue(H):
    """appends the object to the queue of grey objects: the cells queued before stay in place"""
    name = 'gcEnqueue'
    params = ['gc', 'p']
    ghosts = {'Q': 64}
    ret_bits = None
    def q(self, rd, c, f, n=8): return {'head': lambda: rd(c.gc + self.o('gc_gray') + self.o('list_head'), 8), 'tail': lambda: rd(c.gc + self.o('gc_gray') + self.o('list_tail'), 8), 'start': lambda: rd(c.gc + self.o('gc_start'), 4), 'end': lambda: rd(c.gc + self.o('gc_end'), 4)}[f]()
    def requires(self, c):
        if c.mode == 'call': return [self.gc_valid(c)]
        self.cx = c
        t, e = self.q(c.pre, c, 'tail'), self.q(c.pre, c, 'end')
        return [self.gc_valid(c), ('tail', c.valid(t, bv(self.o('sizeof_block')), 'tail', own=True)), ('its memory', c.valid(self.bf(c.pre, t, 'base'), bv(BLOCK), 'memory of the tail', own=True)), ('end', And(e >= 0, e <= BLOCK, Extract(2, 0, e) == 0))]
    def modifies(self, c):
        o = self.o
        if c.mode == 'call': return [(c.gc + o('gc_gray'), bv(o('gc_progress') - o('gc_gray'))), (c.gc + o('gc_heap'), bv(8)), (c.gc + o('gc_freelist'), bv(8))]
        return [(bv(0), bv((1 << 64) - 1))]
    def ensures(self, c):
        if c.mode == 'call': return []
        o = self.o
        t, e, t2, e2 = self.q(c.pre, c, 'tail'), self.q(c.pre, c, 'end'), self.q(c.post, c, 'tail'), self.q(c.post, c, 'end')
        return [('what was queued stays', Implies(And(c.G['Q'] >= 0, c.G['Q'] < sx(e)), c.post(self.bf(c.pre, t, 'base') + c.G['Q'], 1) == c.pre(self.bf(c.pre, t, 'base') + c.G['Q'], 1))), ('the last of the queue', c.post(self.bf(c.post, t2, 'base') + sx(e2) - 8, 8) == c.p), ('the next place', If(e < BLOCK, And(t2 == t, e2 == e + 8), And(e2 == 8, t2 != t, self.bf(c.post, t, 'next') == t2))), ('the head of the queue stays', And(self.q(c.post, c, 'head') == self.q(c.pre, c, 'head'), self.q(c.post, c, 'start') == self.q(c.pre, c, 'start')))]
    def post_effects(self, c): c.st.ghost['enqueued'] = c.st.ghost.get('enqueued', ()) + (c.p,)


class QueueBlock(c10.GetBlock):
    """a block that belongs to no class, with memory of its own"""
    def requires(self, c): return [self.gc_valid(c), ('no class', c.slot == 0)]
    def modifies(self, c): return [(c.gc + self.o('gc_heap'), bv(8)), (c.gc + self.o('gc_freelist'), bv(8))]
    def ensures(self, c):
        b = c.ret
        r = [('a block', c.is_fresh(b, bv(self.o('sizeof_block'))))]
        c.v_add_region(self.bf(c.post, b, 'base'), bv(BLOCK), 'memory of the block %d' % next(sym._serial), True, True)
        return r + [('not in the queue', b != c.pre(c.gc + self.o('gc_gray') + self.o('list_tail'), 8)), ('of no class', And(self.bf(c.post, b, 'sizeClass') == 0, self.bf(c.post, b, 'next') == 0))]


class Reset(H):
    """a free block, its memory zero"""
    name = 'blockReset'
    params = ['gc', 'block']
    ghosts = {'Q': 64}
    ret_bits = None
    def requires(self, c):
        base = self.bf(c.pre, c.block, 'base')
        return [self.gc_valid(c), ('block', c.valid(c.block, bv(self.o('sizeof_block')), 'block', own=True)), ('of no class', And(self.bf(c.pre, c.block, 'sizeClass') == 0, self.bf(c.pre, c.block, 'curr') == 0)), ('memory', c.valid(base, bv(BLOCK), 'memory of the block', own=True))]
    def modifies(self, c): return [(c.gc + self.o('gc_freelist'), bv(8)), (c.block + self.o('block_next'), bv(8)), (self.bf(c.pre, c.block, 'base'), bv(BLOCK))]
    def ensures(self, c):
        f = lambda rd: self.gcf(rd, c.gc, 'freelist', 8)
        return [('the first free block', And(f(c.post) == c.block, self.bf(c.post, c.block, 'next') == f(c.pre))), ('its memory is not in use', Implies(ULT(c.G['Q'], bv(BLOCK)), c.post(self.bf(c.pre, c.block, 'base') + c.G['Q'], 1) == 0))]


class Dequeue(Enqueue):
    """takes the object that was queued first; 0 exactly when the queue is empty"""
    name = 'gcDequeue'
    params = ['gc']
    ret_bits = 64
    ghosts = {}
    def __init__(self, ctx, case):
        H.__init__(self, ctx)
        self.case = case
    def requires(self, c):
        self.cx = c
        size = bv(self.o('sizeof_block'))
        h, t, s, e = [self.q(c.pre, c, f) for f in ('head', 'tail', 'start', 'end')]
        def block(b, n): return [('', c.valid(b, size, n, own=True)), ('', c.valid(self.bf(c.pre, b, 'base'), bv(BLOCK), 'memory of the ' + n, own=True)), ('', And(self.bf(c.pre, b, 'sizeClass') == 0, self.bf(c.pre, b, 'curr') == 0))]
        r = [self.gc_valid(c), ('', And(s >= 0, s <= BLOCK, Extract(2, 0, s) == 0, e >= 0, e <= BLOCK, Extract(2, 0, e) == 0))] + block(h, 'head')
        if self.case == 'one block': return r + [('', And(h == t, s <= e, self.bf(c.pre, h, 'next') == 0))]
        n = self.bf(c.pre, h, 'next')
        return r + [('', h != t), ('a longer queue', n != 0)] + block(n, 'next block') + [('', Implies(n == t, e > 0))]
    def modifies(self, c):
        h = self.q(c.pre, c, 'head')
        return [(c.gc + self.o('gc_gray'), bv(self.o('gc_progress') - self.o('gc_gray'))), (c.gc + self.o('gc_freelist'), bv(8)), (h, bv(self.o('sizeof_block'))), (self.bf(c.pre, h, 'base'), bv(BLOCK))]
    def ensures(self, c):
        h, t, s, e = [self.q(c.pre, c, f) for f in ('head', 'tail', 'start', 'end')]
        cell = lambda b, i: c.pre(self.bf(c.pre, b, 'base') + i, 8)
        n = self.bf(c.pre, h, 'next')
        h2, s2, f = self.q(c.post, c, 'head'), self.q(c.post, c, 'start'), self.gcf(c.post, c.gc, 'freelist', 8)
        if self.case == 'one block': return [('the first of the queue, or none', c.ret == If(s < e, cell(h, sx(s)), bv(0))), ('taken off', Implies(s < e, And(h2 == h, s2 == s + 8))), ('an empty queue gives its block back', Implies(s == e, And(h2 == 0, f == h)))]
        return [('the first of the queue', c.ret == If(s < BLOCK, cell(h, sx(s)), cell(n, bv(0)))), ('taken off', If(s < BLOCK, And(h2 == h, s2 == s + 8), And(h2 == n, s2 == 8, f == h))), ('the tail stays', And(self.q(c.post, c, 'tail') == t, self.q(c.post, c, 'end') == e))]


class MarkObj(H):
    """an object in use becomes or stays newer than this round and not older than what refers to it; it is enqueued exactly when it becomes grey"""
    name = 'markObject'
    params = ['gc', 'from_', 'minv']
    ret_bits = 'bool'
    def ver(self, rd, c): return rd(c.from_ + self.o('head_version'), 1)
    def requires(self, c):
        self.cx = c
        if c.mode == 'call': return [self.gc_valid(c), ('grey', Or(c.minv == 0, Extract(0, 0, c.minv) == 1))]
        g = Extract(7, 0, self.gcf(c.pre, c.gc, 'version', 8))
        d = (self.ver(c.pre, c) - g) & 63
        m = (c.minv - g) & 63
        return [self.gc_valid(c), ('object', c.valid(c.from_, bv(8), 'object', own=True)), ('version of the collector', Extract(0, 0, g) == 0), ('in use', And(d >= 0, d <= 24)), ('version of what refers to it', Or(c.minv == 0, And(Extract(0, 0, c.minv) == 1, m <= 23)))]
    def modifies(self, c):
        o = self.o
        return [(c.gc + o('gc_gray'), bv(o('gc_progress') - o('gc_gray'))), (c.gc + o('gc_heap'), bv(8)), (c.gc + o('gc_freelist'), bv(8)), (c.gc + o('gc_stats'), bv(o('gc_rset') - o('gc_stats'))), (c.from_ + o('head_version'), bv(1))]
    def ensures(self, c):
        v0, v = self.ver(c.pre, c), self.ver(c.post, c)
        if c.mode == 'call': return []
        g = Extract(7, 0, self.gcf(c.pre, c.gc, 'version', 8))
        d = (v - g) & 63
        odd = lambda x: Extract(0, 0, x) == 1
        q = c.st.ghost.get('enqueued', ())
        into = BoolVal(len(q) == 1) if not q else And(BoolVal(len(q) == 1), q[0] == c.from_)
        ret = c.ret if isinstance(c.ret, z3.BoolRef) else c.ret != 0
        return [('survives this round', And(d >= 1, d <= 24)), ('not older than what refers to it', Implies(c.minv != 0, Not(self.behind(c.minv & 63, v & 63)))), ('enqueued when it becomes grey', If(And(Not(odd(v0)), odd(v)), And(into, ret), And(BoolVal(not q), Not(ret)))),
                ('grey stays grey', Implies(odd(v0), odd(v))), ('one of this round becomes grey', Implies(v0 & 63 == g & 63, odd(v))), ('changes only to grey', Or(v == v0, odd(v)))]
    def post_effects(self, c): c.st.ghost['marked'] = c.st.ghost.get('marked', ()) + ((c.from_, c.minv, c.ret),)


class Contains(H):
    """the arena of the heap, or of the large objects, whose used part the address lies in"""
    name = 'gcContains'
    params = ['gc', 'p']
    ghosts = {'J': 64}
    cases = ('heap', 'large')
    HEAP, LARGE = z3.Function('HEAP', W64, W64), z3.Function('LARGE', W64, W64)
    NH, NL = BitVec('arenas_heap', 64), BitVec('arenas_large', 64)
    def within(self, rd, h, p): return And(UGE(p, rd(h + self.o('arena_ptr'), 8)), ULT(p, rd(h + self.o('arena_ptr'), 8) + sx(rd(h + self.o('arena_idx'), 4) * BLOCK)))
    def requires(self, c):
        if c.mode == 'call': return [self.gc_valid(c)]
        self.cx = c
        return [self.gc_valid(c), ('lists', And(self.gcf(c.pre, c.gc, 'heap', 8) == self.HEAP(bv(0)), self.gcf(c.pre, c.gc, 'large', 8) == self.LARGE(bv(0)), self.NH >= 0, self.NL >= 0, self.NH < bv(1 << 30), self.NL < bv(1 << 30)))]
    def hyps(self, c):
        if c.mode == 'call': return []
        nx = lambda h: c.pre(h + self.o('arena_next'), 8)
        f = lambda F, n, t: And(Implies(And(t >= 0, t < n), And(F(t) != 0, nx(F(t)) == F(t + 1))), F(n) == 0)
        return [lambda t: And(f(self.HEAP, self.NH, t), f(self.LARGE, self.NL, t))]
    def loops(self, view):
        c = self.cx
        J = c.G['J']
        r = []
        for n, t, e in view.ptrs():
            for k, F, N in (('heap', self.HEAP, self.NH), ('large', self.LARGE, self.NL)):
                r += [('%s %s' % (k, n), t == F(view.it)), ('%s %s before' % (k, n), Implies(And(e == F(bv(0)), J >= 0, J < view.it), Not(self.within(c.pre, F(J), c.p)))), ('%s %s range' % (k, n), Implies(e == F(bv(0)), view.it <= N))]
        return r
    def ensures(self, c):
        h = c.ret
        if c.mode == 'call':
            c.v_add_region(h, bv(self.o('sizeof_arena')), 'arena %d' % next(sym._serial), True, True)
            c.st.ghost['arena'] = h
            f = lambda n, k: c.post(h + self.o('arena_' + n), k)
            P, i, lg = f('ptr', 8), f('idx', 4), f('large', 1) != 0
            k = sx(Extract(31, 0, (c.p - P) / bv(BLOCK)))
            b = h + self.o('arena_blocks') + self.o('sizeof_block') * k
            base, cl = self.bf(c.post, b, 'base'), self.bf(c.post, b, 'sizeClass')
            loc = getattr(c.v.rootC, 'block', None)
            return [('contains it', Or(h == 0, self.within(c.post, h, c.p))), ('', Implies(h != 0, And(ULE(f('large', 1), bv(1, 8)), BoolVal(True) if loc is None else Or(ULE(loc + 8, P), ULE(P + BLOCK * BLOCKS + 64, loc))))), ('memory', Implies(h != 0, And(UGT(P, bv(4096)), ULT(P, bv(1 << 46)), i >= 0, i <= BLOCKS))), ('blocks', Implies(h != 0, If(lg, And(UGE(base, P), ULE(base, c.p)), And(base == P + BLOCK * k, cl >= 0, cl <= BLOCK))))]
        J = c.G['J']
        inn = lambda F, n: And(J >= 0, J < n, self.within(c.pre, F(J), c.p))
        return [('contains it', Or(h == 0, self.within(c.pre, h, c.p))), ('found when in the heap', Implies(inn(self.HEAP, self.NH), h != 0)), ('found when a large object', Implies(inn(self.LARGE, self.NL), h != 0))]


class Check(H):
    """the address of an object in use, or of a part of it, is resolved to the object; anything else to nothing"""
    name = 'checkPointer'
    params = ['gc', 'p', 'block']
    def requires(self, c): return [self.gc_valid(c), ('', c.valid(c.block, bv(8), 'result', own=True))]
    def modifies(self, c): return [(c.block, bv(8))]
    def ensures(self, c):
        if c.mode == 'call':
            b = c.post(c.block, 8)
            c.v_add_region(simplify(b), bv(self.o('sizeof_block')), 'block %d' % next(sym._serial), True, True)
            c.v_add_region(c.ret, bv(8), 'object %d' % next(sym._serial), True, True)
            t = c.post(c.ret + self.o('head_type'), 1)
            return [('', Implies(c.ret != 0, And(UGT(t, bv(0, 8)), ULT(t, bv(self.o('HEAD_max'), 8)))))]
        tagged = And((c.p & bv(OBJ_MASK)) == bv(OBJ_MASK), UGE(Extract(50, 48, c.p), bv(4, 3)))
        a = zx(Extract(47, 0, c.p))
        g = c.st.ghost
        if 'arena' not in g: return [('not an object', And(Not(tagged), c.ret == 0))]
        h, rd = g['arena'], c.pre
        base0 = c.pre(h + self.o('arena_ptr'), 8)
        i = sx(Extract(31, 0, (a - base0) / bv(BLOCK)))
        b = h + self.o('arena_blocks') + self.o('sizeof_block') * i
        base, cl = self.bf(rd, b, 'base'), self.bf(rd, b, 'sizeClass')
        large = rd(h + self.o('arena_large'), 1) != 0
        # the last multiple of the size of the class at or before the address
        pos = (a - base) / sx(cl)
        # the block holds the memory of its place in the arena (C10)
        ok = And(cl >= 0, cl <= BLOCK, base == base0 + BLOCK * i)
        start = base + pos * sx(cl)
        res = lambda x: If(self.used(rd, c.gc, x), x, bv(0))
        return [('an object', tagged), ('in no arena', Implies(h == 0, c.ret == 0)), ('a large object', Implies(And(h != 0, large), And(c.ret == res(base), c.post(c.block, 8) == b))),
                ('a block of no class', Implies(And(h != 0, Not(large), cl == 0), c.ret == 0)), ('an object of a block', Implies(And(h != 0, Not(large), ok, cl > 0), And(c.ret == res(start), c.post(c.block, 8) == b)))]


class Mark(H):
    """marks the object the pointer is resolved to, and its block when it became grey"""
    name = 'gcMark'
    params = ['gc', 'p', 'minv']
    ret_bits = None
    def requires(self, c): return [self.gc_valid(c), ('grey', Or(c.minv == 0, Extract(0, 0, c.minv) == 1))]
    def modifies(self, c): return [(bv(0), bv((1 << 64) - 1))]
    def ensures(self, c):
        g = c.st.ghost
        m = g.get('marked', ())
        if not g.get('resolved'): return [('resolved', BoolVal(False))]
        f, b, p = g['resolved'][0]
        if not m: return [('the pointer', And(p == c.p, f == 0))]
        ret = m[0][2] if isinstance(m[0][2], z3.BoolRef) else m[0][2] != 0
        return [('the pointer', And(p == c.p, f != 0)), ('marks the object', And(BoolVal(len(m) == 1), m[0][0] == f, m[0][1] == c.minv)), ('its block is in use', Implies(ret, c.post(b + self.o('block_touch'), 4) != 0))]


class Resolve(Check):
    def post_effects(self, c): c.st.ghost['resolved'] = c.st.ghost.get('resolved', ()) + ((c.ret, simplify(c.post(c.block, 8)), c.p),)


class MarkCall(H):
    """a call to gcMark is recorded; it leaves alone what its callers use here"""
    name = 'gcMark'
    params = ['gc', 'p', 'minv']
    ret_bits = None
    def post_effects(self, c): c.st.ghost['gcMark'] = c.st.ghost.get('gcMark', ()) + ((c.p, c.minv),)


class SlotBarrier(H):
    """the slot gets the value; during a round the value it held is marked"""
    name = 'writeBarrierForIncremental'
    params = ['gc', 'slot', 'val']
    ret_bits = None
    def requires(self, c): return [self.gc_valid(c), ('slot', c.valid(c.slot, bv(8), 'slot', own=True))]
    def modifies(self, c): return [(c.slot, bv(8))]
    def ensures(self, c):
        m = c.st.ghost.get('gcMark', ())
        inc = self.gcf(c.pre, c.gc, 'state', 4) == self.o('stateIncremental')
        return [('the slot holds the value', c.post(c.slot, 8) == c.val), ('the old value is marked during a round', Implies(inc, And(BoolVal(len(m) == 1), m[0][0] == c.pre(c.slot, 8), m[0][1] == 0) if m else BoolVal(False)))]


class RSetBarrier(H):
    """an object that refers to an older one... of an older version is remembered; during a round the value is marked, unless the object itself will mark it"""
    name = 'writeBarrierForGeneration'
    params = ['gc', 'vec', 'val']
    ret_bits = None
    def requires(self, c):
        h = zx(Extract(47, 0, c.val))
        return [self.gc_valid(c), ('object', c.valid(c.vec, bv(self.o('sizeof_headex')), 'object', own=True)), ('state', ULE(self.gcf(c.pre, c.gc, 'state', 4), bv(3, 32))), ('flag', ULE(c.pre(c.vec + self.o('headex_inRSet'), 1), bv(1, 8)))]
    def modifies(self, c): return [(c.vec + self.o('headex_rset'), bv(self.o('sizeof_headex') - self.o('headex_rset'))), (c.gc + self.o('gc_rset'), bv(8))]
    def ensures(self, c):
        o = self.o
        isobj = And((c.val & bv(OBJ_MASK)) == bv(OBJ_MASK), UGE(Extract(50, 48, c.val), bv(4, 3)))
        h = zx(Extract(47, 0, c.val))
        v, w = c.pre(c.vec + o('head_version'), 1), c.pre(h + o('head_version'), 1)
        older = And(isobj, self.behind(v & 63, w & 63))
        inc = self.gcf(c.pre, c.gc, 'state', 4) == o('stateIncremental')
        traced = And(inc, Extract(0, 0, v) == 1, ((w + 1) & 63) == v & 63)
        was, now = c.pre(c.vec + o('headex_inRSet'), 1) == 1, c.post(c.vec + o('headex_inRSet'), 1) == 1
        rs = lambda rd: self.gcf(rd, c.gc, 'rset', 8)
        link = lambda rd: rd(c.vec + o('headex_rset'), 8)
        m = c.st.ghost.get('gcMark', ())
        return [('remembered', Implies(And(older, Not(traced)), now)), ('linked once', If(And(now, Not(was)), And(rs(c.post) == c.vec, link(c.post) == rs(c.pre)), And(rs(c.post) == rs(c.pre), link(c.post) == link(c.pre)))), ('stays remembered', Implies(was, now)),
                ('the value is marked during a round', Implies(And(older, inc, Not(traced)), And(BoolVal(len(m) == 1), m[0][0] == c.val, m[0][1] == 0) if m else BoolVal(False)))]


class Registered(H):
    """every kind of object has its trace function"""
    params = []
    ret_bits = None
    def __init__(self, ctx, fn, params, kinds):
        H.__init__(self, ctx)
        self.name, self.params, self.kinds = fn, params, kinds
    def modifies(self, c): return [(bv(0), bv((1 << 64) - 1))]
    def ensures(self, c):
        g = c.st.ghost.get('registered', ())
        return [('kind %d is traced by %s' % (k, fn), Or(*[And(t == k, p == c.v.fn_addr(self.ctx.prog.find(fn))) for t, p in g]) if g else BoolVal(False)) for k, fn in self.kinds]


class MapInit(Contract):
    """sets up the table of symbols (C07)"""
    name = 'mapInit'
    params = ['m', 'h', 'e']
    ret_bits = None


class Register(H):
    name = 'gcRegistForType'
    params = ['idx', 'fn']
    ret_bits = 'bool'
    def post_effects(self, c): c.st.ghost['registered'] = c.st.ghost.get('registered', ()) + ((c.idx, c.fn),)


class TraceCall(H):
    """a trace function is called with the object (T) last taken from the queue; it leaves the version of the object alone"""
    name = 'trace function'
    params = ['gc', 'from_']
    ret_bits = None
    def __init__(self, ctx, root):
        H.__init__(self, ctx)
        self.root = root
    def log(self): return simplify(self.root.cx.G['LOG'])
    def modifies(self, c): return [(c.gc, bv(self.o('sizeof_gc'))), (self.log() + 8, bv(16))]
    def ensures(self, c):
        v = c.pre(c.from_ + self.o('head_version'), 1)
        return [('version', c.post(c.from_ + self.o('head_version'), 1) == v)]
    def post_effects(self, c):
        v = c.pre(c.from_ + self.o('head_version'), 1)
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.log() + 8), c.from_, 8)
        c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.log() + 16), zx(simplify((v & 0xc0) | ((v + 1) & 63))), 8)


class Taken(H):
    """an object is taken from the queue, or none is left"""
    name = 'gcDequeue'
    params = ['gc']
    def __init__(self, ctx, root):
        H.__init__(self, ctx)
        self.root = root
    log = TraceCall.log
    def modifies(self, c): return [(c.gc, bv(self.o('sizeof_gc'))), (self.log(), bv(8))]
    def ensures(self, c):
        p = c.ret
        c.v_add_region(p, bv(8), 'object %d' % next(sym._serial), True, True)
        reg = c.v.gaddr(c.st, 'registry', self.ctx.prog.find('gcRunIncremental').module)
        t = c.post(p + self.o('head_type'), 1)
        return [('size', Implies(p != 0, c.post(p + self.o('head_size'), 4) > 0)), ('grey objects are queued', Implies(p != 0, Extract(0, 0, c.post(p + self.o('head_version'), 1)) == 1)), ('kinds have trace functions', Implies(p != 0, c.post(reg + 8 * zx(t), 8) != 0))]
    def post_effects(self, c): c.st.mem = sym.Mem(c.st.mem, 'store', self.log(), c.ret, 8)


class Flip(H):
    """the end of a round"""
    name = 'gcFlip'
    params = ['gc']
    ret_bits = None
    def modifies(self, c): return [(c.gc, bv(self.o('sizeof_gc')))]


class Step(H):
    """every object taken from the queue is traced and then black"""
    name = 'gcRunIncremental'
    params = ['gc']
    ghosts = {'LOG': 64}
    ret_bits = None
    explicit = True
    def requires(self, c):
        self.cx = c
        L = c.G['LOG']
        return [self.gc_valid(c), ('log', c.valid(L, bv(24), 'log', own=True)), ('', And(c.pre(L, 8) == 0, c.pre(L + 8, 8) == 0))]
    def modifies(self, c): return [(bv(0), bv((1 << 64) - 1))]
    def black(self, rd):
        L = self.cx.G['LOG']
        p = rd(L + 8, 8)
        return Or(rd(L, 8) == 0, And(rd(L, 8) == p, zx(rd(p + self.o('head_version'), 1)) == rd(L + 16, 8)))
    def loops(self, view): return [('traced and black', self.black(view.rd)), ('', BoolVal(True))]
    def ensures(self, c): return [('every object taken is traced and black', self.black(c.post))]
    def indirect(self, v, st, fn, args, a): return self.call.apply(v, st, args, 'trace function')


class RSet(H):
    """every field of every remembered object (I) that is ahead of the collector is marked, and exactly those objects stay remembered, in order"""
    name = 'gcRSet'
    params = ['gc']
    ghosts = {'I': 64, 'J': 64, 'N': 64, 'LOG': 64}
    ret_bits = None
    generic_clauses = False
    RS, FIRST, COUNT = z3.Function('REMEMBERED', W64, W64), z3.Function('FIRST_KEPT', W64, W64), BitVec('remembered', 64)
    def __init__(self, ctx, kind):
        H.__init__(self, ctx)
        self.kind = kind
    def link(self, rd, p): return rd(p + self.o('headex_rset'), 8)
    def ver(self, rd, p): return rd(p + self.o('head_version'), 1)
    def typ(self, rd, p): return rd(p + self.o('head_type'), 1)
    def len(self, rd, p): return rd(p + self.o('vector_size'), 4)
    def ahead(self, p):
        g = Extract(7, 0, self.gcf(self.c0.pre, self.c0.gc, 'version', 8))
        v = self.ver(self.c0.pre, p)
        return And(g & 63 != v & 63, Not(self.behind(g & 63, v & 63)))
    def cell(self):
        p = self.RS(self.c0.G['I'])
        return p + self.o('vector_data') + 8 * self.c0.G['J'] if self.kind == 'vector' else p + self.o('symbol_value')
    def want(self): return self.c0.pre(self.cell(), 8)
    def age(self): return bv(0, 8)
    seen = Trace.seen
    def sep(self, p, q, n=40): return Or(ULE(p + 40, q), ULE(q + n, p))
    def requires(self, c):
        self.c0 = c
        I, J = c.G['I'], c.G['J']
        p = self.RS(I)
        n = self.len(c.pre, p)
        first = ('first', self.gcf(c.pre, c.gc, 'rset', 8) == self.RS(bv(0)))
        r = [self.gc_valid(c), ('log', c.valid(c.G['LOG'], bv(8), 'log', own=True)), ('', And(c.pre(c.G['LOG'], 8) == 0, UGT(c.gc, bv(4096)))), first, ('', And(self.COUNT >= 0, self.COUNT < bv(1 << 30))), ('', And(I >= 0, I < self.COUNT, self.ahead(p), c.G['N'] >= 0))]
        q = self.cell()
        r.append(('', And(Or(ULE(q + 8, c.gc), ULE(c.gc + self.o('sizeof_gc'), q)), Or(ULE(q + 8, c.G['LOG']), ULE(c.G['LOG'] + 8, q)))))
        if self.kind == 'vector': return r + [('a vector', And(self.typ(c.pre, p) == self.o('HEAD_vector'), J >= 0, J < sx(n)))]
        return r + [('a symbol', self.typ(c.pre, p) == self.o('HEAD_symbol'))]
    def hyps(self, c):
        I, N, RS, F = c.G['I'], c.G['N'], self.RS, self.FIRST
        def h(t):
            p = RS(t)
            inn = And(t >= 0, t < self.COUNT)
            return And(RS(self.COUNT) == 0, F(self.COUNT) == self.COUNT, Implies(inn, And(UGT(p, bv(4096)), ULT(p, bv(1 << 46)), self.link(c.pre, p) == RS(t + 1), Implies(self.typ(c.pre, p) == self.o('HEAD_vector'), And(self.len(c.pre, p) >= 0, self.len(c.pre, p) < bv(1 << 24, 32))), F(t) == If(self.ahead(p), t, F(t + 1)), self.sep(p, c.G['LOG'], 8), self.sep(p, c.gc, self.o('sizeof_gc')), self.sep(p, self.cell(), 8) if self.kind == 'vector' else self.cell() == RS(I) + self.o('symbol_value'))),
                       Implies(And(inn, t != N, N < self.COUNT), self.sep(p, RS(N))), Implies(And(inn, t != I), self.sep(p, RS(I))), Implies(And(inn, t != I), Or(ULE(p + 40, self.cell()), ULE(self.cell() + 8, p))))
        return [h]
    def modifies(self, c): return [(bv(0), bv((1 << 64) - 1))]
    parts = ('link', 'ver', 'typ', 'len')
    def kept(self, view, i): return [('kept ' + f, Implies(And(i >= view.it, i < self.COUNT), getattr(self, f)(view.rd, self.RS(i)) == getattr(self, f)(self.c0.pre, self.RS(i)))) for f in self.parts]
    def loops(self, view):
        c = self.c0
        I, J, N, RS, F, it = c.G['I'], c.G['J'], c.G['N'], self.RS, self.FIRST, view.it
        if view.ints():
            r = [('seen before', Implies(view.rd0(c.G['LOG'], 8) == 1, self.seen(view.rd)))]
            for n, t, e in view.ints(): r += [('range ' + n, t >= 0)] + [('field %s %s' % (n, k), Implies(And(q == RS(I), t > J), self.seen(view.rd))) for k, q in view.allptrs()]
            return r
        for n, t, e in view.ptrs(): view.st.regions.append(sym.Region(simplify(t), simplify(If(t == 0, bv(0), bv(1 << 28))), 'element %s %d' % (n, next(sym._serial))))
        r = [('count', And(it >= 0, it <= self.COUNT)), ('field', view.rd(self.cell(), 8) == c.pre(self.cell(), 8)), ('seen', Implies(I < it, self.seen(view.rd)))] + self.kept(view, N)
        head = self.gcf(view.rd, c.gc, 'rset', 8)
        prevs = [n for n, t, e in view.ptrs() if sym.is_const(e)]
        for n, t, e in view.ptrs():
            if n not in prevs:
                r.append(('at ' + n, t == RS(it)))
                if prevs: continue
            r += [('not in use before ' + n, Implies(t == 0, And(head == RS(it), F(bv(0)) == F(it)))), ('first ' + n, Implies(t != 0, head == RS(F(bv(0))))), ('linked ' + n, Implies(t != 0, And(UGT(t, bv(4096)), ULT(t, bv(1 << 46)), self.link(view.rd, t) == RS(it)))), ('apart ' + n, Implies(And(t != 0, N >= it, N < self.COUNT), self.sep(t, RS(N)))),
                  ('apart from this ' + n, Or(t == 0, t == RS(I), self.sep(t, RS(I)))), ('apart from the field ' + n, Or(t == 0, t == RS(I), ULE(t + 40, self.cell()), ULE(self.cell() + 8, t))), ('apart from the log ' + n, Or(t == 0, And(self.sep(t, c.G['LOG'], 8), self.sep(t, c.gc, self.o('sizeof_gc'))))),
                  ('next ' + n, Implies(I < it, If(t == RS(I), F(I + 1) == F(it), self.link(view.rd, RS(I)) == RS(F(I + 1))))), ('one ' + n, Implies(I < it, t != 0))]
        return r
    def instances(self, view): return self.kept(view, view.it) + self.kept(view, self.c0.G['I']) + [('apart ' + n, Implies(And(t != 0, view.it < self.COUNT), self.sep(t, self.RS(view.it)))) for n, t, e in view.ptrs() if sym.is_const(e) or not [x for x in view.ptrs() if sym.is_const(x[2])]] if not view.ints() else []
    def loop_terms(self, view): return [view.it, view.it + 1, self.c0.G['I'] + 1, self.c0.G['N']] if not view.ints() else []
    def ensures(self, c):
        I, RS, F = c.G['I'], self.RS, self.FIRST
        return [('the field is marked', self.seen(c.post)), ('stays remembered', self.link(c.post, RS(I)) == RS(F(I + 1))), ('the first remembered', self.gcf(c.post, c.gc, 'rset', 8) == RS(F(bv(0))))]


def tasks(ctx):
    o = ctx.off
    t = trace_stubs()
    def tr(fn, count, first):
        con = Trace(ctx, fn, count, first, None)
        return Task(fn, con, [Marks(ctx, con)])
    r = [tr('consGCFunc', lambda rd, f: bv(2), 'cons_car'), tr('vectorGCFunc', lambda rd, f: sx(rd(f + o('vector_size'), 4)), 'vector_data'), tr('nativeGCFunc', lambda rd, f: sx(rd(f + o('native_captured'), 4)), 'native_data'), tr('symbolGCFunc', lambda rd, f: bv(1), 'symbol_value')]
    for k in Roots.kinds:
        con = Roots(ctx, k)
        r.append(Task('coraGCFunc', con, t + [Marks(ctx, con)], label='coraGCFunc (%s)' % k, opts={'inv_timeout': 25000}))
    con = ContTrace(ctx)
    r.append(Task('continuationGCFunc', con, [Marks(ctx, con)], opts={'inv_timeout': 25000}))
    r += [Task('nextVersion', Next(ctx)), Task('markObject', MarkObj(ctx), [Version(ctx), Next(ctx), Enqueue(ctx)]), Task('gcEnqueue', Enqueue(ctx), [QueueBlock(ctx)]), Task('blockReset', Reset(ctx))]
    r += [Task('gcDequeue', Dequeue(ctx, k), [Reset(ctx)], label='gcDequeue (%s)' % k) for k in ('one block', 'more')]
    r += [Task('gcContains', Contains(ctx)), Task('checkPointer', Check(ctx), [Contains(ctx), InUse(ctx)], opts={'prove_timeout': 150000}, weight=12, limit=400), Task('gcMark', Mark(ctx), [Resolve(ctx), MarkObj(ctx)])]
    r += [Task('writeBarrierForIncremental', SlotBarrier(ctx), [MarkCall(ctx)]), Task('writeBarrierForGeneration', RSetBarrier(ctx), [MarkCall(ctx), Version(ctx)])]
    for k in ('vector', 'symbol'):
        con = RSet(ctx, k)
        r.append(Task('gcRSet', con, [Marks(ctx, con), Version(ctx)], label='gcRSet (%s)' % k, opts={'inv_timeout': 25000}, weight=20, limit=600))
    step = Step(ctx)
    step.call = TraceCall(ctx, step)
    kinds = [(ctx.off('HEAD_' + k), fn) for k, fn in (('cons', 'consGCFunc'), ('bytes', 'bytesGCFunc'), ('vector', 'vectorGCFunc'), ('symbol', 'symbolGCFunc'), ('native', 'nativeGCFunc'))]
    r.append(Task('typesInit', Registered(ctx, 'typesInit', [], kinds), [Register(ctx), MapInit()]))
    r.append(Task('gcRunIncremental', step, t + [Taken(ctx, step), Flip(ctx)], indirect=step.indirect))
    return r
