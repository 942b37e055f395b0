from common import *
import vm
from vm import *
SOURCES = [PROBE, 'src/types.c', 'src/runtime.c']
DRIVER = 'c13.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck']
TRUSTED = [TRACE_ASSUMPTION, 'stacks have fewer than 2^24 segments and saved frames', 'segments are separate heap objects (they come from malloc and each is in the list once)',
           'code runs in the frame it allocated: it does not move ctx.sp except through these functions']
OUTSIDE = ['the slots a compiled function uses lie below the frame size recorded in its function object (compiler, C22)']
SEG = 256 * 8
LIM = 1 << 24


class Stk(Contract):
    """machine: segments segs[0..m), the current one is the last, [begin, end) with begin <= bp <= sp <= end; saved frames cs[0..n)"""
    ghosts = {'K': 64}
    ret_bits = None
    def __init__(self, ctx):
        self.ctx, self.o = ctx, ctx.off
    def ctxf(self, rd, c, f, n=8): return rd(c.co + self.o('cora_ctx') + self.o('frame_' + f), n)
    def stk(self, rd, c, f): return rd(c.co + self.o('cora_stk') + self.o('stk_' + f), 8)
    def sv(self, rd, c, f, n): return rd(c.co + self.o('cora_stk') + self.o('stk_data') + self.o('vec_' + f), n)
    def seg(self, rd, c, i): return rd(self.sv(rd, c, 'data', 8) + 8 * i, 8)
    def cv(self, rd, c, f, n): return rd(c.co + self.o('cora_callstack') + self.o('vec_' + f), n)
    def frame(self, rd, c, i, f, n=8): return rd(self.cv(rd, c, 'data', 8) + self.o('sizeof_frame') * i + self.o('frame_' + f), n)
    FR = (('fn', 8), ('label', 4), ('bp', 8), ('sp', 8))
    def machine(self, c, segments=True, calls=False, own_seg=True):
        o = self.o
        r = [('machine', c.valid(c.co, bv(o('sizeof_cora')), 'machine', own=True))]
        if segments:
            n, cap = self.sv(c.pre, c, 'len', 4), self.sv(c.pre, c, 'cap', 4)
            r += [('segments', And(n > 0, n <= cap, cap < bv(LIM, 32))), ('list of segments', c.valid(self.sv(c.pre, c, 'data', 8), 8 * sx(cap), 'segments', own=True))]
            b, e, sp, bp = self.stk(c.pre, c, 'begin'), self.stk(c.pre, c, 'end'), self.ctxf(c.pre, c, 'sp'), self.ctxf(c.pre, c, 'bp')
            r += [('current segment is the last', self.seg(c.pre, c, sx(n) - 1) == b), ('its end', e == b + SEG)]
            if own_seg:
                r.append(('current segment', c.valid(b, bv(SEG), 'segment', own=True)))
            r += [('stack pointer in the current segment', And(UGE(sp, b), ULE(sp, e), Extract(2, 0, sp) == 0, Extract(2, 0, b) == 0)), ]
        if calls:
            n, cap = self.cv(c.pre, c, 'len', 4), self.cv(c.pre, c, 'cap', 4)
            r += [('saved frames', And(n >= 0, n <= cap, cap > 0, cap < bv(LIM, 32))), ('saved frames storage', c.valid(self.cv(c.pre, c, 'data', 8), o('sizeof_frame') * sx(cap), 'saved frames', own=True))]
        return r
    def mods(self, c, *fields):
        """whole fields of the machine"""
        o = self.o
        size = {'ctx': o('sizeof_frame'), 'callstack': o('sizeof_vec'), 'stk': o('cora_res') - o('cora_stk'), 'res': 8, 'trystack': o('sizeof_vec')}
        return [(c.co + o('cora_' + f), bv(size[f])) for f in fields]
    def segstore(self, c): return (self.sv(c.pre, c, 'data', 8), 8 * sx(self.sv(c.pre, c, 'cap', 4)))
    def callstore(self, c): return (self.cv(c.pre, c, 'data', 8), self.o('sizeof_frame') * sx(self.cv(c.pre, c, 'cap', 4)))
    def ctx_kept(self, c, *fs): return conj([self.ctxf(c.post, c, f, n) == self.ctxf(c.pre, c, f, n) for f, n in self.FR if f in fs])
    def segs_kept(self, c, n, label='the other segments stay'):
        K = c.G['K']
        return (label, Implies(And(K >= 0, K < sx(n)), self.seg(c.post, c, K) == self.seg(c.pre, c, K)))
    def frames_kept(self, c, n, label='the frames saved before stay'):
        K = c.G['K']
        return (label, Implies(And(K >= 0, K < sx(n)), conj([self.frame(c.post, c, K, f, s) == self.frame(c.pre, c, K, f, s) for f, s in self.FR])))
    def sound(self, c, vec, es):
        n, cap = vec(c.post, c, 'len', 4), vec(c.post, c, 'cap', 4)
        return [('within the storage', And(n <= cap, cap > 0)), ('storage', c.alive(c.v.resolve(c.st, vec(c.post, c, 'data', 8)), es * sx(cap)))]


class Alloc(Stk):
    """a frame of n slots: the next n slots of the current segment, or the first n of a new one"""
    params = ['co', 'n']
    ret_bits = 64
    slow = False
    def requires(self, c): return self.machine(c)
    def fits(self, c): return And(c.n > 0, ULT(self.ctxf(c.pre, c, 'sp') + 8 * sx(c.n), self.stk(c.pre, c, 'end')))
    def traps(self, c): return Or(c.n <= 0, c.n >= 256)
    def modifies(self, c): return self.mods(c, 'ctx', 'stk') + [self.segstore(c)]
    def new(self, c, p):
        m = self.sv(c.pre, c, 'len', 4)
        return And(c.is_fresh(p, bv(SEG)), self.sv(c.post, c, 'len', 4) == m + 1, self.seg(c.post, c, sx(m)) == p, self.stk(c.post, c, 'begin') == p, self.stk(c.post, c, 'end') == p + SEG)
    def ensures(self, c):
        m = self.sv(c.pre, c, 'len', 4)
        here = And(self.fits(c), c.ret == self.ctxf(c.pre, c, 'sp'), self.sv(c.post, c, 'len', 4) == m, self.stk(c.post, c, 'begin') == self.stk(c.pre, c, 'begin'), self.stk(c.post, c, 'end') == self.stk(c.pre, c, 'end'))
        if self.slow:
            here = BoolVal(False)
        return [('the next slots of the segment, or a new segment', Or(here, self.new(c, c.ret))),
                ('is the current frame', And(self.ctxf(c.post, c, 'bp') == c.ret, self.ctxf(c.post, c, 'sp') == c.ret + 8 * sx(c.n))),
                ('lies in the current segment', And(UGE(c.ret, self.stk(c.post, c, 'begin')), ULT(self.ctxf(c.post, c, 'sp'), self.stk(c.post, c, 'end')), ULE(c.ret, self.ctxf(c.post, c, 'sp')))),
                ('a frame has between 1 and 255 slots', And(c.n > 0, c.n < 256) if self.slow else c.n > 0), ('code and label stay', self.ctx_kept(c, 'fn', 'label')),
                self.segs_kept(c, m)] + self.sound(c, self.sv, 8)


class SlowAlloc(Alloc):
    slow = True
    def traps(self, c): return c.n >= 256
    def requires(self, c): return self.machine(c) + [('', c.n > 0)]


class Save(Stk):
    params = ['co', 'fn', 'label', 'bp']
    def requires(self, c): return self.machine(c, segments=False, calls=True)
    def modifies(self, c): return self.mods(c, 'callstack') + [self.callstore(c)]
    def ensures(self, c):
        n = self.cv(c.pre, c, 'len', 4)
        want = {'fn': c.fn, 'label': c.label, 'bp': c.bp, 'sp': self.ctxf(c.pre, c, 'sp')}
        return [('one frame more', self.cv(c.post, c, 'len', 4) == n + 1), ('is the continuation with the current stack pointer', conj([self.frame(c.post, c, sx(n), f, s) == want[f] for f, s in self.FR])),
                self.frames_kept(c, n), ('the current frame stays', self.ctx_kept(c, 'fn', 'label', 'bp', 'sp'))] + self.sound(c, self.cv, self.o('sizeof_frame'))


class Unwind(Stk):
    """drop the segments above the one, J, that holds the stack pointer of the frame being resumed"""
    name = 'coraReturnSlowPath'
    params = ['co']
    ghosts = {'K': 64, 'J': 64}
    fresh_sp = None
    def sp(self, c): return self.ctxf(c.pre, c, 'sp')
    def m(self, c): return sx(self.sv(c.pre, c, 'len', 4))
    def inside(self, c, rd, i): return And(UGE(self.sp(c), self.seg(rd, c, i)), ULT(self.sp(c), self.seg(rd, c, i) + SEG))
    def requires(self, c):
        self.cx = c
        J = c.G['J']
        n, cap = self.sv(c.pre, c, 'len', 4), self.sv(c.pre, c, 'cap', 4)
        return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True)), ('segments', And(n > 0, n <= cap, cap < bv(LIM, 32))),
                ('list of segments', c.valid(self.sv(c.pre, c, 'data', 8), 8 * sx(cap), 'segments', own=True)),
                ('current segment is the last', self.seg(c.pre, c, sx(n) - 1) == self.stk(c.pre, c, 'begin')),
                ('the stack pointer lies in a segment below', And(J >= 0, J < sx(n) - 1, self.inside(c, c.pre, J)))]
    def hyps(self, c):
        K, J = c.G['K'], c.G['J']
        in_seg = lambda t: And(UGT(self.seg(c.pre, c, t), bv(4096)), ULT(self.seg(c.pre, c, t), bv(1 << 46)))
        return [lambda t: Implies(And(t >= 0, t < self.m(c)), in_seg(t)), lambda t: Implies(And(t > J, t < self.m(c)), Not(self.inside(c, c.pre, t))), lambda t: Implies(And(t > J, t < self.m(c), K >= 0, K <= J), self.seg(c.pre, c, t) != self.seg(c.pre, c, K))]
    def setup(self, c):
        con = self
        def free(v, st, args, what):
            K, J = c.G['K'], c.G['J']
            for h in st.foralls:
                st.assume(v.instance(h, sx(v.read(st, st.mem, simplify(c.co + con.o('cora_stk') + con.o('stk_data') + con.o('vec_len')), 4)) - 1, st))
            v.prove(st, Implies(And(K >= 0, K <= J), args[0] != con.seg(c.pre, c, K)), 'a segment that holds frames is not freed', what)
            return [('ret', st, None)]
        c.v.models['free'] = free
    def modifies(self, c): return self.mods(c, 'stk') + [self.segstore(c)]
    def loops(self, view):
        c = self.cx
        J, K = c.G['J'], c.G['K']
        n = sx(self.sv(view.rd, c, 'len', 4))
        b = self.stk(view.rd, c, 'begin')
        it = view.it
        return [('top', n == self.m(c) - it), ('above', n > J + 1), ('begin', b == self.seg(c.pre, c, n - 1)), ('top is begin', self.seg(view.rd, c, n - 1) == b),
                ('list', self.sv(view.rd, c, 'data', 8) == self.sv(c.pre, c, 'data', 8)), ('cap', self.sv(view.rd, c, 'cap', 4) == self.sv(c.pre, c, 'cap', 4)),
                ('kept', self.kept(view, n, K))]
    def kept(self, view, n, k): return Implies(And(k >= 0, k < n), self.seg(view.rd, self.cx, k) == self.seg(self.cx.pre, self.cx, k))
    def top(self, view): return sx(self.sv(view.rd, self.cx, 'len', 4))
    def instances(self, view): return [('kept', self.kept(view, self.top(view), k)) for k in (self.cx.G['J'], self.top(view) - 1, self.top(view) - 2)]
    def loop_terms(self, view): return [self.top(view) - 1, self.top(view) - 2]
    def ensures(self, c):
        J, K = c.G['J'], c.G['K']
        if c.mode == 'call':
            J = c.aux['J']
        return [('the segment of the stack pointer is the current one', And(self.stk(c.post, c, 'begin') == self.seg(c.pre, c, J), self.stk(c.post, c, 'end') == self.seg(c.pre, c, J) + SEG)),
                ('the segments above are dropped', sx(self.sv(c.post, c, 'len', 4)) == J + 1), ('the list stays in place', And(self.sv(c.post, c, 'data', 8) == self.sv(c.pre, c, 'data', 8), self.sv(c.post, c, 'cap', 4) == self.sv(c.pre, c, 'cap', 4))),
                ('the segments below stay', Implies(And(K >= 0, K <= J), self.seg(c.post, c, K) == self.seg(c.pre, c, K)))]


class UnwindCall(Unwind):
    """the same contract at a call site of Return: J is the segment of the frame being resumed"""
    def requires(self, c):
        J = c.aux['J'] = self.J
        n = self.sv(c.pre, c, 'len', 4)
        return [('segments', n > 0), ('current segment is the last', self.seg(c.pre, c, sx(n) - 1) == self.stk(c.pre, c, 'begin')), ('the stack pointer lies in a segment below', And(J >= 0, J < sx(n) - 1, self.inside(c, c.pre, J)))]
    def inst(self, c): return [{'K': c.v.ghost_terms[0], 'J': self.J}]


class Return(Stk):
    """resume the frame saved last; J is the segment its stack pointer lies in"""
    params = ['co', 'val']
    ghosts = {'K': 64, 'J': 64}
    def __init__(self, ctx, unwind):
        Stk.__init__(self, ctx)
        self.unwind = unwind
    def top(self, c): return sx(self.cv(c.pre, c, 'len', 4)) - 1
    def inside(self, c, i):
        sp = self.frame(c.pre, c, self.top(c), 'sp')
        return And(UGE(sp, self.seg(c.pre, c, i)), ULT(sp, self.seg(c.pre, c, i) + SEG))
    def requires(self, c):
        J = c.G['J']
        m = sx(self.sv(c.pre, c, 'len', 4))
        self.unwind.J = J
        return self.machine(c, True, True, False) + [('a frame to return to', self.cv(c.pre, c, 'len', 4) > 0), ('its stack pointer lies in a segment', And(J >= 0, J < m, self.inside(c, J)))]
    def hyps(self, c):
        m = sx(self.sv(c.pre, c, 'len', 4))
        return [lambda t: Implies(And(t >= 0, t < m), And(UGT(self.seg(c.pre, c, t), bv(4096)), ULT(self.seg(c.pre, c, t), bv(1 << 46)))), lambda t: Implies(And(t > c.G['J'], t < m), Not(self.inside(c, t)))]
    def setup(self, c):
        m = sx(self.sv(c.pre, c, 'len', 4))
        for h in self.hyps(c):
            c.st.assume(c.v.instance(h, m - 1, c.st))
    def modifies(self, c): return self.mods(c, 'ctx', 'callstack', 'stk', 'res') + [self.segstore(c), self.callstore(c)]
    def ensures(self, c):
        n, J, K = self.cv(c.pre, c, 'len', 4), c.G['J'], c.G['K']
        return [('the value is the result', c.post(c.co + self.o('cora_res'), 8) == c.val), ('one frame less', self.cv(c.post, c, 'len', 4) == n - 1),
                ('the machine is in the frame saved last', conj([self.ctxf(c.post, c, f, s) == self.frame(c.pre, c, self.top(c), f, s) for f, s in self.FR])),
                ('in the segment of that frame', And(self.stk(c.post, c, 'begin') == self.seg(c.pre, c, J), self.stk(c.post, c, 'end') == self.seg(c.pre, c, J) + SEG, sx(self.sv(c.post, c, 'len', 4)) == J + 1)),
                self.frames_kept(c, n - 1, 'the other saved frames stay'), ('the segments below stay', Implies(And(K >= 0, K <= J), self.seg(c.post, c, K) == self.seg(c.pre, c, K)))]


class Init(Stk):
    params = ['s']
    def requires(self, c): return [('place', c.valid(c.s, bv(self.o('cora_res') - self.o('cora_stk')), 'segments', own=True))]
    def modifies(self, c): return [(c.s, bv(self.o('cora_res') - self.o('cora_stk')))]
    def ensures(self, c):
        o = self.o
        b, d = c.post(c.s + o('stk_begin'), 8), c.post(c.s + o('stk_data') + o('vec_data'), 8)
        return [('one segment', c.post(c.s + o('stk_data') + o('vec_len'), 4) == 1), ('is the current one', And(c.post(d, 8) == b, c.post(c.s + o('stk_end'), 8) == b + SEG)), ('a new segment', c.is_fresh(b, bv(SEG)))]


def lemmas():
    b1, s1, b2, s2, e, n, p = z3.BitVecs('b1 s1 b2 s2 e n p', 64)
    dis = lambda a, b, c, d: Or(ULE(b, c), ULE(d, a))
    small = And(*[ULT(x, bv(1 << 47)) for x in (b1, s1, b2, s2, e, n)])
    return [Lemma('a frame taken at the stack pointer lies behind every frame of the segment that ends at or below it', Implies(And(small, ULE(b1, s1), ULE(s1, b2), ULE(b2, s2)), dis(b1, s1, b2, s2))),
            Lemma('frames in different segments are apart', Implies(And(small, ULE(e, b1), ULE(b1, s1), ULE(s1, e + SEG), ULE(n, b2), ULE(b2, s2), ULE(s2, n + SEG), dis(e, e + SEG, n, n + SEG)), dis(b1, s1, b2, s2))),
            Lemma('a resumed frame ends at its stack pointer, so the next frame lies behind it', Implies(And(small, ULE(b1, s1), b2 == s1, ULE(b2, s2)), dis(b1, s1, b2, s2)))]


def tasks(ctx):
    u = UnwindCall(ctx)
    return [Task('p_stackAlloc', Alloc(ctx)), Task('stackAllocSlowPath', SlowAlloc(ctx)), Task('p_saveCont', Save(ctx)), Task('coraReturnSlowPath', Unwind(ctx)),
            Task('p_coraReturn', Return(ctx, u), [u]), Task('segmentStackInit', Init(ctx))] + lemmas()
