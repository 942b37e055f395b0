import os
from common import *
import sym
import vm
from vm import *
import c13
from c13 import Stk, SlowAlloc, UnwindCall, SEG, LIM
PROBE_RT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe_rt.c')
SOURCES = [PROBE, PROBE_RT, 'src/types.c']
DRIVER = 'c14.c'
LIMIT = 540
TRUSTED = [TRACE_ASSUMPTION, ALLOC_ASSUMPTION, 'growable arrays keep their elements when they grow (C09); after growth the old storage counts as freed', 'frames, segments and function calls behave as C12 and C13 prove',
           'continuations have fewer than 2^20 frames and 2^20 segments', 'frames saved since a try began lie in the segments added since (C13: the try starts in a new segment, returning to a frame below it drops its mark)']
OUTSIDE = ['throw inside a handler of the same try is not caught by it, and a resumption is called at most once: the reference evaluator of the driver defines the combined behaviour of nested and repeated throws']
HANDLER, CHUNK = 2, 1


class Append(Contract):
    """C09: the array with one element more; its storage may have moved, so the old one is not to be used"""
    name = '_vector_append'
    params = ['vec', 'el', 'size']
    ghosts = {'K': 64}
    ret_bits = None
    def __init__(self, ctx, terms=None):
        self.o, self.terms = ctx.off, terms
    def inst(self, c): return [{'K': t} for t in (self.terms or (lambda c: c.v.ghost_terms[:1]))(c)]
    def f(self, rd, c, n, s): return rd(c.vec + self.o('vec_' + n), s)
    def requires(self, c):
        self.es = simplify(c.size).as_long()
        return [('array', c.valid(c.vec, bv(self.o('sizeof_vec')), 'array')), ('element', c.valid(c.el, c.size, 'element')), ('length', And(self.f(c.pre, c, 'len', 4) >= 0, self.f(c.pre, c, 'len', 4) < bv(LIM, 32)))]
    def modifies(self, c): return [(c.vec, bv(self.o('sizeof_vec')))]
    def ensures(self, c):
        es, K, n = self.es, c.G['K'], self.f(c.pre, c, 'len', 4)
        new, old, cap = self.f(c.post, c, 'data', 8), self.f(c.pre, c, 'data', 8), self.f(c.post, c, 'cap', 4)
        words = [(o, s) for o, s in (((0, 8), (8, 4), (16, 8), (24, 8)) if es == 32 else ((0, 8), (0, 4), (4, 4)))]
        r = []
        if not c.aux.get('done'):
            was = c.v.region_of(c.st, simplify(old))
            if was is not None and not was.local:
                c.st.freed = c.st.freed | {was.name}
            r = [('', c.is_fresh(new, es * sx(cap)))]
            c.aux['done'] = True
        return r + [('one element more', self.f(c.post, c, 'len', 4) == n + 1), ('storage', And(n + 1 <= cap, cap < bv(LIM, 32) * 4))] + [
            ('the element', c.post(new + es * sx(n) + o, s) == c.pre(c.el + o, s)) for o, s in words] + [('the others', Implies(And(K >= 0, K < sx(n)), conj([c.post(new + es * K + o, s) == c.pre(old + es * K + o, s) for o, s in words])))]


class Seen(Stk):
    """a call into the machine: what must hold there is its precondition; recorded in ghost memory (LOG)"""
    ghosts = {}
    def __init__(self, ctx, name, params, root, check):
        Stk.__init__(self, ctx)
        self.name, self.params, self.root, self.check = name, params, root, check
    def requires(self, c): return [('called once', c.pre(self.root.log(), 8) == 0)] + self.check(c)
    def modifies(self, c): return [(self.root.log(), bv(8)), (c.co, bv(self.o('sizeof_cora')))]
    def post_effects(self, c): c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.root.log()), bv(1), 8)


class Try(Stk):
    params = ['co', 'label', 'R']
    ghosts = {'K': 64, 'LOG': 64}
    def log(self): return simplify(self.c0.G['LOG'])
    def mv(self, rd, c, f, n): return rd(c.co + self.o('cora_trystack') + self.o('vec_' + f), n)
    def mark(self, rd, c, i): return tuple(rd(self.mv(rd, c, 'data', 8) + self.o('sizeof_trymark') * i + self.o('trymark_' + f), 4) for f in ('cs', 'ss'))
    def name_machine(self, c):
        o = self.o
        for vec in ('callstack', 'trystack'):
            for f, k in (('data', 8), ('len', 4), ('cap', 4)):
                c.let(c.co + o('cora_' + vec) + o('vec_' + f), k, vec + '_' + f)
        for f, k in (('data', 8), ('len', 4), ('cap', 4)):
            c.let(c.co + o('cora_stk') + o('stk_data') + o('vec_' + f), k, 'segments_' + f)
        for f in ('begin', 'end'):
            c.let(c.co + o('cora_stk') + o('stk_' + f), 8, f)
        for f in ('bp', 'sp'):
            c.let(c.co + o('cora_ctx') + o('frame_' + f), 8, f)
    def base(self, c, nargs):
        self.c0 = c
        self.name_machine(c)
        n, cap = self.mv(c.pre, c, 'len', 4), self.mv(c.pre, c, 'cap', 4)
        return self.machine(c, True, True, False) + [('frame', c.valid(c.R, bv(8 * (nargs + 1)), 'frame', own=True, writable=False)), ('marks', And(n >= 0, n <= cap, cap > 0, cap < bv(LIM, 32))),
            ('marks storage', c.valid(self.mv(c.pre, c, 'data', 8), self.o('sizeof_trymark') * sx(cap), 'marks', own=True)), ('log', c.valid(c.G['LOG'], bv(16), 'log', own=True)), ('', And(c.pre(c.G['LOG'], 8) == 0, c.pre(c.G['LOG'] + 8, 8) == 0))]
    def modifies(self, c):
        return [(c.co, bv(self.o('sizeof_cora'))), (self.log(), bv(16)), self.segstore(c), self.callstore(c), (self.mv(c.pre, c, 'data', 8), self.o('sizeof_trymark') * sx(self.mv(c.pre, c, 'cap', 4)))]
    def arg(self, c, i): return c.pre(c.R + 8 * i, 8)
    def ensures(self, c): return [('the call is made', c.post(self.log(), 8) == 1)]
    def marks_kept(self, rd, n):
        c, K = self.c0, self.c0.G['K']
        return ('the marks of the tries outside stay', Implies(And(K >= 0, K < sx(n)), conj([a == b for a, b in zip(self.mark(rd, c, K), self.mark(c.pre, c, K))])))
    def segs_are(self, rd, c, n, label): return (label, Implies(And(c.G['K'] >= 0, c.G['K'] < sx(n)), self.seg(rd, c, c.G['K']) == self.seg(c.pre, c, c.G['K'])))
    def frames_are(self, rd, n, label):
        c, K = self.c0, self.c0.G['K']
        return (label, Implies(And(K >= 0, K < sx(n)), conj([self.frame(rd, c, K, f, s) == self.frame(c.pre, c, K, f, s) for f, s in self.FR])))


class TryStart(Try):
    """(try chunk handler): a new segment holds a copy of the frame; a mark remembers the depths; the chunk is called to return to step 1"""
    name = 'builtinTryCatch'
    def requires(self, c): return self.base(c, 2) + [('first step', c.label == 0)]
    def check(self, s):
        """at the call of the chunk"""
        c, rd = self.c0, s.pre
        n, m, t = (f(c.pre, c, 'len', 4) for f in (self.cv, self.sv, self.mv))
        seg = s.v.resolve(s.st, self.seg(rd, c, sx(m)))
        fr = lambda f, k: self.frame(rd, c, sx(n), f, k)
        cs, ss = self.mark(rd, c, sx(t))
        return [('the chunk', s.fn == self.arg(c, CHUNK)), ('one segment more', self.sv(rd, c, 'len', 4) == m + 1), ('is the current one', And(self.stk(rd, c, 'begin') == seg, self.stk(rd, c, 'end') == seg + SEG)),
                ('the chunk runs behind a copy of the frame in it', And(self.ctxf(rd, c, 'bp') == seg, self.ctxf(rd, c, 'sp') == seg + 24)), ('one frame more', self.cv(rd, c, 'len', 4) == n + 1),
                ('it comes back to step 1', And(fr('fn', 8) == s.v.fn_addr(self.ctx.prog.find('builtinTryCatch')), fr('label', 4) == 1)), ('in the copy', And(fr('bp', 8) == seg, fr('sp', 8) == seg + 24)),
                ('the copy', conj([rd(seg + 8 * i, 8) == self.arg(c, i) for i in range(3)])), ('one mark more', self.mv(rd, c, 'len', 4) == t + 1), ('it remembers the depth of the frames', cs == n), ('and of the segments', ss == m),
                self.marks_kept(rd, t), self.frames_are(rd, n, 'the frames below stay'), self.segs_are(rd, c, m, 'the segments below stay')]
    def uses(self): return [SlowAlloc(self.ctx), Append(self.ctx), Seen(self.ctx, 'coraCall0', ['co', 'fn'], self, self.check)]


class TryEnd(Try):
    """the chunk returned: the mark goes, its value is the value of try"""
    name = 'builtinTryCatch'
    def requires(self, c): return self.base(c, 2) + [('second step', c.label == 1), ('its mark', self.mv(c.pre, c, 'len', 4) > 0)]
    def check(self, s):
        c, rd = self.c0, s.pre
        same = conj([f(rd, c, x, k) == f(c.pre, c, x, k) for f in (self.cv, self.sv) for x, k in (('data', 8), ('len', 4))])
        return [('the value of the chunk', s.val == c.pre(c.co + self.o('cora_res'), 8)), ('one mark less', self.mv(rd, c, 'len', 4) == self.mv(c.pre, c, 'len', 4) - 1), ('frames and segments stay', same),
                self.marks_kept(rd, self.mv(rd, c, 'len', 4)), self.frames_are(rd, self.cv(c.pre, c, 'len', 4), 'the frames stay')]
    def uses(self): return [Seen(self.ctx, 'coraReturn', ['co', 'val'], self, self.check)]


class Continuation(Stk):
    def cn(self, rd, p, f): return rd(p + self.o('cont_' + f), 4)
    def cframe(self, rd, p, i, f, n): return rd(p + self.o('cont_data') + self.o('sizeof_frame') * i + self.o('frame_' + f), n)
    def cseg(self, rd, p, n, i): return rd(p + self.o('cont_data') + self.o('sizeof_frame') * n + 8 * i, 8)


class MakeContinuation(Continuation):
    """a new object that holds the given frames and segments"""
    name = 'makeContinuation'
    params = ['co', 'callstack', 'len', 'stk', 'count']
    ghosts = {'K': 64}
    ret_bits = 64
    def __init__(self, ctx, part='all'):
        Stk.__init__(self, ctx)
        self.part = part
    def requires(self, c):
        self.cx = c
        top = {'frames': c.len, 'segments': c.count}.get(self.part) if c.mode == 'body' else None
        return ([] if top is None else [('', And(c.G['K'] >= 0, c.G['K'] < sx(top)))]) + [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True)), ('frames', And(c.len >= 0, c.len < bv(1 << 20, 32))), ('segments', And(c.count >= 0, c.count < bv(1 << 20, 32))),
                ('the frames', c.valid(c.callstack, self.o('sizeof_frame') * sx(c.len), 'frames')), ('the segments', c.valid(c.stk, 8 * sx(c.count), 'segments'))]
    def inst(self, c): return [{'K': c.v.ghost_terms[0]}]
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('continuation', 45), bv(0, 3)), PTR))
    def bounds(self, view): return [('len', sx(self.cx.len)), ('count', sx(self.cx.count))]
    def copied(self, rd, p, n, label):
        c, K = self.cx, self.cx.G['K']
        return [('%s frame %s' % (label, f), Implies(And(K >= 0, K < n), self.cframe(rd, p, K, f, s) == c.pre(c.callstack + self.o('sizeof_frame') * K + self.o('frame_' + f), s))) for f, s in self.FR]
    def loops(self, view):
        c, K, out = self.cx, self.cx.G['K'], []
        for r in view.st.regions:
            if r.fresh and not r.local and r.name.startswith('fresh'):
                b = r.base
                out += [('type', view.rd(b + self.o('head_type'), 1) == self.o('HEAD_cont')), ('len', self.cn(view.rd, b, 'len') == c.len), ('count', self.cn(view.rd, b, 'count') == c.count)]
                if self.part == 'frames':
                    out += self.copied(view.rd, b, sx(c.len), 'every')
                for n, t in view.allints():
                    if self.part == 'frames':
                        out += self.copied(view.rd, b, sx(t), 'below %s' % n)
                    if self.part == 'segments':
                        out.append(('segments below %s' % n, Implies(And(K >= 0, K < sx(t)), self.cseg(view.rd, b, sx(c.len), K) == c.pre(c.stk + 8 * K, 8))))
        return out
    def ensures(self, c):
        K, p = c.G['K'], simplify(addr(c.ret))
        self.cx = c
        r = []
        if not (c.mode == 'call' and c.aux.get('done')):
            r = [('tag', has_tag(c.ret, PTR)), ('canonical', c.ret == tagged(p, PTR)), ('a fresh object', c.is_fresh(p, bv(self.o('sizeof_cont')) + self.o('sizeof_frame') * sx(c.len) + 8 * sx(c.count)))]
        c.aux['done'] = True
        fr = self.copied(c.post, p, sx(c.len), 'its') if self.part == 'frames' else []
        return r + [('a continuation', c.post(p + self.o('head_type'), 1) == self.o('HEAD_cont')), ('of that many frames', self.cn(c.post, p, 'len') == c.len), ('and segments', self.cn(c.post, p, 'count') == c.count)] + fr + [] + ([] if self.part != 'segments' else [
            ('the segments in order', Implies(And(K >= 0, K < sx(c.count)), self.cseg(c.post, p, sx(c.len), K) == c.pre(c.stk + 8 * K, 8)))])


class MakeNative1(Contract):
    """C04: a function object with one captured value"""
    name = 'makeNative'
    params = ['gc', 'nframe', 'fn', 'required', 'captured', 'x']
    def __init__(self, ctx): self.o = ctx.off
    def requires(self, c): return [('one captured value', c.captured == 1), ('frame', c.nframe > 0)]
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('function', 45), bv(0, 3)), NATIVE))
    def ensures(self, c):
        o, p = self.o, simplify(addr(c.ret))
        return [('', c.is_fresh(p, bv(o('native_data') + 8))), ('', c.post(p + o('head_type'), 1) == o('HEAD_native')), ('', c.post(p + o('native_fn'), 8) == c.fn), ('', c.post(p + o('native_required'), 4) == c.required),
                ('', c.post(p + o('native_nframe'), 4) == c.nframe), ('', c.post(p + o('native_captured'), 4) == 1)]
    def post_effects(self, c): c.st.mem = sym.Mem(c.st.mem, 'store', simplify(addr(c.ret) + self.o('native_data')), c.x, 8)


class Throw(Try, Continuation):
    """(throw v): the frames and segments since the innermost try become a continuation; the machine is back in the frame that called try and calls the handler on v and the continuation"""
    name = 'builtinThrow'
    ghosts = {'K': 64, 'J': 64, 'LOG': 64}
    def __init__(self, ctx, part):
        Try.__init__(self, ctx)
        self.unwind = UnwindCall(ctx)
        self.part = part
    def mk(self, c): return self.mark(c.pre, c, sx(self.mv(c.pre, c, 'len', 4)) - 1)
    def below(self, c, f, n=8): return self.frame(c.pre, c, sx(self.mk(c)[0]) - 1, f, n)
    def inside(self, c, i): return And(UGE(self.below(c, 'sp'), self.seg(c.pre, c, i)), ULT(self.below(c, 'sp'), self.seg(c.pre, c, i) + SEG))
    def requires(self, c):
        J = c.G['J']
        self.unwind.J = J
        b = self.base(c, 1)
        t = self.mv(c.pre, c, 'len', 4)
        at = self.mv(c.pre, c, 'data', 8) + self.o('sizeof_trymark') * (sx(t) - 1)
        cs, ss = (c.let(at + self.o('trymark_' + f), 4, f) for f in ('cs', 'ss'))
        n, m = self.cv(c.pre, c, 'len', 4), self.sv(c.pre, c, 'len', 4)
        tryframe = simplify(self.frame(c.pre, c, sx(cs), 'bp'))
        K = c.G['K']
        top = {'frames': sx(n) - sx(cs), 'segments': sx(m) - sx(ss), 'machine': J + 1, 'below': sx(cs), 'marks': sx(t) - 1}[self.part]
        return b + [('', Implies(t > 0, And(K >= 0, K < top))), ('the frame and segment of the try', Implies(t > 0, And(cs > 0, cs < n, ss > 0, ss < m))), ('less than 2^20', And(n < bv(1 << 20, 32), m < bv(1 << 20, 32))), ('frame of the try', c.valid(tryframe, bv(24), 'frame of the try', own=True, writable=False)),
            ('the frame that called it lies in a segment below', And(J >= 0, J < sx(ss), self.inside(c, J)))]
    def traps(self, c): return self.mv(c.pre, c, 'len', 4) <= 0
    def facts(self, c):
        ss = sx(self.mk(c)[1])
        return [lambda t: Implies(And(t >= 0, t < ss), And(UGT(self.seg(c.pre, c, t), bv(4096)), ULT(self.seg(c.pre, c, t), bv(1 << 46)))), lambda t: Implies(And(t > c.G['J'], t < ss), Not(self.inside(c, t)))]
    def setup(self, c):
        """what holds of every segment, at the two where it is needed"""
        top = sx(self.mk(c)[1]) - 1
        ok, above = self.facts(c)
        c.st.assume(ok(c.G['J']), ok(top), above(top))
    def loops(self, view):
        c, K, J = self.c0, self.c0.G['K'], self.c0.G['J']
        cs, ss = self.mk(c)
        last = sx(ss) - 1
        out = [('segment %s' % n, Implies(And(x >= 0, x < sx(ss)), self.seg(view.rd, c, x) == self.seg(c.pre, c, x))) for n, x in (('K', K), ('J', J), ('last', last)) if n != 'K' or self.part == 'machine']
        return out + [('segments', self.sv(view.rd, c, 'data', 8) == self.sv(c.pre, c, 'data', 8)), ('number', self.sv(view.rd, c, 'len', 4) == self.sv(c.pre, c, 'len', 4)), ('cap', self.sv(view.rd, c, 'cap', 4) == self.sv(c.pre, c, 'cap', 4))]
    def check(self, s):
        """at the call of the handler"""
        c, rd, K = self.c0, s.pre, self.c0.G['K']
        cs, ss = self.mk(c)
        n, m, t, J = self.cv(c.pre, c, 'len', 4), self.sv(c.pre, c, 'len', 4), self.mv(c.pre, c, 'len', 4), c.G['J']
        o, p = self.o, simplify(addr(s.a1))
        cont = s.v.resolve(s.st, rd(p + o('native_data'), 8))
        q = simplify(addr(cont))
        part = self.part
        if part == 'machine':
            return [('there is a try', t > 0), ('the handler of the try', s.fn == c.pre(self.frame(c.pre, c, sx(cs), 'bp') + 8 * HANDLER, 8)), ('gets the value', s.a0 == self.arg(c, 1)),
                ('in the place of the frame that called try', conj([self.ctxf(rd, c, f) == self.below(c, f) for f in ('bp', 'sp')])), ('its segment is the current one', And(self.stk(rd, c, 'begin') == self.seg(c.pre, c, J), self.stk(rd, c, 'end') == self.seg(c.pre, c, J) + SEG)),
                ('and the last', sx(self.sv(rd, c, 'len', 4)) == J + 1), ('the frames since the try are gone', self.cv(rd, c, 'len', 4) == cs), ('and its mark', self.mv(rd, c, 'len', 4) == t - 1),
                ('the segments below stay', Implies(And(K >= 0, K <= J), self.seg(rd, c, K) == self.seg(c.pre, c, K)))]
        if part == 'below':
            return [self.frames_are(rd, cs, 'the frames below stay')]
        if part == 'marks':
            return [self.marks_kept(rd, t - 1)]
        if part == 'segments':
            return [('and the resumption, a function of one argument', And(has_tag(s.a1, NATIVE), rd(p + o('head_type'), 1) == o('HEAD_native'), rd(p + o('native_required'), 4) == 1, rd(p + o('native_nframe'), 4) == 2, rd(p + o('native_captured'), 4) == 1)),
                ('that resumes', rd(p + o('native_fn'), 8) == s.v.fn_addr(self.ctx.prog.find('continuationAsClosure'))), ('a continuation', And(has_tag(cont, PTR), rd(q + o('head_type'), 1) == o('HEAD_cont'))),
                ('of the segments since the try', self.cn(rd, q, 'count') == m - ss), ('each segment', Implies(And(K >= 0, K < sx(m - ss)), self.cseg(rd, q, sx(n - cs), K) == self.seg(c.pre, c, sx(ss) + K)))]
        return [('of the frames since the try', self.cn(rd, q, 'len') == n - cs)] + [('each frame: ' + f, Implies(And(K >= 0, K < sx(n - cs)), self.cframe(rd, q, K, f, k) == self.frame(c.pre, c, sx(cs) + K, f, k))) for f, k in self.FR]
    def uses(self): return [MakeContinuation(self.ctx, self.part if self.part in ('frames', 'segments') else 'none'), MakeNative1(self.ctx), self.unwind, Seen(self.ctx, 'coraCall2', ['co', 'fn', 'a0', 'a1'], self, self.check)]


class Barrier(Contract):
    """C11: a slot is rewritten with what it holds; that is marked when a collection is under way. Recorded in LOG[8] for the slot MARK."""
    name = 'writeBarrierForIncremental'
    params = ['gc', 'slot', 'val']
    ret_bits = None
    def __init__(self, root): self.root = root
    def requires(self, c): return [('with what it holds', c.val == c.pre(c.slot, 8))]
    def modifies(self, c): return [(self.root.log() + 8, bv(8))]
    def post_effects(self, c): c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.root.log() + 8), If(c.slot == self.root.slot(), bv(1), c.pre(self.root.log() + 8, 8)), 8)


class Resume(Try, Continuation):
    """(resume v): the frames and segments of the continuation are on top of the current ones again, below a mark for a try of the same handler, and v is returned to the last of them"""
    name = 'continuationAsClosure'
    ghosts = {'K': 64, 'F': 64, 'M': 64, 'LOG': 64}
    generic_clauses = False
    def __init__(self, ctx, part):
        Try.__init__(self, ctx)
        self.part = part
    def cont(self, c): return simplify(addr(c.pre(addr(self.arg(c, 0)) + self.o('native_data'), 8)))
    def slot(self): return self.cframe(self.c0.pre, self.q, self.c0.G['F'], 'bp', 8) + 8 * self.c0.G['M']
    def words(self, i): return self.cframe(self.c0.pre, self.q, i, 'sp', 8) - self.cframe(self.c0.pre, self.q, i, 'bp', 8)
    def requires(self, c):
        r = self.base(c, 1)
        o = self.o
        f = simplify(addr(BitVec('resumption', 64)))
        c.let(c.R, 8, 'resumption')
        r.append(('resumption', c.valid(f, bv(o('native_data') + 8), 'resumption', own=True, writable=False)))
        self.q = q = simplify(addr(BitVec('continuation', 64)))
        c.let(f + o('native_data'), 8, 'continuation')
        n, k = (z3.Function('mem0@32', z3.BitVecSort(64), z3.BitVecSort(32))(simplify(q + o('cont_' + x))) for x in ('len', 'count'))  # what c.pre reads there once the region is known
        r.append(('continuation', c.valid(q, bv(o('sizeof_cont')) + o('sizeof_frame') * sx(n) + 8 * sx(k), 'continuation', own=True)))
        self.k, self.g = sx(n), sx(k)
        F, M, K = c.G['F'], c.G['M'], c.G['K']
        lim = bv(1 << 20, 32)
        self.n0, self.m0, self.t0 = (sx(x(c.pre, c, 'len', 4)) for x in (self.cv, self.sv, self.mv))
        top = {'old frames': self.n0, 'new frames': self.n0 + self.k, 'old segments': self.m0, 'new segments': self.m0 + self.g, 'marks': self.t0}.get(self.part)
        low = {'new frames': self.n0, 'new segments': self.m0}.get(self.part, bv(0))
        return r + [('a function', And(c.pre(f + o('head_type'), 1) == o('HEAD_native'), c.pre(f + o('native_captured'), 4) == 1)), ('sizes', And(n >= 0, n < lim, k >= 0, k < lim)), ('current depths', And(self.cv(c.pre, c, 'len', 4) < lim, self.sv(c.pre, c, 'len', 4) < lim))] + ([] if top is None else [('', And(K >= low, K < top))]) + (
            [('slot M of frame F', And(F >= 0, F < sx(n), ULT(8 * M, self.words(F)), ULT(M, bv(1 << 40)), Extract(2, 0, self.words(F)) == 0))] if self.part == 'marked' else [])
    def hyps(self, c):
        if self.part != 'marked':
            return []
        bp, sp = (lambda t: self.cframe(c.pre, self.q, t, 'bp', 8)), (lambda t: self.cframe(c.pre, self.q, t, 'sp', 8))
        return [lambda t: Implies(And(t >= 0, t < self.k), And(ULE(bp(t), sp(t)), ULT(sp(t), bv(1 << 47)), Extract(2, 0, bp(t)) == 0, Extract(2, 0, sp(t)) == 0))]
    def loop_terms(self, view): return [t for n, t in view.allints()]
    def traps(self, c): return self.g <= 0
    def modifies(self, c): return Try.modifies(self, c) + [(self.q, bv(self.o('cont_data')))]
    def bounds(self, view): return [('len', self.k), ('count', self.g)]
    def storage(self, view):
        c, rd = self.c0, view.rd
        return [('frames', c.co + self.o('cora_callstack') + self.o('vec_data'), self.o('sizeof_frame') * sx(self.cv(rd, c, 'cap', 4))), ('segments', c.co + self.o('cora_stk') + self.o('stk_data') + self.o('vec_data'), 8 * sx(self.sv(rd, c, 'cap', 4)))]
    def lengths(self, rd, it, jt, tag):
        c = self.c0
        return [('%s frames' % tag[0], sx(self.cv(rd, c, 'len', 4)) == self.n0 + it), ('%s segments' % tag[1], sx(self.sv(rd, c, 'len', 4)) == self.m0 + jt)]
    def contents(self, rd, it, jt, tag):
        """after it frames and jt segments have been appended"""
        c, q, K, out = self.c0, self.q, self.c0.G['K'], []
        n, m = self.n0, self.m0
        for f, s in self.FR:
            if self.part == 'old frames':
                out.append(('old frames stay: ' + f, Implies(And(K >= 0, K < n), self.frame(rd, c, K, f, s) == self.frame(c.pre, c, K, f, s))))
            if self.part == 'new frames':
                out.append(('%s new frame %s' % (tag[0], f), Implies(And(K >= n, K < n + it), self.frame(rd, c, K, f, s) == self.cframe(c.pre, q, K - n, f, s))))
        if self.part == 'old segments':
            out.append(('old segments stay', Implies(And(K >= 0, K < m), self.seg(rd, c, K) == self.seg(c.pre, c, K))))
        for nm, x in (('K', K),) if self.part == 'new segments' else (('top', self.top()),) if self.part == 'machine' else ():
            out.append(('%s new segment %s' % (tag[1], nm), Implies(And(x >= m, x < m + jt), self.seg(rd, c, x) == self.cseg(c.pre, q, self.k, x - m))))
        return out
    def top(self): return self.m0 + self.g - 1
    def loops(self, view):
        c, q, F, M = self.c0, self.q, self.c0.G['F'], self.c0.G['M']
        k, g, it = self.k, self.g, view.it
        out = []
        for a, la in ((bv(0), 'no'), (it, 'some'), (k, 'all')):
            for b, lb in ((bv(0), 'no'), (it, 'some'), (g, 'all')):
                out += self.lengths(view.rd, a, b, (la, lb)) + self.contents(view.rd, a, b, (la, lb))
        out += [('%s fit' % w, And(f(view.rd, c, 'len', 4) >= 0, f(view.rd, c, 'len', 4) <= f(view.rd, c, 'cap', 4), f(view.rd, c, 'cap', 4) < bv(4 * LIM, 32))) for w, f in (('segments', self.sv), ('frames', self.cv))]
        out += [('it below len', it <= k), ('it below count', it <= g)]
        out += [('%s not negative' % n, sx(t) >= 0) for n, t in view.allints()]
        out += [('not called', view.rd(self.log(), 8) == 0), ('count', view.rd(q + self.o('cont_count'), 4) == Extract(31, 0, g)), ('len', view.rd(q + self.o('cont_len'), 4) == Extract(31, 0, k))]
        if self.part == 'marks':
            cs, ss = self.mark(view.rd, c, self.t0)
            out += [self.marks_kept(view.rd, self.mv(c.pre, c, 'len', 4)), ('new mark', And(sx(cs) == self.n0, sx(ss) == self.m0)), ('number of marks', sx(self.mv(view.rd, c, 'len', 4)) == self.t0 + 1)]
        out += [('is %s' % n, sx(t) == it) for n, t, e in view.ints()]
        if self.part == 'marked':
            done = view.rd(self.log() + 8, 8) == 1
            for n, t in view.allints():
                out += [('marked below %s' % n, Implies(F < sx(t), done)), ('inside len %s' % n, And(sx(t) >= 0, sx(t) < k)), ('marked up to %s' % n, Implies(And(F == sx(t), M < it), done))]
                for nm, p in view.allptrs():
                    out.append(('at %s of %s' % (nm, n), And(p == self.cframe(c.pre, q, sx(t), 'bp', 8) + 8 * it, ULE(8 * it, self.words(sx(t))))))
            out.append(('all marked', done))
        return out
    def check(self, s):
        c, rd, q, F = self.c0, s.pre, self.q, self.c0.G['F']
        k, g = self.k, self.g
        r = self.contents(rd, k, g, ('all', 'all'))
        if self.part == 'machine':
            last = self.cseg(c.pre, q, k, g - 1)
            r += [('returns the value', s.val == self.arg(c, 1))] + self.lengths(rd, k, g, ('all', 'all')) + [('the last segment is the current one', And(self.stk(rd, c, 'begin') == last, self.stk(rd, c, 'end') == last + SEG)),
                ('it cannot be resumed again', And(g > 0, rd(q + self.o('cont_count'), 4) == 0)), ('nor does the collector look at it again', rd(q + self.o('cont_len'), 4) == 0)]
        if self.part == 'marks':
            cs, ss = self.mark(rd, c, self.t0)
            r += [('a mark', sx(self.mv(rd, c, 'len', 4)) == self.t0 + 1), ('of the depths before', And(sx(cs) == self.n0, sx(ss) == self.m0)), self.marks_kept(rd, self.mv(c.pre, c, 'len', 4))]
        if self.part == 'marked':
            r.append(('every slot of its frames is marked before that', rd(self.log() + 8, 8) == 1))
        return r
    def uses(self):
        terms = lambda c: {'machine': [self.top()], 'marked': [bv(0)], 'marks': [self.c0.G['K'], self.t0]}.get(self.part, [self.c0.G['K']])
        return [Append(self.ctx, terms), Barrier(self), Seen(self.ctx, 'coraReturn', ['co', 'val'], self, self.check)]


def tasks(ctx):
    out = []
    for con, what in [(TryStart(ctx), 'start'), (TryEnd(ctx), 'end')] + [(Throw(ctx, part), part) for part in ('machine', 'below', 'marks', 'segments', 'frames')] + [(Resume(ctx, part), part) for part in ('machine', 'old frames', 'new frames', 'old segments', 'new segments', 'marks', 'marked')]:
        out.append(Task(con.name, con, trace_stubs() + con.uses(), label='%s (%s)' % (con.name, what)))
    for t in out:
        t.weight = {'(marked)': 9, '(new frames)': 8, '(old frames)': 7}.get(t.label[t.label.rindex('('):], 1)
    return out + [Task('makeContinuation', MakeContinuation(ctx, part), [GcAlloc(ctx.off)], label='makeContinuation (%s)' % part) for part in ('object', 'frames', 'segments')]
