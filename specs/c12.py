from common import *
import sym
import vm
from vm import *
import lists
SOURCES = [PROBE, 'src/types.c', 'src/runtime.c']
DRIVER = 'c12.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck']
TRUSTED = ['the word of a small integer reads back as that integer (C01; NUM stands for it here)', TRACE_ASSUMPTION, ALLOC_ASSUMPTION, 'stackAlloc hands out slots that nothing else uses, saveCont and coraReturn save and resume frames (C13)',
           'a function object made by the compiler has a frame with a slot for the function and each parameter (nframe > required)',
           'arguments are not passed in the unused part of the stack']
OUTSIDE = ['compiled calls of more than four arguments (the compiler emits them, C22)']


class FrameAlloc(Contract):
    """n exclusive slots, the current frame (C13)"""
    name = 'stackAlloc'
    params = ['co', 'n']
    def __init__(self, o): self.o = o
    def requires(self, c): return [('positive', c.n > 0)]
    def traps(self, c): return c.n >= 256
    def modifies(self, c):
        o = self.o
        return [(c.co + o('cora_ctx') + o('frame_bp'), bv(8)), (c.co + o('cora_ctx') + o('frame_sp'), bv(8)), (c.co + o('cora_stk'), bv(o('cora_res') - o('cora_stk')))]
    def fresh_ret(self, c): return simplify(z3.Concat(bv(0, 16), fresh('frame', 45), bv(0, 3)))
    def ensures(self, c):
        o = self.o
        f = lambda n: c.post(c.co + o('cora_ctx') + o('frame_' + n), 8)
        return [('', c.is_fresh(c.ret, 8 * sx(c.n))), ('', f('bp') == c.ret), ('', f('sp') == c.ret + 8 * sx(c.n)), ('', c.n < 256)]


class Logged(Contract):
    """records its call in ghost memory (LOG)"""
    ret_bits = None
    def __init__(self, o, log):
        self.o, self.log = o, log
    def put(self, c, off, val): c.st.mem = sym.Mem(c.st.mem, 'store', simplify(self.log() + off), simplify(zx(val)) if not is_const(val) else val, 8)
    def modifies(self, c): return [(self.log(), bv(64))] + self.mods(c)


class SaveLog(Logged):
    """the frame saved: LOG[0] calls, [8] code, [16] label, [24] base, [32] stack pointer"""
    name = 'saveCont'
    params = ['co', 'fn', 'label', 'bp']
    def requires(self, c): return [('at most one frame is saved', c.pre(self.log(), 8) == 0)]
    def mods(self, c): return [(c.co + self.o('cora_callstack'), bv(self.o('sizeof_vec')))]
    def modifies(self, c): return [(self.log(), bv(40))] + self.mods(c)
    def post_effects(self, c):
        for off, x in ((0, bv(1)), (8, c.fn), (16, sx(c.label)), (24, c.bp), (32, c.pre(c.co + self.o('cora_ctx') + self.o('frame_sp'), 8))):
            self.put(c, off, x)


class ReturnLog(Logged):
    """the value returned: LOG[40] calls, [48] value"""
    name = 'coraReturn'
    params = ['co', 'val']
    def requires(self, c): return [('returns once', c.pre(self.log() + 40, 8) == 0)]
    def modifies(self, c):
        o = self.o
        return [(self.log() + 40, bv(16)), (c.co + o('cora_ctx'), bv(o('sizeof_frame'))), (c.co + o('cora_callstack'), bv(o('sizeof_vec'))), (c.co + o('cora_stk'), bv(o('cora_res') + 8 - o('cora_stk')))]
    def post_effects(self, c):
        self.put(c, 40, bv(1))
        self.put(c, 48, c.val)


class Fun(Contract):
    """functions: word -> object with code, arity, frame size, captured values"""
    ghosts = {'K': 64, 'LOG': 64}
    ret_bits = None
    def __init__(self, ctx):
        self.ctx, self.o = ctx, ctx.off
    def addr_of(self, name): return self.c0.v.fn_addr(self.ctx.prog.find(name))
    def req(self, rd, p): return rd(p + self.o('native_required'), 4)
    def nfr(self, rd, p): return rd(p + self.o('native_nframe'), 4)
    def cap(self, rd, p): return rd(p + self.o('native_captured'), 4)
    def code(self, rd, p): return rd(p + self.o('native_fn'), 8)
    def data(self, rd, p, i): return rd(p + self.o('native_data') + 8 * i, 8)
    def isfun(self, c, x): return c.pre(addr(x) + self.o('head_type'), 1) == self.o('HEAD_native')
    def function(self, c, x, name='function'):
        p = simplify(addr(x))
        n, r, k = self.nfr(c.pre, p), self.req(c.pre, p), self.cap(c.pre, p)
        return [('well formed function', And(r >= 0, r < n, n < 256, k >= 0, k < bv(1 << 20, 32))), (name, c.valid(p, bv(self.o('native_data')) + 8 * sx(k), name, own=True))]
    def logs(self, c):
        self.c0 = c
        return [('log', c.valid(c.G['LOG'], bv(64), 'log', own=True)), ('', And(c.pre(c.G['LOG'], 8) == 0, c.pre(c.G['LOG'] + 40, 8) == 0))]
    def log(self): return simplify(self.c0.G['LOG'])
    def saved(self, c, off): return c.post(self.log() + off, 8)
    def machine(self, c): return [('machine', c.valid(c.co, bv(self.o('sizeof_cora')), 'machine', own=True))]
    def ctxf(self, rd, c, f, n=8): return rd(c.co + self.o('cora_ctx') + self.o('frame_' + f), n)
    def frame_mods(self, c):
        o = self.o
        return [(c.co, bv(o('cora_res') + 8)), (self.log(), bv(64))] if o('cora_ctx') == 0 and o('cora_res') > o('cora_stk') else [(c.co, bv(o('sizeof_cora'))), (self.log(), bv(64))]
    def modifies(self, c): return self.frame_mods(c)
    def uses(self): return [FrameAlloc(self.o), SaveLog(self.o, self.log), ReturnLog(self.o, self.log)]
    # outcomes
    def enters(self, c, x, bp):
        """the machine is about to run the code of x from the start in the frame at bp, with that many slots"""
        p = addr(x)
        return [('its code', self.ctxf(c.post, c, 'fn') == self.code(c.pre, p)), ('from the start', self.ctxf(c.post, c, 'label', 4) == 0), ('the function is in the frame', c.post(bp, 8) == x),
                ('the frame is new', c.is_fresh(bp, 8 * sx(self.nfr(c.pre, p)))), ('with its number of slots', self.ctxf(c.post, c, 'sp') == bp + 8 * sx(self.nfr(c.pre, p)))]
    def curry(self, c, q, x, n, args):
        """the object at q is the function x waiting for the arguments after the first n"""
        p, K = addr(x), c.G['K']
        return [('runs callCurry', self.code(c.post, q) == self.addr_of('callCurry')), ('waits for the other arguments', self.req(c.post, q) == self.req(c.pre, p) - n), ('uses a frame of the same size', self.nfr(c.post, q) == self.nfr(c.pre, p)),
                ('captures the function and the arguments', And(self.cap(c.post, q) == n + 1, self.data(c.post, q, bv(0)) == x)),
                ('in order', Implies(And(K >= 0, K < sx(n)), self.data(c.post, q, K + 1) == args(K)))]


class MakeCurry(Fun):
    name = 'makeCurry'
    params = ['co', 'fn', 'nargs', 'args']
    ret_bits = 64
    ghosts = {'K': 64}
    def requires(self, c):
        self.c0 = c
        return self.machine(c) + self.function(c, c.fn) + [('arguments', And(c.nargs >= 0, c.nargs < bv(1 << 20, 32))), ('argument array', c.valid(c.args, 8 * sx(c.nargs), 'arguments'))]
    def ok(self, c): return And(self.isfun(c, c.fn), self.req(c.pre, addr(c.fn)) > c.nargs)
    def traps(self, c): return Not(self.ok(c))
    def modifies(self, c): return []
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('curry', 45), bv(0, 3)), NATIVE))
    def setup(self, c): self.cx = c
    def bounds(self, view): return [('nargs', sx(self.cx.nargs))]
    def loops(self, view):
        c, K, out = self.cx, self.cx.G['K'], []
        p = addr(c.fn)
        for r in view.st.regions:
            if r.fresh and not r.local and r.name.startswith('fresh'):
                b = r.base
                out += [('type', view.rd(b + self.o('head_type'), 1) == self.o('HEAD_native')), ('code', self.code(view.rd, b) == self.addr_of('callCurry')), ('arity', self.req(view.rd, b) == self.req(c.pre, p) - c.nargs),
                        ('frame', self.nfr(view.rd, b) == self.nfr(c.pre, p)), ('count', self.cap(view.rd, b) == c.nargs + 1), ('function', self.data(view.rd, b, bv(0)) == c.fn)]
                for n, t in view.allints():
                    out.append(('below %s' % n, Implies(And(K >= 0, K < sx(t)), self.data(view.rd, b, K + 1) == c.pre(c.args + 8 * K, 8))))
        return out
    def ensures(self, c):
        q = addr(c.ret)
        r = []
        if not (c.mode == 'call' and c.aux.get('done')):
            r = [('tag', has_tag(c.ret, NATIVE)), ('canonical', c.ret == tagged(q, NATIVE)), ('a fresh object', c.is_fresh(simplify(q), bv(self.o('native_data')) + 8 * (sx(c.nargs) + 1))), ('a function', c.post(q + self.o('head_type'), 1) == self.o('HEAD_native'))]
        c.aux['done'] = True
        return r + [('stops unless arguments are missing', self.ok(c))] + self.curry(c, q, c.fn, c.nargs, lambda k: c.pre(c.args + 8 * k, 8))


class Call(Fun):
    """coraCall(co, fn, nargs, args)"""
    params = ['co', 'fn', 'nargs', 'args']
    dispatch = False
    def logs(self, c):
        self.c0 = c
        return [('log', c.valid(c.G['LOG'], bv(128), 'log', own=True)), ('', And(c.pre(c.G['LOG'], 8) == 0, c.pre(c.G['LOG'] + 40, 8) == 0))]
    def frame_mods(self, c): return [(c.co, bv(self.o('sizeof_cora'))), (self.log(), bv(128))]
    def requires(self, c):
        return self.machine(c) + self.logs(c) + self.function(c, c.fn) + [('number of arguments', And(c.nargs >= 0, c.nargs < bv(1 << 20, 32))), ('argument array', c.valid(c.args, 8 * sx(c.nargs), 'arguments'))]
    def traps(self, c):
        r = self.req(c.pre, addr(c.fn))
        return Or(Not(self.isfun(c, c.fn)), And(c.nargs > r, c.nargs >= 254), c.nargs == r) if self.dispatch else Not(self.isfun(c, c.fn))
    def setup(self, c): self.cx = c
    def bounds(self, view): return [('nargs', sx(self.cx.nargs))]
    def loops(self, view):
        c, K, out = self.cx, self.cx.G['K'], []
        p = addr(c.fn)
        req = sx(self.req(c.pre, p))
        for r in view.st.regions:
            if r.fresh and not r.local and r.name.startswith('fresh'):
                b = r.base
                out.append(('function %s' % b, view.rd(b, 8) == c.fn))
                for n, t in view.allints():
                    out.append(('up to %s %s' % (n, b), Implies(And(K >= 0, K < sx(t) - 1), view.rd(b + 8 * (K + 1), 8) == c.pre(c.args + 8 * K, 8))))
                out.append(('bp %s' % b, self.ctxf(view.rd, c, 'bp') == b))
                out.append(('sp %s' % b, self.ctxf(view.rd, c, 'sp') == b + r.size))
        return out
    def ensures(self, c):
        K, p = c.G['K'], addr(c.fn)
        req, n = self.req(c.pre, p), c.nargs
        bp = c.v.resolve(c.st, self.ctxf(c.post, c, 'bp'))
        arg = lambda k: c.pre(c.args + 8 * k, 8)
        sv = c.v.resolve(c.st, self.saved(c, 24))
        val = c.v.resolve(c.st, self.saved(c, 48))
        enough = n >= req
        if not self.dispatch:
            g = lambda off: self.saved(c, off)
            ex = n == req
            return [('stops unless a function', self.isfun(c, c.fn))] + [('enters the function on the exact arguments: ' + l, Implies(ex, q)) for l, q in self.enters(c, c.fn, bp)] + [
                ('on its arguments in order', Implies(And(ex, K >= 0, K < sx(req)), c.post(bp + 8 * (K + 1), 8) == arg(K))), ('nothing is kept', Implies(ex, And(g(0) == 0, g(40) == 0))),
                ('hands everything else to the dispatcher', Implies(Not(ex), And(g(56) == 1, g(64) == c.fn, g(72) == sx(n), g(80) == c.args)))]
        less, more = n < req, n > req
        val = c.v.resolve(c.st, c.post(bp, 8))
        return [('stops unless a function', self.isfun(c, c.fn)), ('returns and saves nothing before the trampoline runs', And(self.saved(c, 0) == 0, self.saved(c, 40) == 0)), ('from the start', self.ctxf(c.post, c, 'label', 4) == 0),
                ('too few arguments: a partial application is returned', Implies(less, And(self.ctxf(c.post, c, 'fn') == self.addr_of('returnPartial'), c.is_fresh(bp, bv(8)), has_tag(val, NATIVE)))),
                ('too many arguments: the first part is applied first', Implies(more, And(self.ctxf(c.post, c, 'fn') == self.addr_of('applyOver'), c.is_fresh(bp, 8 * (sx(n) + 2))))),
                ('its frame ends where the stack does', self.ctxf(c.post, c, 'sp') == bp + If(more, 8 * (sx(n) + 2), bv(8))),
                ('their number and the function', Implies(more, And(c.post(bp, 8) == NUM(sx(n)), c.post(bp + 8, 8) == c.fn))),
                ('all arguments in order', Implies(And(more, K >= 0, K < sx(n)), c.post(bp + 16 + 8 * K, 8) == arg(K)))] + [
                ('too few arguments: the function ' + l, Implies(less, f)) for l, f in self.curry(c, simplify(addr(val)), c.fn, n, arg)]


class CallN(Call):
    """coraCall0 .. coraCall4: the same with the arguments given one by one"""
    def __init__(self, ctx, n, call):
        Call.__init__(self, ctx)
        self.n = n
        self.params = ['co', 'fn'] + ['a%d' % i for i in range(n)]
        self.general = call
    def requires(self, c):
        c.nargs = bv(self.n, 32)
        return self.machine(c) + self.logs(c) + self.function(c, c.fn)
    def traps(self, c): return Not(self.isfun(c, c.fn))
    def modifies(self, c): return self.frame_mods(c)
    def ensures(self, c):
        p = addr(c.fn)
        bp = c.v.resolve(c.st, self.ctxf(c.post, c, 'bp'))
        exact = self.req(c.pre, p) == self.n
        a = [getattr(c, 'a%d' % i) for i in range(self.n)]
        g = lambda off: self.saved(c, off)
        fwd = conj([g(56 + 8 * i) == x for i, x in enumerate([c.fn, bv(self.n)] + a)])
        return [('stops unless a function', self.isfun(c, c.fn))] + [('enters the function on the exact arguments: ' + l, Implies(exact, q)) for l, q in self.enters(c, c.fn, bp)] + [
                ('on the exact arguments', Implies(exact, conj([g(0) == 0, g(40) == 0] + [c.post(bp + 8 * (i + 1), 8) == x for i, x in enumerate(a)]))),
                ('hands everything else to the general call', Implies(Not(exact), fwd)) if self.n else
                ('without arguments a function of some parameters is its own partial application', Implies(Not(exact), And(g(40) == 1, g(48) == c.fn, g(0) == 0)))]


class CallLog(Logged):
    """the general call as the short forms see it: LOG[56] function, [64] number, [72..] arguments"""
    name = 'coraCall'
    params = ['co', 'fn', 'nargs', 'args']
    def requires(self, c): return [('the arguments', c.valid(c.args, 8 * sx(c.nargs), 'arguments')), ('at most four', And(c.nargs >= 0, c.nargs <= 4))]
    def modifies(self, c): return [(self.log() + 56, bv(64)), (c.co, bv(self.o('sizeof_cora')))]
    def post_effects(self, c):
        n = simplify(c.nargs).as_long()
        for i, x in enumerate([c.fn, sx(c.nargs)] + [c.pre(c.args + 8 * i, 8) for i in range(n)]):
            self.put(c, 56 + 8 * i, x)


class DispatchLog(Logged):
    """the dispatcher as coraCall sees it: LOG[56] calls, [64] function, [72] number, [80] arguments"""
    name = 'coraDispatch'
    params = ['co', 'fn', 'nargs', 'args']
    def requires(self, c): return [('the arguments', c.valid(c.args, 8 * sx(c.nargs), 'arguments'))]
    def modifies(self, c): return [(self.log() + 56, bv(64)), (c.co, bv(self.o('sizeof_cora')))]
    def post_effects(self, c):
        for i, x in enumerate([bv(1), c.fn, sx(c.nargs), c.args]):
            self.put(c, 56 + 8 * i, x)


class CallCurry(Fun):
    """R = [curry, missing arguments]: becomes [function, captured arguments, missing arguments] and the function runs from the start"""
    name = 'callCurry'
    params = ['co', 'label', 'R']
    ghosts = {'K': 64}
    def requires(self, c):
        self.c0 = c
        x = c.pre(c.R, 8)
        q = simplify(addr(x))
        f = self.data(c.pre, q, bv(0))
        n = self.nfr(c.pre, q)
        return [('frame', c.valid(c.R, 8 * sx(n), 'frame', own=True))] + self.machine(c) + self.function(c, x, 'curry') + [
            ('holds a function', self.cap(c.pre, q) > 0), ('the frame has room for all', self.cap(c.pre, q) + self.req(c.pre, q) <= n)] + self.function(c, f, 'function')
    def traps(self, c):
        x = c.pre(c.R, 8)
        return Or(Not(self.isfun(c, x)), Not(self.isfun(c, self.data(c.pre, addr(x), bv(0)))))
    def modifies(self, c): return [(c.R, 8 * sx(self.nfr(c.pre, addr(c.pre(c.R, 8))))), (c.co + self.o('cora_ctx') + self.o('frame_fn'), bv(8)), (c.co + self.o('cora_ctx') + self.o('frame_label'), bv(4))]
    def ensures(self, c):
        K = c.G['K']
        q = addr(c.pre(c.R, 8))
        m, n = sx(self.cap(c.pre, q)), sx(self.req(c.pre, q))
        f = self.data(c.pre, q, bv(0))
        return [('the function and the captured arguments first', Implies(And(K >= 0, K < m), c.post(c.R + 8 * K, 8) == self.data(c.pre, q, K))),
                ('then the missing arguments', Implies(And(K >= 0, K < n), c.post(c.R + 8 * (m + K), 8) == c.pre(c.R + 8 * (K + 1), 8))),
                ('the function runs from the start', And(self.ctxf(c.post, c, 'fn') == self.code(c.pre, addr(f)), self.ctxf(c.post, c, 'label', 4) == 0))]


class ApplyOver(Fun):
    """R = [number, function, arguments]; label 0 calls the function on as many as it has parameters, to continue with label 1 here, which calls the result on the rest in place of this frame"""
    name = 'applyOver'
    params = ['co', 'label', 'R']
    def __init__(self, ctx, step):
        Fun.__init__(self, ctx)
        self.step = step
    def requires(self, c):
        n = self.N = BitVec('number', 32)
        fn = c.pre(c.R + 8, 8)
        m = self.M = self.req(c.pre, addr(fn))
        return self.machine(c) + self.logs(c) + self.function(c, fn) + [('step', c.label == self.step), ('more arguments than parameters', And(n > m, n < 254, self.isfun(c, fn))), ('frame', c.valid(c.R, 8 * (sx(n) + 2), 'frame', own=True)), ('their number', c.pre(c.R, 8) == NUM(sx(n)))]
    def logs(self, c):
        self.c0 = c
        return [('log', c.valid(c.G['LOG'], bv(128), 'log', own=True)), ('', conj([c.pre(c.G['LOG'] + 8 * i, 8) == 0 for i in range(16)]))]
    def modifies(self, c): return [(c.co, bv(self.o('sizeof_cora'))), (self.log(), bv(128))]
    def ensures(self, c):
        K = c.G['K']
        g = lambda i: self.saved(c, 56 + i)
        m = sx(self.M)
        if self.step == 0:
            return [('one call', g(0) == 1), ('of the function, on as many arguments as it has parameters', And(g(8) == c.pre(c.R + 8, 8), g(24) == m)),
                    ('the arguments in order', Implies(And(K >= 0, K < m), g(32) == c.pre(c.R + 16 + 8 * K, 8))), ('behind this frame', g(40) == self.ctxf(c.pre, c, 'sp')),
                    ('to come back here for the rest', And(self.saved(c, 0) == 1, self.saved(c, 8) == self.addr_of('applyOver'), self.saved(c, 16) == 1, self.saved(c, 24) == c.R, self.saved(c, 32) == self.ctxf(c.pre, c, 'sp')))]
        return [('one call', g(0) == 1), ('of the result, on the arguments that are left', And(g(8) == c.pre(c.co + self.o('cora_res'), 8), g(24) == sx(self.N) - m)),
                ('the arguments in order', Implies(And(K >= 0, K < sx(self.N) - m), g(32) == c.pre(c.R + 16 + 8 * (m + K), 8))), ('in place of this frame', g(40) == c.R), ('nothing is kept', self.saved(c, 0) == 0)]


class ReturnPartial(Fun):
    name = 'returnPartial'
    params = ['co', 'label', 'R']
    def requires(self, c): return self.machine(c) + self.logs(c) + [('frame', c.valid(c.R, bv(8), 'frame'))]
    def modifies(self, c): return [(c.co, bv(self.o('sizeof_cora'))), (self.log(), bv(64))]
    def ensures(self, c): return [('returns what the frame holds', And(self.saved(c, 40) == 1, self.saved(c, 48) == c.pre(c.R, 8), self.saved(c, 0) == 0))]


class CallSeen(Logged):
    name = 'coraCall'
    params = ['co', 'fn', 'nargs', 'args']
    def requires(self, c): return [('the arguments', c.valid(c.args, 8 * sx(c.nargs), 'arguments'))]
    def modifies(self, c): return [(self.log() + 56, bv(48)), (c.co, bv(self.o('sizeof_cora')))]
    def post_effects(self, c):
        K = c.v.rootC.G['K']
        sp = c.pre(c.co + self.o('cora_ctx') + self.o('frame_sp'), 8)
        at = c.pre(simplify(c.args + 8 * If(And(K >= 0, K < sx(c.nargs)), K, bv(0))), 8)
        for off, x in ((0, c.pre(self.log() + 56, 8) + 1), (8, c.fn), (16, c.args), (24, sx(c.nargs)), (32, at), (40, sp)):
            self.put(c, 56 + off, x)


class Fix(Contract):
    """fixnum of a small integer (C01)"""
    name = 'fixnum'
    params = ['o']
    ret_bits = 64
    def __init__(self, n): self.n = n
    def requires(self, c): return [('a number in range', c.o == NUM(sx(self.n())))]
    def fresh_ret(self, c): return sx(self.n())


class Apply(Fun):
    """(apply f list): the function runs on the elements of the list"""
    name = 'builtinApply'
    params = ['co', 'label', 'R']
    def requires(self, c):
        return self.machine(c) + self.logs(c) + [('frame', c.valid(c.R, bv(24), 'frame'))] + self.function(c, c.pre(c.R + 8, 8)) + lists.proper() + [('the list', c.pre(c.R + 16, 8) == lists.CELL(bv(0)))]
    def hyps(self, c): return [lists.hyp]
    def traps(self, c):
        p = addr(c.pre(c.R + 8, 8))
        return Or(Not(self.isfun(c, c.pre(c.R + 8, 8))), sx(self.req(c.pre, p)) != lists.N)
    def setup(self, c): self.cx = c
    def loops(self, view):
        c, K, out = self.cx, self.cx.G['K'], []
        out = [('in', view.it <= lists.N)]
        for n, t in view.vals.items():
            if not isinstance(t, z3.BoolRef):
                out.append(('at %s' % n, t == lists.CELL(view.it)) if t.size() == 64 else ('position %s' % n, sx(t) == view.it + 1))
        for r in view.st.regions:
            if r.fresh and not r.local and r.name.startswith('fresh'):
                b = r.base
                out += [('function', view.rd(b, 8) == c.pre(c.R + 8, 8)), ('elements', Implies(And(K >= 0, K < view.it), view.rd(b + 8 * (K + 1), 8) == lists.ELEM(K))), ('bp', self.ctxf(view.rd, c, 'bp') == b), ('sp', self.ctxf(view.rd, c, 'sp') == b + r.size)]
        return out
    def ensures(self, c):
        fn = c.pre(c.R + 8, 8)
        p, K = addr(fn), c.G['K']
        bp = c.v.resolve(c.st, self.ctxf(c.post, c, 'bp'))
        return [('stops unless a function of as many parameters', And(self.isfun(c, fn), sx(self.req(c.pre, p)) == lists.N)), ('returns nothing itself', And(self.saved(c, 0) == 0, self.saved(c, 40) == 0))] + [('enters the function: ' + l, q) for l, q in self.enters(c, fn, bp)] + [
            ('on the elements in order', Implies(And(K >= 0, K < lists.N), c.post(bp + 8 * (K + 1), 8) == lists.ELEM(K)))]


class LenCall(Contract):
    name = 'listLen'
    params = ['l']
    ret_bits = 32
    def requires(self, c): return [('the list', c.l == lists.CELL(bv(0)))]
    def ensures(self, c): return [('', sx(c.ret) == lists.N)]


def lemmas():
    """partial applications compose: seq A ++ B ++ C, with f waiting for a+b+c"""
    k, a, b, cc, req = z3.BitVecs('k a b c req', 64)
    A, B, C = (z3.Function(n, W64, W64) for n in 'ABC')
    small = And(*[And(x >= 0, x < 1 << 20) for x in (a, b, cc)])
    def after(k):
        """arguments the function sees, from curry(curry(f, A), B) applied to C: first callCurry of the outer curry gives [inner, B, C], the second [f, A, B, C]"""
        inner = lambda j: If(j < b, B(j), C(j - b))
        return If(k < a, A(k), inner(k - a))
    whole = If(k < a, A(k), If(k < a + b, B(k - a), C(k - a - b)))
    return [Lemma('two partial applications give the arguments in order', Implies(And(small, k >= 0, k < a + b + cc), after(k) == whole)),
            Lemma('the frame of a partial application has room', Implies(And(small, req >= 0, req < 255, a < req), And((a + 1) + (req - a) == req + 1))),
            Lemma('the waiting arity is positive and smaller or equal', Implies(And(small, a < req), And(req - a > 0, req - a <= req)))]


def tasks(ctx):
    o = ctx.off
    mc = MakeCurry(ctx)
    call, disp = Call(ctx), Call(ctx)
    disp.dispatch = True
    ts = [Task('makeCurry', mc, [GcAlloc(o)]), Task('callCurry', CallCurry(ctx))]
    for step in (0, 1):
        ar = ApplyOver(ctx, step)
        ts.append(Task('applyOver', ar, ar.uses() + [CallSeen(o, ar.log), Fix(lambda ar=ar: ar.N)], label='applyOver %d' % step))
    rp = ReturnPartial(ctx)
    ts.append(Task('returnPartial', rp, rp.uses()))
    class Num(Contract):
        name = 'makeNumber'
        params = ['v_']
        def ensures(self, c): return [('', c.ret == NUM(c.v_))]
    for fn, con in (('coraCall', call), ('coraDispatch', disp)):
        ts.append(Task(fn, con, con.uses() + ([MakeCurry(ctx), Num()] if con.dispatch else [DispatchLog(o, con.log)])))
    ap = Apply(ctx)
    ts += [Task('listLen', lists.ListLen(), lists.USES), Task('builtinApply', ap, ap.uses() + lists.USES + [LenCall()] + trace_stubs())]
    for n in range(5):
        con = CallN(ctx, n, None)
        ts.append(Task('p_coraCall%d' % n, con, con.uses() + [CallLog(o, con.log)]))
    return ts + lemmas()
