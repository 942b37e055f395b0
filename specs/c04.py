from common import *
SOURCES = [PROBE, 'src/types.c', 'src/runtime.c', 'src/gc.c']
DRIVER = 'c04.c'
TRUSTED = [ALLOC_ASSUMPTION, 'objects are smaller than 2^26 bytes (larger ones stop in the allocator)',
           'an accessor is given an object (a tagged word that carries the address of an allocated object) of any kind']
OUTSIDE = ['PRIM_CAR and PRIM_CDR, emitted by the compiler, check nothing by design; only their result on pairs is specified']


class Acc(Contract):
    """an accessor: stops unless the object is of the kind, else yields what field(c) says; changes nothing"""
    def __init__(self, ctx, name, kind, field, what, bits=64, checked=True, extra=None):
        self.ctx, self.kind, self.field, self.what, self.checked, self.extra = ctx, kind, field, what, checked, extra
        self.name, self.ret_bits = name, bits
        self.params = ['x'] if extra is None else ['x', 'i']
    def requires(self, c):
        o = self.ctx.off
        sz = {'cons': o('sizeof_cons'), 'bytes': o('sizeof_bytes'), 'native': o('sizeof_native')}[self.kind]
        r = [('an object', c.valid(addr(c.x), bv(sz) if self.extra is None else bv(1 << 30), 'object'))]
        if not self.checked:
            r.append(('of the kind', self.iskind(c)))
        if self.name == 'primCdr':
            r.append(('a pair, or tagged as another kind', has_tag(c.x, CONS) == self.iskind(c)))
        return r
    def iskind(self, c): return c.pre(addr(c.x) + self.ctx.off('head_type'), 1) == self.ctx.off('HEAD_' + self.kind)
    def traps(self, c): return Not(self.iskind(c)) if self.checked else BoolVal(False)
    def ensures(self, c):
        return [('stops unless of the kind', self.iskind(c)), (self.what, c.ret == self.field(c, addr(c.x)))]


class Chain(Contract):
    """cadr, caddr, cdddr: the composition"""
    params = ['x']
    def __init__(self, ctx, path):
        self.ctx, self.path = ctx, path
    def walk(self, c):
        o = self.ctx.off
        x, ok = c.x, []
        for s in self.path:
            p = addr(x)
            ok.append(c.pre(p + o('head_type'), 1) == o('HEAD_cons'))
            x = c.pre(p + o('cons_' + s), 8)
        return x, ok
    def traps(self, c): return Not(And(*self.walk(c)[1]))
    def ensures(self, c):
        x, ok = self.walk(c)
        return [('stops unless pairs', And(*ok)), ('the part', c.ret == x)]


class NewObj(MakeObj):
    name = 'newObj'
    params = ['gc', 'tp', 'sz']
    def requires(self, c): return [('size', And(c.sz > 8, c.sz < bv(1 << 26, 32)))]
    def ensures(self, c):
        return [('a fresh object', c.is_fresh(c.ret, sx(c.sz))), ('its type', c.post(c.ret + self.o('head_type'), 1) == c.tp),
                ('its size', c.post(c.ret + self.o('head_size'), 4) == c.sz)]


class MakeCString(MakeObj):
    """the text up to the first zero byte (at L)"""
    params = ['gc', 's']
    ghosts = {'K': 64}
    def requires(self, c):
        self.L = L = fresh('length')
        c.aux['L'] = L
        return [('text', c.valid(c.s, L + 1, 'text')), ('', ULT(L, bv(1 << 26))), ('', c.pre(c.s + L, 1) == 0)]
    def ensures(self, c):
        K, p = c.G['K'], addr(c.ret)
        D, n = p + self.o('bytes_data'), sx(c.post(p + self.o('bytes_len'), 4))
        return self.head(c, BYTES, 'bytes', n + self.o('bytes_data') + 1) + [
            ('no longer than the text', And(n >= 0, n <= c.aux['L'])), ('ends with NUL', c.post(D + n, 1) == 0), ('the text ends there', c.pre(c.s + n, 1) == 0),
            ('bytes', Implies(And(K >= 0, K < n), And(c.post(D + K, 1) == c.pre(c.s + K, 1), c.pre(c.s + K, 1) != 0)))]


class StringStr(Contract):
    params = ['x']
    ret_bits = (64, 32)
    def __init__(self, ctx): self.o = ctx.off
    def iskind(self, c): return c.pre(addr(c.x) + self.o('head_type'), 1) == self.o('HEAD_bytes')
    def traps(self, c): return Not(self.iskind(c))
    def ensures(self, c):
        p = addr(c.x)
        return [('stops unless a string', self.iskind(c)), ('the bytes', c.ret[0] == p + self.o('bytes_data')), ('the length', c.ret[1] == c.pre(p + self.o('bytes_len'), 4))]


class MakeNative(MakeObj):
    ghosts = {'K': 64}
    params = ['gc', 'nframe', 'fn', 'required', 'captured']
    def requires(self, c): return [('captured', And(c.captured >= 0, c.captured < bv(1 << 20, 32)))]
    def traps(self, c): return c.nframe <= 0
    def bounds(self, view): return [('captured', sx(self.cx.captured))]
    def setup(self, c):
        self.cx = c
        v, st = c.v, c.st
        base = v.new_base(st, 'va_area', 8 * sx(c.captured))
        st.regions.append(sym.Region(base, simplify(8 * sx(c.captured)), 'varargs', own=True, writable=False))
        self.area = base
        v.va_area = base
    def fields(self, rd, p, c):
        o = self.o
        return [('code', rd(p + o('native_fn'), 8) == c.fn), ('arity', rd(p + o('native_required'), 4) == c.required),
                ('frame size', rd(p + o('native_nframe'), 4) == c.nframe), ('captured count', rd(p + o('native_captured'), 4) == c.captured)]
    def loops(self, view):
        c, K, o = self.cx, self.cx.G['K'], self.o
        out = []
        for r in view.st.regions:
            if r.fresh and not r.local and r.name.startswith('fresh'):
                out += self.fields(view.rd, r.base, c) + [('type', view.rd(r.base + o('head_type'), 1) == o('HEAD_native'))]
                for n, t in view.allints():
                    out.append(('captured below %s' % n, Implies(And(K >= 0, K < sx(t)), view.rd(r.base + o('native_data') + 8 * K, 8) == c.pre(self.area + 8 * K, 8))))
            if r.local and 'va' not in r.name:
                for n, t in view.allints():
                    out.append(('position %s %s' % (r.name, n), view.rd(r.base + 8, 8) == self.area + 8 * sx(t)))
                    out.append(('registers %s' % r.name, ULE(bv(41, 32), view.rd(r.base, 4))))
        return out
    def ensures(self, c):
        K, p, o = c.G['K'], addr(c.ret), self.o
        return self.head(c, NATIVE, 'native', bv(o('native_data')) + 8 * sx(c.captured)) + self.fields(c.post, p, c) + [
            ('captured values in order', Implies(And(K >= 0, K < sx(c.captured)), c.post(p + o('native_data') + 8 * K, 8) == c.pre(self.area + 8 * K, 8)))]


class PrimCons(MakeObj):
    name = 'primCons'
    params = ['co', 'x', 'y']
    def requires(self, c): return [('machine', c.valid(c.co, self.o('sizeof_cora'), 'machine'))]
    def ensures(self, c):
        p = addr(c.ret)
        return self.head(c, CONS, 'cons', bv(self.o('sizeof_cons'))) + [('head', c.post(p + self.o('cons_car'), 8) == c.x), ('tail', c.post(p + self.o('cons_cdr'), 8) == c.y)]


def tasks(ctx):
    o = ctx.off
    g = [GcAlloc(o)]
    f = lambda name: (lambda c, p: c.pre(p + o(name), 8))
    f4 = lambda name: (lambda c, p: c.pre(p + o(name), 4))
    out = [Task('newObj', NewObj(ctx), g), Task('makeCons', MakeCons(ctx), g), Task('makeBytes', MakeBytes(ctx), g), Task('makeString', MakeString(ctx), g + [MakeBytes(ctx)]),
           Task('makeCString', MakeCString(ctx), [MakeString(ctx)]), Task('stringStr', StringStr(ctx)), Task('makeNative', MakeNative(ctx), g), Task('primCons', PrimCons(ctx), g)]
    A = lambda name, *a, **k: out.append(Task(name, Acc(ctx, name, *a, **k)))
    A('p_car', 'cons', f('cons_car'), 'the head')
    A('p_cdr', 'cons', f('cons_cdr'), 'the tail')
    A('primCar', 'cons', f('cons_car'), 'the head')
    A('primCdr', 'cons', f('cons_cdr'), 'the tail')
    A('p_PRIM_CAR', 'cons', f('cons_car'), 'the head', checked=False)
    A('p_PRIM_CDR', 'cons', f('cons_cdr'), 'the tail', checked=False)
    A('bytesData', 'bytes', lambda c, p: p + o('bytes_data'), 'the bytes')
    A('bytesLen', 'bytes', f4('bytes_len'), 'the length', bits=32)
    A('mustNative', 'native', lambda c, p: p, 'the object')
    A('nativeData', 'native', lambda c, p: If(c.pre(p + o('native_captured'), 4) == 0, bv(0), p + o('native_data')), 'the captured values')
    A('nativeCaptured', 'native', f4('native_captured'), 'the count', bits=32)
    A('nativeRequired', 'native', f4('native_required'), 'the arity', bits=32)
    A('nativeFn', 'native', f('native_fn'), 'the code')
    for n, path in [('cadr', ['cdr', 'car']), ('caddr', ['cdr', 'cdr', 'car']), ('cdddr', ['cdr', 'cdr', 'cdr'])]:
        out.append(Task(n, Chain(ctx, path)))
    return out
