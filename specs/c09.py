from common import *
SOURCES = [PROBE]
DRIVER = 'c09.c'
DRIVER_SRC = ['none']
TRUSTED = ['arrays hold fewer than 2^28 elements (int capacities do not overflow)', 'the appended value is not stored inside the array structure']
OUTSIDE = ['that every index used by the runtime is below the length is shown where the array is used (C13, C14, C15)']
LIM = 1 << 28


class VecC(Contract):
    ghosts = {'K': 64}
    empty = False
    params = ['a']
    def __init__(self, name, ctx, es, empty=False, **kw):
        self.name = name
        self.es = es
        self.empty = empty
        o = ctx.off
        self.D, self.L, self.C, self.SZ = o('vec_data'), o('vec_len'), o('vec_cap'), o('sizeof_vec')
        for k, x in kw.items():
            setattr(self, k, x)
    def data(self, rd, a): return rd(a + bv(self.D), 8)
    def len(self, rd, a): return rd(a + bv(self.L), 4)
    def cap(self, rd, a): return rd(a + bv(self.C), 4)
    def words(self, rd, d, k):
        return [rd(d + k * bv(self.es) + bv(w), 8) for w in range(0, self.es, 8)]
    def eqw(self, a, b): return conj([x == y for x, y in zip(a, b)])
    def inv(self, c):
        r = [('structure', c.valid(c.a, self.SZ, 'array', own=True))]
        d, n, cap = self.data(c.pre, c.a), self.len(c.pre, c.a), self.cap(c.pre, c.a)
        if self.empty:
            return r + [('empty array without storage', And(d == 0, n == 0, cap == 0))]
        return r + [('length within capacity', And(n >= 0, n <= cap, cap > 0, cap < bv(LIM, 32))),
                    ('storage', c.valid(d, sx(cap) * bv(self.es), 'storage', own=True))]
    def requires(self, c): return self.inv(c)
    def kept(self, c, n):
        K = c.G['K']
        return ('the elements before keep their values', Implies(And(K >= 0, K < n),
                self.eqw(self.words(c.post, self.data(c.post, c.a), K), self.words(c.pre, self.data(c.pre, c.a), K))))
    def sound(self, c):
        d, n, cap = self.data(c.post, c.a), self.len(c.post, c.a), self.cap(c.post, c.a)
        return [('length within capacity', And(n >= 0, n <= cap, cap > 0)),
                ('storage of the capacity', c.alive(d, sx(cap) * bv(self.es)))]


class Append(VecC):
    params = ['a', 'x']
    byref = False
    def requires(self, c):
        r = self.inv(c)
        if self.byref:
            r.append(('the value', c.valid(c.x, self.es, 'value', own=True)))
        return r
    def modifies(self, c):
        return [(c.a, bv(self.SZ)), (self.data(c.pre, c.a), sx(self.cap(c.pre, c.a)) * bv(self.es))]
    def ensures(self, c):
        n = self.len(c.pre, c.a)
        got = self.words(c.post, self.data(c.post, c.a), sx(n))
        want = [c.pre(c.x + bv(w), 8) for w in range(0, self.es, 8)] if self.byref else [c.x]
        return [('one element more', self.len(c.post, c.a) == n + 1), ('the new element is last', self.eqw(got, want)),
                self.kept(c, sx(n))] + self.sound(c)


class At(VecC):
    params = ['a', 'i', 'x']
    kind = 'get'
    ret_bits = 64
    def __init__(self, *a, **kw):
        VecC.__init__(self, *a, **kw)
        self.params = {'get': ['a', 'i'], 'ref': ['a', 'i'], 'set': ['a', 'i', 'x'], 'getf': ['a', 'i', 'x']}[self.kind]
    def requires(self, c):
        r = self.inv(c) + [('index below the length', And(c.i >= 0, c.i < self.len(c.pre, c.a)))]
        if self.kind == 'getf':
            r.append(('out', c.valid(c.x, self.es, 'out', own=True)))
        return r
    def at(self, c): return self.data(c.pre, c.a) + sx(c.i) * bv(self.es)
    def modifies(self, c):
        if self.kind == 'set':
            return [(self.at(c), bv(self.es))]
        return [(c.x, bv(self.es))] if self.kind == 'getf' else []
    def ensures(self, c):
        w = self.words(c.pre, self.data(c.pre, c.a), sx(c.i))
        if self.kind == 'get':
            return [('the element', c.ret == w[0])]
        if self.kind == 'ref':
            return [('address of the element', c.ret == self.at(c))]
        if self.kind == 'getf':
            return [('the element', self.eqw(w, [c.post(c.x + bv(k), 8) for k in range(0, self.es, 8)]))]
        K = c.G['K']
        d = self.data(c.pre, c.a)
        return [('stored', c.post(self.at(c), 8) == c.x),
                ('the other elements keep their values', Implies(And(K >= 0, K < sx(self.len(c.pre, c.a)), K != sx(c.i)),
                 self.eqw(self.words(c.post, d, K), self.words(c.pre, d, K)))),
                ('same length', self.len(c.post, c.a) == self.len(c.pre, c.a))]


class Pop(VecC):
    params = ['a']
    byref = False
    def __init__(self, *a, **kw):
        VecC.__init__(self, *a, **kw)
        if self.byref:
            self.params = ['a', 'x']
    def requires(self, c):
        r = self.inv(c) + [('not empty', self.len(c.pre, c.a) > 0)]
        if self.byref:
            r.append(('out', c.valid(c.x, self.es, 'out', own=True)))
        return r
    def modifies(self, c):
        return [(c.a + bv(self.L), bv(4))] + ([(c.x, bv(self.es))] if self.byref else [])
    def ensures(self, c):
        n = self.len(c.pre, c.a)
        w = self.words(c.pre, self.data(c.pre, c.a), sx(n) - 1)
        got = [c.post(c.x + bv(k), 8) for k in range(0, self.es, 8)] if self.byref else [c.ret]
        return [('one element less', self.len(c.post, c.a) == n - 1), ('the last element', self.eqw(got, w)),
                self.kept(c, sx(n) - 1)] + self.sound(c)


class Init(VecC):
    params = ['a', 'n']
    def requires(self, c): return [('structure', c.valid(c.a, self.SZ, 'array', own=True)), ('', And(c.n > 0, c.n < bv(LIM, 32)))]
    def modifies(self, c): return [(c.a, bv(self.SZ))]
    def ensures(self, c):
        return [('empty', self.len(c.post, c.a) == 0), ('capacity as requested', self.cap(c.post, c.a) == c.n)] + self.sound(c)


class Len(VecC):
    ret_bits = 32
    def ensures(self, c): return [('the length', c.ret == self.len(c.pre, c.a))]


class Free(VecC):
    def modifies(self, c): return [(c.a, bv(self.SZ))]
    def ensures(self, c):
        return [('empty', And(self.len(c.post, c.a) == 0, self.cap(c.post, c.a) == 0, self.data(c.post, c.a) == 0))]


def tasks(ctx):
    F, M = ctx.off('sizeof_frame'), ctx.off('sizeof_trymark')
    out = [Task('p_vec_init', Init('vecInit', ctx, 8)), Task('p_vec_len', Len('vecLen', ctx, 8)), Task('p_vec_free', Free('vecFree', ctx, 8))]
    for fn, es, r in [('p_vec_append', 8, False), ('p_vecf_append', F, True), ('p_vecm_append', M, True)]:
        out.append(Task(fn, Append('vecAppend', ctx, es, byref=r), label=fn))
        out.append(Task(fn, Append('vecAppend', ctx, es, True, byref=r), label=fn + ' (no storage yet)'))
    out += [Task('p_vec_get', At('vecGet', ctx, 8, kind='get')), Task('p_vec_ref', At('vecRef', ctx, 8, kind='ref')),
            Task('p_vec_set', At('vecSet', ctx, 8, kind='set')), Task('p_vecf_get', At('vecGet', ctx, F, kind='getf')),
            Task('p_vec_pop', Pop('vecPop', ctx, 8)), Task('p_vecf_pop', Pop('vecPop', ctx, F, byref=True)),
            Task('p_vecm_pop', Pop('vecPop', ctx, M, byref=True))]
    return out
