from common import *
import sym
import vm
import c08
import lists
from vm import *
from lists import ABS
PROBE_STR = c08.PROBE_STR
SOURCES = [PROBE, PROBE_STR, 'src/types.c', 'src/runtime.c', 'src/reader.c', 'lib/string.c']
DRIVER = 'c17.c'
DRIVER_SRC = ['-Wl,--wrap=gcTriggerCheck', 'src/str.c', 'src/gc.c', 'src/types.c', 'src/reader.c', 'src/runtime.c', 'src/trace.c', 'src/export.c', 'lib/string.c']
TRUSTED = [TRACE_ASSUMPTION, ALLOC_ASSUMPTION, vm.MACHINE, 'strings are shorter than 2^24 bytes', 'strStr gives the first occurrence and strCmp the order (C08)',
           'snprintf("%ld") writes the decimal text of its argument and returns its length', 'pairs and the bytes of string arguments are not changed while a list of pieces is built']
OUTSIDE = ['the accuracy of snprintf (driver)']
LIM = 1 << 24
W64, W32 = BitVecSort(64), BitVecSort(32)
FIRST = z3.Function('FIRST', W64, W64, W64, W64, W64)
ORDER = z3.Function('ORDER', W64, W64, W64, W64, W32)
DEC = z3.Function('DEC', W64, W64, BitVecSort(8))
DECLEN = z3.Function('DECLEN', W64, W32)


class Find(Contract):
    """C08: the first occurrence, or minus one"""
    name = 'strStr'
    params = ['p', 'n', 'q', 'm']
    ret_bits = 32
    def requires(self, c): return [('text', c.valid(c.p, zx(c.n), 'text')), ('needle', c.valid(c.q, zx(c.m), 'needle'))]
    def ensures(self, c):
        n, m, F = zx(c.n), zx(c.m), FIRST(c.p, zx(c.n), c.q, zx(c.m))
        return [('', sx(c.ret) == F), ('', Or(F == -1, And(F >= 0, F <= n, F + m <= n)))]


class Order(Contract):
    """C08: negative, zero or positive"""
    name = 'strCmp'
    params = ['p', 'n', 'q', 'm']
    ret_bits = 32
    def requires(self, c): return [('left', c.valid(c.p, zx(c.n), 'left')), ('right', c.valid(c.q, zx(c.m), 'right'))]
    def ensures(self, c): return [('', c.ret == ORDER(c.p, zx(c.n), c.q, zx(c.m)))]


class Snprintf(Contract):
    name = 'snprintf'
    params = ['buf', 'size', 'fmt', 'value']
    ret_bits = 32
    def requires(self, c):
        return [('decimal', And(*[c.pre(c.fmt + i, 1) == ord(ch) for i, ch in enumerate('%ld\0')])), ('room', UGE(c.size, bv(21))), ('buffer', c.valid(c.buf, bv(21), 'buffer', own=True))]
    def modifies(self, c): return [(c.buf, bv(21))]
    def ensures(self, c):
        l, v = DECLEN(c.value), c.value
        return [('', And(c.ret == l, l >= 1, l <= 20))] + [('', Implies(bv(i, 32) < l, c.post(c.buf + i, 1) == DEC(v, bv(i)))) for i in range(20)]


class F(Builtin):
    """string arguments (1..), byte K"""
    ghosts = {'K': 64}
    strs = (1,)
    def p(self, c, i): return simplify(addr(simplify(self.arg(c, i))))
    def n(self, c, i): return sx(c.pre(self.p(c, i) + self.o('bytes_len'), 4))
    def d(self, c, i): return self.p(c, i) + self.o('bytes_data')
    def byte(self, c, i, k): return c.pre(self.d(c, i) + k, 1)
    def requires(self, c):
        self.cx = c
        r = Builtin.requires(self, c)
        for i in self.strs:
            a, p, o = self.arg(c, i), self.p(c, i), self.o
            r += [('', has_tag(a, BYTES)), ('', c.pre(p + o('head_type'), 1) == o('HEAD_bytes')), ('', And(self.n(c, i) >= 0, self.n(c, i) < LIM)),
                  ('string', c.valid(p, o('bytes_data') + 1 + self.n(c, i), 'string %d' % i, own=i in self.dst))]
        return r
    dst = ()
    def val(self, c, i): return IVAL(self.arg(c, i))
    def isint(self, c, *k): return And(*[ISINT(self.arg(c, i)) for i in k])
    def is_str(self, c, n, at, what):
        K, q, o = c.G['K'], addr(simplify(self.res(c))), self.o
        got, at = c.post(q + o('bytes_data') + K, 1), at(K)
        if not isinstance(at, list): at = [('its bytes', BoolVal(True), at)]
        return [(what + ': a string', And(has_tag(self.res(c), BYTES), c.post(q + o('head_type'), 1) == o('HEAD_bytes'))), (what + ': its length', sx(c.post(q + o('bytes_len'), 4)) == n),
                (what + ': ends with NUL', c.post(q + o('bytes_data') + n, 1) == 0)] + [(what + ': ' + w, Implies(And(K >= 0, K < n, g), got == e)) for w, g, e in at]


class Slice(F):
    nargs = 3
    def traps(self, c): return Not(self.isint(c, 2, 3))
    def ensures(self, c):
        n, b, e = self.n(c, 1), self.val(c, 2), self.val(c, 3)
        b, e = If(b < 0, b + n, b), If(e < 0, e + n, e)
        ok = And(b >= 0, e <= n, b <= e)
        return self.is_str(c, If(ok, e - b, bv(0)), lambda k: self.byte(c, 1, b + k), 'the slice')


class Prefix(F):
    nargs, strs = 2, (1, 2)
    ghosts = {'K': 64, 'D': 64}
    def __init__(self, ctx, yes):
        F.__init__(self, ctx)
        self.yes = yes
    def requires(self, c):
        D = c.G['D']
        r = F.requires(self, c)
        n, m = self.n(c, 1), self.n(c, 2)
        if self.yes: return r + [('fits', m <= n)]
        return r + [('differs', Or(m > n, And(D >= 0, D < m, self.byte(c, 1, D) != self.byte(c, 2, D))))]
    def hyps(self, c):
        if not self.yes: return []
        return [lambda t: Implies(And(t >= 0, t < self.n(c, 2)), self.byte(c, 1, t) == self.byte(c, 2, t))]
    def bounds(self, view): return [('D', self.cx.G['D']), ('m', self.n(self.cx, 2))]
    def ensures(self, c): return [('true' if self.yes else 'false', self.res(c) == (TRUE if self.yes else FALSE))]


class Length(F):
    def ensures(self, c): return [('the length', self.res(c) == NUM(self.n(c, 1)))]


class Index(F):
    nargs = 2
    def ok(self, c):
        i = self.val(c, 2)
        return And(self.isint(c, 2), i >= 0, i < self.n(c, 1))
    def traps(self, c): return Not(self.ok(c))
    def ensures(self, c): return [('inside the string', self.ok(c))] + self.is_str(c, bv(1), lambda k: self.byte(c, 1, self.val(c, 2)), 'the byte')


class Ref(Index):
    def ensures(self, c): return [('inside the string', self.ok(c)), ('the byte', self.res(c) == NUM(zx(self.byte(c, 1, self.val(c, 2)))))]


class Compare(F):
    nargs, strs = 2, (1, 2)
    def ensures(self, c): return [('the order', self.res(c) == NUM(sx(ORDER(self.d(c, 1), self.n(c, 1), self.d(c, 2), self.n(c, 2)))))]


class NumStr(F):
    strs = ()
    def traps(self, c): return Not(ISINT(self.arg(c, 1)))
    def ensures(self, c):
        v = IVAL(self.arg(c, 1))
        return [('an integer', ISINT(self.arg(c, 1)))] + self.is_str(c, sx(DECLEN(v)), lambda k: DEC(v, k), 'the digits')


class Append(F):
    nargs, strs = 2, (1, 2)
    def ensures(self, c):
        n, m = self.n(c, 1), self.n(c, 2)
        return self.is_str(c, n + m, lambda k: If(k < n, self.byte(c, 1, k), self.byte(c, 2, k - n)), 'one after the other')


class Replace(F):
    nargs, strs = 3, (1, 2, 3)
    cases = {'absent': lambda f, n, m: f < 0, 'all of it': lambda f, n, m: And(f == 0, m == n), 'at the start': lambda f, n, m: And(f == 0, m < n), 'at the end': lambda f, n, m: And(f > 0, f + m == n), 'inside': lambda f, n, m: And(f > 0, f + m < n)}
    def __init__(self, ctx, case):
        F.__init__(self, ctx)
        self.case = case
    def requires(self, c):
        r = F.requires(self, c)
        n, m = self.n(c, 1), self.n(c, 2)
        return r + [('case', self.cases[self.case](FIRST(self.d(c, 1), n, self.d(c, 2), m), n, m))]
    def ensures(self, c):
        n, m, t = self.n(c, 1), self.n(c, 2), self.n(c, 3)
        f = FIRST(self.d(c, 1), n, self.d(c, 2), m)
        q = self.res(c)
        same = q == self.arg(c, 1)
        out = [('the text when absent', Implies(f < 0, same))]
        if z3.is_true(simplify(same)): return out + [('only when absent', f < 0)]
        return out + [('present', f >= 0)] + self.is_str(c, n - m + t, lambda k: [('before', k < f, self.byte(c, 1, k)), ('replacement', And(k >= f, k < f + t), self.byte(c, 3, k - f)), ('after', k >= f + t, self.byte(c, 1, k - t + m))], 'replaced')


class Cat(c08.Txt):
    """strCat of a text that fits, not from the buffer itself: in place (C08)"""
    name = 'strCat'
    params = ['s', 'p', 'n']
    def requires(self, c):
        l0, cap = self.len(c.pre, c.s), self.cap(c.pre, c.s)
        return [('buffer', c.valid(c.s, bv(self.o('sb_data')) + sx(cap), 'buffer', own=True)), ('length', And(l0 >= 0, c.n >= 0, c.n < bv(c08.LIM, 32), l0 < cap, cap < bv(c08.LIM, 32), self.byte(c.pre, c.s, sx(l0)) == 0)), ('text', Or(c.n == 0, c.valid(c.p, zx(c.n), 'text'))), ('fits', l0 + c.n < cap)]
    def modifies(self, c): return [self.owned(c, c.s)]
    def fresh_ret(self, c): return c.s
    def ensures(self, c):
        l0, K = self.len(c.pre, c.s), c.G['K']
        n = sx(l0 + c.n)
        return [('', self.len(c.post, c.s) == l0 + c.n), ('', self.cap(c.post, c.s) == self.cap(c.pre, c.s)), ('', self.byte(c.post, c.s, n) == 0),
                ('', Implies(And(K >= 0, K < n), self.byte(c.post, c.s, K) == If(K < sx(l0), self.byte(c.pre, c.s, K), c.pre(c.p + K - sx(l0), 1))))]


class Contain(F):
    nargs, strs = 2, (1, 2)
    def ensures(self, c): return [('whether it occurs', self.res(c) == If(FIRST(self.d(c, 1), self.n(c, 1), self.d(c, 2), self.n(c, 2)) < 0, FALSE, TRUE))]


class Memcpy(F):
    nargs, strs, dst = 5, (1, 3), (1, 3)
    def ok(self, c):
        a, b, s = self.val(c, 2), self.val(c, 4), self.val(c, 5)
        return And(self.isint(c, 2, 4, 5), s >= 0, a >= 0, b >= 0, s <= LIM, a <= self.n(c, 1) - s, b <= self.n(c, 3) - s)
    def traps(self, c): return Not(self.ok(c))
    def modifies(self, c): return F.modifies(self, c) + [(self.d(c, 1), self.n(c, 1))]
    def ensures(self, c):
        a, b, s, K = self.val(c, 2), self.val(c, 4), self.val(c, 5), c.G['K']
        return [('inside both', self.ok(c)), ('the bytes', Implies(And(K >= 0, K < self.n(c, 1)), c.post(self.d(c, 1) + K, 1) == If(And(K >= a, K < a + s), self.byte(c, 3, b + K - a), self.byte(c, 1, K))))]


class ToList(F):
    def requires(self, c):
        self.at = []
        return F.requires(self, c) + lists.nil(self.REST(bv(0)))
    def queries(self, c): return [self.REST(t + 1) for t in self.at]
    REST = z3.Function('bytes_from', W64, ABS)
    def hyps(self, c):
        return [lambda t: And(Implies(And(t >= 0, t < self.n(c, 1)), self.REST(t) == lists.CONSQ(NUM(zx(self.byte(c, 1, t))), self.REST(t + 1))), Implies(t == self.n(c, 1), self.REST(t) == lists.NILQ))]
    def bounds(self, view): return [('n', self.n(self.cx, 1))]
    def loops(self, view):
        self.at = [t for n, t, e in view.ints()]
        return [('built %s at %s' % (m, n), lists.RA(p, self.REST(t)) == self.REST(bv(0))) for n, t, e in view.ints() for m, p in view.vals.items() if not isinstance(p, z3.BoolRef) and p.size() == 64 and m != n]
    def ensures(self, c): return [('the bytes in order', lists.SEQ(self.res(c)) == self.REST(bv(0)))]


class Split(F):
    nargs, strs = 2, (1, 2)
    def requires(self, c):
        r = F.requires(self, c)
        return r + lists.nil(self.SPLIT(self.d(c, 1), self.n(c, 1)))
    def queries(self, c): return c.st.ghost.get('rest', ())
    SPLIT = z3.Function('pieces', W64, W64, ABS)
    def hyp(self, p, n):
        c = self.cx
        m = self.n(c, 2)
        f = FIRST(p, n, self.d(c, 2), m)
        S, C = self.SPLIT, lists.CONSQ
        return And(S(p, n) == If(Or(f < 0, m == 0), C(lists.STRQ(p, n), lists.NILQ), C(lists.STRQ(p, f), S(p + f + m, n - f - m))), Implies(n == 0, And(S(p, n) == S(bv(0), n), lists.STRQ(p, n) == lists.STRQ(bv(0), n))))
    def loops(self, view):
        c = self.cx
        whole = self.SPLIT(self.d(c, 1), self.n(c, 1))
        v64 = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 64]
        v32 = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 32]
        out = []
        for n, t in v32:
            for m, p in v64:
                for r, l in v64:
                    if r != m: out.append(('pieces %s %s %s' % (n, m, r), lists.RA(l, self.SPLIT(p, zx(t))) == whole))
                out.append(('within %s %s' % (n, m), Or(t == 0, p + zx(t) == self.d(c, 1) + self.n(c, 1))))
            out.append(('length %s' % n, And(t >= 0, zx(t) <= self.n(c, 1))))
        return out
    def ensures(self, c): return [('the pieces in order', lists.SEQ(self.res(c)) == self.SPLIT(self.d(c, 1), self.n(c, 1)))]


class FindSplit(Find):
    def __init__(self, root): self.root = root
    def requires(self, c):
        r, n = self.root, zx(c.n)
        k = r.cx
        return [('the rest of the text', Or(n == 0, And(c.p + n == r.d(k, 1) + r.n(k, 1), n >= 0, n <= r.n(k, 1)))), ('the separator', And(c.q == r.d(k, 2), zx(c.m) == r.n(k, 2)))]
    def post_effects(self, c):
        n, m = zx(c.n), zx(c.m)
        f = FIRST(c.p, n, c.q, m)
        c.st.ghost['rest'] = (self.root.SPLIT(c.p + f + m, n - f - m),)
    def ensures(self, c):
        F = FIRST(c.p, zx(c.n), c.q, zx(c.m))
        n, m = zx(c.n), zx(c.m)
        return Find.ensures(self, c) + [('', self.root.hyp(c.p, n)), ('', self.root.hyp(c.p + F + m, n - F - m))]


class SubSplit(c08.StrSub):
    name = 'strSub'
    def __init__(self, ctx, root):
        c08.StrSub.__init__(self, ctx)
        self.root = root
    def requires(self, c): return [('length', And(c.n >= 0, c.n < bv(LIM, 32)))]
    def ensures(self, c):
        r = c08.StrSub.ensures(self, c)
        e = bv(0)
        n, S, Q = zx(c.ret[1]), self.root.SPLIT, lists.STRQ
        return r + [('', Implies(c.ret[1] == 0, And(S(c.ret[0], n) == S(bv(0), n), Q(c.ret[0], n) == Q(bv(0), n)))), ('', And(S(c.p + zx(c.n), e) == S(e, e), Q(c.p + zx(c.n), e) == Q(e, e), *[Q(c.p + sx(t), e) == Q(e, e) for t in (c.a, c.b)]))]


def tasks(ctx):
    t = trace_stubs()
    num = OPAQUE_NUM
    ms = [MakeString(ctx)]
    ret = [vm.CoraReturn(ctx.off)]
    base = t + num + ret + [c08.GrowCap()]
    out = []
    def T(fn, con, uses=(), **kw): out.append(Task(fn, con, base + list(uses), **kw))
    T('stringSlice', Slice(ctx), ms)
    T('stringHasPrefix', Prefix(ctx, True), label='stringHasPrefix (prefix)')
    T('stringHasPrefix', Prefix(ctx, False), label='stringHasPrefix (no prefix)')
    T('bytesLength', Length(ctx))
    T('builtinBytesLength', Length(ctx))
    T('stringIndex', Index(ctx), ms)
    T('bytesRef', Ref(ctx))
    T('stringCompare', Compare(ctx), [Order()])
    T('numberToString', NumStr(ctx), ms + [Snprintf()])
    T('builtinStringAppend', Append(ctx), ms + [Cat(ctx)])
    for k in Replace.cases: T('stringReplace', Replace(ctx, k), ms + [Find(), Cat(ctx)], label='stringReplace (%s)' % k, weight=1 if k == 'absent' else 10, limit=500, opts={'prove_timeout': 90000})
    T('stringContain', Contain(ctx), [Find()])
    T('bytesMemCpy', Memcpy(ctx))
    l, s = ToList(ctx), Split(ctx)
    T('stringToList', l, [lists.ACons(l.queries), lists.AReverse()])
    T('stringSplit', s, [lists.ACons(s.queries), lists.AReverse(), lists.AString(), FindSplit(s), SubSplit(ctx, s)])
    out += lists.reverse_tasks(ctx)
    return out
