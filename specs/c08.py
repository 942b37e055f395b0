from common import *
PROBE_STR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe_str.c')
SOURCES = [PROBE_STR]
DRIVER = 'c08.c'
DRIVER_SRC = ['none']
TRUSTED = ['texts are shorter than 2^28 bytes (int lengths do not overflow)', 'arguments of a string operation do not share storage with the buffer it changes']
OUTSIDE = ['callers of these operations in runtime.c and lib/string.c (C17)']
LIM = 1 << 28
W64 = BitVecSort(64)


class Txt(Contract):
    """common vocabulary: text (p, n) and buffer s"""
    def __init__(self, ctx):
        self.o = ctx.off

    def text(self, c, p, n, name='text', own=False):
        return [(name + ' readable', c.valid(p, zx(n), name, own=own)), (name + ' length', ULT(n, bv(LIM, 32)))]

    def cap(self, rd, s): return rd(s + bv(self.o('sb_cap')), 4)
    def len(self, rd, s): return rd(s + bv(self.o('sb_len')), 4)
    def byte(self, rd, s, k): return rd(s + bv(self.o('sb_data')) + k, 1)

    def buf(self, c, s, name='buffer'):
        cap, ln = self.cap(c.pre, s), self.len(c.pre, s)
        sz = bv(self.o('sb_data')) + sx(cap)
        r = []
        r += [('capacity', And(cap >= 1, cap < bv(LIM, 32))), ('length', And(ln >= 0, ln < cap)),
              (name, c.valid(s, sz, name, own=True)),
              ('terminated', self.byte(c.pre, s, sx(ln)) == 0)]
        return r

    def owned(self, c, s, name='buffer'):
        """frame: the whole buffer"""
        return (s, bv(self.o('sb_data')) + sx(self.cap(c.pre, s)))

    def is_buf(self, c, r, ln, at):
        """post: r is a valid buffer of length ln whose byte K is at(K)"""
        cap = self.cap(c.post, r)
        K = c.G['K']
        return [('is an allocated object of its capacity', c.alive(r, bv(self.o('sb_data')) + sx(cap))),
                ('capacity leaves room for the terminator', cap > ln), ('length', self.len(c.post, r) == ln),
                ('terminated', self.byte(c.post, r, sx(ln)) == 0),
                ('bytes', Implies(And(K >= 0, K < sx(ln)), self.byte(c.post, r, K) == at(K)))]
    ghosts = {'K': 64}


class StrNew(Txt):
    params = ['cap']
    def requires(self, c): return [('', c.cap < bv(LIM, 32))]
    def traps(self, c): return c.cap <= 0
    def ensures(self, c):
        return [('fresh', c.is_fresh(c.ret, bv(self.o('sb_data')) + sx(c.cap))), ('capacity', self.cap(c.post, c.ret) == c.cap),
                ('empty', self.len(c.post, c.ret) == 0), ('terminated', self.byte(c.post, c.ret, bv(0)) == 0)]


class FromBlk(Txt):
    params = ['p', 'n']
    def requires(self, c): return self.text(c, c.p, c.n) + [('', c.p != 0)]
    def ensures(self, c):
        return self.is_buf(c, c.ret, c.n, lambda k: c.pre(c.p + k, 1)) + [('fresh', c.is_fresh(c.ret, bv(self.o('sb_data')) + sx(c.n) + 1))]


class FromCStr(Txt):
    """text ends at the first NUL"""
    params = ['p']
    ghosts = {'K': 64, 'N': 64}
    def requires(self, c):
        return [('readable', c.valid(c.p, c.G['N'] + 1, 'text')), ('', ULT(c.G['N'], bv(LIM))), ('', c.pre(c.p + c.G['N'], 1) == 0)]
    def hyps(self, c): return [lambda t: Implies(ULT(t, c.G['N']), c.pre(c.p + t, 1) != 0)]
    def setup(self, c):
        # strlen of this text (library model): the offset of the first NUL
        con = self
        def strlen(v, st, args, what):
            v.assumed.add('strlen returns the offset of the first NUL')
            ok = simplify(args[0] == c.p)
            v.prove(st, ok, 'strlen is applied to the argument')
            return [('ret', st, c.G['N'])]
        c.v.models['strlen'] = strlen
    def ensures(self, c):
        return self.is_buf(c, c.ret, Extract(31, 0, c.G['N']), lambda k: c.pre(c.p + k, 1)) + [('fresh', c.is_fresh(c.ret, bv(self.o('sb_data')) + c.G['N'] + 1))]


class CStr(FromCStr):
    ret_bits = (64, 32)
    def ensures(self, c):
        return [('same storage', c.ret[0] == c.p), ('length', zx(c.ret[1]) == c.G['N'])]


class StrDup(Txt):
    params = ['p', 'n']
    def requires(self, c): return self.text(c, c.p, c.n) + [('', c.p != 0)]
    def ensures(self, c):
        return self.is_buf(c, c.ret, c.n, lambda k: c.pre(c.p + k, 1)) + [('fresh', c.is_fresh(c.ret, bv(self.o('sb_data')) + zx(c.n) + 1))]


class StrCpy(Txt):
    params = ['s', 'p', 'n']
    def requires(self, c): return self.buf(c, c.s) + self.text(c, c.p, c.n, own=True)
    def modifies(self, c): return [self.owned(c, c.s)]
    def ensures(self, c): return self.is_buf(c, c.ret, c.n, lambda k: c.pre(c.p + k, 1))


class StrCat(StrCpy):
    def ensures(self, c):
        l0 = self.len(c.pre, c.s)
        return self.is_buf(c, c.ret, l0 + c.n, lambda k: If(k < sx(l0), self.byte(c.pre, c.s, k), c.pre(c.p + k - sx(l0), 1))) + [('in place when it fits', Implies(l0 + c.n < self.cap(c.pre, c.s), c.ret == c.s))]


class StrAppend(Txt):
    params = ['s', 'ch']
    def requires(self, c): return self.buf(c, c.s)
    def modifies(self, c): return [self.owned(c, c.s)]
    def ensures(self, c):
        l0 = self.len(c.pre, c.s)
        return self.is_buf(c, c.ret, l0 + 1, lambda k: If(k < sx(l0), self.byte(c.pre, c.s, k), c.ch))


class GrowCap(Contract):
    name = 'growCap'
    params = ['n']
    ret_bits = 32
    def requires(self, c): return [('', And(c.n >= 0, c.n < bv(LIM + 8, 32)))]
    def ensures(self, c): return [('grows', And(c.ret > c.n, c.ret < bv(4 * LIM, 32)))]


class Reserve(Txt):
    params = ['s', 'cap']
    def requires(self, c): return self.buf(c, c.s) + [('', And(c.cap > 0, c.cap < bv(LIM, 32)))]
    def modifies(self, c): return [self.owned(c, c.s)]
    def ensures(self, c):
        return self.is_buf(c, c.ret, self.len(c.pre, c.s), lambda k: self.byte(c.pre, c.s, k)) + [('capacity', self.cap(c.post, c.ret) >= c.cap)]


class Shrink(Txt):
    params = ['s', 'n']
    def requires(self, c): return self.buf(c, c.s) + [('', c.n >= 0)]
    def modifies(self, c): return [self.owned(c, c.s)]
    def ensures(self, c):
        l0 = self.len(c.pre, c.s)
        l1 = If(c.n >= l0, bv(0, 32), l0 - c.n)
        return [('same buffer', c.ret == c.s)] + self.is_buf(c, c.ret, l1, lambda k: self.byte(c.pre, c.s, k))


class ToStr(Txt):
    params = ['s']
    ret_bits = (64, 32)
    def requires(self, c): return self.buf(c, c.s)
    def ensures(self, c): return [('text of the buffer', And(c.ret[0] == c.s + bv(self.o('sb_data')), c.ret[1] == self.len(c.pre, c.s)))]


class ToCStr(Txt):
    params = ['s']
    def requires(self, c): return self.buf(c, c.s)
    def ensures(self, c): return [('bytes of the buffer', c.ret == c.s + bv(self.o('sb_data')))]


class StrLen(Txt):
    params = ['p', 'n']
    ret_bits = 32
    def ensures(self, c): return [('length', c.ret == c.n)]


class StrSub(Txt):
    """the slice, or the empty text when a position is outside or the slice is empty"""
    params = ['p', 'n', 'a', 'b']
    ret_bits = (64, 32)
    def requires(self, c): return self.text(c, c.p, c.n)
    def ensures(self, c):
        n, a, b = sx(c.n), sx(c.a), sx(c.b)
        a1, b1 = If(a < 0, n + a, a), If(b < 0, n + b, b)
        ok = And(a1 >= 0, a1 <= n, b1 >= 0, b1 <= n, a1 < b1)
        return [('slice', If(ok, And(c.ret[0] == c.p + a1, zx(c.ret[1]) == b1 - a1), c.ret[1] == 0))]


class Search(Txt):
    """strChr / strRchr under the hypothesis that P is the first (last) occurrence, or that there is none"""
    params = ['p', 'n', 'ch']
    ret_bits = 32
    ghosts = {'P': 64}
    def __init__(self, ctx, last, found):
        Txt.__init__(self, ctx)
        self.last = last
        self.found = found
    def requires(self, c):
        r = self.text(c, c.p, c.n)
        if self.found:
            P = c.G['P']
            r.append(('P occurs', And(P >= 0, P < zx(c.n), c.pre(c.p + P, 1) == c.ch)))
        return r
    def hyps(self, c):
        P = c.G['P']
        inr = (lambda t: And(t >= 0, t < zx(c.n))) if not self.found else \
            ((lambda t: And(t > P, t < zx(c.n))) if self.last else (lambda t: And(t >= 0, t < P)))
        return [lambda t: Implies(inr(t), c.pre(c.p + t, 1) != c.ch)]
    def bounds(self, view):
        c = self.cx
        return [('n', zx(c.n)), ('P', c.G['P'])]
    def setup(self, c): self.cx = c
    def ensures(self, c):
        return [('the position' if self.found else 'minus one', sx(c.ret) == (c.G['P'] if self.found else bv(-1)))]


class StrCmp(Txt):
    params = ['p', 'n', 'q', 'm']
    ret_bits = 32
    ghosts = {'D': 64}
    def __init__(self, ctx, case):
        Txt.__init__(self, ctx)
        self.case = case
    def requires(self, c):
        r = self.text(c, c.p, c.n, 'left') + self.text(c, c.q, c.m, 'right')
        D = c.G['D']
        n, m = zx(c.n), zx(c.m)
        if self.case == 'prefix':
            r.append(('D is the shorter length', D == If(n < m, n, m)))
        else:
            a, b = c.pre(c.p + D, 1), c.pre(c.q + D, 1)
            r.append(('D inside both', And(D >= 0, D < n, D < m)))
            r.append(('bytes at D', UGT(a, b) if self.case == 'greater' else ULT(a, b)))
        return r
    def hyps(self, c):
        D = c.G['D']
        return [lambda t: Implies(And(t >= 0, t < D), c.pre(c.p + t, 1) == c.pre(c.q + t, 1))]
    def bounds(self, view): return [('D', self.cx.G['D']), ('n', zx(self.cx.n)), ('m', zx(self.cx.m))]
    def setup(self, c): self.cx = c
    def ensures(self, c):
        if self.case == 'greater':
            return [('positive', c.ret > 0)]
        if self.case == 'less':
            return [('negative', c.ret < 0)]
        return [('the lengths decide', And((c.ret > 0) == UGT(c.n, c.m), (c.ret == 0) == (c.n == c.m)))]


class StrStr(Txt):
    params = ['p', 'n', 'q', 'm']
    ret_bits = 32
    ghosts = {'P': 64}
    W = z3.Function('mismatch', W64, W64)
    def __init__(self, ctx, found):
        Txt.__init__(self, ctx)
        self.found = found
    def requires(self, c):
        r = self.text(c, c.p, c.n, 'text') + self.text(c, c.q, c.m, 'needle')
        P = c.G['P']
        if self.found:
            r.append(('P fits', And(P >= 0, P <= zx(c.n), P + zx(c.m) <= zx(c.n))))
        return r
    def hyps(self, c):
        P, n, m, W = c.G['P'], zx(c.n), zx(c.m), self.W
        out = []
        if self.found:
            out.append(lambda t: Implies(And(t >= 0, t < m), c.pre(c.p + P + t, 1) == c.pre(c.q + t, 1)))
        lim = (lambda t: t < P) if self.found else (lambda t: t + m <= n)
        out.append(lambda t: Implies(And(t >= 0, t < n, lim(t)) if self.found else And(t >= 0, t <= n, lim(t)),
                                     And(W(t) >= 0, W(t) < m, c.pre(c.p + t + W(t), 1) != c.pre(c.q + W(t), 1))))
        return out
    def loops(self, view):
        c = self.cx
        out = []
        vs = view.allints()
        for a, ta in vs:
            for b, tb in vs:
                if a != b:
                    out.append(('equal below %s at %s' % (b, a),
                                Implies(And(self.W(ta) >= 0, self.W(ta) < tb, ta >= 0, ta < (1 << 30)),
                                        c.pre(c.p + ta + self.W(ta), 1) == c.pre(c.q + self.W(ta), 1))))
        return out
    def bounds(self, view): return [('P', self.cx.G['P']), ('n', zx(self.cx.n)), ('m', zx(self.cx.m)), ('n-m', zx(self.cx.n) - zx(self.cx.m))]
    def setup(self, c): self.cx = c
    def ensures(self, c): return [('the first match' if self.found else 'minus one', sx(c.ret) == (c.G['P'] if self.found else bv(-1)))]


def tasks(ctx):
    g = [GrowCap()]
    out = [Task('growCap', GrowCap(), opts=dict(prove_timeout=60000))]
    for fn, cls in [('strNew', StrNew), ('fromBlk', FromBlk), ('fromCStr', FromCStr), ('cstr', CStr), ('strDup', StrDup), ('strCpy', StrCpy), ('strCat', StrCat),
                    ('strAppend', StrAppend), ('strBufReserve', Reserve), ('strShrink', Shrink), ('toStr', ToStr), ('toCStr', ToCStr), ('strLen', StrLen), ('strSub', StrSub)]:
        out.append(Task(fn, cls(ctx), g if ctx.prog.find('growCap') else []))
    for fn, last in [('strChr', False), ('strRchr', True)]:
        out.append(Task(fn, Search(ctx, last, True), label=fn + ' (occurs)'))
        out.append(Task(fn, Search(ctx, last, False), label=fn + ' (absent)'))
    for k in ('greater', 'less', 'prefix'):
        out.append(Task('strCmp', StrCmp(ctx, k), label='strCmp (%s)' % k))
    out.append(Task('strStr', StrStr(ctx, True), label='strStr (occurs)'))
    out.append(Task('strStr', StrStr(ctx, False), label='strStr (absent)'))
    return out
