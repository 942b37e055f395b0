from common import *
import c08
SOURCES = [PROBE, 'src/types.c', 'src/runtime.c', 'src/str.c', 'src/reader.c']
DRIVER = 'c03.c'
TRUSTED = ['pairs are acyclic (structural induction; a pair is made after its parts, and no pair is ever changed)',
           'a word tagged as a pair carries the address of an object whose type is pair (constructors: C01, C04)']
OUTSIDE = []
W = BitVecSort(64)
EQ = z3.Function('EQ', W, W, z3.BoolSort())
WF = z3.Function('WF', W, z3.BoolSort())
STREQ = z3.Function('STREQ', W, BitVecSort(32), W, BitVecSort(32), z3.BoolSort())


class UStrCmp(Contract):
    """strCmp as its own contract (proved below and in C08) gives it: zero exactly for the same length and bytes"""
    name = 'strCmp'
    params = ['p', 'n', 'q', 'm']
    ret_bits = 32
    def ensures(self, c): return [('', (c.ret == 0) == STREQ(c.p, c.n, c.q, c.m))]


class Eq(Contract):
    name = 'eq'
    params = ['x', 'y']
    ret_bits = 'bool'
    recursive = True
    def __init__(self, ctx):
        o = ctx.off
        self.T, self.CAR, self.CDR, self.LEN, self.DATA = o('head_type'), o('cons_car'), o('cons_cdr'), o('bytes_len'), o('bytes_data')
        self.HC = o('HEAD_cons')
    def wf(self, rd, x):
        p = addr(x)
        return WF(x) == Implies(has_tag(x, CONS), And(rd(p + self.T, 1) == self.HC, WF(rd(p + self.CAR, 8)), WF(rd(p + self.CDR, 8))))
    def unfold(self, rd, x, y):
        p, q = addr(x), addr(y)
        pair = And(has_tag(x, CONS), has_tag(y, CONS), EQ(rd(p + self.CAR, 8), rd(q + self.CAR, 8)), EQ(rd(p + self.CDR, 8), rd(q + self.CDR, 8)))
        text = And(has_tag(x, BYTES), has_tag(y, BYTES), STREQ(p + self.DATA, rd(p + self.LEN, 4), q + self.DATA, rd(q + self.LEN, 4)))
        return EQ(x, y) == Or(x == y, pair, text)
    def requires(self, c):
        r = [('well-formed values', And(WF(c.x), WF(c.y)))]
        if c.mode == 'body':
            self.seen = []
            r += [('', self.wf(c.pre, c.x)), ('', self.wf(c.pre, c.y)), ('', self.unfold(c.pre, c.x, c.y))]
        return r
    def hyps(self, c):
        def h(t, st):
            if is_const(t):
                return BoolVal(True)
            self.seen = [s for s in self.seen[-5:] if not s.eq(t)] + [t]
            return And(self.wf(c.pre, t), *[self.unfold(c.pre, a, b) for a in self.seen for b in self.seen])
        return [h]
    def setup(self, c): self.cx = c
    def loops(self, view):
        c, out = self.cx, []
        vs = view.allints()
        for a, ta in vs:
            out.append(('%s well-formed' % a, WF(ta)) if ta.size() == 64 else ('', BoolVal(True)))
            for b, tb in vs:
                if a != b and ta.size() == 64 and tb.size() == 64:
                    out.append(('%s and %s decide' % (a, b), EQ(ta, tb) == EQ(c.x, c.y)))
        return out
    def ensures(self, c):
        return [('structurally equal', c.ret == EQ(c.x, c.y))]


class EqObj(Contract):
    params = ['x', 'y']
    def requires(self, c): return [('well-formed values', And(WF(c.x), WF(c.y)))]
    def ensures(self, c): return [('True exactly for equal values', c.ret == tobool(EQ(c.x, c.y)))]




def tasks(ctx):
    e = Eq(ctx)
    out = [Task('eq', e, [UStrCmp(), e]), Task('primEQ', EqObj(), [e]), Task('p_PRIM_EQ', EqObj(), [e])]
    for k in ('greater', 'less', 'prefix'):
        out.append(Task('strCmp', c08.StrCmp(ctx, k), label='strCmp (%s)' % k))
    B = BitVecSort(64)
    x, y = z3.BitVec('x', 64), z3.BitVec('y', 64)
    car, cdr = z3.Function('car', W, W), z3.Function('cdr', W, W)
    TEXT = z3.Function('TEXT', W, W)      # the text (bytes and length) of a string, as one mathematical value
    un = lambda a, b: EQ(a, b) == Or(a == b, And(has_tag(a, CONS), has_tag(b, CONS), EQ(car(a), car(b)), EQ(cdr(a), cdr(b))),
                                     And(has_tag(a, BYTES), has_tag(b, BYTES), TEXT(a) == TEXT(b)))
    out.append(Lemma('equality is reflexive', Implies(un(x, x), EQ(x, x))))
    out.append(Lemma('equality is symmetric (step of the structural induction)', Implies(
        And(un(x, y), un(y, x), EQ(car(x), car(y)) == EQ(car(y), car(x)), EQ(cdr(x), cdr(y)) == EQ(cdr(y), cdr(x))), EQ(x, y) == EQ(y, x))))
    im = lambda a: Not(Or(has_tag(a, CONS), has_tag(a, BYTES)))
    out.append(Lemma('immediates, symbols, numbers and other objects are equal only to themselves', Implies(And(un(x, y), Or(im(x), im(y))), EQ(x, y) == (x == y))))
    return out
