"""vocabulary shared by the specifications: value words and heap objects"""
import z3
from cov import *

F64 = z3.Float64()
OBJ_MASK = 0x7FF8000000000000
PMASK = (1 << 48) - 1
IMMED, COBJ, SYMBOL, BYTES, CONS, NATIVE, PTR = 1, 2, 3, 4, 5, 6, 7
UNDEF = bv(OBJ_MASK | (IMMED << 48) | 0)
NIL = bv(OBJ_MASK | (IMMED << 48) | 1)
TRUE = bv(OBJ_MASK | (IMMED << 48) | 2)
FALSE = bv(OBJ_MASK | (IMMED << 48) | 3)
H_SYMBOL, H_CONS, H_BYTES, H_VECTOR, H_CONT, H_NATIVE = 2, 3, 4, 5, 6, 7
I53 = 1 << 53
PROBE = '/verif/specs/probe_types.c'
import os
PROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe_types.c')


def boxed(x):
    return Extract(62, 51, x) == bv(0xFFF, 12)


def is_number(x):
    return Not(boxed(x))


def tagof(x):
    return Extract(50, 48, x)


def has_tag(x, t):
    return And(boxed(x), tagof(x) == bv(t, 3))


def addr(x):
    return Concat(bv(0, 16), Extract(47, 0, x))


def tagged(p, t):
    """the word that carries address p with tag t"""
    return simplify(Concat(bv(0x7FF8 | t, 16), Extract(47, 0, p)))


def fpv(x):
    return z3.fpBVToFP(x, F64)


def is_int(x):
    """a number without fractional part (as trunc sees it)"""
    f = fpv(x)
    return And(is_number(x), z3.fpEQ(f, z3.fpRoundToIntegral(z3.RTZ(), f)))


def ival(x):
    return z3.fpToSBV(z3.RTZ(), fpv(x), BitVecSort(64))


def num(n):
    """the word of the integer n"""
    return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), n, F64))


def in53(n):
    return And(n <= bv(I53), n >= bv(-I53))


def tobool(b):
    return If(b, TRUE, FALSE)


class Stub(Contract):
    """an assumed contract without effect on the verified state"""
    trusted = True

    def __init__(self, name, params=(), ret_bits=None):
        self.name = name
        self.params = list(params)
        self.ret_bits = ret_bits


class TraceOff:
    pass


def trace_stubs():
    return [Stub('traceEmitEvent', ['a', 'b', 'c', 'd']), Stub('traceFlush'), Stub('pthread_self', [], 64)]


TRACE_ASSUMPTION = 'the tracing facility (src/trace.h), off unless enabled by the user, has no effect on program data'


class Fixnum(Contract):
    name = 'fixnum'
    params = ['o']
    def traps(self, c): return Not(is_int(c.o))
    def ensures(self, c):
        return [('stops unless an integral number', is_int(c.o)), ('the integer the double denotes', c.ret == ival(c.o))]


class MakeNumber(Contract):
    name = 'makeNumber'
    params = ['v']
    def ensures(self, c):
        return [('the double nearest to v', c.ret == num(c.v)), ('is a number', is_number(c.ret))]


W64 = BitVecSort(64)
IVAL = z3.Function('IVAL', W64, W64)
NUM = z3.Function('NUM', W64, W64)
ISINT = z3.Function('ISINT', W64, z3.BoolSort())


class OFixnum(Contract):
    """fixnum with its defined notions opaque: IVAL, ISINT stand for ival, is_int (Fixnum proves the contract)"""
    name = 'fixnum'
    params = ['o']
    def traps(self, c): return Not(ISINT(c.o))
    def ensures(self, c): return [('', ISINT(c.o)), ('', c.ret == IVAL(c.o)), ('', is_number(c.o))]


class OMakeNumber(Contract):
    name = 'makeNumber'
    params = ['v']
    def ensures(self, c): return [('', c.ret == NUM(c.v)), ('', is_number(c.ret))]


class OIsfixnum(Contract):
    name = 'isfixnum'
    params = ['x']
    ret_bits = 'bool'
    def ensures(self, c): return [('', c.ret == ISINT(c.x)), ('', Implies(c.ret, is_number(c.x)))]


class Isfixnum(OIsfixnum):
    def ensures(self, c): return [('integral numbers only', c.ret == is_int(c.x))]


OPAQUE_NUM = [OFixnum(), OMakeNumber(), OIsfixnum()]


class PFixnum(Fixnum):
    name = 'p_fixnum'


class PMakeNumber(MakeNumber):
    name = 'p_makeNumber'


def number_lemmas():
    a = z3.BitVec('a', 64)
    b = z3.BitVec('b', 64)
    f = z3.fpSignedToFP(z3.RNE(), a, F64)
    return [
        Lemma('integers up to 2^53 read back unchanged',
              Implies(in53(a), z3.fpToSBV(z3.RTZ(), f, BitVecSort(64)) == a)),
        Lemma('integers up to 2^53 are integral doubles',
              Implies(in53(a), And(z3.fpEQ(f, z3.fpRoundToIntegral(z3.RTZ(), f)), Not(z3.fpIsNaN(f)), Not(z3.fpIsInf(f))))),
    ]


class GcAlloc(Contract):
    """what users of the allocator rely on; proved for gcAlloc in C10 (exclusive, large enough, aligned) and C11 (the collector changes only headers of
    objects it manages, so no object content changes here)"""
    name = 'gcAlloc'
    params = ['gc', 'size']
    def __init__(self, o): self.o = o
    def requires(self, c): return [('room for a header', c.size > bv(8, 32))]
    def fresh_ret(self, c): return z3.Concat(bv(0, 16), fresh('object', 45), bv(0, 3))
    def ensures(self, c):
        return [('a fresh object', c.is_fresh(c.ret, sx(c.size))), ('', c.ret != 0), ('records its size', c.post(c.ret + self.o('head_size'), 4) == c.size)]


ALLOC_ASSUMPTION = 'gcAlloc is used through its contract (C10): fresh exclusive aligned memory; its collector steps change no content of live objects (C11)'


class MakeObj(Contract):
    """a constructor of heap objects: result is a fresh object, tagged"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.o = ctx.off
    def head(self, c, tag, kind, size):
        p = addr(c.ret)
        return [('tag', has_tag(c.ret, tag)), ('canonical', c.ret == tagged(p, tag)), ('a fresh object', c.is_fresh(simplify(p), size)),
                ('its type', c.post(p + self.o('head_type'), 1) == self.o('HEAD_' + kind))]


class MakeBytes(MakeObj):
    name = 'makeBytes'
    params = ['gc', 'len']
    def requires(self, c): return [('length', And(c.len >= 0, c.len < bv(1 << 26, 32)))]
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('bytes', 45), bv(0, 3)), BYTES))
    def ensures(self, c):
        return self.head(c, BYTES, 'bytes', sx(c.len) + self.o('bytes_data') + 1) + [('length', c.post(addr(c.ret) + self.o('bytes_len'), 4) == c.len)]


class MakeString(MakeObj):
    name = 'makeString'
    params = ['gc', 's', 'len']
    ghosts = {'K': 64}
    def requires(self, c): return [('length', And(c.len >= 0, c.len < bv(1 << 26, 32))), ('text', c.valid(c.s, sx(c.len), 'text'))]
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('string', 45), bv(0, 3)), BYTES))
    def ensures(self, c):
        K, p = c.G['K'], addr(c.ret)
        D = p + self.o('bytes_data')
        r = [] if c.mode == 'call' and c.aux.get('done') else self.head(c, BYTES, 'bytes', sx(c.len) + self.o('bytes_data') + 1)
        c.aux['done'] = True
        return r + [('length', c.post(p + self.o('bytes_len'), 4) == c.len), ('ends with NUL', c.post(D + sx(c.len), 1) == 0),
                    ('bytes', Implies(And(K >= 0, K < sx(c.len)), c.post(D + K, 1) == c.pre(c.s + K, 1)))]


class MakeCons(MakeObj):
    name = 'makeCons'
    params = ['gc', 'car', 'cdr']
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('pair', 45), bv(0, 3)), CONS))
    def ensures(self, c):
        p = addr(c.ret)
        return self.head(c, CONS, 'cons', bv(self.o('sizeof_cons'))) + [('head', c.post(p + self.o('cons_car'), 8) == c.car), ('tail', c.post(p + self.o('cons_cdr'), 8) == c.cdr)]


class MakeVector(MakeObj):
    name = 'makeVector'
    params = ['gc', 'size', 'cap']
    ghosts = {'K': 64}
    def requires(self, c): return [('sizes', And(c.size >= 0, c.size < bv(1 << 26, 32), c.cap >= 0, c.cap < bv(1 << 26, 32)))]
    def traps(self, c): return c.size > c.cap
    def fresh_ret(self, c): return simplify(tagged(z3.Concat(bv(0, 16), fresh('vector', 45), bv(0, 3)), PTR))
    def bounds(self, view): return [('size', sx(self.cx.size))]
    def setup(self, c): self.cx = c
    def loops(self, view):
        c, K = self.cx, self.cx.G['K']
        out = []
        for n, t in view.allints():
            for m, p, e in view.ptrs():
                pass
        for r in view.st.regions:
            if r.fresh and not r.local and r.name.startswith('fresh'):
                for n, t in view.allints():
                    out.append(('undefined below %s' % n, Implies(And(K >= 0, K < sx(t)), view.rd(r.base + self.o('vector_data') + 8 * K, 8) == UNDEF)))
                for f, val in (('size', c.size), ('cap', c.cap)):
                    out.append((f, view.rd(r.base + self.o('vector_' + f), 4) == val))
                out.append(('type', view.rd(r.base + self.o('head_type'), 1) == self.o('HEAD_vector')))
        return out
    def ensures(self, c):
        K, p = c.G['K'], addr(c.ret)
        r = [] if c.mode == 'call' and c.aux.get('done') else self.head(c, PTR, 'vector', bv(self.o('vector_data')) + 8 * sx(c.cap))
        c.aux['done'] = True
        return r + [('size', c.post(p + self.o('vector_size'), 4) == c.size), ('capacity', c.post(p + self.o('vector_cap'), 4) == c.cap),
                    ('within', c.size <= c.cap),
                    ('elements undefined', Implies(And(K >= 0, K < sx(c.size)), c.post(p + self.o('vector_data') + 8 * K, 8) == UNDEF))]
