from common import *
SOURCES = [PROBE, 'src/types.c', 'src/runtime.c', 'src/str.c', 'src/gc.c', 'lib/toc/internal.c']
DRIVER = 'c02.c'
DRIVER_SRC = ['src/str.c', 'src/gc.c', 'src/types.c', 'src/reader.c', 'src/runtime.c', 'src/trace.c', 'src/export.c', '-fwrapv']
TRUSTED = ['clang and gcc compile int64 arithmetic and double conversion as x86-64 does']
OUTSIDE = ['mod, >=, <= and other derived arithmetic of init.cora (compiled code): bounded runs on the built interpreter']

USES = OPAQUE_NUM  # IVAL, NUM, ISINT are the notions of Fixnum, MakeNumber, Isfixnum, proved below, kept opaque here


class Arith(Contract):
    """prim(x, y): exact on integers up to 2^53, stops on anything that is not an integer"""
    params = ['x', 'y']
    def __init__(self, name, op):
        self.name = name
        self.op = op
    def stop(self, c): return Not(And(ISINT(c.x), ISINT(c.y)))
    def traps(self, c): return self.stop(c)
    def ensures(self, c):
        a, b = IVAL(c.x), IVAL(c.y)
        r = self.op(a, b)
        return [('yields a value only for integers', Not(self.stop(c))),
                ('the number of the result', c.ret == NUM(r))]


class Div(Arith):
    def stop(self, c): return Or(Not(And(ISINT(c.x), ISINT(c.y))), IVAL(c.y) == 0)
    def ensures(self, c):
        a, b = IVAL(c.x), IVAL(c.y)
        return [('yields a value only for integers and a non-zero divisor', Not(self.stop(c))),
                ('the number of the quotient', c.ret == NUM(a / b))]


class Order(Arith):
    def ensures(self, c):
        a, b = IVAL(c.x), IVAL(c.y)
        return [('yields a value only for integers', Not(self.stop(c))), ('the mathematical order', c.ret == tobool(self.op(a, b)))]


class NumEq(Contract):
    """on numbers, equality is equality of the encodings"""
    params = ['x', 'y']
    def __init__(self, name): self.name = name
    def requires(self, c): return [('numbers', And(is_number(c.x), is_number(c.y)))]
    def ensures(self, c): return [('equal exactly when the same number', c.ret == tobool(c.x == c.y))]


def tasks(ctx):
    add, sub, mul = (lambda a, b: a + b), (lambda a, b: a - b), (lambda a, b: a * b)
    gt, lt = (lambda a, b: a > b), (lambda a, b: a < b)
    out = []
    for n, op in [('p_PRIM_ADD', add), ('primAdd', add), ('p_PRIM_SUB', sub), ('primSub', sub), ('p_PRIM_MUL', mul), ('primMul', mul)]:
        out.append(Task(n, Arith(n, op), USES))
    for n, op in [('p_PRIM_GT', gt), ('primGT', gt), ('p_PRIM_LT', lt), ('primLT', lt)]:
        out.append(Task(n, Order(n, op), USES))
    out.append(Task('primDiv', Div('primDiv', None), USES, opts=dict(prove_timeout=60000)))
    for n in ('p_PRIM_EQ', 'primEQ'):
        out.append(Task(n, NumEq(n)))
    out += [Task('p_fixnum', PFixnum()), Task('p_makeNumber', PMakeNumber()),
            Task('fixnum', Fixnum()), Task('makeNumber', MakeNumber()), Task('isfixnum', Isfixnum())]
    out += number_lemmas()
    a, b = z3.BitVec('a', 64), z3.BitVec('b', 64)
    fa, fb = num(a), num(b)
    A, B = z3.Int('A'), z3.Int('B')
    M = 1 << 53
    out.append(Lemma('64-bit sums and differences of integers up to 2^53 do not wrap',
                     Implies(And(in53(a), in53(b)), And(z3.SignExt(1, a) + z3.SignExt(1, b) == z3.SignExt(1, a + b),
                                                        z3.SignExt(1, a) - z3.SignExt(1, b) == z3.SignExt(1, a - b)))))
    out.append(Lemma('distinct integers up to 2^53 have distinct encodings', Implies(And(in53(a), in53(b)), (fa == fb) == (a == b))))
    # exactness of the 64-bit product is a statement about the mathematical product: no wrap when it is at most 2^53
    out.append(Lemma('machine products: the product of integers up to 2^53, computed modulo 2^64, is exact when the product is at most 2^53',
                     Implies(And(A >= -M, A <= M, B >= -M, B <= M, A * B >= -M, A * B <= M),
                             And(A * B < (1 << 63), A * B >= -(1 << 63)))))
    return out
