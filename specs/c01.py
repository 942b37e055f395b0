from common import *
SOURCES = [PROBE, 'src/types.c', 'src/runtime.c', 'src/str.c', 'src/gc.c', 'src/export.c']
DRIVER = 'c01.c'
TRUSTED = ['values are made only by the constructors under contract (no word with tag 0 in boxed space)']
OUTSIDE = ['generated code (init.c, lib/toc.c) uses the predicates only through the macros verified here']


def head_type(c, x):
    return c.pre(addr(x) + bv(c.con.T), 1)


class Pred(Contract):
    """a predicate equals its specification on every 64-bit word"""
    params = ['o']
    ret_bits = 'bool'
    T = 4
    def __init__(self, name, spec, ret='bool'):
        self.name = name
        self.spec = spec
        self.ret_bits = ret
    def ensures(self, c):
        s = self.spec(c, c.o)
        if self.ret_bits == 'bool':
            return [('answers exactly its kind', c.ret == s)]
        return [('answers exactly its kind', c.ret == tobool(s))]


class Const(Contract):
    params = []
    def __init__(self, name, v):
        self.name = name
        self.v = v
    def ensures(self, c): return [('is the reserved immediate', c.ret == self.v)]


class MkPtr(Contract):
    name = 'p_makeNaNPtr'
    params = ['p', 't']
    def requires(self, c): return [('48-bit address', Extract(63, 48, c.p) == 0), ('tag', And(c.t >= 1, ULE(c.t, bv(7, 8))))]
    def ensures(self, c):
        return [('carries the tag', tagof(c.ret) == Extract(2, 0, c.t)), ('is boxed', boxed(c.ret)),
                ('carries the address', addr(c.ret) == c.p), ('canonical word', c.ret == Concat(bv(0xFFF, 13), Extract(2, 0, c.t), Extract(47, 0, c.p)))]


class Ptr(Contract):
    name = 'p_ptr'
    params = ['o']
    def ensures(self, c): return [('the 48-bit address', c.ret == addr(c.o))]


class Tag(Contract):
    name = 'p_tag'
    params = ['o']
    ret_bits = 32
    def ensures(self, c): return [('the tag', c.ret == zx(tagof(c.o), 32))]


class MakeCObj(Contract):
    name = 'makeCObj'
    params = ['p']
    def requires(self, c): return [('48-bit address', Extract(63, 48, c.p) == 0)]
    def traps(self, c): return Extract(2, 0, c.p) != 0
    def ensures(self, c): return [('the handle', c.ret == tagged(c.p, COBJ))]


class MustCObj(Contract):
    name = 'mustCObj'
    params = ['o']
    def requires(self, c): return [('a boxed value', boxed(c.o))]
    def traps(self, c): return Not(has_tag(c.o, COBJ))
    def ensures(self, c): return [('the pointer', c.ret == addr(c.o)), ('only for C objects', has_tag(c.o, COBJ))]


class PrimNot(Contract):
    name = 'primNot'
    params = ['x']
    def traps(self, c): return And(c.x != TRUE, c.x != FALSE)
    def ensures(self, c):
        return [('negation', And(Implies(c.x == TRUE, c.ret == FALSE), Implies(c.x == FALSE, c.ret == TRUE),
                                 Or(c.x == TRUE, c.x == FALSE)))]


def tasks(ctx):
    T = ctx.off('head_type')
    Pred.T = T
    sym = lambda c, o: Or(has_tag(o, SYMBOL), And(has_tag(o, PTR), head_type(c, o) == ctx.off('HEAD_symbol')))
    vec = lambda c, o: And(tagof(o) == PTR, head_type(c, o) == ctx.off('HEAD_vector'))
    out = []
    def P(name, spec, ret='bool'):
        out.append(Task(name, Pred(name, spec, ret)))
    P('p_isNumber', lambda c, o: is_number(o))
    P('p_isfixnum', lambda c, o: is_int(o))
    P('p_iscobj', lambda c, o: has_tag(o, COBJ))
    P('p_issymbol', sym)
    P('p_isBytes', lambda c, o: has_tag(o, BYTES))
    P('p_iscons', lambda c, o: has_tag(o, CONS))
    P('p_isboolean', lambda c, o: Or(o == TRUE, o == FALSE))
    P('p_isScmHead', lambda c, o: And(boxed(o), UGE(tagof(o), bv(4, 3))))
    P('consp', lambda c, o: has_tag(o, CONS), 64)
    P('p_PRIM_ISCONS', lambda c, o: has_tag(o, CONS), 64)
    P('primIsCons', lambda c, o: has_tag(o, CONS), 64)
    P('primIsSymbol', sym, 64)
    P('primIsString', lambda c, o: has_tag(o, BYTES), 64)
    P('primIsNumber', lambda c, o: is_number(o), 64)
    P('isvector', lambda c, o: And(boxed(o), vec(c, o)))
    out += [Task('p_True', Const('p_True', TRUE)), Task('p_False', Const('p_False', FALSE)),
            Task('p_Nil', Const('p_Nil', NIL)), Task('p_Undef', Const('p_Undef', UNDEF)),
            Task('p_makeNaNPtr', MkPtr()), Task('p_ptr', Ptr()), Task('p_tag', Tag()),
            Task('makeCObj', MakeCObj()), Task('mustCObj', MustCObj()), Task('primNot', PrimNot()),
            Task('p_makeNumber', PMakeNumber()), Task('p_fixnum', PFixnum())]
    out += number_lemmas()
    o = z3.BitVec('o', 64)
    ht = z3.BitVec('ht', 8)
    kinds = [is_number(o), Or(o == TRUE, o == FALSE), o == NIL, o == UNDEF,
             Or(has_tag(o, SYMBOL), And(has_tag(o, PTR), ht == H_SYMBOL)), has_tag(o, BYTES), has_tag(o, CONS),
             has_tag(o, NATIVE), has_tag(o, COBJ), And(has_tag(o, PTR), ht != H_SYMBOL)]
    valid = And(Implies(boxed(o), tagof(o) != 0), Implies(has_tag(o, IMMED), Or(o == TRUE, o == FALSE, o == NIL, o == UNDEF)))
    out.append(Lemma('every value is of exactly one kind', Implies(valid, z3.PbEq([(k, 1) for k in kinds], 1))))
    return out
