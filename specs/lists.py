"""proper lists as sequences: ELEM(0..N) in the cells CELL(0..N), CELL(N) is the empty list"""
from common import *

CELL = z3.Function('CELL', W64, W64)
ELEM = z3.Function('ELEM', W64, W64)
CAR = z3.Function('CAR', W64, W64)
CDR = z3.Function('CDR', W64, W64)
N = BitVec('list_length', 64)
LISTS = 'a list argument is proper and shorter than 2^24; its cells are read through car and cdr (C04)'


def proper(): return [('a list', And(N >= 0, N < bv(1 << 24), CELL(N) == NIL))]
def hyp(t): return And(Implies(And(t >= 0, t < N), And(has_tag(CELL(t), CONS), CAR(CELL(t)) == ELEM(t), CDR(CELL(t)) == CELL(t + 1))), Implies(t == N, CELL(t) == NIL))


class Car(Contract):
    """C04: the head of a pair; stops on anything else"""
    name = 'car'
    params = ['x']
    fn = CAR
    def requires(self, c): return [('a pair', has_tag(c.x, CONS))]
    def fresh_ret(self, c): return self.fn(c.x)


class Cdr(Car):
    name = 'cdr'
    fn = CDR


class IsCons(Contract):
    name = 'iscons'
    params = ['x']
    ret_bits = 'bool'
    def fresh_ret(self, c): return has_tag(c.x, CONS)


class ListLen(Contract):
    name = 'listLen'
    params = ['l']
    ret_bits = 32
    def requires(self, c): return proper() + [('', c.l == CELL(bv(0)))]
    def hyps(self, c): return [hyp]
    def loops(self, view):
        return [('at %s' % n, t == CELL(view.it)) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 64] + [('in', view.it <= N)] + [('count %s' % n, t == view.it) for n, t, e in view.ints()]
    def ensures(self, c): return [('the number of elements', sx(c.ret) == N)]
USES = [Car(), Cdr(), IsCons()]


# the value of a list as a sequence: pairs are never changed, so SEQ of a word is fixed once the pair is made
ABS = z3.DeclareSort('Sequence')
SEQ = z3.Function('SEQ', W64, ABS)
CONSQ = z3.Function('CONSQ', W64, ABS, ABS)
NILQ = z3.Const('NILQ', ABS)
RA = z3.Function('RA', W64, ABS, ABS)          # the reverse of a list followed by a sequence
STRQ = z3.Function('STRQ', W64, W64, W64)      # the value of a string of these bytes


class ACons(Contract):
    """a new pair (C04): its value is its head followed by the value of its tail; the axiom of RA at the sequences the root names"""
    name = 'makeCons'
    params = ['gc', 'a', 'b']
    def __init__(self, queries): self.queries = queries
    def ensures(self, c):
        qs = list(self.queries(c)) + [NILQ]
        return [('', SEQ(c.ret) == CONSQ(c.a, SEQ(c.b))), ('a pair', has_tag(c.ret, CONS))] + [('', RA(c.ret, q) == RA(c.b, CONSQ(c.a, q))) for q in qs]


def nil(*qs): return [('', And(SEQ(NIL) == NILQ, *[RA(NIL, q) == q for q in qs + (NILQ,)]))]


class AReverse(Contract):
    name = 'reverse'
    params = ['gc', 'l']
    def ensures(self, c): return [('', SEQ(c.ret) == RA(c.l, NILQ))]


class AString(Contract):
    name = 'makeString'
    params = ['gc', 's', 'len']
    def ensures(self, c): return [('', c.ret == STRQ(c.s, sx(c.len)))]


class Reverse(AReverse):
    """the contract above, proved of the code"""
    def requires(self, c):
        self.it = []
        return proper() + [('', c.l == CELL(bv(0)))] + nil()
    def hyps(self, c): return [hyp]
    def loops(self, view):
        self.it = [view.it]
        v = [(n, t) for n, t in view.vals.items() if not isinstance(t, z3.BoolRef) and t.size() == 64]
        return [('at %s' % n, t == CELL(view.it)) for n, t in v] + [('in', view.it <= N)] + [('done %s' % n, RA(CELL(bv(0)), NILQ) == RA(CELL(view.it), SEQ(t))) for n, t in v]
    def ensures(self, c):
        q = SEQ(c.ret)
        return [('the reverse', Implies(RA(NIL, q) == q, q == RA(c.l, NILQ)))]


class RCons(ACons):
    def __init__(self, root): self.root = root
    def ensures(self, c):
        q = SEQ(c.b)
        return [('', SEQ(c.ret) == CONSQ(c.a, q))] + [('', Implies(t < N, RA(CELL(t), q) == RA(CELL(t + 1), CONSQ(ELEM(t), q)))) for t in self.root.it]


def reverse_tasks(ctx):
    from cov import Task
    r = Reverse()
    return [Task('reverse', r, [RCons(r)] + USES)]
