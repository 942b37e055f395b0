from common import *
PROBE_MAP = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe_map.c')
SOURCES = [PROBE, PROBE_MAP, 'src/types.c', 'src/str.c']
DRIVER = 'c07.c'
DRIVER_SRC = ['src/str.c', 'src/gc.c', 'src/types.c', 'src/reader.c', 'src/runtime.c', 'src/trace.c', 'src/export.c']
TRUSTED = ['the equality given to a table is an equivalence and equal keys have equal hashes (for the functions of the runtime: equal texts, shown by the contracts of strEQFunc and strHashFunc)',
           'trie nodes are separate heap objects and the trie is finite (kept by construction: nodes come from malloc and are only ever attached once)']
OUTSIDE = []
W = BitVecSort(64)
EQ = z3.Function('EQKEY', W, W, W, W, z3.BoolSort())
HASH = z3.Function('HASHKEY', W, W, W)
KS = 16


class Path:
    """the way of a key through the trie: N(t) is the node reached after t steps, HS(t) the hash shifted t times;
    the search ends at step J, at a node with an equal key (found) or at no node"""
    def __init__(self, o, N, HS, J, found):
        self.o, self.N, self.HS, self.J, self.found = o, N, HS, J, found
        self.CH, self.KSZ, self.D = o('trie_child'), o('trie_keySize'), o('trie_data')
    def key(self, rd, p): return (rd(p, 8), rd(p + 8, 8))
    def step(self, t): return self.N(t) + self.CH + 8 * LShR(self.HS(t), bv(62))
    def facts(self, rd, root, k):
        N, J = self.N, self.J
        data = self.key(rd, N(J) + self.D)
        return [('search depth', And(J >= 0, J < (1 << 40))), ('starts at the root', N(bv(0)) == root), ('starts with the hash', self.HS(bv(0)) == HASH(*k)),
                ('outcome', If(self.found, And(N(J) != 0, EQ(*k, *data), rd(N(J) + self.KSZ, 4) == KS), N(J) == 0))]
    def walk(self, rd, k, t):
        N, HS, J = self.N, self.HS, self.J
        return And(Implies(And(t >= 0, t < J), And(N(t) != 0, Not(EQ(*k, *self.key(rd, N(t) + self.D))), N(t + 1) == rd(self.step(t), 8))),
                   Implies(And(t >= 0, t < (1 << 41)), HS(t + 1) == HS(t) << 2))
    def result(self): return If(self.found, self.N(self.J) + self.D + KS, bv(0))


def fpath(ctx, tag, J, found):
    return Path(ctx.off, z3.Function('N' + tag, W, W), z3.Function('HS' + tag, W, W), J, BoolVal(found))


class Lookup(Contract):
    name = 'lookup'
    params = ['root', 'h', 'e', 'k', 'fu']
    ghosts = {'J': 64}
    def __init__(self, ctx, found=None, upd=None):
        self.ctx, self.found, self.upd = ctx, found, upd
        self.size = ctx.off('sizeof_trie') + KS + 24
        self.calls = []
        self.n = 0
    def indirect(self, v, st, fn, args, a):
        c = self.cx
        rd = lambda p, n: v.read(st, st.mem, simplify(p), n)
        if v.entails(st, fn == c.h):
            return [('ret', st, HASH(rd(args[0], 8), rd(args[0] + 8, 8)))]
        if v.entails(st, fn == c.e):
            return [('ret', st, EQ(rd(args[0], 8), rd(args[0] + 8, 8), rd(args[1], 8), rd(args[1] + 8, 8)))]
        return None
    def setup(self, c):
        self.cx = c
        self.n = 0
    def requires(self, c):
        if c.mode == 'call':
            if self.n >= len(self.calls):
                raise ToolLimit('more searches than expected')
            P, prep = self.calls[self.n]
            self.n += 1
            t0 = fresh('t0')
            prep(c, t0)
            c.P = P(c) if callable(P) else P
            k = c.P.key(c.pre, c.k)
            return c.P.facts(c.pre, c.root, k) + [('every step of the search', c.P.walk(c.pre, k, t0))]
        r = [('key', c.valid(c.k, 16, 'key', own=True)), ('two functions', c.h != c.e)]
        r += [('', c.fu == 0)] if not self.upd else [('place for the slot', c.valid(c.fu, 8, 'slot', own=True))]
        c.P = fpath(self.ctx, '', c.G['J'], self.found)
        self.k = c.P.key(c.pre, c.k)
        return r + c.P.facts(c.pre, c.root, self.k)
    def hyps(self, c):
        P = c.P
        def sep(t, st):
            own = [c.v.disjoint_f(P.N(t), bv(self.size), r.base, r.size) for r in st.regions if r.own and not r.name.startswith('global')]
            return Implies(And(t >= 0, t <= P.J, P.N(t) != 0), And(UGT(P.N(t), bv(4096)), ULT(P.N(t), bv(1 << 47)), *own))
        return [lambda t: P.walk(c.pre, self.k, t), sep]
    def fresh_ret(self, c): return simplify(c.P.result())
    def slot(self, c): return If(c.P.J == 0, c.pre(c.fu, 8), c.P.step(c.P.J - 1))
    def modifies(self, c):
        return [(c.fu, bv(8))] if (c.mode == 'call' or self.upd) and not (is_const(c.fu) and c.fu.as_long() == 0) else []
    def loops(self, view):
        c = self.cx
        P, it = c.P, view.it
        out = [('it', it <= P.J)]
        for n, t, e in view.ptrs():
            out.append(('%s is the node' % n, t == P.N(it)))
        for n, t in view.allints():
            out.append(('%s is the hash' % n, t == P.HS(it)))
        if self.upd:
            out.append(('slot', view.rd(c.fu, 8) == If(it == 0, c.pre(c.fu, 8), P.step(it - 1))))
        return out
    def ensures(self, c):
        r = [('the value of the node that holds the key, or absent', c.ret == c.P.result())]
        if (c.mode == 'call' and not (is_const(c.fu) and c.fu.as_long() == 0)) or self.upd:
            r.append(('slot for a new node', Implies(Not(c.P.found), c.post(c.fu, 8) == self.slot(c))))
        return r


class Set(Contract):
    """set k to v_ (the search through the contract of lookup): found - exactly the value of the node of the key becomes v_;
    absent - exactly the slot the search ended at gets a new node with the key, the value and no children"""
    params = ['m', 'k', 'v_']
    ghosts = {'J': 64}
    def __init__(self, ctx, look, vs, found, at_root=False):
        self.ctx, self.look, self.vs, self.found, self.at_root = ctx, look, vs, found, at_root
        o = ctx.off
        self.ROOT = o('map_root')
        self.size = o('sizeof_trie') + KS + vs
    def requires(self, c):
        r = [('table', c.valid(c.m, 24, 'table', own=True))]
        for n, sz in [('k', 16), ('v_', self.vs)]:
            r.append((n, c.valid(getattr(c, n), sz, n, own=True)))
        J = c.G['J'] if not self.at_root else bv(0)
        P = self.P = fpath(self.ctx, '', J, self.found)
        k = P.key(c.pre, c.k)
        root = c.pre(c.m + self.ROOT, 8)
        self.last = P.N(J) if self.found else P.N(J - 1)
        if not self.found and not self.at_root:
            r.append(('', J > 0))
        r += P.facts(c.pre, root, k)
        if self.found or not self.at_root:
            r.append(('the last node', And(self.last != 0, c.valid(self.last, self.size, 'last node', own=True))))
        def sep(t, st):
            own = [c.v.disjoint_f(P.N(t), bv(self.size), x.base, x.size) for x in st.regions if x.own and not x.name.startswith(('global', 'last node'))]
            return Implies(And(t >= 0, t <= J, P.N(t) != 0), And(UGT(P.N(t), bv(4096)), ULT(P.N(t), bv(1 << 47)), *own))
        self.q = [lambda t: P.walk(c.pre, k, t), lambda t: P.walk(c.pre, k, t - 1), sep]
        return r
    def hyps(self, c): return self.q
    def slot(self, c): return c.m + self.ROOT if self.at_root else self.P.step(self.P.J - 1)
    def setup(self, c):
        P = self.P
        def know(cc, t0):
            for g in (t0, P.J, P.J - 1):
                for h in self.q:
                    cc.st.assume(c.v.instance(h, g, cc.st))
        self.look.calls = [(P, know)]
        self.look.n = 0
        self.look.ctx = self.ctx
    def modifies(self, c):
        if self.found:
            return [(self.P.N(self.P.J) + self.P.D + KS, bv(self.vs))]
        return [(self.slot(c), bv(8))]
    def ensures(self, c):
        P = self.P
        val = lambda n: conj([c.post(n + P.D + KS + i, 8) == c.pre(c.v_ + i, 8) for i in range(0, self.vs, 8)])
        if self.found:
            return [('the node of the key holds the value', val(P.N(P.J)))]
        new = c.post(self.slot(c), 8)
        return [('a new node', And(new != 0, c.is_fresh(new, self.size))), ('holds the value', val(new)), ('holds the size of the key', c.post(new + P.KSZ, 4) == KS),
                ('holds the key', conj([c.post(new + P.D + i, 8) == c.pre(c.k + i, 8) for i in (0, 8)])),
                ('has no children', conj([c.post(new + P.CH + 8 * i, 8) == 0 for i in range(4)]))]


def path_lemmas():
    """how the search of a key k2 goes after k was set, from the contract of Set: word s of the table afterwards is M2(s)"""
    M = z3.Function('M', W, W)
    KEY = z3.Function('KEYAT', W, W)
    E = z3.Function('E', W, W, z3.BoolSort())
    SLOT, new, s, k, k2, n, c0 = [z3.BitVec(x, 64) for x in ('slot', 'new', 's', 'k', 'k2', 'n', 'c')]
    M2 = lambda x: If(x == SLOT, new, If(x == c0, bv(0), M(x)))
    eqv = And(E(k, k), E(k, k2) == E(k2, k))
    absent = And(M(SLOT) == 0, new != 0, c0 != SLOT, s != c0)
    return [
        Lemma('setting an absent key: a step of another search that led to a node leads there still', Implies(And(absent, M(s) == n, n != 0), M2(s) == n)),
        Lemma('setting an absent key: another search that found nothing finds nothing, possibly one step later',
              Implies(And(absent, M(s) == 0, Not(E(k2, k)), KEY(new) == k),
                      Or(M2(s) == 0, And(M2(s) == new, Not(E(k2, KEY(new))), M2(c0) == 0)))),
        Lemma('setting an absent key: its own search, and that of an equal key, ends at the new node',
              Implies(And(absent, s == SLOT, KEY(new) == k, eqv, Or(k2 == k, E(k, k2))), And(M2(s) == new, E(k2, KEY(new))))),
    ]


class InitGet(Contract):
    params = ['m', 'h', 'e', 'k']
    def requires(self, c): return [('table', c.valid(c.m, 24, 'table', own=True)), ('key', c.valid(c.k, 16, 'key', own=True)), ('two functions', c.h != c.e)]
    def modifies(self, c): return [(c.m, bv(24))]
    def setup(self, c): self.cx = c
    indirect = Lookup.indirect
    def ensures(self, c): return [('a new table has no key', c.ret == 0)]


FOLD = z3.Function('FOLD', W, W)


class Fnv(Contract):
    name = 'fnv1a64'
    params = ['p', 'n']
    def requires(self, c): return [('text', c.valid(c.p, c.n, 'text')), ('', ULT(c.n, bv(1 << 32)))]
    def hyps(self, c):
        return [lambda t: FOLD(t + 1) == (FOLD(t) ^ zx(c.pre(c.p + t, 1))) * bv(1099511628211)]
    def setup(self, c):
        self.cx = c
        c.st.assume(FOLD(bv(0)) == bv(1469598103934665603))
    def loops(self, view):
        return [('it', ULE(view.it, self.cx.n))] + [('%s hash so far' % n, t == FOLD(view.it)) for n, t in view.allints()] + [('%s index' % n, t == view.it) for n, t in view.allints()] + \
            [('%s pointer' % n, t == e + view.it) for n, t, e in view.ptrs()]
    def bounds(self, view): return [('n', self.cx.n)]
    def ensures(self, c): return [('fold of the bytes', c.ret == FOLD(c.n))]


STREQ = z3.Function('STREQ', W, BitVecSort(32), W, BitVecSort(32), z3.BoolSort())


class UStrCmp(Contract):
    name = 'strCmp'
    params = ['p', 'n', 'q', 'm']
    ret_bits = 32
    def ensures(self, c): return [('', (c.ret == 0) == STREQ(c.p, c.n, c.q, c.m))]


class StrEQFunc(Contract):
    params = ['a', 'b']
    ret_bits = 'bool'
    def requires(self, c): return [('', c.valid(c.a, 16, 'left')), ('', c.valid(c.b, 16, 'right'))]
    def ensures(self, c):
        g = lambda p: (c.pre(p, 8), c.pre(p + 8, 4))
        return [('equal texts', c.ret == STREQ(*g(c.a), *g(c.b)))]


class StrHashFunc(Contract):
    params = ['a']
    def requires(self, c): return [('', c.valid(c.a, 16, 'key'))]
    def ensures(self, c): return [('hash of the text', c.ret == TEXTHASH(c.pre(c.a, 8), zx(c.pre(c.a + 8, 4))))]


TEXTHASH = z3.Function('TEXTHASH', W, W, W)


class UFnv(Contract):
    name = 'fnv1a64'
    params = ['p', 'n']
    def ensures(self, c): return [('', c.ret == TEXTHASH(c.p, c.n))]


def tasks(ctx):
    out = []
    for found in (True, False):
        for upd in (True, False):
            con = Lookup(ctx, found, upd)
            out.append(Task('lookup', con, label='lookup: key %s, %s' % ('found' if found else 'absent', 'with slot' if upd else 'without slot'),
                            indirect=con.indirect, opts=dict(prove_timeout=60000)))
    for vs in (8, 16):
        for found, root in ((True, False), (False, True), (False, False)):
            look = Lookup(ctx)
            con = Set(ctx, look, vs, found, root)
            out.append(Task('q_set%d' % vs, con, [look], label='set a key that is %s, %d-byte values' % (
                'found' if found else 'absent from an empty table' if root else 'absent', vs), opts=dict(prove_timeout=60000)))
    out += path_lemmas()
    con = InitGet()
    out.append(Task('q_init_get8', con, label='init then get', indirect=con.indirect))
    out.append(Task('p_fnv', Fnv(), label='fnv1a64', soft=True))
    out.append(Task('strEQFunc', StrEQFunc(), [UStrCmp()]))
    out.append(Task('strHashFunc', StrHashFunc(), [UFnv()], soft=True))
    f, g = z3.Function('F', W, W), z3.Function('G', W, W)
    x, y = z3.BitVec('b1', 8), z3.BitVec('b2', 8)
    n = z3.BitVec('n', 64)
    st = lambda h, b: (h ^ zx(b)) * bv(1099511628211)
    out.append(Lemma('the fold of equal bytes is equal (induction step; the base is the constant)', Implies(And(f(n) == g(n), x == y), st(f(n), x) == st(g(n), y))))
    return out
