"""Contract verifier over LLVM IR.

A function is executed symbolically over all its paths.  A loop is cut at its header: the values it
changes are havocked and only an inductive invariant is kept (the invariant is the largest inductive
subset of a candidate set: the candidates written in the contract plus generic ones, so that it does
not depend on variable names or on the shape of the loop).  A call of a function that has a contract
is replaced by the contract (precondition checked, frame havocked, postcondition assumed); a call of
a function that has none is executed inline.  Each condition to be shown is an obligation that goes
to z3 and, when z3 does not answer, to cvc5.

Memory is flat and byte addressed, 64 bit, so NaN-boxed words, pointer tags, pointer comparison and
struct layout are interpreted exactly as compiled.
"""
import itertools
import os
import subprocess
import tempfile
import time

import z3
from z3 import (And, BitVec, BitVecRef, BitVecSort, BitVecVal, Bool, BoolRef, BoolVal, Concat, Extract, Function, If,
                Implies, LShR, Not, Or, SignExt, UDiv, UGE, UGT, ULE, ULT, URem, ZeroExt, is_bv_value, is_false,
                is_true, simplify)

import llir

z3.set_param('smt.random_seed', 1)
F64 = z3.Float64()
DEBUG = int(os.environ.get('COV_DEBUG', '0'))


class ToolLimit(Exception):
    """the verifier cannot process this code (never a verdict about the code)"""


class Budget(Exception):
    pass


def bv(n, w=64):
    return BitVecVal(n, w)


def is_const(t):
    return is_bv_value(t)


def sx(t, w=64):
    n = t.size()
    return t if n == w else (SignExt(w - n, t) if n < w else Extract(w - 1, 0, t))


def zx(t, w=64):
    n = t.size()
    return t if n == w else (ZeroExt(w - n, t) if n < w else Extract(w - 1, 0, t))


def runs(c, w):
    """maximal runs of equal bits of constant c, most significant first: (bit, hi, lo)"""
    out = []
    hi = w - 1
    while hi >= 0:
        b = (c >> hi) & 1
        lo = hi
        while lo > 0 and ((c >> (lo - 1)) & 1) == b:
            lo -= 1
        out.append((b, hi, lo))
        hi = lo - 1
    return out


def concat(parts):
    if len(parts) == 1:
        return parts[0]
    return simplify(Concat(*parts))


def bvand(x, y):
    if is_const(x):
        x, y = y, x
    if is_const(y) and not is_const(x):
        w = x.size()
        return concat([(simplify(Extract(h, l, x)) if b else bv(0, h - l + 1)) for b, h, l in runs(y.as_long(), w)])
    return simplify(x & y)


def bvor(x, y):
    if is_const(x):
        x, y = y, x
    if is_const(y) and not is_const(x):
        w = x.size()
        return concat([(bv((1 << (h - l + 1)) - 1, h - l + 1) if b else simplify(Extract(h, l, x)))
                       for b, h, l in runs(y.as_long(), w)])
    return simplify(x | y)


def b2bv(b, w):
    if is_true(b):
        return bv(1, w)
    if is_false(b):
        return bv(0, w)
    return If(b, bv(1, w), bv(0, w))


def conj(xs):
    xs = [x for x in xs if not is_true(x)]
    if not xs:
        return BoolVal(True)
    return And(*xs) if len(xs) > 1 else xs[0]


def disj(xs):
    xs = [x for x in xs if not is_false(x)]
    if not xs:
        return BoolVal(False)
    return Or(*xs) if len(xs) > 1 else xs[0]


_serial = itertools.count(1)


def fresh(name, w=64):
    return BitVec('%s!%d' % (name, next(_serial)), w)


def fresh_bool(name):
    return Bool('%s!%d' % (name, next(_serial)))


_ser_cache = {}


def max_serial(t):
    """largest creation number of a symbol occurring in t (0 = initial state)"""
    k = t.get_id()
    r = _ser_cache.get(k)
    if r is not None:
        return r[0]
    m = 0
    if z3.is_app(t):
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if '!' in n:
                try:
                    m = int(n.rsplit('!', 1)[1].split('@')[0])
                except ValueError:
                    m = 0
        for c in t.children():
            m = max(m, max_serial(c))
    _ser_cache[k] = (m, t)
    return m


_add_cache = {}


def addends(t):
    """(constant, frozenset of (term id) with the terms) of a 64-bit sum"""
    k = t.get_id()
    r = _add_cache.get(k)
    if r is not None:
        return r[0]
    s = simplify(t)
    const = 0
    terms = []
    stack = [s]
    while stack:
        x = stack.pop()
        if is_const(x):
            const += x.as_long()
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BADD:
            stack.extend(x.children())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONCAT and is_const(x.children()[-1]) and \
                x.children()[-1].as_long() != 0:
            ch = x.children()
            const += ch[-1].as_long()
            terms.append(simplify(Concat(*(ch[:-1] + [BitVecVal(0, ch[-1].size())]))))
        else:
            terms.append(x)
    const &= (1 << 64) - 1
    ids = tuple(sorted(x.get_id() for x in terms))
    res = (const, ids, terms)
    _add_cache[k] = (res, t, s)
    return res


def diff(a, b):
    """a - b, with common addends cancelled"""
    ca, ia, ta = addends(a)
    cb, ib, tb = addends(b)
    c = (ca - cb) & ((1 << 64) - 1)
    if ia == ib:
        return BitVecVal(c, 64)
    rest = list(tb)
    left = []
    for x in ta:
        for y in rest:
            if y.get_id() == x.get_id():
                rest = [w for w in rest if w is not y]
                break
        else:
            left.append(x)
    if len(left) == len(ta):
        return simplify(a - b)
    r = BitVecVal(c, 64)
    for x in left:
        r = r + x
    for y in rest:
        r = r - y
    return simplify(r)


class Region:
    __slots__ = ('base', 'size', 'name', 'own', 'fresh', 'writable', 'serial', 'const', 'key', 'local', 'group')

    def __init__(self, base, size, name, own=False, fresh=False, writable=True, const=None, local=False):
        self.base = base
        self.size = size
        self.name = name
        self.own = own
        self.fresh = fresh
        self.local = local
        self.writable = writable
        self.const = const
        self.serial = next(_serial)
        self.group = None  # region that this one may be the same object as
        c, ids, _ = addends(base)
        self.key = (c, ids)

    def root(self):
        r = self
        while r.group is not None:
            r = r.group
        return r

    def __repr__(self):
        return 'Region(%s)' % self.name


# ---------------------------------------------------------------- memory
class Mem:
    __slots__ = ('prev', 'kind', 'a', 'b', 'c', 'd', 'id')
    ids = itertools.count()

    def __init__(self, prev, kind, a=None, b=None, c=None, d=None):
        self.prev = prev
        self.kind = kind
        self.a = a
        self.b = b
        self.c = c
        self.d = d
        self.id = next(Mem.ids)


def base_mem(name):
    return Mem(None, 'base', name)


class State:
    __slots__ = ('mem', 'pc', 'regions', 'freed', 'trace', 'foralls', 'ghost', 'wlog')

    def __init__(self):
        self.mem = None
        self.pc = []
        self.regions = []
        self.freed = frozenset()
        self.trace = ()
        self.foralls = []
        self.ghost = {}
        self.wlog = []

    def copy(self):
        s = State()
        s.mem = self.mem
        s.pc = list(self.pc)
        s.regions = list(self.regions)
        s.freed = self.freed
        s.trace = self.trace
        s.foralls = list(self.foralls)
        s.ghost = dict(self.ghost)
        s.wlog = self.wlog
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
                continue
            if isinstance(f, bool):
                f = BoolVal(f)
            if not is_true(f):
                self.pc.append(f)


class Result:
    """one obligation"""
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'detail')

    def __init__(self, name, status, backend, t, model=None, detail=''):
        self.name = name
        self.status = status
        self.backend = backend
        self.time = t
        self.model = model
        self.detail = detail


class Program:
    """parsed modules with linkage"""

    def __init__(self):
        self.modules = []
        self.exports = {}
        self.gexports = {}

    def add(self, mod):
        self.modules.append(mod)
        for f in mod.funcs.values():
            if not f.internal:
                self.exports.setdefault(f.name, f)
        for g, v in mod.globals.items():
            if not v[3] and v[1] is not None:
                self.gexports.setdefault(g, (mod, v))

    def find(self, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        if name in self.exports:
            return self.exports[name]
        for m in self.modules:
            if name in m.funcs:
                return m.funcs[name]
        return None

    def written_globals(self):
        """names of globals whose address is used other than by a direct load"""
        return None


def canon(name):
    return name


class Verifier:
    """one verification task: executes one function against one contract"""

    def __init__(self, prog, contracts=None, opts=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.models = {}
        self.results = []
        self.quiet = 0
        self.unroll = 0
        self.truncated = False
        self.opts = dict(feas_timeout=3000, prove_timeout=30000, max_paths=3000, deadline=None, strict_loads=False,
                         cvc5=True)
        if opts:
            self.opts.update(opts)
        self.globals = {}
        self.root = None
        self.rootC = None
        self.ghost_terms = []
        self.assumed = set()
        self.nsolver = 0
        self.tsolver = 0.0
        self.backends = {}
        self._feas = {}
        self._inb = {}
        self.indirect = None
        self.npaths = 0
        self.gconst = {}
        self.depth = 0
        self.modifies = None
        self.base_reads = {}
        self._inc = {}
        self._parts = {}
        self._seen = {}
        self.houdini_stats = []
        self.stop_on_fail = False
        self.fnsym = {}
        self.global_ro = {}
        self.tracking = None
        self.called = set()
        self.inlined = set()
        self.used_contracts = set()

    # -------------------------------------------------------- solver
    def deadline(self):
        d = self.opts['deadline']
        if d and time.time() > d:
            raise Budget('time budget of this task used up')

    def _z3(self, conds, timeout):
        s = z3.Solver()
        s.set('timeout', int(timeout))
        for c in conds:
            s.add(c)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.nsolver += 1
        self.tsolver += dt
        return r, s, dt

    def solve(self, conds, timeout):
        """z3 briefly, then cvc5, then z3 for the rest of the time: (answer, back end, z3 solver or None, seconds)"""
        t = time.time()
        first = min(timeout, 1200)
        r, s, dt = self._z3(conds, first)
        if DEBUG > 2 and dt > 0.5:
            print('SLOW %.1f %s %s' % (dt, r, str(conds[-1])[:300].replace('\n', ' ')))
        if r != z3.unknown:
            return str(r), 'z3', s, time.time() - t
        if self.opts['cvc5']:
            out = self.cvc5(conds, max(1500, timeout * 2 // 3))
            if out in ('unsat', 'sat'):
                return out, 'cvc5', None, time.time() - t
        if timeout > 4 * first:
            r, s, dt = self._z3(conds, timeout)
            if r != z3.unknown:
                return str(r), 'z3', s, time.time() - t
        return 'unknown', 'z3', None, time.time() - t

    def feasible(self, st, extra=None):
        conds = st.pc + ([extra] if extra is not None else [])
        if extra is not None:
            if is_false(extra):
                return False
        key = frozenset(c.get_id() for c in conds)
        if key in self._feas:
            return self._feas[key][0]
        self.deadline()
        r, be, s, dt = self.solve(conds, self.opts['feas_timeout'])
        res = r != 'unsat'
        self._feas[key] = (res, conds)
        return res

    def entails(self, st, f, timeout=None):
        """quick entailment test used to simplify (never to conclude an obligation by itself)"""
        if is_true(f):
            return True
        if is_false(f):
            return False
        n = Not(f)
        key = ('E', n.get_id(), frozenset(c.get_id() for c in st.pc))
        if key in self._feas:
            return self._feas[key][0]
        self.deadline()
        r = self.quick(st.pc, key[2], n)
        if r is None:
            r = self.solve(st.pc + [n], timeout or self.opts['feas_timeout'])[0]
        res = r == 'unsat'
        self._feas[key] = (res, st.pc + [n])
        return res

    def quick(self, pc, key, n):
        """the same question to a solver that has seen this path condition before"""
        s = self._inc.get(key)
        if s is None:
            self._seen[key] = self._seen.get(key, 0) + 1
            if self._seen[key] < 3:
                return None
            if len(self._inc) >= 6:
                del self._inc[next(iter(self._inc))]
            s = z3.Solver()
            s.set('timeout', 400)
            s.add(*pc)
            self._inc[key] = s
        t = time.time()
        s.push()
        s.add(n)
        r = s.check()
        s.pop()
        self.nsolver += 1
        self.tsolver += time.time() - t
        return None if r == z3.unknown else str(r)

    def cvc5(self, conds, timeout):
        s = z3.Solver()
        for c in conds:
            s.add(c)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        t = time.time()
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, p], capture_output=True, text=True,
                               timeout=timeout / 1000 + 10)
            out = r.stdout.strip().split('\n')[0]
        except Exception as e:
            out = 'unknown'
        os.unlink(p)
        self.tsolver += time.time() - t
        return out

    def prove(self, st, f, name, detail=''):
        """discharge one obligation; returns True when proved"""
        if isinstance(f, bool):
            f = BoolVal(f)
        f = simplify(f)
        if is_true(f):
            if not self.quiet:
                self.results.append(Result(name, 'proved', 'simplifier', 0.0, None, detail))
            return True
        self.deadline()
        t0 = time.time()
        conds = st.pc + [Not(f)]
        to = self.opts['prove_timeout'] if not self.quiet else min(8000, self.opts['prove_timeout'])
        r, be, s, dt = self.solve(conds, to)
        status = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown')
        if self.quiet:
            return status == 'proved'
        model = None
        if status == 'failed' and s is not None:
            model = s.model()
        res = Result(name, status, be, time.time() - t0, model, detail)
        if status != 'proved':
            res.detail = (detail + ' path=' + '>'.join(st.trace[-12:])).strip()
            if model is not None:
                res.detail += ' ' + self.describe_model(st, model)
        self.results.append(res)
        return status == 'proved'

    def describe_model(self, st, model):
        out = []
        try:
            if self.rootC is not None:
                for n, a in self.rootC.named.items():
                    if isinstance(a, (BitVecRef, BoolRef)):
                        out.append('%s=%s' % (n, self.mv(model, a)))
                for n, g in self.rootC.G.items():
                    out.append('ghost %s=%s' % (n, self.mv(model, g)))
            k = 0
            for (addr, size, val) in list(self.base_reads.values()):
                out.append('[%s:%d]=%s' % (self.mv(model, addr), size, self.mv(model, val)))
                k += 1
                if k > 40:
                    break
        except Exception as e:
            out.append('(model: %s)' % e)
        return 'counterexample{' + ', '.join(out) + '}'

    @staticmethod
    def mv(model, t):
        v = model.eval(t, model_completion=True)
        if is_const(v):
            return hex(v.as_long())
        return str(v)

    # -------------------------------------------------------- regions
    def region_of(self, st, addr):
        c, ids, terms = addends(addr)
        best = None
        for r in st.regions:
            rc, rids = r.key
            if not rids:
                continue
            # is multiset rids contained in ids
            l = list(ids)
            ok = True
            for x in rids:
                if x in l:
                    l.remove(x)
                else:
                    ok = False
                    break
            if ok:
                if best is None or len(rids) > len(best.key[1]):
                    best = r
                elif len(rids) == len(best.key[1]) and rids == best.key[1]:
                    # same symbolic base, different constant: choose by constant
                    if best.key[0] != rc and not l:
                        off = (c - rc) & ((1 << 64) - 1)
                        if off < (1 << 62):
                            bo = (c - best.key[0]) & ((1 << 64) - 1)
                            if off < bo:
                                best = r
        return best

    def inbounds(self, r, addr, size):
        off = diff(addr, r.base)
        sz = bv(size) if isinstance(size, int) else size
        return And(ULE(off, r.size), ULE(sz, r.size - off))

    def disjoint_f(self, a, sa, b, sb):
        sa = bv(sa) if isinstance(sa, int) else sa
        sb = bv(sb) if isinstance(sb, int) else sb
        # a+sa <= b or b+sb <= a, without wrap (addresses are below 2^48)
        return Or(ULE(a + sa, b), ULE(b + sb, a))

    def relation(self, st, a, sa, b, sb):
        """a, b addresses, sizes int or term: 'eq' | 'disj' | 'unk'"""
        ca, ia, _ = addends(a)
        cb, ib, _ = addends(b)
        isz = isinstance(sa, int) and isinstance(sb, int)
        if ia == ib and isz:
            d = (ca - cb) & ((1 << 64) - 1)
            if d >= 1 << 63:
                d -= 1 << 64
            if d == 0 and sa == sb:
                return 'eq'
            if d >= sb or -d >= sa:
                return 'disj'
            return 'part'
        ra = self.region_of(st, a)
        rb = self.region_of(st, b)
        if ra is not None and rb is not None and ra.root() is not rb.root() and (ra.own or rb.own):
            return 'disj'
        if ra is not None and ra.fresh and rb is None and max_serial(b) < ra.serial:
            return 'disj'
        if rb is not None and rb.fresh and ra is None and max_serial(a) < rb.serial:
            return 'disj'
        if isz and sa == sb and self.entails(st, a == b, 1500):
            return 'eq'
        if self.entails(st, self.disjoint_f(a, sa, b, sb), 1500):
            return 'disj'
        return 'unk'

    # -------------------------------------------------------- memory access
    def read(self, st, mem, addr, size):
        addr = simplify(addr)
        node = mem
        while True:
            k = node.kind
            if k == 'base':
                ro = self.read_const(st, addr, size)
                if ro is not None:
                    return ro
                f = Function('%s@%d' % (node.a, size * 8), BitVecSort(64), BitVecSort(8 * size))
                v = f(addr)
                if node.a == 'mem0':
                    self.base_reads[(addr.get_id(), size)] = (addr, size, v)
                return v
            if k == 'store':
                rel = self.relation(st, addr, size, node.a, node.c)
                if rel == 'eq':
                    return node.b
                if rel == 'disj':
                    node = node.prev
                    continue
                if rel == 'part':
                    return self.partial(st, node, addr, size)
                rest = self.read(st, node.prev, addr, size)
                if size == node.c:
                    dis = self.disjoint_f(addr, size, node.a, node.c)
                    if self.entails(st, Or(addr == node.a, dis), 1500):
                        return If(addr == node.a, node.b, rest)
                    return If(addr == node.a, node.b, If(dis, rest, self.part(node, addr, size)))
                if size == 1:
                    off = diff(addr, node.a)
                    return If(ULT(off, bv(node.c)),
                              Extract(7, 0, LShR(node.b, self.fit(off * 8, node.b.size()))), rest)
                return If(self.disjoint_f(addr, size, node.a, node.c), rest, self.part(node, addr, size))
            if k == 'copy':  # a=dst b=src c=len d=source memory
                off = diff(addr, node.a)
                if is_const(off) and is_const(node.c):
                    o = off.as_long()
                    n = node.c.as_long()
                    if o + size <= n:
                        return self.read(st, node.d, simplify(node.b + off), size)
                    if o >= n and (1 << 64) - o >= size:
                        node = node.prev
                        continue
                rel = self.relation(st, addr, size, node.a, node.c)
                if rel == 'disj':
                    node = node.prev
                    continue
                inside = And(ULE(off, node.c), ULE(bv(size), node.c - off))
                if self.entails(st, inside, 1500):
                    return self.read(st, node.d, simplify(node.b + off), size)
                rest = self.read(st, node.prev, addr, size)
                src = self.read(st, node.d, simplify(node.b + off), size)
                if size == 1:
                    return If(inside, src, rest)
                return If(inside, src, If(self.disjoint_f(addr, size, node.a, node.c), rest, self.part(node, addr, size)))
            if k == 'set':  # a=dst b=byte(8 bit) c=len
                rel = self.relation(st, addr, size, node.a, node.c)
                if rel == 'disj':
                    node = node.prev
                    continue
                off = diff(addr, node.a)
                inside = And(ULE(off, node.c), ULE(bv(size), node.c - off))
                val = simplify(Concat(*([node.b] * size))) if size > 1 else node.b
                if self.entails(st, inside, 1500):
                    return val
                rest = self.read(st, node.prev, addr, size)
                if size == 1:
                    return If(inside, val, rest)
                return If(inside, val, If(self.disjoint_f(addr, size, node.a, node.c), rest, self.part(node, addr, size)))
            if k == 'havoc':  # a=list of (base,size) or None for everything; b=fresh base name; c=exempt predicate
                f = Function('%s@%d' % (node.b, size * 8), BitVecSort(64), BitVecSort(8 * size))
                if node.a is None:
                    r = self.region_of(st, addr)
                    if r is not None and r in node.c:
                        node = node.prev
                        continue
                    ro = self.read_const(st, addr, size)
                    if ro is not None:
                        return ro
                    return f(addr)
                rels = []
                hit = False
                for (b, s) in node.a:
                    if is_const(s):
                        s1 = s.as_long()
                        if s1 == 0:
                            continue
                    else:
                        s1 = s
                    rel = self.relation(st, addr, size, b, s1)
                    if rel == 'disj':
                        continue
                    if rel in ('eq', 'part'):
                        hit = True
                        break
                    ins = And(ULE(diff(addr, b), s), ULE(bv(size), s - diff(addr, b)))
                    if self.entails(st, ins, 1500):
                        hit = True
                        break
                    rels.append((b, s1))
                if hit:
                    return f(addr)
                if not rels:
                    node = node.prev
                    continue
                rest = self.read(st, node.prev, addr, size)
                return If(conj([self.disjoint_f(addr, size, b, s) for b, s in rels]), rest, f(addr))
            raise ToolLimit('mem node ' + k)

    def part(self, node, addr, size):
        """an unknown value: the same one whenever the same bytes are read"""
        k = (node.id, addr.get_id(), size)
        if k not in self._parts:
            self._parts[k] = (fresh('part', 8 * size), addr)
        return self._parts[k][0]

    @staticmethod
    def fit(t, w):
        return Extract(w - 1, 0, t) if t.size() > w else zx(t, w)

    def partial(self, st, node, addr, size):
        """constant-offset partial overlap of a read with a store"""
        ca = addends(addr)[0]
        cb = addends(node.a)[0]
        d = (ca - cb) & ((1 << 64) - 1)
        if d >= 1 << 63:
            d -= 1 << 64
        if d >= 0 and d + size <= node.c:
            return simplify(Extract(8 * (d + size) - 1, 8 * d, node.b))
        if size > 1:
            parts = [self.read(st, node, simplify(addr + bv(i)), 1) if not (0 <= d + i < node.c)
                     else simplify(Extract(8 * (d + i) + 7, 8 * (d + i), node.b)) for i in range(size)]
            return simplify(Concat(*reversed(parts)))
        raise ToolLimit('partial')

    def read_const(self, st, addr, size):
        r = self.region_of(st, addr)
        if r is None or r.const is None:
            return None
        off = diff(addr, r.base)
        data = r.const
        if is_const(off):
            o = off.as_long()
            if o + size <= len(data):
                cells = data[o:o + size]
                if all(isinstance(x, int) for x in cells):
                    return bv(int.from_bytes(bytes(cells), 'little'), 8 * size)
                if isinstance(cells[0], tuple) and len(cells) == 8:
                    return cells[0][1]
            return None
        if len(data) <= 512 and len(data) % size == 0 and all(isinstance(x, int) for x in data):
            res = fresh('oob', 8 * size)
            for o in range(len(data) - size, -1, -size):
                v = int.from_bytes(bytes(data[o:o + size]), 'little')
                res = If(off == bv(o), bv(v, 8 * size), res)
            return res
        return None

    def check_access(self, st, addr, size, write, what):
        sz = bv(size) if isinstance(size, int) else size
        if not isinstance(size, int) and is_const(size) and size.as_long() == 0:
            return
        r = self.region_of(st, addr)
        if r is not None:
            if r.name in st.freed:
                self.prove(st, False, 'memory: no use after free', what)
            key = (addr.get_id(), sz.get_id(), len(st.pc), r.base.get_id())
            f = self.inbounds(r, addr, size)
            if not isinstance(size, int):
                f = Or(sz == 0, f)
            sf = simplify(f)
            if not is_true(sf):
                fast = ('IB', sf.get_id(), frozenset(c.get_id() for c in st.pc))
                if fast not in self._inb:
                    ok = self.prove(st, sf, 'memory: access within object', '%s [%s]' % (what, r.name))
                    self._inb[fast] = (ok, sf, list(st.pc))
                    if not ok:
                        st.assume(sf)
                elif not self._inb[fast][0]:
                    st.assume(sf)
            elif not self.quiet:
                self.results.append(Result('memory: access within object', 'proved', 'simplifier', 0.0))
        elif self.opts['strict_loads'] and not write:
            self.prove(st, False, 'memory: load from a known object', what)
        if write:
            if r is not None and (r.fresh or r.local):
                return
            self.check_frame(st, addr, sz, what, r)

    def check_frame(self, st, addr, sz, what, r=None):
        if self.modifies is None:
            return
        if r is not None and not r.writable:
            self.prove(st, False, 'frame: store to read-only object', what)
            return
        alts = []
        for (b, s) in self.modifies:
            off = diff(addr, b)
            alts.append(And(ULE(off, s), ULE(sz, s - off)))
        if self.modifies and any(is_true(simplify(a)) for a in alts):
            if not self.quiet:
                self.results.append(Result('frame: store inside the modifies clause', 'proved', 'simplifier', 0.0))
            return
        f = disj(alts)
        if not (is_const(sz) and sz.as_long() > 0):
            f = Or(sz == 0, f)
        self.prove(st, f, 'frame: store inside the modifies clause', what)

    def load(self, st, addr, size, what=''):
        addr = self.pick(st, addr)
        self.check_access(st, addr, size, False, what)
        v = self.read(st, st.mem, addr, size)
        return self.resolve(st, v) if size == 8 and not is_const(v) else v

    def pick(self, st, v):
        """an address chosen by a condition the path decides"""
        v = simplify(v)
        while z3.is_app_of(v, z3.Z3_OP_ITE):
            if self.entails(st, v.arg(0), 1500):
                v = v.arg(1)
            elif self.entails(st, Not(v.arg(0)), 1500):
                v = v.arg(2)
            else:
                break
        if z3.is_app_of(v, z3.Z3_OP_BADD) and self.region_of(st, v) is None:
            for x in addends(v)[2]:
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    y = self.pick(st, x)
                    if y.get_id() != x.get_id():
                        return self.pick(st, simplify(z3.substitute(v, (x, y))))
        return v

    def resolve(self, st, v):
        """a loaded address that the path condition equates with an address inside a known object: use the latter"""
        v = simplify(v)
        if self.region_of(st, v) is not None:
            return v
        vid = v.get_id()
        for f in st.pc:
            if z3.is_eq(f):
                a, b = f.arg(0), f.arg(1)
                for x, y in ((a, b), (b, a)):
                    if x.get_id() == vid and self.region_of(st, y) is not None:
                        return y
        return v

    def store(self, st, addr, val, size, what=''):
        addr = self.pick(st, addr)
        self.check_access(st, addr, size, True, what)
        if self.tracking is not None:
            self.tracking.append((addr, bv(size), st))
        st.mem = Mem(st.mem, 'store', addr, val, size)

    def havoc_regions(self, st, regs):
        if self.tracking is not None:
            for b, s in regs:
                self.tracking.append((simplify(b), s, st))
        if regs:
            st.mem = Mem(st.mem, 'havoc', [(simplify(b), simplify(s)) for b, s in regs], 'mem!%d' % next(_serial))

    # -------------------------------------------------------- globals
    def gaddr(self, st, name, mod):
        """address of a global or function"""
        f = self.prog.find(name, mod)
        if f is not None:
            return self.fn_addr(f)
        key = None
        if name in mod.globals and mod.globals[name][1] is not None:
            m, g = mod, mod.globals[name]
        elif name in self.prog.gexports:
            m, g = self.prog.gexports[name]
        else:
            g = mod.globals.get(name)
            m = mod
        if g is None:
            # external function
            if ('ext', name) not in self.fnsym:
                self.fnsym[('ext', name)] = BitVec('&ext.' + name, 64)
            return self.fnsym[('ext', name)]
        key = (m.name, name)
        if key not in self.globals:
            self.globals[key] = BitVec('&%s.%s' % key, 64)
        base = self.globals[key]
        if not any(r.base is base or r.base.get_id() == base.get_id() for r in st.regions):
            try:
                size = m.sizeof(g[0])
            except llir.ParseError:
                size = 8
            data = None
            if g[1] is not None and (g[2] or self.is_ro(m, name)):
                data = self.const_bytes(m, g[0], g[1], st)
            st.regions.append(Region(base, bv(size), 'global ' + name, own=True, writable=not g[2], const=data))
            st.assume(ULT(base, bv(1 << 47)), UGT(base, bv(4096)), Extract(3, 0, base) == 0)
        return base

    def is_ro(self, m, name):
        """an internal global array that no instruction of its module stores to or passes on"""
        key = (m.name, name)
        if key in self.global_ro:
            return self.global_ro[key]
        g = m.globals[name]
        ok = g[3]
        if ok:
            import re
            pat = re.compile(r'@' + re.escape(name) + r'(?![-a-zA-Z$._0-9])')
            for f in m.funcs.values():
                ins = [i for b in f.blocks.values() for i in b]
                derived = set()
                while ok:
                    n = len(derived)
                    for i in ins:
                        txt = i.text.split(' = ', 1)[-1]
                        if not (pat.search(txt) or derived.intersection(re.findall(r'%[-a-zA-Z$._0-9]+', txt))):
                            continue
                        if i.op in ('getelementptr', 'select', 'phi'):
                            derived.add('%' + i.dest.lstrip('%'))
                        elif i.op not in ('load', 'icmp'):
                            ok = False
                    if len(derived) == n:
                        break
        self.global_ro[key] = ok
        return ok

    def fn_addr(self, f):
        k = (f.module.name if f.internal else '', f.name)
        if k not in self.fnsym:
            self.fnsym[k] = BitVec('&fn.%s.%s' % k, 64)
        return self.fnsym[k]

    def fn_of(self, term):
        for k, v in self.fnsym.items():
            if v.get_id() == term.get_id():
                if k[0] == 'ext':
                    return ('ext', k[1])
                for m in self.prog.modules:
                    if (k[0] == '' or m.name == k[0]) and k[1] in m.funcs:
                        f = m.funcs[k[1]]
                        if k[0] == '' and f.internal:
                            continue
                        return f
        return None

    def const_bytes(self, m, ty, init, st):
        ty = m.resolve(ty)
        n = m.sizeof(ty)
        k = init[0]
        if k == 'zero':
            return [0] * n
        if k == 'undef':
            return [0] * n
        if k == 'int':
            return list((init[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
        if k == 'str':
            s = init[1]
            s = s[s.index('"') + 1:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.extend(s[i].encode('utf-8'))
                    i += 1
            return out
        if k == 'agg':
            if ty[0] == 'arr':
                out = []
                for et, ev in init[1]:
                    out += self.const_bytes(m, et, ev, st)
                return out
            out = [0] * n
            for i, (et, ev) in enumerate(init[1]):
                off, ft = m.field_off(ty, i)
                b = self.const_bytes(m, ft, ev, st)
                out[off:off + len(b)] = b
            return out
        if k in ('glob', 'cgep', 'ccast'):
            t = self.cval(m, ty, init, st)
            return [('addr', t)] + [('addrpart', i) for i in range(1, n)]
        return [0] * n

    def cval(self, m, ty, v, st):
        if v[0] == 'glob':
            return self.gaddr(st, v[1], m)
        if v[0] == 'cgep':
            base = self.cval(m, ('ptr',), v[2], st)
            return self.gep(m, v[1], base, [(t, self.operand(m, None, t, x, st)) for t, x in v[3]])
        if v[0] == 'ccast':
            x = self.operand(m, None, v[2], v[3], st)
            return x
        raise ToolLimit('const ' + str(v[0]))

    # -------------------------------------------------------- values
    def width(self, m, ty):
        if ty[0] == 'i':
            return ty[1]
        if ty[0] in ('ptr', 'double', 'fn'):
            return 64
        if ty[0] == 'float':
            return 32
        raise ToolLimit('width of %s' % (ty,))

    def operand(self, m, env, ty, v, st):
        k = v[0]
        if k == 'loc':
            if v[1] not in env:
                raise ToolLimit('undefined value ' + v[1])
            return env[v[1]]
        rty = m.resolve(ty)
        if rty[0] in ('struct', 'arr', 'pstruct'):
            if k in ('undef', 'zero'):
                n = len(rty[1]) if rty[0] != 'arr' else rty[1]
                et = (lambda i: rty[1][i]) if rty[0] != 'arr' else (lambda i: rty[2])
                return tuple(self.operand(m, env, et(i), v, st) for i in range(n))
            if k == 'agg':
                return tuple(self.operand(m, env, t, x, st) for t, x in v[1])
            raise ToolLimit('aggregate constant')
        if k == 'int':
            if ty == llir.I1:
                return BoolVal(bool(v[1] & 1))
            return bv(v[1], self.width(m, ty))
        if k == 'zero':
            if ty == llir.I1:
                return BoolVal(False)
            return bv(0, self.width(m, ty))
        if k == 'undef':
            if ty == llir.I1:
                return fresh_bool('undef')
            return fresh('undef', self.width(m, ty))
        if k == 'fp':
            import struct
            s = v[1]
            if s.startswith('0x'):
                return bv(int(s, 16), 64)
            return bv(struct.unpack('<Q', struct.pack('<d', float(s)))[0], 64)
        if k in ('glob', 'cgep', 'ccast'):
            return self.cval(m, ty, v, st)
        if k == 'cbin':
            x = self.operand(m, env, v[2], v[3], st)
            y = self.operand(m, env, v[2], v[4], st)
            return simplify({'add': x + y, 'sub': x - y, 'mul': x * y}[v[1]])
        raise ToolLimit('operand ' + k)

    def gep(self, m, ty, base, idx):
        addr = base
        cur = ty
        first = True
        for t, v in idx:
            if first:
                sz = m.sizeof(cur)
                addr = addr + sx(v) * bv(sz)
                first = False
                continue
            cur = m.resolve(cur)
            if cur[0] in ('arr', 'vec'):
                cur = cur[2]
                addr = addr + sx(v) * bv(m.sizeof(cur))
            elif cur[0] in ('struct', 'pstruct'):
                if not is_const(v):
                    raise ToolLimit('struct index')
                off, cur = m.field_off(cur, v.as_long())
                addr = addr + bv(off)
            else:
                raise ToolLimit('gep into %s' % (cur,))
        return simplify(addr)

    # -------------------------------------------------------- instructions
    def fpv(self, x):
        return z3.fpBVToFP(x, F64)

    def fpbits(self, f):
        return z3.fpToIEEEBV(f)

    def binop(self, op, x, y, ty, fl, st, what):
        if isinstance(x, BoolRef):
            if op == 'and':
                return simplify(And(x, y))
            if op == 'or':
                return simplify(Or(x, y))
            if op == 'xor':
                return simplify(z3.Xor(x, y))
            raise ToolLimit('i1 ' + op)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            return bvand(x, y)
        elif op == 'or':
            return bvor(x, y)
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            if is_const(y) and y.as_long() < x.size():
                n = y.as_long()
                if n == 0:
                    return x
                return concat([simplify(Extract(x.size() - 1 - n, 0, x)), bv(0, n)])
            r = x << y
        elif op == 'lshr':
            if is_const(y) and y.as_long() < x.size():
                n = y.as_long()
                if n == 0:
                    return x
                return concat([bv(0, n), simplify(Extract(x.size() - 1, n, x))])
            r = LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op in ('sdiv', 'udiv', 'srem', 'urem'):
            self.prove(st, y != 0, 'arithmetic: divisor not zero', what)
            st.assume(y != 0)
            r = {'sdiv': lambda: x / y, 'udiv': lambda: UDiv(x, y), 'srem': lambda: z3.SRem(x, y),
                 'urem': lambda: URem(x, y)}[op]()
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.fpv(x), self.fpv(y)
            rm = z3.RNE()
            r = self.fpbits({'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b))
            return r
        else:
            raise ToolLimit(op)
        return simplify(r)

    def icmp(self, p, x, y):
        if isinstance(x, BoolRef):
            if p == 'eq':
                return simplify(x == y)
            if p == 'ne':
                return simplify(x != y)
            x = b2bv(x, 8)
            y = b2bv(y, 8)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: ULT(x, y), 'ule': lambda: ULE(x, y),
             'ugt': lambda: UGT(x, y), 'uge': lambda: UGE(x, y)}[p]()
        return simplify(f)

    def fcmp(self, p, x, y):
        a, b = self.fpv(x), self.fpv(y)
        base = {'oeq': z3.fpEQ, 'ogt': z3.fpGT, 'oge': z3.fpGEQ, 'olt': z3.fpLT, 'ole': z3.fpLEQ}
        if p in base:
            return base[p](a, b)
        un = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'une':
            return Not(z3.fpEQ(a, b))
        if p == 'one':
            return And(Not(un), Not(z3.fpEQ(a, b)))
        if p == 'uno':
            return un
        if p == 'ord':
            return Not(un)
        if p[0] == 'u' and 'o' + p[1:] in base:
            return Or(un, base['o' + p[1:]](a, b))
        raise ToolLimit('fcmp ' + p)

    def cast(self, op, x, fty, tty, m):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            w = self.width(m, tty)
            return zx(x, w) if x.size() != w else x
        if op in ('zext', 'sext'):
            w = self.width(m, tty)
            if isinstance(x, BoolRef):
                if op == 'zext':
                    return b2bv(x, w)
                return If(x, bv(-1, w), bv(0, w))
            return simplify(zx(x, w) if op == 'zext' else sx(x, w))
        if op == 'trunc':
            if tty == llir.I1:
                return simplify(Extract(0, 0, x) == bv(1, 1))
            return simplify(Extract(tty[1] - 1, 0, x))
        if op == 'sitofp':
            if isinstance(x, BoolRef):
                x = b2bv(x, 32)
            return self.fpbits(z3.fpSignedToFP(z3.RNE(), x, F64))
        if op == 'uitofp':
            if isinstance(x, BoolRef):
                x = b2bv(x, 32)
            return self.fpbits(z3.fpUnsignedToFP(z3.RNE(), x, F64))
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), self.fpv(x), BitVecSort(tty[1]))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), self.fpv(x), BitVecSort(tty[1]))
        raise ToolLimit('cast ' + op)

    def alloca(self, st, m, ty, n, name):
        size = m.sizeof(ty)
        szt = bv(size)
        if n is not None:
            szt = simplify(zx(n) * bv(size))
        base = self.new_base(st, 'alloca_' + name.strip('%'), szt)
        if getattr(self.root, 'explicit', False):
            # a fresh local overlaps nothing that exists already: stated for the solver as well
            st.assume(*[Or(ULE(base + szt, r.base), ULE(r.base + r.size, base)) for r in st.regions if not r.local and not r.name.startswith('code ')])
        st.regions.append(Region(base, szt, 'local ' + name + str(next(_serial)), own=True, fresh=True, local=True))
        return base

    def new_base(self, st, name, size):
        s = fresh(name, 44)
        base = Concat(bv(0, 16), s, bv(0, 4))
        st.assume(ULT(base, bv(1 << 47)), UGT(base, bv(4096)))
        if not is_const(size):
            st.assume(ULT(size, bv(1 << 46)))
        st.assume(ULT(base + size, bv(1 << 47)), ULE(base, base + size))
        return simplify(base)

    # -------------------------------------------------------- execution
    def call_function(self, f, args, st):
        """inline execution; returns list of ('ret', st, value) | ('trap', st, why) | ('exit', st, None)"""
        self.depth += 1
        if self.depth > 25:
            raise ToolLimit('call depth (recursion without contract?) at ' + f.name)
        try:
            env = {}
            if len(args) < len(f.params):
                raise ToolLimit('argument count ' + f.name)
            for (t, n), a in zip(f.params, args):
                if n in f.byval:
                    sz = f.module.sizeof(f.byval[n])
                    b = self.alloca(st, f.module, f.byval[n], None, n)
                    st.mem = Mem(st.mem, 'copy', b, a, bv(sz), st.mem)
                    a = b
                env[n] = a
            if f.vararg:
                env['%va'] = args[len(f.params):]
                if not env['%va'] and getattr(self, 'va_area', None) is not None:
                    env['%va'] = ('area', self.va_area)
            outs = self.run(f, env, st, next(iter(f.blocks)), None, None, None, {})
            res = []
            for o in outs:
                if o[0] == 'edge':
                    raise ToolLimit('edge escaped')
                res.append(o)
            return res
        finally:
            self.depth -= 1

    def run(self, f, env, st, block, prev, region, header, counts):
        """execute from block; returns outcomes. ('edge', from, to, env, st) when leaving region or
        arriving at header again."""
        outs = []
        work = [(env, st, block, prev, counts, True)]
        first = True
        while work:
            env, st, block, prev, counts, fresh_entry = work.pop()
            while True:
                self.deadline()
                # loop handling
                if not (first and fresh_entry):
                    if header is not None and block == header:
                        outs.append(('edge', prev, block, env, st))
                        break
                    if region is not None and block not in region:
                        outs.append(('edge', prev, block, env, st))
                        break
                is_first = first
                first = False
                if block in f.loops and not (is_first and header == block):
                    if self.unroll:
                        if prev in f.loops[block]:
                            c = counts.get(block, 0) + 1
                            counts = dict(counts)
                            counts[block] = c
                            if c > self.unroll:
                                if self.feasible(st):
                                    self.truncated = True
                                break
                        else:
                            counts = dict(counts)
                            counts[block] = 0
                    else:
                        for o in self.exec_loop(f, env, st, block, prev):
                            if o[0] == 'edge':
                                work.append((o[3], o[4], o[2], o[1], counts, True))
                            else:
                                outs.append(o)
                        break
                # phis
                instrs = f.blocks[block]
                if not (is_first and header == block):
                    env = dict(env)
                    self.do_phis(f, env, st, block, prev)
                elif True:
                    env = dict(env)
                nxt = None
                stop = False
                for idx, ins in enumerate(instrs):
                    if ins.op == 'phi':
                        continue
                    r = self.step(f, env, st, ins)
                    if r is None:
                        continue
                    kind = r[0]
                    if kind == 'goto':
                        nxt = r[1]
                        break
                    if kind == 'branch':
                        # r[1] = list of (cond, target)
                        feas = []
                        for cond, tgt in r[1]:
                            if is_false(cond):
                                continue
                            if is_true(cond) or self.feasible(st, cond):
                                feas.append((cond, tgt))
                        if not feas:
                            stop = True
                            break
                        for cond, tgt in feas[1:]:
                            s2 = st.copy()
                            s2.assume(cond)
                            s2.trace = s2.trace + (tgt,)
                            work.append((dict(env), s2, tgt, block, counts, False))
                            self.npaths += 1
                            if self.npaths > self.opts['max_paths']:
                                raise Budget('path budget')
                        cond, tgt = feas[0]
                        st.assume(cond)
                        if len(feas) > 1:
                            st.trace = st.trace + (tgt,)
                        nxt = tgt
                        break
                    if kind == 'outs':
                        # call with several outcomes: continue each in the rest of this block
                        for o in r[1]:
                            if o[0] in ('trap', 'exit'):
                                outs.append(o)
                        rets = [o for o in r[1] if o[0] == 'ret']
                        if not rets:
                            stop = True
                            break
                        # fork the remaining instructions for the other outcomes
                        for o in rets[1:]:
                            e2 = dict(env)
                            if ins.dest:
                                e2[ins.dest] = o[2]
                            for o2 in self.rest_of_block(f, e2, o[1], block, idx + 1, region, header, counts):
                                if o2[0] == 'cont':
                                    work.append((o2[1], o2[2], o2[3], block, counts, False))
                                else:
                                    outs.append(o2)
                        st = rets[0][1]
                        if ins.dest:
                            env[ins.dest] = rets[0][2]
                        continue
                    if kind == 'ret':
                        outs.append(('ret', st, r[1]))
                        stop = True
                        break
                    if kind == 'stop':
                        stop = True
                        break
                if stop:
                    break
                if nxt is None:
                    raise ToolLimit('fell off block')
                prev, block = block, nxt
        return outs

    def rest_of_block(self, f, env, st, block, idx, region, header, counts):
        """execute instructions from idx to the terminator; yields ('cont', env, st, next block) etc."""
        outs = []
        instrs = f.blocks[block]
        i = idx
        while i < len(instrs):
            ins = instrs[i]
            r = self.step(f, env, st, ins)
            if r is None:
                i += 1
                continue
            kind = r[0]
            if kind == 'goto':
                outs.append(('cont', env, st, r[1]))
                return outs
            if kind == 'branch':
                for cond, tgt in r[1]:
                    if is_false(cond):
                        continue
                    if is_true(cond) or self.feasible(st, cond):
                        s2 = st.copy()
                        s2.assume(cond)
                        s2.trace = s2.trace + (tgt,)
                        outs.append(('cont', dict(env), s2, tgt))
                        self.npaths += 1
                return outs
            if kind == 'outs':
                for o in r[1]:
                    if o[0] in ('trap', 'exit'):
                        outs.append(o)
                for o in [o for o in r[1] if o[0] == 'ret']:
                    e2 = dict(env)
                    if ins.dest:
                        e2[ins.dest] = o[2]
                    outs.extend(self.rest_of_block(f, e2, o[1], block, i + 1, region, header, counts))
                return outs
            if kind == 'ret':
                outs.append(('ret', st, r[1]))
                return outs
            if kind == 'stop':
                return outs
        return outs

    def do_phis(self, f, env, st, block, prev):
        vals = {}
        for ins in f.blocks[block]:
            if ins.op != 'phi':
                break
            for v, b in ins.a['in']:
                if b == prev:
                    vals[ins.dest] = self.operand(f.module, env, ins.a['ty'], v, st)
                    break
            else:
                raise ToolLimit('phi without predecessor')
        env.update(vals)

    # -------------------------------------------------------- loops
    def exec_loop(self, f, env, st, header, prev):
        body = f.loops[header]
        entry_env = dict(env)
        self.do_phis(f, entry_env, st, header, prev)
        phis = [(i.dest, i.a['ty']) for i in f.blocks[header] if i.op == 'phi']
        entry_vals = {n: entry_env[n] for n, t in phis}
        entry_env['#it:' + header] = bv(0)
        W = []  # list of (base, size) that the body may write
        wall = [False]
        store = self.storage_at_entry(f, header, entry_env, entry_vals, st)
        view0 = LoopView(self, f, header, entry_env, entry_vals, entry_vals, st, st)
        cands = self.candidates(view0)
        labels = []
        self.quiet += 1
        try:
            for lab, fm in cands:
                fm = fm if not isinstance(fm, bool) else BoolVal(fm)
                if self.entails(st, fm, 4000):
                    labels.append(lab)
                elif DEBUG:
                    print('NOT AT ENTRY', lab, simplify(fm))
        finally:
            self.quiet -= 1
        alive = set(labels)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise ToolLimit('loop invariant search does not converge')
            self.deadline()
            henv, hst, hvals, hview = self.havoc_loop(f, header, entry_env, entry_vals, phis, st, W, wall[0], alive, store)
            saved = self.tracking
            self.tracking = []
            self.quiet += 1
            nres = len(self.results)
            try:
                serial0 = next(_serial)
                outs = self.run(f, dict(henv), hst.copy(), header, None, body, header, {})
                writes = self.tracking
            finally:
                self.quiet -= 1
                self.tracking = saved
                del self.results[nres:]
            # extend the written set
            grew = False
            for (addr, size, wst) in writes:
                if self.covered(hst, W, wall[0], addr, size, st):
                    continue
                reg = self.region_of(wst, addr)
                if reg is not None and reg not in st.regions:
                    continue  # object created inside the loop body
                lim = serial0
                entry_ser = self._entry_serial
                if max_serial(addr) < entry_ser and (not isinstance(size, BitVecRef) or max_serial(size) < entry_ser):
                    W.append((addr, size))
                    grew = True
                    continue
                # widen to a region: declared modifies entries first, then known regions
                done = False
                for (b, s) in (self.modifies or []):
                    if max_serial(b) < entry_ser and max_serial(s) < entry_ser:
                        off = diff(addr, b)
                        if self.entails(wst, And(ULE(off, s), ULE(size, s - off)), 4000):
                            done = True
                            if not any(b.eq(b2) and s.eq(s2) for b2, s2 in W):
                                W.append((b, s))
                                grew = True
                            break
                if done:
                    continue
                if reg is not None:
                    W.append((reg.base, reg.size))
                    grew = True
                    continue
                wall[0] = True
                grew = True
            if grew:
                if len(W) > 60:
                    wall[0] = True
                continue
            lost = [x for x in store if not all(self.storage_kept(f, header, x, entry_vals, hst, st, o) for o in outs if o[0] == 'edge' and o[2] == header)]
            if lost:
                if DEBUG:
                    print('STORAGE NOT KEPT', [x[0] for x in lost])
                store = [x for x in store if x not in lost]
                continue
            dropped = []
            for o in outs:
                if o[0] == 'edge' and o[2] == header:
                    benv = dict(o[3])
                    bst = o[4]
                    self.do_phis(f, benv, bst, header, o[1])
                    benv['#it:' + header] = benv['#it:' + header] + 1
                    vals = {n: benv[n] for n, t in phis}
                    view = LoopView(self, f, header, benv, vals, entry_vals, bst, st)
                    fm = dict(self.candidates(view))
                    for lab in sorted(alive):
                        g = fm.get(lab)
                        if g is None:
                            dropped.append(lab)
                            continue
                        if isinstance(g, bool):
                            g = BoolVal(g)
                        if not self.entails(bst, g, self.opts.get('inv_timeout', 6000)):
                            dropped.append(lab)
                            if DEBUG:
                                if os.environ.get('COV_DUMP'):
                                    ss_ = z3.Solver()
                                    ss_.add(*bst.pc)
                                    ss_.add(Not(g))
                                    open('%s/%d_%s.smt2' % (os.environ['COV_DUMP'], rounds, lab.replace(' ', '_').replace('/', '_')), 'w').write('(set-logic ALL)\n' + ss_.to_smt2())
                                r_, s_, d_ = self._z3(bst.pc + [Not(g)], 6000)
                                print('DROP', rounds, lab, r_, round(d_, 1), 'from', o[1], simplify(g))
                                if r_ == z3.sat and DEBUG > 1:
                                    print(self.describe_model(bst, s_.model())[:1500])
                    alive -= set(dropped)
            if dropped:
                continue
            break
        self.houdini_stats.append((f.name, header, len(cands), sorted(alive), rounds))
        # final pass, recording the obligations of the body
        henv, hst, hvals, hview = self.havoc_loop(f, header, entry_env, entry_vals, phis, st, W, wall[0], alive, store)
        saved = self.tracking
        if saved is not None:
            for b, s in W:
                saved.append((b, s, st))
            for lab, cell, r in store:
                saved.append((r.base, r.size, st))
            if wall[0]:
                saved.append((fresh('anywhere'), bv(1), st))
            self.tracking = []
        try:
            outs = self.run(f, dict(henv), hst.copy(), header, None, body, header, {})
        finally:
            self.tracking = saved
        if not self.quiet:
            for lab in sorted(alive):
                self.results.append(Result('loop %s/%s: invariant %s holds at entry and is kept' % (f.name, header, lab),
                                           'proved', 'z3', 0.0))
        res = []
        backs = []
        for o in outs:
            if o[0] == 'edge' and o[2] == header:
                backs.append(o)
                continue
            res.append(o)
        if self.root is not None and getattr(self.root, 'terminates', False) and backs:
            self.check_variant(f, header, hvals, phis, backs, hst, hview, entry_vals, st)
        return res

    # A memory cell that holds the address of storage of its own, which the loop may replace: "at the head of the loop the cell holds the base of
    # an object of at least that size, different from every other object" is an invariant of the loop. The region the cell pointed to at entry is
    # given up (it counts as freed), a region for the current one takes its place (it may be the same object), and the contents of both are forgotten.
    def storage_clauses(self, view):
        return (self.root.storage(view) or []) if getattr(self.root, 'storage', None) is not None else []

    def storage_region(self, st, mem, cell, size):
        p = simplify(self.read(st, mem, cell, 8))
        r = self.region_of(st, p)
        if r is None or not r.own or r.local or r.name in st.freed or r.base.get_id() != p.get_id() or not self.entails(st, ULE(size, r.size), 4000):
            return None
        return r

    def storage_at_entry(self, f, header, env, entry_vals, st):
        out = []
        for lab, cell, size in self.storage_clauses(LoopView(self, f, header, env, entry_vals, entry_vals, st, st)):
            r = self.storage_region(st, st.mem, cell, size)
            if r is not None:
                out.append((lab, simplify(cell), r))
            elif DEBUG:
                print('NO STORAGE AT ENTRY', lab)
        return out

    def storage_kept(self, f, header, x, entry_vals, hst, st, o):
        benv, bst = dict(o[3]), o[4]
        self.do_phis(f, benv, bst, header, o[1])
        benv['#it:' + header] = benv['#it:' + header] + 1
        vals = {i.dest: benv[i.dest] for i in f.blocks[header] if i.op == 'phi'}
        for lab, cell, size in self.storage_clauses(LoopView(self, f, header, benv, vals, entry_vals, bst, st)):
            if lab == x[0]:
                r = self.storage_region(bst, bst.mem, cell, size)
                return r is not None and (r is x[2] or r.name == 'storage %s %s' % (lab, header) or r not in hst.regions)
        return False

    def covered(self, hst, W, wall, addr, size, st):
        if wall:
            return True
        for b, s in W:
            if b.get_id() == addr.get_id() and (s.get_id() == size.get_id()):
                return True
            r = simplify(And(ULE(diff(addr, b), s), ULE(size, s - diff(addr, b))))
            if is_true(r):
                return True
        for b, s in W:
            ra = self.region_of(hst, addr)
            if ra is not None and b.get_id() == ra.base.get_id() and simplify(s).eq(simplify(ra.size)):
                return True
            if self.entails(hst, And(ULE(diff(addr, b), s), ULE(size, s - diff(addr, b))), 1500):
                return True
        return False

    def havoc_loop(self, f, header, entry_env, entry_vals, phis, st, W, wall, alive, store=()):
        self._entry_serial = next(_serial)
        henv = dict(entry_env)
        hst = st.copy()
        it = henv['#it:' + header] = fresh('it_' + header)
        hst.assume(ULT(it, bv(1 << 40)))
        hvals = {}
        for n, t in phis:
            if t == llir.I1:
                v = fresh_bool('phi_' + n.strip('%'))
            elif f.module.resolve(t)[0] in ('struct', 'arr'):
                raise ToolLimit('aggregate phi')
            else:
                v = fresh('phi_' + n.strip('%'), self.width(f.module, t))
            henv[n] = v
            hvals[n] = v
        if wall:
            keep = [r for r in st.regions if r.local and not self.escapes(st, r)]
            hst.mem = Mem(hst.mem, 'havoc', None, 'mem!%d' % next(_serial), keep)
        elif W:
            hst.mem = Mem(hst.mem, 'havoc', [(simplify(b), simplify(s)) for b, s in W], 'mem!%d' % next(_serial))
        view = LoopView(self, f, header, henv, hvals, entry_vals, hst, st)
        if store:
            now = {lab: (cell, size) for lab, cell, size in self.storage_clauses(view)}
            gone = []
            for lab, cell, r in store:
                p, size = simplify(self.read(hst, hst.mem, cell, 8)), now[lab][1]
                if p.get_id() == r.base.get_id():
                    continue
                new = Region(p, simplify(size), 'storage %s %s' % (lab, header), own=True)
                new.group = r
                hst.regions.append(new)
                hst.freed = hst.freed | {r.name}
                hst.assume(UGT(p, bv(4096)), ULT(p, bv(1 << 47)), ULT(size, bv(1 << 46)), ULT(p + size, bv(1 << 47)))
                gone += [(r.base, r.size), (p, simplify(size))]
            if gone:
                hst.mem = Mem(hst.mem, 'havoc', gone, 'mem!%d' % next(_serial))
        self.quiet += 1
        try:
            fm = dict(self.candidates(view))
        finally:
            self.quiet -= 1
        if hst.foralls:
            ts = [t for n, t, e in view.ints()] + [it]
            ptrs = {i.dest for i in f.blocks[header] if i.op == 'phi' and i.a['ty'] == llir.PTR}
            for n, t, e in view.ptrs():
                ts += [diff(t, r.base) for r in hst.regions if not r.local and not r.name.startswith('global')][:6]
            if getattr(self.root, 'loop_terms', None) is not None:
                ts += self.root.loop_terms(view)
            for h in hst.foralls:
                for t in ts:
                    hst.assume(self.instance(h, t, hst))
        for lab in sorted(alive):
            g = fm.get(lab)
            if g is not None:
                hst.assume(g)
        # a clause about an arbitrary ghost K is a clause about every value of K
        if getattr(self.root, 'instances', None) is not None:
            for lab, g in self.root.instances(view):
                if lab in alive:
                    hst.assume(g)
        return henv, hst, hvals, view

    @staticmethod
    def instance(h, t, st):
        return h(t, st) if h.__code__.co_argcount == 2 else h(t)

    def escapes(self, st, r):
        return True

    def candidates(self, view):
        out = []
        seen = set()

        def add(lab, g):
            if lab not in seen:
                seen.add(lab)
                out.append((lab, g))
        if self.root is not None and getattr(self.root, 'loops', None) is not None:
            for lab, g in (self.root.loops(view) or []):
                add(lab, g)
        for lab, g in (view.generic() if getattr(self.root, 'generic_clauses', True) else ()):
            add(lab, g)
        return out

    def check_variant(self, f, header, hvals, phis, backs, hst, hview, entry_vals, st):
        meas = []
        bounds = hview.bounds()
        for n, t in phis:
            v = hvals[n]
            if isinstance(v, BoolRef):
                continue
            if v.size() in (32, 64):
                meas.append((n, None))
                for j in range(len(bounds)):
                    meas.append((n, j))
        extra = []
        if getattr(self.root, 'variants', None) is not None:
            extra = self.root.variants(hview) or []
            meas = [('#', i) for i in range(len(extra))] + meas

        def val(m, vals, env, s):
            n, j = m
            view = LoopView(self, f, header, env, vals, entry_vals, s, st)
            if n == '#':
                return self.root.variants(view)[j][1]
            v = sx(vals[n])
            if j is None:
                return v
            return view.bounds()[j][1] - v
        ok = False
        data = []
        for o in backs:
            benv = dict(o[3])
            bst = o[4].copy()
            if not self.feasible(bst):
                continue
            self.do_phis(f, benv, bst, header, o[1])
            benv['#it:' + header] = benv['#it:' + header] + 1
            data.append((bst, {n: benv[n] for n, t in phis}, benv))
        henv = dict(hview.env)
        for m in meas:
            good = True
            for bst, vals, benv in data:
                a = val(m, hvals, henv, hst)
                b = val(m, vals, benv, bst)
                if not self.entails(bst, And(b < a, a >= 0), 5000):
                    good = False
                    break
            if good:
                ok = True
                break
        if not self.quiet:
            if ok:
                self.results.append(Result('loop %s/%s: terminates' % (f.name, header), 'proved', 'z3', 0.0))
            else:
                self.results.append(Result('loop %s/%s: terminates' % (f.name, header), 'unknown', 'z3', 0.0, None,
                                           'no decreasing measure found'))

    # -------------------------------------------------------- one instruction
    def step(self, f, env, st, ins):
        m = f.module
        a = ins.a
        op = ins.op
        V = lambda ty, v: self.operand(m, env, ty, v, st)
        if a.get('unsupported'):
            raise ToolLimit('instruction ' + ins.text)
        what = f.name + ': ' + ins.text[:70]
        if op == 'alloca':
            n = None
            if a['n'] is not None:
                n = V(a['n'][0], a['n'][1])
                if is_const(n) and n.as_long() == 1:
                    n = None
            env[ins.dest] = self.alloca(st, m, a['ty'], n, ins.dest)
            return None
        if op == 'load':
            p = V(llir.PTR, a['ptr'])
            env[ins.dest] = self.load_typed(st, m, p, a['ty'], what)
            return None
        if op == 'store':
            p = V(llir.PTR, a['ptr'])
            v = V(a['ty'], a['val'])
            self.store_typed(st, m, p, v, a['ty'], what)
            return None
        if op == 'getelementptr':
            env[ins.dest] = self.gep(m, a['ty'], V(llir.PTR, a['base']), [(t, V(t, v)) for t, v in a['idx']])
            return None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            x = V(a['ty'], a['x'])
            y = V(a['ty'], a['y'])
            env[ins.dest] = self.binop(op, x, y, a['ty'], a['fl'], st, what)
            return None
        if op == 'fneg':
            env[ins.dest] = V(a['ty'], a['x']) ^ bv(1 << 63)
            return None
        if op == 'icmp':
            env[ins.dest] = self.icmp(a['pred'], V(a['ty'], a['x']), V(a['ty'], a['y']))
            return None
        if op == 'fcmp':
            env[ins.dest] = self.fcmp(a['pred'], V(a['ty'], a['x']), V(a['ty'], a['y']))
            return None
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            env[ins.dest] = self.cast(op, V(a['ty'], a['x']), a['ty'], a['to'], m)
            return None
        if op == 'freeze':
            env[ins.dest] = V(a['ty'], a['x'])
            return None
        if op == 'select':
            c = V(a['cty'], a['c'])
            x = V(a['ty'], a['x'])
            y = V(a['ty2'], a['y'])
            if is_true(c):
                env[ins.dest] = x
            elif is_false(c):
                env[ins.dest] = y
            else:
                env[ins.dest] = simplify(If(c, x, y))
            return None
        if op == 'extractvalue':
            x = V(a['ty'], a['x'])
            for i in a['idx']:
                x = x[i]
            env[ins.dest] = x
            return None
        if op == 'insertvalue':
            x = V(a['ty'], a['x'])
            v = V(a['ety'], a['v'])
            if len(a['idx']) != 1:
                raise ToolLimit('nested insertvalue')
            l = list(x)
            l[a['idx'][0]] = v
            env[ins.dest] = tuple(l)
            return None
        if op == 'br':
            if a['c'] is None:
                return ('goto', a['to'])
            c = V(llir.I1, a['c'])
            if is_true(c):
                return ('goto', a['t'])
            if is_false(c):
                return ('goto', a['f'])
            return ('branch', [(c, a['t']), (simplify(Not(c)), a['f'])])
        if op == 'switch':
            x = V(a['ty'], a['x'])
            alts = []
            neg = []
            for v, tgt in a['cases']:
                cv = V(a['ty'], v)
                c = simplify(x == cv)
                alts.append((c, tgt))
                neg.append(Not(c))
            alts.append((simplify(conj(neg)), a['def']))
            return ('branch', alts)
        if op == 'ret':
            return ('ret', None if a['x'] is None else V(a['ty'], a['x']))
        if op == 'unreachable':
            return ('stop',)
        if op == 'call':
            return self.do_call(f, env, st, ins, what)
        raise ToolLimit('instruction ' + op)

    def load_typed(self, st, m, p, ty, what):
        rt = m.resolve(ty)
        if rt[0] in ('struct', 'pstruct'):
            out = []
            for i in range(len(rt[1])):
                off, ft = m.field_off(rt, i)
                out.append(self.load_typed(st, m, simplify(p + bv(off)), ft, what))
            return tuple(out)
        if rt[0] == 'arr':
            es = m.sizeof(rt[2])
            return tuple(self.load_typed(st, m, simplify(p + bv(i * es)), rt[2], what) for i in range(rt[1]))
        v = self.load(st, p, m.sizeof(rt), what)
        if rt == llir.I1:
            return simplify(Extract(0, 0, v) == bv(1, 1))
        return v

    def store_typed(self, st, m, p, v, ty, what):
        rt = m.resolve(ty)
        if rt[0] in ('struct', 'pstruct'):
            for i in range(len(rt[1])):
                off, ft = m.field_off(rt, i)
                self.store_typed(st, m, simplify(p + bv(off)), v[i], ft, what)
            return
        if rt[0] == 'arr':
            es = m.sizeof(rt[2])
            for i in range(rt[1]):
                self.store_typed(st, m, simplify(p + bv(i * es)), v[i], rt[2], what)
            return
        if rt == llir.I1:
            v = b2bv(v, 8)
        self.store(st, p, v, m.sizeof(rt), what)

    # -------------------------------------------------------- calls
    def do_call(self, f, env, st, ins, what):
        m = f.module
        a = ins.a
        args = [self.operand(m, env, t, v, st) for t, v, info in a['args']]
        if a['fn'][0] == 'loc':
            tgt = self.fn_of(env[a['fn'][1]])
            if tgt is None:
                if self.indirect is not None:
                    outs = self.indirect(self, st, env[a['fn'][1]], args, a)
                    if outs is not None:
                        return ('outs', outs)
                raise ToolLimit('indirect call: ' + ins.text)
            name = tgt[1] if isinstance(tgt, tuple) else tgt.name
            callee = None if isinstance(tgt, tuple) else tgt
        else:
            name = a['fn'][1]
            callee = self.prog.find(name, m)
        return self.invoke(name, callee, args, st, env, ins, what, f)

    def invoke(self, name, callee, args, st, env, ins, what, f=None):
        if name in self.contracts and not (self.root is not None and self.root is self.contracts[name] and
                                           not getattr(self.root, 'recursive', False)):
            con = self.contracts[name]
            self.used_contracts.add(name)
            return ('outs', con.apply(self, st, args, what))
        if name.startswith('llvm.') or callee is None:
            return self.external(name, args, st, env, ins, what, f)
        self.inlined.add(name)
        return ('outs', self.call_function(callee, args, st))

    def external(self, name, args, st, env, ins, what, f):
        a = ins.a if ins is not None else {'ret': llir.VOID}
        dest = ins.dest if ins is not None else None

        def ret(v):
            return ('outs', [('ret', st, v)])
        if name in self.models:
            r = self.models[name](self, st, args, what)
            if r is not None:
                return ('outs', r)
            return None
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.va_end',
                            'llvm.assume', 'llvm.experimental')):
            if a['ret'] != llir.VOID:
                return ret(fresh('stk', 64))
            return None
        if name in ('llvm.trap', 'abort', '__assert_fail', 'llvm.ubsantrap'):
            return ('outs', [('trap', st, what)])
        if name in ('exit', '_exit'):
            return ('outs', [('exit', st, None)])
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            d, s, n = args[0], args[1], zx(args[2])
            self.copy(st, d, s, n, what)
            if name in ('memcpy', 'memmove'):
                return ret(d)
            return None
        if name.startswith('llvm.memset') or name == 'memset':
            d, c, n = args[0], args[1], zx(args[2])
            self.check_access(st, d, n, True, what)
            if self.tracking is not None:
                self.tracking.append((simplify(d), simplify(n), st))
            c = c if c.size() == 8 else Extract(7, 0, c)
            st.mem = Mem(st.mem, 'set', simplify(d), simplify(c), simplify(n))
            if name == 'memset':
                return ret(d)
            return None
        if name in ('llvm.trunc.f64', 'trunc'):
            return ret(self.fpbits(z3.fpRoundToIntegral(z3.RTZ(), self.fpv(args[0]))))
        if name.startswith('llvm.umin'):
            return ret(If(ULT(args[0], args[1]), args[0], args[1]))
        if name.startswith('llvm.umax'):
            return ret(If(UGT(args[0], args[1]), args[0], args[1]))
        if name.startswith('llvm.smin'):
            return ret(If(args[0] < args[1], args[0], args[1]))
        if name.startswith('llvm.smax'):
            return ret(If(args[0] > args[1], args[0], args[1]))
        if name.startswith('llvm.va_start'):
            # all variadic arguments are placed in the overflow area (gp_offset says the registers are used up)
            va = env.get('%va')
            if va is None:
                raise ToolLimit('va_start')
            if isinstance(va, tuple) and va[0] == 'area':
                base = va[1]
            else:
                base = self.new_base(st, 'va_area', bv(8 * max(1, len(va))))
                st.regions.append(Region(base, bv(8 * len(va)), 'varargs', own=True, fresh=True, local=True))
                for i, v in enumerate(va):
                    st.mem = Mem(st.mem, 'store', simplify(base + bv(8 * i)), zx(v) if v.size() < 64 else v, 8)
            p = args[0]
            st.mem = Mem(st.mem, 'store', simplify(p), bv(48, 32), 4)
            st.mem = Mem(st.mem, 'store', simplify(p + 4), bv(176, 32), 4)
            st.mem = Mem(st.mem, 'store', simplify(p + 8), simplify(base), 8)
            st.mem = Mem(st.mem, 'store', simplify(p + 16), bv(0), 8)
            return None
        if name == 'malloc':
            self.assumed.add('malloc returns a fresh, 16-byte aligned block (never fails)')
            n = zx(args[0])
            base = self.new_base(st, 'malloc', n)
            st.regions.append(Region(base, n, 'malloc%d' % next(_serial), own=True, fresh=True))
            return ret(base)
        if name == 'calloc':
            self.assumed.add('calloc returns a fresh zeroed block (never fails)')
            n = simplify(zx(args[0]) * zx(args[1]))
            base = self.new_base(st, 'calloc', n)
            st.regions.append(Region(base, n, 'calloc%d' % next(_serial), own=True, fresh=True))
            st.mem = Mem(st.mem, 'set', base, bv(0, 8), n)
            return ret(base)
        if name == 'realloc':
            self.assumed.add('realloc returns a fresh block holding the old bytes (never fails)')
            n = zx(args[1])
            base = self.new_base(st, 'realloc', n)
            r = self.region_of(st, args[0])
            st.regions.append(Region(base, n, 'realloc%d' % next(_serial), own=True, fresh=True))
            if r is not None:
                ln = If(ULT(r.size, n), r.size, n)
                if not self.entails(st, ULT(r.size, n)):
                    pass
                else:
                    ln = r.size
                st.mem = Mem(st.mem, 'copy', base, simplify(args[0]), simplify(ln), st.mem)
                st.freed = st.freed | {r.name}
            elif not self.entails(st, args[0] == 0):
                raise ToolLimit('realloc of an unknown block')
            return ret(base)
        if name == 'free':
            r = self.region_of(st, args[0])
            if r is not None:
                if r.name in st.freed:
                    self.prove(st, False, 'memory: no double free', what)
                if r.key != (addends(args[0])[0], addends(args[0])[1]):
                    self.prove(st, False, 'memory: free of an interior pointer', what)
                st.freed = st.freed | {r.name}
            return ret(None)
        if name == 'strlen':
            self.assumed.add('strlen returns the offset of the first NUL')
            n = fresh('strlen', 64)
            p = simplify(args[0])
            st.assume(ULT(n, bv(1 << 40)))
            r = self.region_of(st, p)
            if r is not None:
                st.assume(ULT(n, r.size - (p - r.base)))
            mem = st.mem
            st.assume(self.read(st, mem, simplify(p + n), 1) == 0)
            for g in list(self.ghost_terms):
                k = sx(g)
                st.assume(Implies(ULT(k, n), self.read(st, mem, simplify(p + k), 1) != 0))
            return ret(n)
        if name in PURE_EXTERNALS:
            self.assumed.add('external %s has no effect on the verified state' % name)
            if a['ret'] == llir.VOID:
                return ret(None)
            if a['ret'] == llir.I1:
                return ret(fresh_bool(name))
            return ret(fresh(name, self.width(f.module if f else None, a['ret'])))
        raise ToolLimit('call of unmodelled function ' + name)

    def copy(self, st, d, s, n, what):
        n = simplify(n)
        d = self.pick(st, d)
        s = self.pick(st, s)
        if is_const(n) and n.as_long() == 0:
            return
        self.check_access(st, d, n, True, what)
        self.check_access(st, s, n, False, what)
        if self.tracking is not None:
            self.tracking.append((d, n, st))
        st.mem = Mem(st.mem, 'copy', d, s, n, st.mem)


PURE_EXTERNALS = {'printf', 'fprintf', 'puts', 'putchar', 'fputc', 'fputs', 'fflush', 'getenv', 'perror', 'fwrite'}


class LoopView:
    """what a loop-invariant candidate may talk about"""

    def __init__(self, v, f, header, env, vals, entry_vals, st, entry_st):
        self.v = v
        self.f = f
        self.fn = f.name
        self.header = header
        self.env = env
        self.vals = vals
        self.entry = entry_vals
        self.st = st
        self.entry_st = entry_st
        self.c = v.rootC
        self.G = v.rootC.G if v.rootC is not None else {}

    @property
    def it(self):
        """number of completed iterations"""
        return self.env['#it:' + self.header]

    def rd(self, addr, size):
        return self.v.read(self.st, self.st.mem, simplify(addr), size)

    def rd0(self, addr, size):
        return self.v.read(self.entry_st, self.entry_st.mem, simplify(addr), size)

    def ints(self):
        """[(name, value as 64 bit, entry value as 64 bit)] of the integer loop variables"""
        ptrs = {i.dest for i in self.f.blocks[self.header] if i.op == 'phi' and i.a['ty'] == llir.PTR}
        return [(n, sx(t), sx(self.entry[n])) for n, t in sorted(self.vals.items())
                if not isinstance(t, BoolRef) and n not in ptrs]

    def ptrs(self):
        ptrs = {i.dest for i in self.f.blocks[self.header] if i.op == 'phi' and i.a['ty'] == llir.PTR}
        return [(n, t, self.entry[n]) for n, t in sorted(self.vals.items()) if n in ptrs]

    def allints(self):
        """integer variables of this loop and of the loops around it, as 64-bit terms"""
        out = [(n, t) for n, t, e in self.ints()]
        for h, body in self.f.loops.items():
            if h != self.header and self.header in body:
                for i in self.f.blocks[h]:
                    if i.op == 'phi' and i.a['ty'] != llir.PTR and i.dest in self.env and \
                            not isinstance(self.env[i.dest], (BoolRef, tuple)):
                        out.append((i.dest, sx(self.env[i.dest])))
        return out

    def allptrs(self):
        out = [(n, t) for n, t, e in self.ptrs()]
        for h, body in self.f.loops.items():
            if h != self.header and self.header in body:
                for i in self.f.blocks[h]:
                    if i.op == 'phi' and i.a['ty'] == llir.PTR and i.dest in self.env:
                        out.append((i.dest, self.env[i.dest]))
        return out

    def bounds(self):
        """[(label, 64-bit term)] upper/lower bounds worth comparing loop variables with"""
        out = []
        r = self.v.root
        if r is not None and getattr(r, 'bounds', None) is not None:
            out.extend(r.bounds(self))
        return out

    def generic(self):
        out = []
        ints = self.ints()
        bs = self.bounds()
        for n, t, e in ints:
            out.append(('%s>=0' % n, t >= 0))
            out.append(('%s>=entry' % n, t >= e))
            out.append(('%s<=entry' % n, t <= e))
            for lab, b in bs:
                out.append(('%s<=%s' % (n, lab), t <= b))
                out.append(('%s<%s' % (n, lab), t < b))
                out.append(('%s>=%s' % (n, lab), t >= b))
            out.append(('%s>=-1' % n, t >= -1))
        for n, t, e in self.ptrs():
            out.append(('%s>=entry' % n, UGE(t, e)))
            for lab, b in bs:
                out.append(('%s<=u%s' % (n, lab), ULE(t, b)))
        allv = ints + self.ptrs()
        for i in range(len(allv)):
            for j in range(len(allv)):
                if i == j:
                    continue
                (n, t, e), (n2, t2, e2) = allv[i], allv[j]
                if i < j:
                    out.append(('%s-%s const' % (n, n2), t - e == t2 - e2))
                    out.append(('%s+%s const' % (n, n2), t - e == e2 - t2))
                out.append(('%s=8%s' % (n, n2), t - e == (t2 - e2) * 8))
        return out


class CallCtx:
    """argument/memory view handed to the clauses of a contract"""

    def __init__(self, v, con, args, pre_st, G):
        self.v = v
        self.con = con
        self.args = args
        self.named = {}
        for n, a in zip(con.params, args):
            setattr(self, n, a)
            self.named[n] = a
        self.pre_st = pre_st
        self.pre_mem = pre_st.mem
        self.st = pre_st
        self.post_mem = None
        self.ret = None
        self.G = G
        self.mode = None
        self.aux = {}

    def pre(self, addr, size):
        return self.v.read(self.st, self.pre_mem, simplify(addr), size)

    def post(self, addr, size):
        return self.v.read(self.st, self.post_mem, simplify(addr), size)

    def let(self, addr, size, label):
        """a name for what the memory holds there when the function is entered (the memory is arbitrary: nothing is assumed)"""
        x = BitVec(label, 8 * size)
        if self.mode == 'body':
            self.st.mem = self.pre_mem = Mem(self.st.mem, 'store', simplify(addr), x, size)
        return x

    def valid(self, base, size, name, own=False, writable=True):
        """object of `size` bytes at `base`: assumed when the body is verified, checked at a call site"""
        size = bv(size) if isinstance(size, int) else size
        base = simplify(base)
        if self.mode == 'body':
            self.v_add_region(base, size, name, own, writable)
            return BoolVal(True)
        r = self.v.region_of(self.st, base)
        if r is None:
            return BoolVal(not getattr(self.con, 'check_valid', True))
        return Or(size == 0, self.v.inbounds(r, base, size))

    def v_add_region(self, base, size, name, own, writable):
        st = self.st
        st.regions.append(Region(base, size, name, own=own, writable=writable))
        st.assume(UGT(base, bv(4096)), ULT(base, bv(1 << 47)), ULT(size, bv(1 << 46)), ULT(base + size, bv(1 << 47)))

    def alive(self, base, size):
        """postcondition: base is the start of an object of at least size bytes that has not been freed"""
        size = bv(size) if isinstance(size, int) else size
        base = simplify(base)
        r = self.v.region_of(self.st, base)
        if r is None or r.name in self.st.freed or r.local:
            return BoolVal(False)
        return And(base == r.base, ULE(size, r.size))

    def is_fresh(self, base, size):
        """postcondition: base is a newly allocated object of at least size bytes"""
        size = bv(size) if isinstance(size, int) else size
        if self.mode == 'body':
            alts = []
            for r in self.st.regions:
                if r.fresh and not r.local and r.name not in self.st.freed and \
                        r.base.get_id() == simplify(base).get_id():
                    alts.append(ULE(size, r.size))
            if not alts:
                r = self.v.region_of(self.st, simplify(base))
                if r is not None and r.fresh and not r.local and r.name not in self.st.freed:
                    alts.append(And(base == r.base, ULE(size, r.size)))
            return disj(alts)
        st = self.st
        st.regions.append(Region(simplify(base), simplify(size), 'fresh%d' % next(_serial), own=True, fresh=True))
        st.assume(UGT(base, bv(4096)), ULT(base, bv(1 << 47)), ULT(size, bv(1 << 46)), ULT(base + size, bv(1 << 47)))
        return BoolVal(True)


class Contract:
    name = None
    params = []
    ghosts = {}
    terminates = False
    recursive = False
    loops = None
    bounds = None
    variants = None
    ret_bits = 64   # None: void, 'bool', or tuple
    trusted = False

    def requires(self, c):
        return []

    def modifies(self, c):
        return []

    def traps(self, c):
        """condition (on the pre state) under which the function may stop the program"""
        return BoolVal(False)

    def ensures(self, c):
        return []

    def fresh_ret(self, c):
        rb = self.ret_bits
        mk = lambda b: None if b is None else (fresh_bool('ret_' + self.name) if b == 'bool'
                                               else fresh('ret_' + self.name, b))
        if isinstance(rb, tuple):
            return tuple(mk(b) for b in rb)
        return mk(rb)

    # verification of the body -----------------------------------------
    def verify(self, v, f):
        v.root = self
        st = State()
        st.mem = base_mem('mem0')
        args = []
        for (t, n) in f.params:
            if t == llir.I1:
                args.append(Bool('arg' + n.strip('%')))
            else:
                args.append(BitVec('arg_' + n.strip('%'), v.width(f.module, t)))
        if f.vararg:
            pass
        G = {n: BitVec('ghost_' + n, w) for n, w in self.ghosts.items()}
        if len(args) != len(self.params):
            raise ToolLimit('%s has %d parameters, the contract names %d' % (f.name, len(args), len(self.params)))
        c = CallCtx(v, self, args, st, G)
        c.mode = 'body'
        v.rootC = c
        v.ghost_terms = list(G.values())
        for item in self.requires(c):
            st.assume(item[1] if isinstance(item, tuple) else item)
        self.setup(c)
        for h in self.hyps(c):
            st.foralls.append(h)
            for g in [bv(0)] + [sx(x) for x in G.values()] + [bv(i + 1) for i in range(v.unroll + 1 if v.unroll else 0)]:
                st.assume(v.instance(h, g, st))
        # vacuity guard: the precondition is satisfiable
        r, s, dt = v._z3(st.pc, 20000)
        if r == z3.unsat:
            v.results.append(Result('precondition satisfiable', 'failed', 'z3', dt, None, 'contradictory requires'))
            return
        v.results.append(Result('precondition satisfiable', 'proved' if r == z3.sat else 'unknown-ok', 'z3', dt))
        v.modifies = [(simplify(b), simplify(s)) for b, s in self.modifies(c)]
        tr = self.traps(c)
        st0 = st.copy()
        outs = v.call_function(f, args, st.copy())
        nret = 0
        for o in outs:
            if o[0] == 'ret':
                nret += 1
                c.st = o[1]
                c.post_mem = o[1].mem
                c.ret = o[2]
                if not v.feasible(o[1]):
                    continue
                for item in self.ensures(c):
                    lab, g = item[0], item[1]
                    v.prove(o[1], g, '%s: ensures %s' % (self.name, lab))
                pass
            elif o[0] == 'trap':
                v.prove(o[1], tr, '%s: stops only when allowed' % self.name, str(o[2]))
            elif o[0] == 'exit':
                v.prove(o[1], tr, '%s: exits only when allowed' % self.name)
        if nret == 0 and not getattr(self, 'may_not_return', False):
            v.results.append(Result('%s: some path returns' % self.name, 'failed', 'z3', 0.0, None, 'no path returns'))

    def setup(self, c):
        pass

    def hyps(self, c):
        """universally quantified hypotheses: functions of a 64-bit index, instantiated at loop variables and ghosts"""
        return []

    # use at a call site --------------------------------------------------
    def inst(self, c):
        """ghost instantiations used when the contract is assumed: list of dicts"""
        if not self.ghosts:
            return [{}]
        names = list(self.ghosts)
        pools = []
        for n in names:
            w = self.ghosts[n]
            pool = []
            for g in c.v.ghost_terms:
                pool.append(sx(g, w) if g.size() <= w else Extract(w - 1, 0, g))
            pools.append(pool)
        return [dict(zip(names, combo)) for combo in itertools.product(*pools)]

    def apply(self, v, st, args, what):
        c = CallCtx(v, self, args, st, {})
        c.mode = 'call'
        for item in self.requires(c):
            lab, g = item if isinstance(item, tuple) else ('', item)
            v.prove(st, g, 'call of %s: requires %s' % (self.name, lab), what)
            st.assume(g)
        outs = []
        tr = self.traps(c)
        if not is_false(tr):
            if v.feasible(st, tr):
                s2 = st.copy()
                s2.assume(tr)
                outs.append(('trap', s2, 'in ' + self.name))
            # a permitted stop is not an obligation to stop: the call may also return
        regs = self.modifies(c)
        for b, s in regs:
            r = v.region_of(st, simplify(b))
            if r is not None and (r.fresh or r.local):
                continue
            v.check_frame(st, simplify(b), s, 'call of ' + self.name, r)
        v.havoc_regions(st, [(b, s) for b, s in regs])
        c.post_mem = st.mem
        c.ret = self.fresh_ret(c)
        self.post_effects(c)
        c.post_mem = st.mem
        base_G = c.G
        done = False
        for g in (self.inst(c) or []):
            c.G = g
            for item in self.ensures(c):
                if done and len(item) > 2 and item[2] == 'noghost':
                    continue
                st.assume(item[1])
            done = True
        if not done:
            c.G = {n: fresh('g_' + n, w) for n, w in self.ghosts.items()}
            for item in self.ensures(c):
                st.assume(item[1])
        if not v.feasible(st):
            if outs:
                return outs
            return []
        outs.append(('ret', st, c.ret))
        return outs

    def post_effects(self, c):
        pass
