"""Parser for the textual LLVM IR that clang 18 emits for the C sources of the project.

Only the subset of LLVM that clang produces for this code base is accepted; anything else raises
ParseError, which the checks treat as "the tool cannot read this", never as a violation.
"""
import re
from collections import OrderedDict


class ParseError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"])*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
  | (?P<p>[,()\[\]{}<>=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ParseError('token: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
        # comments
        if s[i:].lstrip().startswith(';'):
            break
    return out


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
DOUBLE = ('double',)
VOID = ('void',)

PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'immarg', 'returned', 'inreg', 'allocptr', 'allocalign', 'noreturn', 'nofree', 'writable',
               'dead_on_unwind', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'tail',
               'musttail', 'notail', 'nest', 'nocallback', 'willreturn', 'nounwind'}


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'internal', 'vararg', 'module', 'byval', 'loops', 'preds', 'defs')

    def __init__(self):
        self.blocks = OrderedDict()
        self.byval = {}
        self.loops = None


class Instr:
    __slots__ = ('op', 'dest', 'a', 'text')

    def __init__(self, op, dest, a, text):
        self.op = op
        self.dest = dest
        self.a = a
        self.text = text

    def __repr__(self):
        return self.text


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v

    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %s got %s in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t[:40])))

    # types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v == 'double':
                t = DOUBLE
            elif v == 'float':
                t = ('float',)
            elif v == 'x86_fp80':
                t = ('x86_fp80',)
            elif v in ('label', 'metadata', 'opaque'):
                t = (v,)
            elif re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            else:
                raise ParseError('type word ' + v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            t = ('struct', tuple(fs))
        elif v == '<':
            if self.at('{'):
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = ('pstruct', tuple(fs))
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise ParseError('type %s' % v)
        # function type suffix
        while self.at('(') and t != VOID or (self.at('(') and t == VOID):
            # function type: ret (args)
            save = self.i
            self.next()
            args = []
            while not self.accept(')'):
                if self.accept('...'):
                    args.append('...')
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, tuple(args))
        return t

    def skip_attrs(self):
        """parameter / return attributes; returns dict of the ones that matter"""
        info = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('byval', 'sret'):
                self.next()
                self.expect('(')
                info[v] = self.type()
                self.expect(')')
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'captures', 'range',
                                       'elementtype', 'allockind', 'alloc-family'):
                self.next()
                self.expect('(')
                d = 1
                while d:
                    x = self.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
            elif k == 'word' and v == 'align':
                self.next()
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif k == 'attr':
                self.next()
            else:
                return info

    # a value of the given type
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v[1:].strip('"'))
        if k == 'num':
            if ty[0] in ('double', 'float', 'x86_fp80'):
                return ('fp', v)
            return ('int', int(v, 0))
        if k == 'word':
            if v in ('true', 'false'):
                return ('int', 1 if v == 'true' else 0)
            if v in ('null', 'zeroinitializer'):
                return ('zero',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('getelementptr',):
                self.accept('inbounds')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(','):
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('cgep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                ft = self.type()
                x = self.value(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('ccast', v, ft, x, tt)
            if v in ('add', 'sub', 'mul'):
                while self.peek()[1] in ('nsw', 'nuw'):
                    self.next()
                self.expect('(')
                t1 = self.type()
                x = self.value(t1)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return ('cbin', v, t1, x, y)
            raise ParseError('value word ' + v)
        if k == 'str':
            return ('str', v)
        if v == '[' or v == '{' or v == '<':
            if v == '<' and self.at('{'):
                self.next()
                v = '{'
                close2 = True
            else:
                close2 = False
            close = {'[': ']', '{': '}', '<': '>'}[v]
            elems = []
            while not self.accept(close):
                et = self.type()
                elems.append((et, self.value(et)))
                self.accept(',')
            if close2:
                self.expect('>')
            return ('agg', elems)
        raise ParseError('value %s %s' % (k, v))

    def tval(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def parse_instr(line, mod):
    p = P(tokenize(line), mod)
    dest = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dest = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    A = {}
    if op == 'alloca':
        p.accept('inalloca')
        A['ty'] = p.type()
        A['n'] = None
        if p.accept(','):
            if not p.at('align'):
                t = p.type()
                A['n'] = (t, p.value(t))
    elif op == 'load':
        p.accept('volatile')
        A['ty'] = p.type()
        p.expect(',')
        A['ptr'] = p.tval()[1]
    elif op == 'store':
        p.accept('volatile')
        A['ty'], A['val'] = p.tval()
        p.expect(',')
        A['ptr'] = p.tval()[1]
    elif op == 'getelementptr':
        p.accept('inbounds')
        A['ty'] = p.type()
        p.expect(',')
        A['base'] = p.tval()[1]
        A['idx'] = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            A['idx'].append(p.tval())
    elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                'fadd', 'fsub', 'fmul', 'fdiv'):
        fl = set()
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract'):
            fl.add(p.next()[1])
        A['fl'] = fl
        A['ty'] = p.type()
        A['x'] = p.value(A['ty'])
        p.expect(',')
        A['y'] = p.value(A['ty'])
    elif op == 'fneg':
        A['ty'] = p.type()
        A['x'] = p.value(A['ty'])
    elif op in ('icmp', 'fcmp'):
        A['pred'] = p.next()[1]
        A['ty'] = p.type()
        A['x'] = p.value(A['ty'])
        p.expect(',')
        A['y'] = p.value(A['ty'])
    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                'fpext', 'fptrunc'):
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        A['ty'], A['x'] = p.tval()
        p.expect('to')
        A['to'] = p.type()
    elif op == 'select':
        A['cty'], A['c'] = p.tval()
        p.expect(',')
        A['ty'], A['x'] = p.tval()
        p.expect(',')
        A['ty2'], A['y'] = p.tval()
    elif op == 'phi':
        A['ty'] = p.type()
        A['in'] = []
        while True:
            p.expect('[')
            v = p.value(A['ty'])
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            A['in'].append((v, b[1:].strip('"')))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
    elif op == 'br':
        if p.accept('label'):
            A['to'] = p.next()[1][1:].strip('"')
            A['c'] = None
        else:
            t, A['c'] = p.tval()
            p.expect(',')
            p.expect('label')
            A['t'] = p.next()[1][1:].strip('"')
            p.expect(',')
            p.expect('label')
            A['f'] = p.next()[1][1:].strip('"')
    elif op == 'switch':
        A['ty'], A['x'] = p.tval()
        p.expect(',')
        p.expect('label')
        A['def'] = p.next()[1][1:].strip('"')
        p.expect('[')
        A['cases'] = []
        while not p.accept(']'):
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            A['cases'].append((v, p.next()[1][1:].strip('"')))
    elif op == 'ret':
        t = p.type()
        A['ty'] = t
        A['x'] = None if t == VOID else p.value(t)
    elif op == 'unreachable':
        pass
    elif op == 'call':
        p.skip_attrs()
        rt = p.type()
        if rt[0] == 'fn':
            A['ret'] = rt[1]
        else:
            A['ret'] = rt
        fk, fv = p.next()
        if fk == 'glob':
            A['fn'] = ('glob', fv[1:].strip('"'))
        elif fk == 'loc':
            A['fn'] = ('loc', fv)
        elif fv == 'asm':
            raise ParseError('inline asm')
        else:
            raise ParseError('callee ' + fv)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t == ('metadata',):
                # skip metadata argument
                d = 0
                while not (d == 0 and (p.at(',') or p.at(')'))):
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                p.accept(',')
                continue
            info = p.skip_attrs()
            args.append((t, p.value(t), info))
            p.accept(',')
        A['args'] = args
    elif op == 'extractvalue':
        A['ty'], A['x'] = p.tval()
        A['idx'] = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            A['idx'].append(int(p.next()[1]))
    elif op == 'insertvalue':
        A['ty'], A['x'] = p.tval()
        p.expect(',')
        A['ety'], A['v'] = p.tval()
        A['idx'] = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            A['idx'].append(int(p.next()[1]))
    elif op == 'freeze':
        A['ty'], A['x'] = p.tval()
    elif op == 'va_arg':
        A['l'] = p.tval()
        p.expect(',')
        A['ty'] = p.type()
    else:
        A['unsupported'] = True
    return Instr(op, dest, A, line.strip())


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = OrderedDict()
        self.funcs = OrderedDict()
        self.decls = {}

    # layout ------------------------------------------------------------
    def size_align(self, t):
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            return b, b
        if k in ('ptr', 'fn'):
            return 8, 8
        if k == 'double':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            d = self.types.get(t[1])
            if d is None:
                raise ParseError('unknown type ' + t[1])
            return self.size_align(d)
        if k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'pstruct':
            return sum(self.size_align(f)[0] for f in t[1]), 1
        raise ParseError('size of %s' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def field_off(self, t, i):
        t = self.resolve(t)
        if t[0] == 'pstruct':
            return sum(self.sizeof(f) for f in t[1][:i]), t[1][i]
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise ParseError('field')


def parse_module(path, name):
    mod = Module(name)
    lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!' or ln.startswith(('source_filename', 'target ', 'attributes', '!')):
            continue
        if ln.startswith('%'):
            p = P(tokenize(ln), mod)
            nm = p.next()[1]
            p.expect('=')
            p.expect('type')
            mod.types[nm] = p.type()
            continue
        if ln.startswith('@'):
            p = P(tokenize(ln), mod)
            nm = p.next()[1][1:].strip('"')
            p.expect('=')
            const = False
            ext = False
            internal = False
            while True:
                k, v = p.peek()
                if v in ('constant', 'global'):
                    const = v == 'constant'
                    p.next()
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                if v in ('internal', 'private'):
                    internal = True
                p.next()
            t = p.type()
            init = None if ext else p.value(t)
            mod.globals[nm] = (t, init, const, internal)
            continue
        if ln.startswith('declare'):
            m = re.search(r'@("?[-a-zA-Z$._0-9]+"?)\(', ln)
            if m:
                mod.decls[m.group(1).strip('"')] = True
            continue
        if ln.startswith('define'):
            f = Func()
            f.module = mod
            f.internal = ' internal ' in ln.split('@')[0] + ' '
            hdr = ln[len('define'):]
            p = P(tokenize(hdr), mod)
            while p.peek()[1] in ('internal', 'dso_local', 'linkonce_odr', 'weak', 'available_externally', 'private',
                                  'hidden', 'protected', 'default', 'inlinehint'):
                p.next()
            p.skip_attrs()
            f.ret = p.type()
            if f.ret[0] == 'fn':
                raise ParseError('fn ret')
            f.name = p.next()[1][1:].strip('"')
            p.expect('(')
            f.params = []
            f.vararg = False
            while not p.accept(')'):
                if p.accept('...'):
                    f.vararg = True
                    p.accept(',')
                    continue
                t = p.type()
                info = p.skip_attrs()
                nm = p.next()[1]
                if 'byval' in info:
                    f.byval[nm] = info['byval']
                f.params.append((t, nm))
                p.accept(',')
            cur = None
            while True:
                ln = lines[i]
                i += 1
                if ln.startswith('}'):
                    break
                if not ln.strip() or ln.lstrip().startswith(';'):
                    continue
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    cur = m.group(1).strip('"')
                    f.blocks[cur] = []
                    continue
                if cur is None:
                    cur = 'entry'
                    f.blocks[cur] = []
                if 'switch ' in ln and ln.rstrip().endswith('['):
                    while not lines[i].strip().startswith(']'):
                        ln += ' ' + lines[i].strip()
                        i += 1
                    ln += ' ]'
                    i += 1
                f.blocks[cur].append(parse_instr(ln, mod))
            mod.funcs[f.name] = f
    for f in mod.funcs.values():
        analyse(f)
    return mod


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br':
        return [t.a['to']] if t.a['c'] is None else [t.a['t'], t.a['f']]
    if t.op == 'switch':
        return [t.a['def']] + [x[1] for x in t.a['cases']]
    return []


def analyse(f):
    """natural loops: f.loops = {header: set(body blocks)} for reducible control flow"""
    f.preds = {b: [] for b in f.blocks}
    for b in f.blocks:
        for s in succs(f, b):
            f.preds[s].append(b)
    entry = next(iter(f.blocks))
    color = {}
    back = []
    stack = [(entry, iter(succs(f, entry)))]
    color[entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(succs(f, s))))
                break
            elif color[s] == 1:
                back.append((b, s))
        else:
            color[b] = 2
            stack.pop()
    loops = OrderedDict()
    for (t, h) in back:
        body = loops.setdefault(h, {h})
        work = [t]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(f.preds[x])
    f.loops = loops
