"""what the specifications use"""
import os
import re
import subprocess
import sys
import time

import z3
from z3 import *  # noqa: F401,F403

import build_ir
import llir
import sym
from sym import (Contract, Verifier, ToolLimit, Budget, State, Mem, Region, Result, bv, sx, zx, conj, disj, fresh,
                 fresh_bool, base_mem, is_const, CallCtx)

REPO = build_ir.REPO
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED_BASE = {
    'clang 18 front end and the sroa, early-cse and simplifycfg passes of opt (gcc builds the program that runs)',
    'the contract verifier in /verif/engine (symbolic execution and obligation generation)',
    'z3 and cvc5',
    'x86-64 ABI, IEEE-754 doubles, little endian, 48-bit user addresses',
}


class SpecError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.prog = None
        self._consts = None

    def off(self, name):
        """value of a probe constant (offsetof, sizeof, enum): `const long OFF_name = ...;`"""
        if self._consts is None:
            self._consts = {}
            for m in self.prog.modules:
                for g, v in m.globals.items():
                    if g.startswith('OFF_') and v[1] is not None:
                        self._consts[g[4:]] = v[1][1] if v[1][0] == 'int' else 0
        if name not in self._consts:
            raise SpecError('probe constant ' + name)
        return self._consts[name]


class Task:
    """verify function `fn` against `con`, using the contracts `uses` for its callees"""
    can_unroll = True

    def __init__(self, fn, con, uses=(), label=None, opts=None, weight=1, limit=None, models=None, indirect=None,
                 soft=False):
        self.fn = fn
        self.con = con
        self.uses = uses
        self.label = label or fn
        self.opts = opts or {}
        self.weight = weight
        self.limit = limit
        self.models = models or {}
        self.indirect = indirect
        self.soft = soft
        if self.con.name is None:
            self.con.name = fn

    def run(self, prog, deadline, unroll):
        f = prog.find(self.fn)
        if f is None:
            raise ToolLimit('function %s not found' % self.fn)
        o = dict(self.opts)
        o['deadline'] = deadline
        v = Verifier(prog, {c.name: c for c in self.uses}, o)
        v.unroll = unroll
        v.models.update(self.models)
        v.indirect = self.indirect
        self.verifier = v
        self.con.verify(v, f)
        return v


class PyTask:
    """an obligation set produced by a python function f(verifier-like) -> list of Result"""
    can_unroll = False
    soft = False

    def __init__(self, label, fn, weight=1, limit=None, soft=False):
        self.label = label
        self.fn = fn
        self.weight = weight
        self.limit = limit
        self.soft = soft

    def run(self, prog, deadline, unroll):
        v = Verifier(prog or sym.Program(), {}, {'deadline': deadline})
        self.verifier = v
        self.fn(v)
        return v


class Lemma(PyTask):
    """a formula without reference to code, proved once"""

    def __init__(self, label, formula, **kw):
        def go(v):
            st = State()
            v.prove(st, formula() if callable(formula) else formula, 'lemma ' + label)
        PyTask.__init__(self, 'lemma ' + label, go, **kw)


class Driver:
    """native driver: /verif/drivers/<file>.c compiled with sources of /repo"""

    def __init__(self, spec, ctx):
        self.spec = spec
        self.ctx = ctx
        self.proc = None
        self.out = None

    def start(self):
        d = self.spec.DRIVER
        self.custom = callable(d)
        if self.custom:
            import threading
            self.res = None

            def go():
                try:
                    self.res = d(self.ctx)
                except Exception as e:
                    self.res = {'failures': [], 'summary': 'driver could not run: %s' % e, 'evaluations': 0}
            self.th = threading.Thread(target=go)
            self.th.start()
            return
        self.proc = subprocess.Popen([sys.executable, os.path.join(VERIF, 'engine', 'native.py'), d, self.ctx.scratch,
                                      self.ctx.tier, str(self.ctx.seed)] + list(getattr(self.spec, 'DRIVER_SRC', [])),
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

    def finish(self):
        if self.custom:
            self.th.join()
            return self.res
        try:
            out, _ = self.proc.communicate(timeout=500)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            out = ''
        return parse_driver(out, self.spec.DRIVER)


def parse_driver(out, name):
    res = {'failures': [], 'output': out, 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'rule': '',
           'replay': 'engine/native.py ' + str(name)}
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            res['failures'].append(l[5:])
        elif l.startswith('STAT '):
            m = re.match(r'STAT evaluations=(\d+) distinct=(\d+)', l)
            if m:
                res['evaluations'] = int(m.group(1))
                res['distinct_nontrivial'] = int(m.group(2))
        elif l.startswith('RULE '):
            res['rule'] = l[5:]
        elif l.startswith('SAMPLE ') and len(res['samples']) < 5:
            res['samples'].append(l[7:])
        elif l.startswith('NOBUILD'):
            res['nobuild'] = l
    res['summary'] = '%d runs, %d distinct, %d failing%s' % (res['evaluations'], res['distinct_nontrivial'],
                                                            len(res['failures']),
                                                            ' (driver did not build)' if res.get('nobuild') else '')
    return res
