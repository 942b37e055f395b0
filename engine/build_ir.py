"""Compile sources of /repo's working tree to LLVM IR and parse them."""
import hashlib
import os
import subprocess
import tempfile

import llir
import sym

REPO = os.environ.get('CORA_REPO', '/repo')
PASSES = 'function(sroa,early-cse,simplifycfg)'


class BuildError(Exception):
    pass


def ir(src, outdir, flags=()):
    """src is relative to the repository"""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    base = src.strip('/').replace('/', '_')[:-2]
    raw = os.path.join(outdir, base + '.raw.ll')
    out = os.path.join(outdir, base + '.ll')
    cmd = ['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fPIC',
           '-w', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.dirname(path), path, '-o', raw] + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang %s: %s' % (src, r.stderr[:2000]))
    r = subprocess.run(['opt', '-S', '-passes=' + PASSES, raw, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt %s: %s' % (src, r.stderr[:2000]))
    return out, base


def program(srcs, outdir=None, flags=()):
    own = outdir is None
    if own:
        outdir = tempfile.mkdtemp(prefix='covir')
    prog = sym.Program()
    try:
        for s in srcs:
            out, base = ir(s, outdir, flags)
            prog.add(llir.parse_module(out, base))
    finally:
        if own:
            subprocess.run(['rm', '-rf', outdir])
    return prog
