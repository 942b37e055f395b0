"""native.py DRIVER.c SCRATCH TIER SEED [repo sources...]: builds and runs a native driver.

The driver is compiled with the current sources of /repo.  A crash or a hang of the real code is
reported with the input that was being executed."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CORA_REPO', '/repo')
DEFAULT = ['src/str.c', 'src/gc.c', 'src/types.c', 'src/reader.c', 'src/runtime.c', 'src/trace.c', 'src/export.c']


def main():
    drv, scratch, tier, seed = sys.argv[1:5]
    srcs = sys.argv[5:]
    asan = '-noasan' not in srcs
    srcs = [s for s in srcs if s != '-noasan']
    extra = [s for s in srcs if s.startswith('-')]
    srcs = [s for s in srcs if not s.startswith('-')]
    if not srcs:
        srcs = DEFAULT
    if srcs == ['none']:
        srcs = []
    os.makedirs(scratch, exist_ok=True)
    exe = os.path.join(scratch, 'driver')
    work = os.path.join(scratch, 'drvwork')
    os.makedirs(work, exist_ok=True)
    cmd = ['gcc', '-g', '-O1', '-w', '-fno-omit-frame-pointer', '-I' + os.path.join(REPO, 'src'),
           '-I' + os.path.join(VERIF, 'drivers'), '-DREPO="%s"' % REPO, '-DCORA_SRC_DIR="%s/src"' % REPO]
    if asan:
        cmd += ['-fsanitize=address']
    cmd += extra
    cmd += [os.path.join(VERIF, 'drivers', drv)] + [os.path.join(REPO, s) for s in srcs]
    if 'src/runtime.c' in srcs:
        cmd.append(os.path.join(REPO, 'src/config.c'))
    cmd += ['-lm', '-ldl', '-o', exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        print('NOBUILD ' + r.stderr[:1500])
        return
    log = os.path.join(scratch, 'case.log')
    env = dict(os.environ)
    env.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=0:handle_abort=0:handle_sigill=0:'
               'handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0', VERIF_SEED=seed,
               VERIF_TIER=tier, CASE_LOG=log, HOME=work)
    limit = 150 if tier == 'quick' else 420
    env['DRIVER_SECONDS'] = '40' if tier == 'quick' else '300'
    try:
        r = subprocess.run([exe], cwd=work, env=env, capture_output=True, text=True, errors='replace', timeout=limit)
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        rc, err = 'timeout', ''
    print(out[-20000:])
    if 'STAT ' not in out and 'FAIL ' not in out:
        case = ''
        try:
            with open(log, 'rb') as f:
                case = f.read().split(b'\0')[0].decode(errors='replace')
        except OSError:
            pass
        if rc == 'timeout':
            print('FAIL hang: the real code does not finish on: ' + case)
        else:
            print('FAIL crash (exit %s) of the real code on: %s' % (rc, case))
            print(err[-3000:])


main()
