"""sanity test of the installed tools; nothing is built ahead (every check compiles /repo's current tree)"""
import shutil
import sys
missing = [t for t in ('clang', 'opt', 'cvc5', 'gcc') if not shutil.which(t) and not shutil.which(t + '-18')]
import z3  # noqa
print('setup: ok' if not missing else 'setup: missing ' + ' '.join(missing))
sys.exit(0)
