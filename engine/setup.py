"""Nothing is built ahead of a check; confirm the tools the checks need are present."""
import shutil
import sys
import z3
import cvc5
for t in ('clang++', 'opt', 'c++filt'):
    if not shutil.which(t):
        print('missing', t); sys.exit(1)
print('ok z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
