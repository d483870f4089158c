"""nothing to build: check that the tools the analysis uses are there"""
import shutil
import sys
assert sys.version_info >= (3, 9)
for t in ('clang++',):
    if not shutil.which(t):
        print('missing', t)
        sys.exit(1)
print('ok')
