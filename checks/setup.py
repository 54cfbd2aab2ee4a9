"""setup_cmd: nothing to build ahead of time (each check builds from /repo); verifies that the tools the checks need are there."""
import shutil
import sys
import z3
for t in ('clang++-18', 'g++', 'c++filt'):
    if not shutil.which(t) and not (t == 'clang++-18' and shutil.which('clang++')):
        sys.exit('missing tool: ' + t)
print('ok: z3', z3.get_version_string())
