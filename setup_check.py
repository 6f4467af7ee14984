"""setup_cmd: the tools the checks need are present."""
import shutil
import sys
import z3
missing = [t for t in ('clang++', 'opt', 'c++filt') if not shutil.which(t)]
if missing:
    print('missing tools:', missing)
    sys.exit(1)
print('z3', z3.get_version_string())
