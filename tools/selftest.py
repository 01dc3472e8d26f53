#!/usr/bin/env python3
"""setup: verify the installed tools the checks need are present (nothing is built ahead of time: every check rebuilds from /repo)."""
import shutil, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
missing = [t for t in ('clang++-18', 'opt-18', 'c++filt') if not shutil.which(t)]
import z3
import vc, llir, models, contract
assert not missing, missing
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('setup ok, z3', z3.get_version_string())
