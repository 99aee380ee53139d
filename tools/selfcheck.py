"""setup: nothing is prebuilt (every check builds from /repo's working tree); verify that the tools are there."""
import os
import shutil
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'dv')]
import z3
import llvmir  # noqa: F401  (loads libLLVM)
for t in ('clang++-18', 'clang++', 'g++', 'cvc5'):
    print(t, shutil.which(t))
print('z3', z3.get_version_string())
