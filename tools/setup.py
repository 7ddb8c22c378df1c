"""checks that the tools the checks need are there; nothing is installed or downloaded"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import z3path  # noqa
import z3  # noqa
import Cython  # noqa
import numpy  # noqa
print('z3', z3.get_version_string(), 'cython', Cython.__version__, 'numpy', numpy.__version__)
