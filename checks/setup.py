#!/usr/bin/env python3
"""Build the analysers and warm the caches (every check also does this on demand)."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [here + '/lib']
import common
common.build_tools(); common.facts(); common.ir()
print('setup ok')
