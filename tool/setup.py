#!/usr/bin/env python3
"""setup_cmd: builds the IR dumper from the committed source."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import lib
print(lib.build_irdump(None))
