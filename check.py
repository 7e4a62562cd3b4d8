#!/usr/bin/env python3
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import common          # noqa: E402
from vt.registry import REG    # noqa: E402
if __name__ == "__main__":
    sys.exit(common.main(REG))
