#!/usr/bin/env python3
"""check.py <property id> [--thorough]  -- decide one property on /repo's current tree."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(H, "lib")]
sys.dont_write_bytecode = True
import framework
sys.exit(framework.main(sys.argv))
