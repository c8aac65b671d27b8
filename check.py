#!/usr/bin/env python3
"""check.py <property id> : decide one property (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vk import run_check
from registry import CHECKS

if __name__ == "__main__":
    sys.exit(run_check(sys.argv[1], CHECKS[sys.argv[1]]))
