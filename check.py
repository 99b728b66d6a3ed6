#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: decides one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run  # noqa: E402

sys.exit(run.main(sys.argv[1:]))
