#!/usr/bin/env python3
"""check.py <property>: decides one property; see DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import runner

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1]))
