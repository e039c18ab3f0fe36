#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
from driver import ToolError
import plans

if __name__ == "__main__":
    prop = sys.argv[1]
    driver.main(prop, plans.PLANS[prop])
