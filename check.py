#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver
sys.exit(driver.main(sys.argv[1:]))
