#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]: decide one property of /repo's current tree."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
import driver
sys.exit(driver.main())
