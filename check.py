#!/usr/bin/env python3-vt
import os, sys
try:
    import z3
except ImportError:
    if os.environ.get('VF_REEXEC'):
        raise
    os.environ['VF_REEXEC'] = '1'
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vf'))
sys.setrecursionlimit(100000)
import driver
sys.exit(driver.main(sys.argv[1]))
