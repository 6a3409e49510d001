#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property statically on /repo's current source."""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(20000)
from sa.framework import main
rc = [3]


def go(): rc[0] = main(sys.argv)


t = threading.Thread(target=go); t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0])
