#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
from vc.runner import main
rc = [3]
t = threading.Thread(target=lambda: rc.__setitem__(0, main(sys.argv[1:])))
t.start()
t.join()
sys.stdout.flush()
from vc import build
build.cleanup()
os._exit(rc[0])
