#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
from vf import check
if __name__ == "__main__":
    rc = check.main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
