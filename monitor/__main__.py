import os
import sys

from monitor.core import main

rc = main(sys.argv[1:])
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
