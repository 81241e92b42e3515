import os
import shutil
import sys

from wamcheck.harness import main

try:
    rc = main(sys.argv[1:])
finally:
    sys.stdout.flush()
    scratch = os.environ.get("WAMCHECK_SCRATCH", "")
    if scratch.startswith("/tmp/wamcheck."):
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(rc)
