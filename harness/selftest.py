"""The laws of Rat, checked by TLC with the freshly compiled override."""
import sys

import common

try:
    run = common.tlc("RatTest", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    ok = run.rc == 0
    print("Rat laws:", "ok" if ok else run.out[-3000:])
finally:
    common.cleanup()
sys.exit(0 if ok else 1)
