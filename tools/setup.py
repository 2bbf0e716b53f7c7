"""Nothing is compiled: check that the interpreter and the target are usable."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert sys.version_info[:2] == (3, 12), sys.version
import numpy, scipy, torch, sklearn, matplotlib  # noqa: E401,F401
assert os.path.isdir("/repo/kd"), "no /repo/kd"
json.load(open(os.path.join(ROOT, "MANIFEST.json")))
print("setup ok")
