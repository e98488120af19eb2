"""Evaluates one call specification (JSON on stdin) in a process of its own; prints the observation as one JSON line."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot
boot.boot()
from sim import calls
spec = json.load(sys.stdin)
out = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
res = calls.do(spec)
with os.fdopen(out, 'w') as f:
    f.write(json.dumps(res) + '\n')
