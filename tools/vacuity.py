"""vacuity.py TEMPLATE...: where `assert(false)` is accepted in the verified text."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.verus import Verus
for t in sys.argv[1:]:
    bad, note = Verus(t).probes()
    print(t, note if bad is None else (note, bad or "none accepted"))
