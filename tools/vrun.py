import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.verus import Verus
r = Verus(sys.argv[1]).run("quick")
n = sum(o.status == "discharged" for o in r.obligations)
k = 0
for o in r.obligations:
    k += o.status != "discharged"
    if k > 6: break
    if o.status != "discharged" or "-v" in sys.argv:
        print(o.status, o.name, o.function, o.seconds, o.count)
d = [o.detail for o in r.obligations if o.detail]
if d:
    t = re.sub(r"(?ms)^warning.*?\n\n", "", d[0])
    print(t[:int(os.environ.get("N", "3500"))])
if "-a" in sys.argv:
    print(*r.assumptions, sep="\n")
print("nonlinear:", getattr(r, "nl", None))
print(n, "of", len(r.obligations), "discharged", round(r.seconds, 1), "s")
