"""vfn.py TEMPLATE [SECONDS]: each proof function of the generated text alone, to find the one that does not end."""
import re, subprocess, sys, concurrent.futures as cf
t = sys.argv[1]; lim = int(sys.argv[2]) if len(sys.argv) > 2 else 30
p = f"/verif/build/verus/{t}.rs"
fns = sys.argv[3:] or re.findall(r"proof fn (\w+)", open(p).read())
fns = [f for f in fns if not f.startswith(("and_", "all_", "none_", "or_", "xor_", "not_"))]
def one(f):
    try:
        r = subprocess.run(["timeout", "-k1", str(lim), "verus", "--crate-type", "lib", "--verify-root", "--verify-function", f, p], capture_output=True, text=True)
        m = re.search(r"results:: (.*)", r.stdout + r.stderr)
        e = re.sub(r"(?ms)^warning.*?\n\n", "", r.stderr)
        return f, (m.group(1) if m else f"rc {r.returncode}"), e[:700] if "error" in e else ""
    except Exception as x:
        return f, str(x), ""
with cf.ThreadPoolExecutor(7) as ex:
    for f, m, e in ex.map(one, fns):
        print(f, "|", m); print(e) if e else None
