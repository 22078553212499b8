#!/usr/bin/env python3
"""mkseed.py <dir with spec.py and demo.rs>... : makes /verif/seeded/<id> from a description and confirms it.

spec.py: property, file, edits [(old, new)], needs, what_it_breaks."""
import json, os, shutil, subprocess, sys, re
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
OUT = "/verif/seeded"
S = "/tmp/seedrepo"
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="nightly-2025-12-01")

def sh(cmd, cwd=S, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)

if not os.path.isdir(S):
    subprocess.run(["cp", "-a", "/repo", S], check=True)
for d in sys.argv[1:]:
    sid = os.path.basename(os.path.abspath(d))
    ns = {}
    exec(open(os.path.join(d, "spec.py")).read(), ns)
    sh("git checkout -q -- . && git clean -fdq -e target -e demo/target")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh("git rev-parse HEAD").stdout.strip() != head:
        sh(f"git fetch -q /repo HEAD && git reset -q --hard {head}")
    o = os.path.join(OUT, sid)
    os.makedirs(o, exist_ok=True)
    for f, to in ((os.path.join(d, "demo.rs"), "demo.rs"), (LIB + "/h.rs", "h.rs"), (LIB + "/demo.sh", "demo.sh")):
        if os.path.abspath(f) != os.path.join(o, to):
            shutil.copy(f, os.path.join(o, to))
    os.chmod(o + "/demo.sh", 0o755)
    r0 = sh(f"bash {o}/demo.sh")
    edits = ns["edits"]
    for e in edits:
        f, old, new = e if len(e) == 3 else (ns["file"], *e)
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    open(o + "/patch.diff", "w").write(diff)
    r1 = sh(f"bash {o}/demo.sh")
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    failed = re.findall(r"^test (\S+) \.\.\. FAILED", t.stdout, re.M)
    ok = len(re.findall(r"^test \S+ \.\.\. ok", t.stdout, re.M))
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["what_it_breaks"]}, open(o + "/meta.json", "w"), indent=1)
    good = r0.returncode == 0 and r1.returncode != 0 and not failed and ok >= 110
    print(f"{sid}: {'GOOD' if good else 'BAD'} clean={r0.returncode} patched={r1.returncode} tests ok={ok} failed={failed}")
    if not good:
        print(r0.stdout[-500:], "\n".join(l for l in r0.stderr.splitlines() if l.startswith("error") or "-->" in l or "panick" in l)[:900], "--- patched", r1.stdout[-300:], r1.stderr[-400:], t.stderr[-800:] if not ok else "")
    else:
        print("   ", [x[:200] for x in r1.stderr.strip().splitlines()[-3:]] )
sh("git checkout -q -- .")
