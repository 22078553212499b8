#!/usr/bin/env python3
"""trybug.py [--prop CNN] <seed id | patch file>...: runs the property's check against a scratch clone of /repo with the patch applied
(bind mounts in a mount namespace of its own: neither /repo nor /verif is touched). With --prop, the check of that property."""
import json, os, shutil, subprocess, sys, tempfile, time
args = sys.argv[1:]
prop0 = None
if args and args[0] == "--prop":
    prop0, args = args[1], args[2:]
ids = args or sorted(os.listdir("/verif/seeded"))
S = tempfile.mkdtemp(prefix="trybug")
try:
    os.mkdir(S + "/verif")
    for n in os.listdir("/verif"):
        if n not in (".git", "seeded", "evidence"):
            subprocess.run(["cp", "-a", "/verif/" + n, S + "/verif/"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", S + "/repo"], check=True)
    for f in ("Cargo.lock",):
        if not os.path.exists(f"{S}/repo/{f}") and os.path.exists("/repo/" + f):
            shutil.copy("/repo/" + f, f"{S}/repo/{f}")
    for i in ids:
        if os.path.isfile(i):
            patch = os.path.abspath(i)
            prop = prop0 or open(patch[:-5] + ".prop").read()
        else:
            patch = f"/verif/seeded/{i}/patch.diff"
            prop = prop0 or json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        subprocess.run(["git", "-C", S + "/repo", "apply", patch], check=True)
        t = time.time()
        for p in prop.split(","):
            r = subprocess.run(["unshare", "-Urm", "sh", "-c", f"mount --bind {S}/repo /repo && mount --bind {S}/verif /verif && cd /verif && "
                            f"exec timeout 900 {sys.executable} /verif/check.py {p}"], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            bad = [l[:160] for l in r.stdout.splitlines() if "obligation failed" in l or "degraded" in l or "not decided" in l][:6]
            print(f"{os.path.basename(i)} {p}: rc={r.returncode} {time.time()-t:.0f}s {v[:1]}\n    " + "\n    ".join(bad), r.stderr[-300:], flush=True)
        subprocess.run(["git", "-C", S + "/repo", "checkout", "-q", "--", "."], check=True)
finally:
    shutil.rmtree(S)
