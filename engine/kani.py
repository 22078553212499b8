"""Engine K: Kani on a copy of /repo/src in which std::simd is replaced by kani/vsimd.rs (the same operations, lane by lane, in plain
Rust) and to which the harness modules of kani/contracts are appended. Every harness takes inputs over the full domain; loops are
bounded by operand width and unwinding assertions are on, so an accepted harness is a proof and not a bounded check."""
import os, re, shutil, time
from .common import BUILD, REPO, VERIF, Lock, Obligation, StageResult, run

BACKEND = "Kani/CBMC"


class Kani:
    def __init__(self, group, files, prefix, functions):
        """files: contract modules (kani/contracts/F.rs, appended to src/F.rs); functions: harness -> function under contract."""
        self.group, self.files, self.prefix, self.functions = group, files, prefix, functions
        self.name = "kani:" + group

    def prepare(self):
        d = os.path.join(BUILD, "kani", self.group)
        src = os.path.join(d, "src")
        if os.path.exists(src):
            shutil.rmtree(src)
        shutil.copytree(os.path.join(REPO, "src"), src)
        for root, _, fs in os.walk(src):
            for f in fs:
                if f.endswith(".rs"):
                    p = os.path.join(root, f)
                    t = open(p).read().replace("std::simd", "crate::vsimd")
                    if root == src and f[:-3] in self.files:
                        t += "\n" + open(os.path.join(VERIF, "kani", "contracts", f)).read()
                    if root == src and f == "lib.rs":
                        t = re.sub(r"(?m)^(pub )?mod (\w+);", r"mod vsimd;\n\g<0>", t, count=1)
                    open(p, "w").write(t)
        shutil.copy(os.path.join(VERIF, "kani", "vsimd.rs"), src)
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(VERIF, "kani", f), d)
        return d

    def run(self, tier):
        t0 = time.time()
        res = StageResult(self.name)
        with Lock("kani-" + self.group):
            d = self.prepare()
            env = dict(os.environ)
            for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER"):
                env.pop(k, None)
            env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/bin"
            env.setdefault("HOME", "/root")
            env["CARGO_NET_OFFLINE"] = "true"
            cmd = ["cargo", "kani", "--no-default-features", "--harness", self.prefix, "-j", "4", "--output-format=terse"]
            res.cmd = " ".join(cmd)
            rc, out, err, secs = run(cmd, 700, cwd=d, env=env)
        out = out or ""
        # the output of one thread at a time, from "Checking harness" to the verdict
        cur, got = {}, {}
        for part in re.split(r"(?m)^(?=Thread \d+:)", out):
            m = re.match(r"Thread (\d+):", part)
            th = m.group(1) if m else "0"
            h = re.search(r"Checking harness \S*?(\w+)\.\.\.", part)
            if h:
                cur[th] = h.group(1)
            if "VERIFICATION:-" in part and th in cur:
                got[cur[th]] = part
        for h in sorted(self.functions):
            f = self.functions[h]
            o = Obligation(f"kani:{h}", f, BACKEND, "undecided")
            part = got.get(h)
            if part is None:
                e = [l for l in (err or "").split("\n") + out.split("\n") if l.startswith("error")]
                o.status = "lost" if e else "undecided"
                o.detail = "; ".join(e)[:600] or "no verdict in time"
            else:
                m = re.search(r"\*\* (\d+) of (\d+) failed", part)
                o.count = max(1, int(m.group(2))) if m else 1
                m = re.search(r"Verification Time: ([\d.]+)", part)
                o.seconds = float(m.group(1)) if m else 0.0
                if "VERIFICATION:- SUCCESSFUL" in part:
                    o.status = "discharged"
                else:
                    bad = re.findall(r"Failed Checks: (.*)", part)
                    o.detail = "; ".join(bad) or part[-600:]
                    real = [b for b in bad if "unwinding" not in b and "not currently supported" not in b and "unsupported" not in b]
                    o.status = "failed" if real else "undecided"
            res.obligations.append(o)
        res.assumptions += [
            "Kani runs on a copy of the source in which std::simd is replaced by kani/vsimd.rs: the portable vectors as arrays of lanes",
            "Kani: std::io, core and glam as compiled; a panic while formatting errors is not looked at beyond what the harness reaches",
        ]
        res.seconds = time.time() - t0
        return res
