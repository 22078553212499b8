"""Replay stage: evaluates the contracts on concrete inputs against the real crate, to give a failing input."""
import json, os, time
from .common import BUILD, EVIDENCE, REPO, VERIF, Lock, run, rust_env

TARGET = os.path.join(BUILD, "replay")
BIN = os.path.join(TARGET, "debug", "replay")
CRATE = os.path.join(VERIF, "replay")


class BuildError(Exception):
    pass


def build():
    with Lock("replay"):
        rc, out, err, s = run(["cargo", "build", "--offline", "-q"], 700, cwd=CRATE,
                              env=rust_env(CARGO_TARGET_DIR=TARGET))
    if rc != 0:
        raise BuildError((err or out)[-4000:])
    return s


def last_json(out):
    for line in reversed(out.splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return None


def explore(prop, seed, secs, scale=1.0, timeout=None):
    """Returns a dict: result ok|fail|error, with case and message on fail."""
    t = time.time()
    timeout = timeout or secs + 90
    args = [BIN, prop, "--seed", str(seed), "--secs", str(secs), "--scale", str(scale)]
    rc, out, err, _ = run(args, timeout)
    r = last_json(out)
    if r is None:
        # The process died (or hung beyond its own watchdog): find the case.
        rc1, out1, err1, _ = run(args + ["--threads", "1", "--trace"], timeout * 2)
        cases = [l for l in out1.splitlines() if l.startswith("TRACE ")]
        r1 = last_json(out1)
        if r1 is not None and r1["result"] == "fail":
            r = r1
        else:
            how = f"the process ends with {rc}: {(err or '').strip()[-600:]}"
            case = int(cases[-1].split()[1]) if r1 is None and cases else None
            r = {"result": "fail", "property": prop, "seed": seed, "case": case, "message": how, "evaluations": len(cases)}
    r["wall_s"] = round(time.time() - t, 2)
    r["cmd"] = " ".join(args)
    return r


def write_replay(prop, content):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop}.replay.json")
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
        f.write("\n")
    return path
