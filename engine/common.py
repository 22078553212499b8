"""Shared pieces: paths, running commands with limits, obligations."""
import fcntl, os, signal, subprocess, time
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OZZ_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def rust_env(**kw):
    env = dict(os.environ)
    env.pop("SAVE_TO_EXPECTED", None)
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env.update({
        "RUSTUP_TOOLCHAIN": "nightly-2025-12-01", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
        "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "RUSTFLAGS": "-Awarnings",
    })
    env.update(kw)
    return env


def run(cmd, timeout, cwd=None, env=None, stdin=None):
    """Runs a command in its own process group. Returns (rc, stdout, stderr, seconds); rc None on timeout."""
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out, err, time.time() - t


class Lock:
    """Serialises builds that share a directory."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


@dataclass
class Obligation:
    name: str                 # what is proved
    function: str             # the function of /repo under contract
    backend: str              # Verus/Z3, Kani/CBMC, ozz-vc/...
    status: str               # discharged | failed | undecided | lost
    seconds: float = 0.0
    bounded: str = ""         # non-empty: a bounded stand-in, with the bound
    detail: str = ""          # reason, verifier output
    count: int = 1            # elementary obligations inside it


@dataclass
class StageResult:
    stage: str
    obligations: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)
    cmd: str = ""
    seconds: float = 0.0
    notes: list = field(default_factory=list)
