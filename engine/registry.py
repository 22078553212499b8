"""The checks: which engines decide which property."""
import os
from . import kani, straight, verus
from .notes import KANI, NOTES, TOOL
from .common import VERIF


class Spec:
    def __init__(self, stages=lambda: [], level="exploration", technique="executable contracts on the real crate (generated inputs)",
                 note="Bounded: contracts evaluated on generated inputs; no proof yet.", explain="", trusted=(), assumptions=()):
        self.stages, self.level, self.technique, self.note = stages, level, technique, note
        self.explain, self.trusted, self.assumptions = explain, list(trusted), list(assumptions)


K = {
    "C03": ("keys", ["animation", "math"], "c03", {
        "c03_unpack": "animation.rs QuaternionKey::unpack", "c03_float3": "animation.rs Float3Key::decompress",
        "c03_float3_lanes": "animation.rs Float3Key::simd_decompress", "c03_f16": "math.rs f16_to_f32", "c03_f16_lanes": "math.rs simd_f16_to_f32"}),
    "C05": ("archive", ["archive"], "c05", {
        f"c05_{t}": f"archive.rs Archive::new, ArchiveRead<{t}>::read" for t in "u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 bool".split()}),
}


def V(*t, k=None):
    """Templates; ("template", regex): of that template, the functions whose path matches (the rest by contract)."""
    return lambda: [straight.Straight() if x == "=invert" else verus.Verus(x) if isinstance(x, str) else verus.Verus(x[0], only=x[1]) for x in t] + ([kani.Kani(*K[k])] if k else [])



PROPS = {}
for _p, _t in {"C01": ["cache", "decompress", "sampling", "gv4"], "C02": ["cache", "decompress", "sampling"], "C03": ["keys", "keysb"], "C04": ["gv4"], "C05": ["archive"], "C06": ["layout", "archive", "load"], "C07": ["layout", "copies"], "C08": ["ltm"], "C09": ["skeleton"],
                "C10": ["blending", "kernel"], "C11": ["motion"], "C12": ["skinning"], "C13": ["track", "track_any"], "C14": ["track", "track_any"], "C18": ["trig"], "C15": ["twobone", "quats", "turns", "=invert"], "C16": ["aim", "quats", "turns", "=invert"], "C20": ["bufs", "skinning"] + [(t, r"::(run|validate\w*)$") for t in "ltm sampling blending track track_any".split()], "C19": [(t, r"::(run|validate\w*)$") for t in "ltm sampling blending skinning track track_any motion aim twobone".split()], "C17": ["kernel", "mats", "quats", "=invert"]}.items():
    PROPS[_p] = Spec(stages=V(*_t, k=_p if _p in K else None), level="proof", technique="contract-based deductive verification: Verus" + (", Kani" if _p in K else "") + (", symbolic execution of the inverse" if _p in ("C15", "C16", "C17") else ""),
                     note=NOTES[_p][0] + ". " + NOTES[_p][1] + " Assumed: " + "; ".join(NOTES[_p][2]) + ".", explain=NOTES[_p][1],
                     trusted=TOOL + (KANI if _p in K else []) + NOTES[_p][2])

NOT_APPLICABLE = {
    "C21": "The contracts are proved on one compilation of the source; agreement of x86-64, AArch64 and WebAssembly code is a statement about three compilers' outputs, which no contract on the source expresses, and only x86-64 runs here.",
    "C22": "Absence of data races is decided by the type system from the unsafe Send and Sync impls; a sequential contract verifier cannot express a schedule, and the unsafe impls are a trusted assumption of the other proofs.",
}


def known_findings(prop):
    """Findings recorded and not repaired: lines 'finding: property=<id> <what fails>'."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            if l.startswith(f"finding: property={prop} "):
                out.append(l.split(" ", 2)[2].strip())
    return out
