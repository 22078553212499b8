"""Engine V: Verus on functions extracted from /repo.

A template is a Verus file with directives:
  //@fn FILE PATH            the function to extract; the block ends with //@end
  //@sub REGEX ==> TEXT      a mechanical substitution on the extracted text (listed in the evidence); it must apply,
                             //@sub? may apply
  //@rename NAME             name of the function in the verified text
  //@ret NAME                names the result
  //@spec                    following lines: requires / ensures / decreases
  //@loop N HEADER           following lines: invariants of loop N, whose header text must be HEADER
  //@pre N / //@start N / //@stop N / //@post N   following lines: proof text before, at the start of the body of, at the
                             end of the body of, after loop N
  //@begin / //@finish       proof text at the start / end of the function body (finish: before a tail-less end)
  //@after TEXT              proof text after the statement containing TEXT (whitespace ignored)
  FILE may end in !: the file with its own macros expanded by rustc (-Zunpretty=expanded)
  //@item FILE KIND NAME     extracts a struct, enum or const item (with optional //@sub lines, ended by //@end)
  //@ring NAME VARIABLES       a polynomial identity: `let x = e;` and `e == e;` lines, ended by //@end (see ring.py)
  //@nra NAME VARIABLES        a polynomial inequality: `let x = e;`, `given e <= e;` and `e <= e;` lines, ended by //@end
  //@const FILE NAME         extracts a constant as a function of no argument NAME(); its uses become calls
  //@include NAME            the text of verus/inc/NAME
  //@use TEMPLATE            the items of another template, its functions by contract only (their proofs are that template's)
  //@base                    what another template takes with //@use starts here
  //@real                    the same; and from here on, f32 in extracted text is the type F of inc/simd.rs (a real number): literals
                             become F::lit(Ghost(n/d)), local constants become variables, `a op= b` becomes `a = a op (b)`
"""
import json, os, re, time
from . import extract, ring
from .common import BUILD, VERIF, Obligation, StageResult, run
from .extract import Lost

BACKEND = "Verus/Z3"


def parse(path):
    """Splits a template into text chunks and directive blocks."""
    chunks, block, sect = [], None, None
    for line in open(path):
        s = line.strip()
        if s.startswith("//@"):
            d, _, rest = s[3:].partition(" ")
            if d == "include":
                chunks.append([f"//INC {rest.strip()}\n"] + [l for l in open(os.path.join(VERIF, "verus", "inc", rest.strip()))] + ["//END INC\n"])
            elif d == "use":
                sub = parse(os.path.join(VERIF, "verus", rest.strip() + ".rs"))
                k = [i for i, c in enumerate(sub) if isinstance(c, dict) and c["kind"] in ("real", "base") and "stub" not in c][0]
                sub = sub[k:]
                last = "".join(sub[-1]).rstrip()
                assert last.endswith("}")
                sub[-1] = [last[:-1] + "\n"]
                for c in sub:
                    if isinstance(c, dict):
                        c["stub"] = rest.strip()
                    else:  # the laws of an impl are proved where the impl is
                        c[:] = [re.sub(r"^(\s*)proof fn law\((?=.*\{)", r"\1#[verifier::external_body] proof fn law(", l) for l in c]
                if sub[0]["kind"] == "base" and any(isinstance(c, dict) and c["kind"] == "real" for c in chunks):
                    # a template about f32, used where f32 is F: its contracts speak of the order of the values only
                    for c in sub:
                        for t in [c] if isinstance(c, list) else [x for _, _, x in c["sections"]] if "sections" in c else []:
                            t[:] = [re.sub(r"\bf32\b", "F", l) for l in t]
                chunks += sub
                chunks.append([])
            elif d in ("real", "base", "round"):
                chunks.append({"kind": d, "sub": []})
            elif d in ("fn", "item", "const", "ring", "nra"):
                block = {"kind": d, "arg": rest.strip(), "sub": [], "sections": []}
                sect = ["ring", "", []] if d in ("ring", "nra") else None
                block["sections"] += [sect] if sect else []
            elif d == "end":
                chunks.append(block)
                block = None
            elif d in ("sub", "sub?"):
                rx, to = rest.split("==>", 1)
                block["sub"].append((rx.strip(), to.strip(), d == "sub"))
            elif d in ("rename", "ret", "drop", "nonlinear"):
                block[d] = rest.strip()
            else:
                sect = [d, rest.strip(), []]
                block["sections"].append(sect)
        elif block is not None:
            if sect is None:
                raise ValueError(f"{path}: text outside a section: {line}")
            sect[2].append(line)
        else:
            if chunks and isinstance(chunks[-1], list):
                chunks[-1].append(line)
            else:
                chunks.append([line])
    return chunks


def to_f32(f):
    """The f32 nearest to a rational (ties to even), for numbers of ordinary size."""
    from fractions import Fraction
    if f == 0:
        return f
    e = 0
    while abs(f) * Fraction(2) ** e < 2 ** 23:
        e += 1
    while abs(f) * Fraction(2) ** e >= 2 ** 24:
        e -= 1
    assert e <= 149, "subnormal literal"
    return Fraction(round(f * Fraction(2) ** e)) / Fraction(2) ** e


def lit32(m):
    return lit(m, to_f32)


def lit(m, to=lambda f: f):
    from fractions import Fraction
    f = to(Fraction(m.group(1).rstrip(".").replace("_", "")))
    return f"F::lit(Ghost({f.numerator}real / {f.denominator}real))" if f.denominator != 1 else f"F::lit(Ghost({f.numerator}real))"


def realise(t, consts, mode=True):
    """f32 text to real text: see //@real."""
    lt = lit32 if mode == "round" else lit
    t = re.sub(r"(?<![\w.])(\d[\d_]*\.\d*(?:e[+-]?\d+)?)(?:_?f32)?(?![\w.(])", lt, t)
    t = re.sub(r"(?<![\w.])(\d[\d_]*?)_?f32\b", lt, t)
    t = re.sub(r"\bf32\b(?!::)", "F", t)
    t = re.sub(r"\bf32::(\w+)\(", r"F::\1(", t)
    t = re.sub(r"\bconst\s+(\w+)\s*:", r"let \1:", t)
    t = re.sub(r"\bpub\((?:crate|super)\)", "pub", t)
    t = re.sub(r"\b(\w[\w.]*(?:\[[^\]]*\])?)\s*([-+*/])=\s*([^;]*);", r"\1 = \1 \2 (\3);", t)
    for c in consts:
        t = re.sub(r"(?<![\w.:])(?:math::)?%s\b(?!\s*[(:])" % c, c + "()", t)
    return t


def build_const(b):
    rel, name = b["arg"].split(" ", 1)
    t = extract.drop_attrs(extract.find_item(rel, "const", name))
    for rx, to, need in b["sub"]:
        t, n = re.subn(rx, to, t)
    m = re.match(r"(?:pub(?:\([^)]*\))?\s+)?const\s+\w+\s*:\s*(.*?)=(.*);\s*$", t, re.S)
    if not m:
        raise Lost(f"constant {name} has another form")
    ty, e = m.group(1).strip(), m.group(2).strip()
    spec = "".join("".join(x) for k, _, x in b["sections"] if k == "spec")
    return name, ty, e, spec


def build_fn(b, real=False, consts=(), stub=False, nl=False, probe=None):
    rel, path = b["arg"].split(" ", 1)
    f = extract.find_fn(rel, path)
    body = extract.drop_attrs(f.body)
    sig = extract.drop_attrs(f.sig)
    if real:
        sig = re.sub(r"\bconst\s+fn\b", "fn", sig)
    for rx, to, need in b["sub"]:
        # (A rewriting that finds nothing is no loss: the text is then the source as it is.)
        body, sig = re.sub(rx, to, body), re.sub(rx, to, sig)
    if real:
        body, sig = realise(body, consts, real), realise(sig, ())
    name = b.get("rename", f.name)
    sig = re.sub(r"\bfn\s+%s\b" % f.name, "fn " + name, sig)
    if "ret" in b:
        m = re.search(r"->\s*(.*)$", sig)
        if not m:
            raise Lost(f"{path} returns nothing")
        sig = sig[:m.start()] + f"-> ({b['ret']}: {m.group(1).strip()})"
    if stub:
        spec = "".join("".join(x) for k, _, x in b["sections"] if k == "spec")
        return name, f"#[verifier::external_body] {chr(47)}* by contract *{chr(47)}\n{sig}\n{spec}{{ unimplemented!() }}\n", []
    lp = extract.loops(body)
    ins = []  # (offset, order, text)
    seen, changed = set(), []
    spec = ""
    for kind, arg, text in b["sections"]:
        t = "".join(text)
        if kind == "spec":
            spec = t
        elif kind in ("loop", "pre", "start", "stop", "post"):
            n, _, head = arg.partition(" ")
            n = int(n)
            if n > len(lp):
                raise Lost(f"{path}: loop {n} is gone")
            i, j = lp[n - 1]
            if kind == "loop":
                seen.add(n)
                if extract.norm(body[i:j]) != extract.norm(head):
                    now = " ".join(body[i:j].split())
                    if now.split(" ")[0] != head.split(" ")[0]:
                        raise Lost(f"{path}: loop {n} is now `{now}`")
                    changed.append(f"loop {n} is now `{now}`")
                ins.append((j, 1, "\n" + t))
            elif kind == "pre":
                ins.append((i, 0, "\n" + t))
            elif kind == "start":
                ins.append((j + 1, 2, "\n" + t))
            elif kind == "stop":
                ins.append((extract.match_close(body, j), 0, "\n" + t))
            else:
                ins.append((extract.match_close(body, j) + 1, 2, "\n" + t))
        elif kind == "begin":
            ins.append((0, 0, "\n" + t))
        elif kind == "finish":
            ins.append((len(body), 3, "\n" + t))
        elif kind == "after":
            # position after the ';' of the statement containing arg
            pos, key = None, extract.norm(arg)
            idx = [k for k, c in enumerate(body) if not c.isspace()]
            packed = "".join(body[k] for k in idx)
            hit = packed.find(key)
            if hit < 0 or packed.find(key, hit + 1) >= 0:
                raise Lost(f"{path}: the statement `{arg}` is gone")
            k = idx[hit]
            while body[k] != ";":
                if body[k] in "([{":
                    k = extract.match_close(body, k)
                k += 1
                if k >= len(body):
                    raise Lost(f"{path}: no end of the statement `{arg}`")
            ins.append((k + 1, 2, "\n" + t))
        else:
            raise ValueError(kind)
    if probe is not None:
        at = [("entry", 0, 3)] + [(f"loop {n + 1}", j + 1, 3) for n, (i, j) in enumerate(lp)]
        k, last, begin = 0, None, 0
        while k < len(body):
            if body[k] in "([{":
                k = extract.match_close(body, k)
            elif body[k] == ";":
                if not re.match(r"\s*(return|break)\b", body[begin:k]):
                    last = k + 1
                begin = k + 1
            k += 1
        at += [("end", last, 4)] if last else []
        for what, off, order in at:
            ins.append((off, order, f"\nproof {{ if vacuous({len(probe)}) {{ assert(false); }} }}\n"))
            probe.append(f"{path}: {what}")
    if len(seen) != len(lp):
        raise Lost(f"{path}: {len(lp)} loops, {len(seen)} expected")
    for off, _, t in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
        body = body[:off] + t + body[off:]
    if real and (nl or "nonlinear" in b):
        sig = "#[verifier::nonlinear]\n" + sig
    return name, f"{sig}\n{spec}{{{body}}}\n", changed


class Verus:
    def __init__(self, template, props=None, only=None, rlimit=60, timeout=300):
        self.name = "V:" + template
        self.template, self.rlimit, self.timeout, self.only = template, rlimit, timeout, only
        self.stem = template + ("_part" if only else "")

    def generate(self, stubs=(), nl=(), probe=None):
        lines, spans, subs, self.changed = [], [], [], {}
        self.fns, self.rings = set(), []
        real, consts, used = False, [], set()
        for c in parse(os.path.join(VERIF, "verus", self.template + ".rs")):
            if isinstance(c, list):
                lines += [x for l in c for x in l.rstrip("\n").split("\n")]
                continue
            if c["kind"] in ("real", "base", "round"):
                real = real or (c["kind"] != "base" and {"real": True, "round": "round"}[c["kind"]])
                continue
            if c["kind"] in ("ring", "nra"):
                n, *args = c["arg"].split()
                t = (ring.verus_text if c["kind"] == "ring" else ring.verus_nra)(n, args, c["sections"][0][2])
                lines += t.split("\n")
                if "stub" not in c:
                    self.rings.append((c["kind"], n, args, c["sections"][0][2]))
                continue
            if c["kind"] == "const":
                name, ty, e, spec = build_const(c)
                if real:
                    ty, e = realise(ty, consts, real), realise(e, consts, real)
                a = len(lines) + 1
                if "stub" in c:
                    lines += f"#[verifier::external_body] /* by contract */\npub fn {name}() -> (r: {ty})\n{spec}{{ unimplemented!() }}".split("\n")
                    used.add(c["stub"])
                else:
                    lines += f"pub fn {name}() -> (r: {ty})\n{spec}{{ {e} }}".split("\n")
                    spans.append((a, len(lines), name, c["arg"].replace(" ", ":", 1)))
                self.changed[name] = []
                consts.append(name)
            elif c["kind"] == "item":
                rel, kind, name = c["arg"].split(" ")
                t = extract.drop_attrs(extract.find_item(rel, kind, name))
                for rx, to, need in c["sub"]:
                    t, n = re.subn(rx, to, t)
                    if need and not n:
                        raise Lost(f"{name}: nothing matches {rx}")
                if real:
                    t = realise(t, ())
                lines += t.split("\n")
            else:
                key = c["arg"].split(" ", 1)[1]
                if self.only and "stub" not in c and not re.search(self.only, key):
                    c["stub"] = self.template
                try:
                    name, t, ch = build_fn(c, real, consts, stub=key in stubs or "stub" in c, nl=key in nl,
                                           probe=None if "stub" in c else probe)
                except Lost as e:
                    # The function has another shape than its contract was written for: used by contract, reported as lost.
                    if "stub" in c or not isinstance(stubs, dict):
                        raise
                    stubs[key] = str(e)
                    name, t, ch = build_fn(c, real, consts, stub=True)
                name = key
                self.changed[name] = ch
                a = len(lines) + 1
                lines += t.split("\n")
                if "stub" in c:
                    used.add(c["stub"])
                    continue
                self.fns.add(key)
                spans.append((a, len(lines), name, c["arg"].replace(" ", ":", 1)))
            if "stub" in c:
                continue
            subs += [f"{c['arg']}: {a} -> {b or '(nothing)'}" for a, b, _ in c["sub"]]
        for u in sorted(used):
            subs.append(f"functions of template {u} are used by contract; V:{u} discharges these contracts")
        if "//INC anyfloat.rs" in lines:
            subs.append("f32 stands for numbers whose operations give unspecified results (comparison: any antisymmetric relation)")
        elif real == "round":
            subs.append("f32 and f32x4 stand for real numbers rounded by every operation (IEEE single precision, see inc/round.rs); "
                        "literals are rounded to the nearest f32")
        elif real:
            subs.append("f32, f32x4 and their operations stand for real numbers: rounding, overflow and NaN are not modelled")
        return "\n".join(lines) + "\n", spans, subs

    def probes(self):
        """Places at which `assert(false)` would be accepted: there, preconditions, invariants or callee contracts contradict
        each other (or the place cannot be reached)."""
        probe = []
        try:
            text, spans, subs = self.generate(probe=probe)
        except Lost as e:
            return None, str(e)
        d = os.path.join(BUILD, "verus")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.stem + "_probe.rs")
        i = text.rindex("}")
        with open(path, "w") as f:
            f.write(text[:i] + "pub uninterp spec fn vacuous(n: int) -> bool;\n" + text[i:])
        env = dict(os.environ)
        env["PATH"] = env.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/bin:/root/.cargo/bin"
        rc, out, err, secs = run(["verus", "--output-json", "--triggers-mode", "silent", "--multiple-errors", "60", "--rlimit", "20",
                                  "--num-threads", "4", "--crate-type", "lib", path], 600, cwd=d, env=env)
        err = err or ""
        if "error[E" in err or rc is None:
            return None, err[-600:]
        hit = {int(m) for m in re.findall(r"vacuous\((\d+)\) \{ assert\(false\)", err)}
        return [w for n, w in enumerate(probe) if n not in hit], f"{len(probe)} probes, {secs:.0f} s"

    def run(self, tier):
        t0 = time.time()
        res = StageResult(self.name)
        stubs, nl, first = {}, set(), None
        d = os.path.join(BUILD, "verus")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.stem + ".rs")
        cmd = ["verus", "--output-json", "--time-expanded", "--triggers-mode", "silent", "--rlimit", str(self.rlimit), "--num-threads", "4",
               "--crate-type", "lib", path]
        res.cmd = " ".join(cmd)
        env = dict(os.environ)
        env["PATH"] = env.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/bin:/root/.cargo/bin"
        env.setdefault("HOME", "/root")
        while True:
            try:
                text, spans, subs = self.generate(stubs, nl)
            except Lost as e:
                res.obligations.append(Obligation(f"{self.template}: extraction", "-", BACKEND, "lost", detail=str(e)))
                res.seconds = time.time() - t0
                return res
            with open(path, "w") as f:
                f.write(text)
            rc, out, err, secs = run(cmd, 120 if first else self.timeout, cwd=d, env=env)
            res.seconds = time.time() - t0
            try:
                js = json.loads(out[out.index("{"):])
                vr = js["verification-results"]
            except (ValueError, KeyError):
                js, vr = None, None
            err = re.sub(r"(?ms)^warning.*?\n\n", "", err or "")
            tail = err[:3000]
            where = blame(err, self.stem, spans)
            if not first and (rc is None or vr is None) or vr and vr.get("encountered-vir-error") or ("error[E" in err) or \
                    (vr and vr.get("errors", 0) == 0 and rc != 0):
                # Functions whose text is out of the verifier's reach are replaced by their contracts, and reported as lost.
                new = [n for n in dict.fromkeys(where) if n not in stubs and n in self.fns][:1] if rc is not None else []
                if new and len(stubs) < 20 and time.time() - t0 < self.timeout:
                    stubs[new[0]] = tail
                    continue
                st = "undecided" if rc is None else "lost"
                for _, _, n, src in spans:
                    res.obligations.append(Obligation(f"{self.template}::{n} meets its contract", src, BACKEND, st, detail=tail))
                return res
            limited = set(blame(err, self.stem, spans, "esource limit"))
            if first:
                # Refused in one mode and not decided in the other is refused; not decided in either is not decided.
                limited0 = set(blame(first[2], self.stem, spans, "esource limit"))
                if rc is None or vr is None:
                    js, vr, err, where = first
                    limited = limited0
                else:
                    limited &= limited0
            elif vr.get("errors", 0) > 0 and not os.environ.get("NONL") and "simd.rs" in text and "//LINEAR" not in text:
                # Not accepted with linear arithmetic over monomials: again with non-linear arithmetic.
                nl = {n for n in where if n in self.fns}
                if nl:
                    first = (js, vr, err, where)
                    continue
            break
        real = [(n, src) for _, _, n, src in spans]
        res.text, res.spans, res.nl = text, spans, nl
        times = func_times(js)
        bad = dict.fromkeys(where)
        lemmas_failed = vr.get("errors", 0) > 0 and not bad
        for n, src in real:
            if n in stubs:
                res.obligations.append(Obligation(f"{self.template}::{n} meets its contract", src, BACKEND, "lost", detail=stubs[n]))
                continue
            st = ("undecided" if n in limited else "failed") if n in bad else ("discharged" if not lemmas_failed else "undecided")
            if st == "failed" and self.changed[n]:
                # The invariants were written for another loop: not accepted is no verdict on the property.
                st = "undecided"
                tail = "; ".join(self.changed[n]) + "\n" + tail
            q = times.get(n.split("::")[-1], (0.0, 1))
            res.obligations.append(Obligation(f"{self.template}::{n} meets its contract", src, BACKEND, st,
                                              seconds=q[0], detail=tail if st != "discharged" else ""))
        for kind, n, args, body in self.rings:
            ok, secs, out = (ring.prove if kind == "ring" else ring.prove_nra)(n, args, body)
            what, by = ("identity", "Z3 polynomial normal form") if kind == "ring" else ("inequality", "Z3 nonlinear real arithmetic")
            res.obligations.append(Obligation(f"{self.template}: polynomial {what} {n}", "(ghost)", by,
                                              "discharged" if ok else "undecided", seconds=secs, detail="" if ok else out))
        extra = vr.get("verified", 0) - len([n for n, _ in real if n not in bad])
        if extra > 0:
            res.obligations.append(Obligation(f"{self.template}: lemmas and specifications over the contracts", "(ghost)",
                                              BACKEND, "discharged", count=extra))
        if tier == "thorough" and all(o.status == "discharged" for o in res.obligations):
            vac, note = self.probes()
            if vac is None or vac:
                res.obligations.append(Obligation(f"{self.template}: no vacuous proof", "(probes)", BACKEND, "lost", detail=str(vac or note)))
            else:
                res.assumptions.append(f"{self.template}: assert(false) was refused at every probe ({note}): no contradictory premises there")
        res.assumptions += scan_assumptions(self.template, text)
        res.assumptions += ["extraction " + s for s in subs]
        return res


def blame(err, stem, spans, about=""):
    """The functions that the errors are about: by the line of the error, or (a contract inherited from a trait) by any line it shows."""
    out = []
    for block in re.split(r"(?m)^(?=error)", err):
        if about not in block:
            continue
        at = lambda ls: [n for l in ls for a, b, n, _ in spans if a <= l <= b]
        out += at(map(int, re.findall(r"-->\s*\S*%s\.rs:(\d+):" % stem, block))) or at(map(int, re.findall(r"(?m)^(\d+) +[|/]", block)))
    return out


def func_times(js):
    out = {}
    try:
        for mod in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in mod.get("function-breakdown", []):
                n = f["function"].split("::")[-1]
                out[n] = (f.get("time", 0) / 1000.0 if f.get("time") is not None else 0.0, 1)
    except (KeyError, TypeError):
        pass
    return out


def scan_assumptions(tpl, text):
    """Every unchecked statement of the verified text."""
    out = []
    inc = re.search(r"(?s)//INC (\S+)\n.*?//END INC\n", text)
    while inc:
        body = inc.group(0)
        ns = re.findall(r"#\[verifier::external_body\]\s*(?:pub\s+)?fn\s+(\w+)", body)
        ax = re.findall(r"axiom\s+fn\s+(\w+)", body)
        out.append(f"{inc.group(1)}: assumed meaning of {', '.join(sorted(set(ns)))}; axioms {', '.join(sorted(set(ax)))}")
        text = text[:inc.start()] + text[inc.end():]
        inc = re.search(r"(?s)//INC (\S+)\n.*?//END INC\n", text)
    for m in re.finditer(r"axiom\s+fn\s+(\w+)", text):
        out.append(f"{tpl}: axiom {m.group(1)}")
    for m in re.finditer(r"assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]", text):
        out.append(f"{tpl}: assumed contract of {m.group(1).strip()}")
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:fn|struct)\s+(\w+)", text):
        out.append(f"{tpl}: trusted (external body) {m.group(1)}")
    for m in re.finditer(r"\bassume\s*\(|\badmit\s*\(", text):
        out.append(f"{tpl}: assume() in the text")
    return out
