"""Straight-line code over f32x4, as polynomials: the body is read from /repo on every run and executed symbolically, lane by
lane, over the real numbers; the results are compared with the contract by polynomial normal form. The determinant is not
zero; its reciprocal is a variable r with det r = 1. Used for AosMat4::invert, whose products
of products the SMT back end does not unfold."""
import os, re, time
from . import extract
from .common import VERIF, Obligation, StageResult

TOK = re.compile(r"\s*(?:(\d+(?:\.\d+)?)(?:_?f32|_?usize|_?i32)?|([A-Za-z_]\w*(?:::[A-Za-z_]\w*)*!?)|(\+=|-=|\*=|::|->|.))")


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise extract.Lost("cannot read " + s[i:i + 20])
        out.append(m.group(0).strip())
        i = m.end()
    return out


# polynomials: {monomial: coefficient}; a monomial is a sorted tuple of variables
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def const(c):
    return {(): c} if c else {}


def var(v):
    return {(v,): 1}


class Run:
    """One case: det(a) is zero or not."""

    def __init__(self, rel, det, nonzero):
        self.rel, self.det, self.nonzero = rel, det, nonzero
        self.depth = 0
        self.consts = {}

    def nz(self, p):
        """Is p, which has to be the determinant or a constant, different from zero?"""
        if set(p) <= {()}:
            return bool(p)
        if p == self.det or p == padd({}, self.det, -1):
            return self.nonzero
        raise extract.Lost("comparison of another value than the determinant with zero")

    def recip(self, p):
        if p == self.det:
            return var("r") if self.nonzero else None  # no value: used by no result
        if set(p) == {()} and p[()] in (1, -1):
            return p
        raise extract.Lost("reciprocal of another value than the determinant")

    def const(self, name):
        if name not in self.consts:
            t = extract.find_item(self.rel, "const", name)
            m = re.match(r"(?:pub(?:\([^)]*\))?\s+)?const \w+\s*:[^=]*=(.*);$", t, re.S)
            self.consts[name] = Parser(tokens(m.group(1)), {}, self).expr()
        return self.consts[name]

    def call(self, path, args, me=None):
        self.depth += 1
        if self.depth > 6:
            raise extract.Lost("calls too deep")
        f = extract.find_fn(self.rel, path)
        m = re.match(r".*?\bfn\s+\w+\s*\((.*?)\)\s*(->.*)?$", f.sig, re.S)
        if not m:
            raise extract.Lost("signature of " + path)
        ps = [x.strip() for x in m.group(1).split(",") if x.strip()]
        env = {}
        if ps and re.match(r"&?\s*(mut\s+)?self$", ps[0]):
            env["self"] = me if me is not None else args.pop(0)
            ps = ps[1:]
        for p, a in zip(ps, args):
            env[re.match(r"(?:mut\s+)?(\w+)", p).group(1)] = a
        r = self.body(f.body, env)
        self.depth -= 1
        return r

    def body(self, text, env):
        p = Parser(tokens(text), env, self)
        return p.block()


class Parser:
    def __init__(self, toks, env, run):
        self.t, self.i, self.env, self.run = toks, 0, env, run

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1] if self.i <= len(self.t) else ""

    def want(self, x):
        y = self.next()
        if y != x:
            raise extract.Lost(f"expected {x}, found {y}")

    def block(self, end=""):
        while True:
            k = self.peek()
            if k == end:
                return None
            if k in ("for", "while", "loop", "if", "match", "unsafe", "return"):
                raise extract.Lost(f"{k} in a straight-line body")
            if k == "debug_assert!" or k == "assert!":
                raise extract.Lost(k)
            if k == ";":
                self.next()
                continue
            if k in ("let", "const"):
                self.next()
                if self.peek() == "mut":
                    self.next()
                if self.peek() == "(":
                    self.next()
                    names = []
                    while self.peek() != ")":
                        n = self.next()
                        if n not in ("mut", ","):
                            names.append(n)
                    self.next()
                else:
                    names = self.next()
                if self.peek() == ":":
                    d = 0
                    while not (self.peek() in ("=", ";") and d == 0):
                        x = self.next()
                        d += x in "[(<"
                        d -= x in "])>"
                if self.peek() == "=":
                    self.next()
                    v = self.expr()
                    if isinstance(names, list):
                        self.env.update(zip(names, v[1]))
                    else:
                        self.env[names] = v
                self.want(";")
                continue
            if re.match(r"[A-Za-z_]\w*$", k) and self.i + 1 < len(self.t) and self.t[self.i + 1] in ("=", "+=", "-=", "*="):
                n, op = self.next(), self.next()
                v = self.expr()
                self.env[n] = v if op == "=" else self.binop(op[0], self.env[n], v)
                if self.peek() != end or not end:
                    self.want(";")
                continue
            v = self.expr()
            if self.peek() == end:
                return v
            self.want(";")

    # expressions
    def expr(self, lvl=0):
        ops = [("|",), ("^",), ("&",), ("+", "-"), ("*", "/")]
        if lvl == len(ops):
            return self.unary()
        a = self.expr(lvl + 1)
        while self.peek() in ops[lvl]:
            o = self.next()
            a = self.binop(o, a, self.expr(lvl + 1))
        return a

    def unary(self):
        k = self.peek()
        if k == "-":
            self.next()
            return self.lanes(lambda x: padd({}, x, -1), self.unary())
        if k == "!":
            self.next()
            v = self.unary()
            if v[0] != "mask":
                raise extract.Lost("! of a value")
            return ("mask", [not x for x in v[1]])
        if k in ("&", "*"):
            self.next()
            return self.unary()
        return self.postfix()

    def lanes(self, f, *vs):
        if all(v[0] == "num" for v in vs):
            return ("num", f(*[v[1] for v in vs]))
        vs = [("v", [v[1]] * 4) if v[0] == "num" else v for v in vs]
        if any(v[0] != "v" for v in vs):
            raise extract.Lost("an operation on something else than vectors")
        return ("v", [None if any(x is None for x in xs) else f(*xs) for xs in zip(*[v[1] for v in vs])])

    def binop(self, o, a, b):
        if o in "+-*":
            return self.lanes({"+": padd, "-": lambda x, y: padd(x, y, -1), "*": pmul}[o], a, b)
        if o == "/":
            return self.lanes(lambda x, y: pmul(x, y), a, self.lanes(self.run.recip, b))
        if o == "&":
            if a[0] == "mask" and b[0] == "mask":
                return ("mask", [x and y for x, y in zip(a[1], b[1])])
            if a[0] == "mask":
                a, b = b, a
            if a[0] == "v" and b[0] == "mask":
                return ("v", [x if k else {} for x, k in zip(a[1], b[1])])
        if o == "|" and a[0] == b[0] == "v":
            out = []
            for x, y in zip(a[1], b[1]):
                if x == {} or y == {}:
                    out.append(y if x == {} else x)
                else:
                    raise extract.Lost("| of two values")
            return ("v", out)
        if o == "|" and a[0] == b[0] == "mask":
            return ("mask", [x or y for x, y in zip(a[1], b[1])])
        raise extract.Lost(f"operator {o} on {a[0]} and {b[0]}")

    def args(self, close=")"):
        out = []
        while self.peek() != close:
            if self.peek() == ",":
                self.next()
                continue
            out.append(self.expr())
        self.next()
        return out

    def index(self, x):
        if x[0] == "num" and set(x[1]) <= {()}:
            return x[1].get((), 0)
        raise extract.Lost("an index that is not a number")

    def postfix(self):
        v = self.primary()
        while True:
            k = self.peek()
            if k == ".":
                self.next()
                n = self.next()
                if self.peek() == "(":
                    self.next()
                    v = self.method(v, n, self.args())
                elif v[0] == "struct":
                    v = v[1][n]
                elif v[0] == "tuple":
                    v = v[1][int(n)]
                else:
                    raise extract.Lost(f".{n} of {v[0]}")
            elif k == "[":
                self.next()
                i = self.index(self.args("]")[0])
                if v[0] in ("list", "tuple"):
                    v = v[1][i]
                elif v[0] == "v":
                    v = ("num", v[1][i])
                else:
                    raise extract.Lost("an index into " + v[0])
            elif k == "as":
                self.next()
                self.next()
            else:
                return v

    def method(self, v, n, a):
        if n == "recip":
            return self.lanes(self.run.recip, v)
        if n in ("simd_ne", "simd_eq"):
            d = self.lanes(lambda x, y: padd(x, y, -1), v, a[0])
            return ("mask", [self.run.nz(x) == (n == "simd_ne") for x in d[1]])
        if n in ("to_int", "to_bits", "clone"):
            return v
        if n == "mul_add":
            return self.lanes(lambda x, y, z: padd(pmul(x, y), z), v, *a)
        if n == "select":
            return ("v", [x if k else y for k, x, y in zip(v[1], a[0][1], a[1][1])])
        if n == "to_array":
            return ("list", [("num", x) for x in v[1]])
        if v[0] == "struct":
            return self.run.call("AosMat4::" + n, a, v)
        raise extract.Lost("method " + n)

    def primary(self):
        k = self.next()
        if k == "(":
            xs = self.args()
            return xs[0] if len(xs) == 1 else ("tuple", xs)
        if k == "{":
            v = self.block("}")
            self.want("}")
            return v
        if k == "[":
            a = self.expr()
            if self.peek() == ";":
                self.next()
                n = self.index(self.expr())
                self.want("]")
                return ("list", [a] * n)
            return ("list", [a] + self.args("]"))
        if re.match(r"\d", k):
            x = float(re.match(r"[\d.]+", k).group(0))
            if x != int(x):
                raise extract.Lost("constant " + k)
            return ("num", const(int(x)))
        if k == "simd_swizzle!":
            self.want("(")
            a = self.args()
            ix = [self.index(x) for x in a[-1][1]]
            src = a[0][1] + (a[1][1] if len(a) == 3 else [])
            return ("v", [src[i] for i in ix])
        if self.peek() == "(" and re.match(r"[A-Za-z_]", k):
            self.next()
            a = self.args()
            n = k.split("::")[-1]
            if n in ("fx4", "ix4", "from_bits", "transmute"):
                return a[0]
            if n == "from_array":
                return ("v", [x[1] for x in a[0][1]])
            if n == "splat" and a[0][0] == "num":
                return ("v", [a[0][1]] * 4)
            if k.startswith(("Self::", "AosMat4::")):
                return self.run.call("AosMat4::" + n, a)
            return self.run.call(n, a)
        if self.peek() == "{" and k in ("AosMat4", "Self"):
            self.next()
            d = {}
            while self.peek() != "}":
                if self.peek() == ",":
                    self.next()
                    continue
                f = self.next()
                if self.peek() == ":":
                    self.next()
                    d[f] = self.expr()
                else:
                    d[f] = self.env[f]
            self.next()
            return ("struct", d)
        if k in self.env:
            return self.env[k]
        if re.match(r"[A-Z][A-Z0-9_]*$", k):
            return self.run.const(k)
        raise extract.Lost("unknown name " + k)


def adjugate():
    """The entries of the adjugate, from the definitions the Verus contracts use."""
    src = open(os.path.join(VERIF, "verus", "mats.rs")).read()
    out = {}
    for m in re.finditer(r"spec fn adj(\d)(\d)\(a: AosMat4\) -> real \{ (.*) \}\n", src):
        e = re.sub(r"m\(a, (\d), (\d)\)", r"a\1\2", m.group(3))
        env = {f"a{i}{j}": ("num", var(f"a{i}{j}")) for i in range(4) for j in range(4)}
        out[int(m.group(1)), int(m.group(2))] = Parser(tokens(e), env, None).expr()[1]
    return out


class Straight:
    name = "invert"

    def run(self, tier):
        t0 = time.time()
        fn, back = "src/math.rs:AosMat4::invert", "symbolic execution + polynomial normal form"
        obls = []
        res = StageResult("straight", obls, [
            "the body of AosMat4::invert is read over the real numbers, lane by lane; reciprocals are exact; "
            "fx4/ix4 casts with & and | select lanes"], "engine/straight.py")
        try:
            adj = adjugate()
            a = lambda i, j: var(f"a{i}{j}")
            det = {}
            for k in range(4):
                det = padd(det, pmul(a(0, k), adj[k, 0]))
            for nonzero in (True,):  # a singular matrix has no inverse: nothing is promised
                me = ("struct", {"cols": ("list", [("v", [a(i, j) for i in range(4)]) for j in range(4)])})
                out = Run("src/math.rs", det, nonzero).call("AosMat4::invert", [], me)
                cols = out[1]["cols"][1]
                bad = []
                for i in range(4):
                    for j in range(4):
                        p = cols[j][1][i]
                        if p is None:
                            bad.append(f"entry ({i}, {j}) is a reciprocal of zero")
                        elif nonzero:
                            # entry (i, j) = adj r, given det r = 1: both multiplied by det^n
                            n = max([m.count("r") for m in p] + [1])
                            powers = [const(1)]
                            for _ in range(n):
                                powers.append(pmul(powers[-1], det))
                            parts = {}
                            for m, c in p.items():
                                q = tuple(x for x in m if x != "r")
                                d = parts.setdefault(n - m.count("r"), {})
                                d[q] = d.get(q, 0) + c
                            l = {}
                            for e, d in parts.items():
                                l = padd(l, pmul(d, powers[e]))
                            if l != pmul(adj[i, j], powers[n - 1]):
                                bad.append(f"entry ({i}, {j}) is not the adjugate's over the determinant")
                what = "its result is the inverse (16 entries)"
                obls.append(Obligation(f"AosMat4::invert: {what}", fn, back, "failed" if bad else "discharged", round(time.time() - t0, 2),
                                       detail="; ".join(bad[:4]), count=16))
        except (extract.Lost, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            obls.append(Obligation("AosMat4::invert: its result is the inverse", fn, back, "lost", detail=f"{type(e).__name__}: {e}"))
        res.seconds = time.time() - t0
        return res
